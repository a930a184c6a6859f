"""C11: results depend only on the input, not on what was processed before."""
import base64
import gc
import json
import linecache
import os
import random
import re
import shutil
import subprocess
import sys

from checks import c05, c10
from sim import core, disk, ids, jobs, lang, ssbgen
from sim.zygote import Zygote

PROP = "C11"
LEVEL = "exploration"
RULE = ("distinct = different history: the sequence of (kind of step, which input, instance and objects reused, outcome type, where an "
        "aborted call was cut off), or for process restarts (batch, hash seed)")
SIM_TIME = "none: no clock is read; a run is one history of up to 14 calls in one process"
COMPONENTS = {
    "real": ["explorerscript compilers and decompilers", "cli.decompile.read_routines", "antlr4", "igraph", "fresh interpreter processes (mode restart)"],
    "stub": ["id() in the package's modules: recycles the ids of dead objects as the seed says (mode history)",
             "point of abortion: the simulator raises at the k-th line event of a call"],
}
ASSUMPTIONS = [
    "the reference for a call is the same call in a child forked before the history began, with all modules imported but nothing called",
    "between a call and its reference the files on disk are the same",
    "aborted calls' own input objects and decompiler objects are not used again; compiler objects are",
]
TIERS = {
    "quick": {"runs": 1000, "budget_s": 110, "determinism_sample": 60},
    "thorough": {"runs": 1000000, "budget_s": 1700, "determinism_sample": 500},
}
RUN_TIMEOUT = 45
SETTRACE_EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "exit": SystemExit, "assertion": AssertionError, "recursion": RecursionError}


# ------------------------------------------------------------------------------------------------ generation
def gen(rng, idx, tier):
    if rng.random() < 0.012:
        return gen_restart(rng, tier)
    return gen_history(rng, tier)


def project(rng):
    z = rng.random()
    if z < 0.5:
        p = c10.project(rng)
        f = {q: lang.to_text({**x, "imports": [i.replace("${ROOT}", "${ROOT}") for i in x["imports"]]}, rng.choice([0, 0, 1])) for q, x in p["files"].items()}
        for d, to in p["decoys"].items():
            f[d] = c05.decoy_text(p, to)
        return {"files": f, "main": p["main"], "lookups": p["lookups"]}
    t = lang.to_text(lang.gen_program(rng, macros=None, width=rng.randrange(1, 5), depth=rng.randrange(1, 4)), rng.choice([0, 0, 2]))
    return {"files": {"main.exps": t}, "main": "main.exps", "lookups": []}


def tweak(rng, p):
    """The same file layout with other contents."""
    files = dict(p["files"])
    f = rng.choice(sorted(files))
    if rng.random() < 0.3:
        files[f] = c10.corrupt(rng, files[f], rng.choice([1, 1, 2]))
        return {**p, "files": files}
    toks = c10.TOK.findall(files[f])
    at = [i for i, t in enumerate(toks) if re.match(r"\d+$", t) and not (i > 1 and toks[i - 2] == "def")]
    ops = [i for i, t in enumerate(toks) if re.match(r"[a-z]+_[A-Za-z]+$|WaitFrames$", t) and i + 1 < len(toks) and toks[i + 1] == "("]
    if ops and (rng.random() < 0.5 or not at):
        i = rng.choice(ops)
        toks[i] += "X"
    elif at:
        i = rng.choice(at)
        toks[i] = str(int(toks[i]) + 1)
    files[f] = "".join(toks)
    return {**p, "files": files}


def layouts(rng):
    """Projects that share one list of (relative) lookup paths and differ in where files exist and where the main file is."""
    dirs = ["", "a/", "b/", "a/c/"]
    lookups = ["rel:" + x for x in rng.sample(["lib", "../lib", "../a/lib", "lib2", "./c/lib", "../../lib"], rng.choice([1, 2, 2, 3]))]
    spots = [f"{d}{lib}/" for d in dirs for lib in ("lib", "lib2")]
    names = ["x.exps", "y.exps"]
    res = []
    last = None
    for _ in range(rng.choice([2, 3, 4])):
        files = {}
        if last and rng.random() < 0.6:
            files = dict(last["files"])
            files.pop(last["main"])
            for _ in range(rng.choice([1, 1, 2])):
                z = rng.random()
                if files and z < 0.5:
                    files.pop(rng.choice(sorted(files)))
        want = rng.choice([2, 4, 6, 10])
        while want > 0:
            want -= 1
            sp, nm = rng.choice(spots), rng.choice(names)
            other = [n for n in names if n != nm]
            imp = f'import "{other[0]}";\n' if rng.random() < 0.1 else ""
            files[sp + nm] = f"{imp}macro {nm[0]}($p) {{ from_{re.sub('[/.]', '_', sp + nm)}($p, {rng.randrange(3)}); }}\n"
        main = (last["main"] if last and rng.random() < 0.5 else rng.choice(dirs) + "main.exps")
        use = rng.sample(names, rng.choice([1, 1, 2]))
        files[main] = "".join(f'import "{u}";\n' for u in use) + "def 0 { " + " ".join(f"~{u[0]}({rng.randrange(4)});" for u in use) + " end; }\n"
        last = {"files": files, "main": main, "lookups": lookups}
        res.append(last)
    return res


def routine_set(rng):
    cfg = {}
    z = rng.random()
    if z < 0.3:
        cfg = dict(p_branch=0.8, p_back=0.4, blocks=rng.randrange(3, 9), p_simple=0.3)
    elif z < 0.5:
        cfg = dict(p_switch=0.5, shared_blocks=True, max_cases=5, p_branch=0.3)
    elif z < 0.6:
        cfg = dict(p_only_jump=0.5, p_cross=0.5)
    return ssbgen.SsbGen(rng, **cfg).gen()


def set_job(rng):
    if rng.random() < 0.55:
        return {"set": routine_set(rng)}
    return {"src": lang.to_text(lang.gen_program(rng, macros=None, width=rng.randrange(2, 5), depth=rng.randrange(2, 5)), 0)}


def sibling(rng, s):
    if "set" not in s:
        p = tweak(rng, {"files": {"m": s["src"]}, "main": "m", "lookups": []})
        return {"src": p["files"]["m"]}
    t = json.loads(json.dumps(s["set"]))
    flat = [e for r in t["ops"] for e in r if e[0] != "@"]
    z = rng.random()
    if z < 0.35:
        c = list(ssbgen.shrink(t))
        if c:
            return {"set": rng.choice(c)}
    if z < 0.6 and flat:
        e = rng.choice(flat)
        k = [p for p in e[1] if p[0] == "int"]
        if k:
            rng.choice(k)[1] ^= 1
        return {"set": t}
    if len(t["ops"]) > 1:
        o = list(range(len(t["ops"])))
        rng.shuffle(o)
        t = {**t, "ops": [t["ops"][i] for i in o], "infos": [t["infos"][i] for i in o], "coros": [t["coros"][i] for i in o]}
        return {"set": ssbgen.normalise(t)}
    return {"set": routine_set(rng)}


def reshaped(rng, s):
    """A set of the same shape (same number of ops and branches) whose paths end or meet elsewhere."""
    t = json.loads(json.dumps(s["set"]))
    labels = [e[1] for r in t["ops"] for e in r if e[0] == "@"]
    for _ in range(rng.choice([1, 1, 2, 4])):
        at = [(r, i) for r in t["ops"] for i, e in enumerate(r) if e[0] in ("Return", "End", "Hold", "Jump") or any(p[0] == "L" for p in e[1])
              and e[0] != "@"]
        if not at:
            break
        r, i = rng.choice(at)
        e = r[i]
        if e[0] in ("Return", "End", "Hold") and labels:
            r[i] = ["Jump", [["L", rng.choice(labels)]]]
        elif e[0] == "Jump" and rng.random() < 0.7:
            r[i] = [rng.choice(["Return", "End"]), []]
        elif labels:
            r[i] = [e[0], [["L", rng.choice(labels)] if p[0] == "L" else p for p in e[1]]]
    return {"set": ssbgen.normalise(t)}


def bad_set(rng, base=None):
    """Routine sets that are not well-formed, so that converting them raises or falls back."""
    s = json.loads(json.dumps(base or routine_set(rng)))
    flat = [(r, i) for r in s["ops"] for i, e in enumerate(r) if e[0] != "@"]
    if not flat:
        return s
    for _ in range(rng.choice([1, 1, 2])):
        r, i = rng.choice(flat)
        z = rng.random()
        if i >= len(r) or r[i][0] == "@":
            continue
        if z < 0.4:
            r[i] = [r[i][0], r[i][1][:-1]]
        elif z < 0.6:
            r[i] = [rng.choice(["Jump", "Branch", "Case", "CaseText", "DefaultText", "flag_Set", "Switch", "lives", "Call", "BranchBit"]), r[i][1][:2]]
        elif z < 0.8:
            r[i] = [r[i][0], r[i][1] + [["int", rng.choice([0, 1, 999])]]]
        else:
            del r[i]
    return s


def doc_of(rng):
    """A small document as the decompile command reads it."""
    rs = []
    for i in range(rng.randrange(1, 4)):
        ops = [{"opcode": rng.choice(["se_Play", "WaitFrames"]), "params": [rng.randrange(5)]} for _ in range(rng.randrange(1, 4))] + [{"opcode": "Return", "params": []}]
        if rng.random() < 0.2:
            ops.insert(0, {"opcode": "message_Talk", "params": [{"type": rng.choice(["CONST_STRING", "BOGUS"]), "value": "x"}]})
        r = {"type": "GENERIC", "ops": ops}
        if rng.random() < 0.3:
            r = {"type": "COROUTINE", "name": f"CORO_{i}", "ops": ops}
        elif rng.random() < 0.2:
            r = {"type": "ACTOR", "target_id": rng.choice([1, "ACTOR_X"]), "ops": ops}
        rs.append(r)
    return {"routines": rs}


def small_set(rng):
    """One construct with a few ops around it; whether its paths meet again varies."""
    n = [0]

    def pads(k):
        n[0] += 1
        return [["se_Play", [["int", n[0]]]] for _ in range(rng.randrange(k + 1))]

    def to(label):
        return ["L", "e" if direct and rng.random() < 0.8 else label]

    def leave():
        return [["Jump", [["L", "e"]]]] if meet or rng.random() < 0.2 else [["Return", []]]

    meet, direct = rng.random() < 0.5, rng.random() < 0.4
    meet = meet or direct
    kind = rng.choice(["if", "if", "if", "switch", "switch", "switch", "loop"])
    ops = pads(5 if kind == "if" else 2)
    if kind == "if":
        ops += [["BranchDebug", [["int", 1], to("a")]], *pads(0 if direct else 2), *leave(), ["@", "a"], *pads(2)]
    elif kind == "switch":
        k = rng.choice([1, 1, 1, 2, 3])
        if rng.random() < 0.65:
            ops += [["Switch", [["const", "$X"]]]] + [["Case", [["int", i], ["L", "e"]]] for i in range(k)] + [["@", "e"], *pads(3), ["Return", []]]
            return {"set": ssbgen.normalise({"infos": [[1, 0, None]], "coros": [None], "gap": 0, "ops": [ops]})}
        ops += [["Switch", [["const", "$X"]]]] + [["Case", [["int", i], to("abc"[i])]] for i in range(k)] + pads(0 if direct else 2) + leave()
        for i in range(k):
            ops += [["@", "abc"[i]], *pads(2)] + (leave() if i < k - 1 else [])
    else:
        ops += [["@", "l"], *pads(2), ["BranchDebug", [["int", 1], ["L", "e"]]], *pads(1)]
        if rng.random() < 0.5:
            ops += [["BranchEdit", [["int", 1], ["L", "e"]]], *pads(1)]
        ops += [["Jump", [["L", "l"]]]]
    ops += (leave() if rng.random() < 0.3 else [["Return", []]] if not meet else []) + [["@", "e"], *pads(2), ["Return", []]]
    return {"set": ssbgen.normalise({"infos": [[1, 0, None]], "coros": [None], "gap": 0, "ops": [ops]})}


def gen_stale(rng, tier):
    """Calls that are cut off or fail inside some function of the package, each followed by a routine set of the same shape."""
    cfg = rng.choice([dict(p_switch=0.6, p_branch=0.2, p_simple=0.4), dict(p_switch=0.8, p_branch=0, shared_blocks=True, routines=1),
                      dict(p_branch=0.7, p_switch=0, p_back=0.4), dict(p_switch=0.4, p_branch=0.4, p_back=0.3)])
    base = {"set": ssbgen.SsbGen(rng, p_call=0, p_cross=0, blocks=rng.randrange(2, 7), **cfg).gen()}
    sets = [base] + [reshaped(rng, base) for _ in range(rng.choice([1, 2, 3]))]
    small = rng.random() < 0.75
    if small:
        sets = [small_set(rng) for _ in range(rng.randrange(6, 12))]
    good = len(sets)
    for i in range(good):
        if rng.random() < 0.5:
            sets.append({"set": bad_set(rng, sets[i]["set"]), "bad": 1})
    steps = []
    for _ in range(rng.choice([4, 6, 8]) if small else rng.choice([1, 2, 3])):
        for _ in range(rng.choice([1, 1, 2])):
            if good < len(sets) and rng.random() < 0.5:
                steps.append({"do": "call", "job": {"k": "decompile", "s": rng.randrange(good, len(sets))}})
            else:
                steps.append({"do": "abort", "job": {"k": "decompile", "s": rng.randrange(good)}, "fn": rng.random(), "at": rng.choice([0.1, 0.5, 0.9, 1, rng.random()]),
                              "exc": rng.choice(["interrupt", "memory", "exit", "assertion"])})
        steps.append({"do": "drop"})
        for _ in range(rng.choice([1, 2])):
            steps.append({"do": "call", "job": {"k": "decompile", "s": rng.randrange(good)}})
    return {"mode": "history", "projs": [], "sets": sets, "docs": [doc_of(rng)], "steps": steps, "shift": 0, "gc": 0,
            "ids": {"seed": rng.randrange(1 << 30), "p": 1.0, "order": rng.choice(["lifo", "lifo", "lifo", "any", "fifo"])}}


def gen_history(rng, tier):
    if rng.random() < 0.3:
        return gen_stale(rng, tier)
    n = rng.randrange(2, 9) if tier == "quick" else rng.choice([3, 5, 8, 12, 14])
    focus = rng.choice(["mixed", "mixed", "compile", "decompile", "decompile"])
    projs, sets = [], []
    if focus != "decompile":
        projs = [project(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.6:
            projs.append(tweak(rng, rng.choice(projs)))
        if rng.random() < 0.25:
            projs = layouts(rng) + (projs[:1] if rng.random() < 0.3 else [])
        if rng.random() < 0.35:
            p = rng.choice(projs)
            projs.append({**p, "files": {q: (c10.corrupt(rng, t) if q == p["main"] else t) for q, t in p["files"].items()}})
        if rng.random() < 0.25:
            m = c10.gen_meaningless(rng, "quick")
            if "proj" in m:
                projs.append({"files": {q: lang.to_text(x, 0) for q, x in m["proj"]["files"].items()}, "main": m["proj"]["main"], "lookups": m["proj"]["lookups"]})
    if focus != "compile":
        sets = [set_job(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
        for _ in range(rng.randrange(0, 3)):
            sets.append(sibling(rng, rng.choice(sets)))
        if rng.random() < 0.25:
            sets.append({"set": bad_set(rng), "bad": 1})
    docs = [doc_of(rng), doc_of(rng)]
    steps = []
    for _ in range(n):
        z = rng.random()
        if z < 0.06:
            steps.append({"do": "gc"})
            continue
        if z < 0.13:
            steps.append({"do": "alloc", "graphs": rng.randrange(1, 12), "junk": rng.randrange(0, 400)})
            continue
        if z < 0.18:
            steps.append({"do": "drop"})
            continue
        if z < 0.22:
            steps.append({"do": "call", "job": {"k": "cli-read", "doc": rng.randrange(2)}})
            continue
        if projs and (not sets or rng.random() < 0.5):
            i = rng.randrange(len(projs))
            job = {"k": "compile", "proj": i, "inst": rng.choice([None, 1, 1, 2])}
            if projs[i]["files"][projs[i]["main"]].startswith("//?: is-ssb-script") and rng.random() < 0.3:
                job["decoder"] = "ssbs"
        else:
            i = rng.randrange(len(sets))
            job = {"k": rng.choice(["decompile", "decompile", "decompile", "decompile", "ssbs-decompile"]), "s": i}
            if rng.random() < 0.5:
                job["keep"] = f"s{i}"
                if rng.random() < 0.4:
                    job["again"] = True
        st = {"do": "call", "job": job}
        if rng.random() < 0.2:
            if job.get("keep"):
                del job["keep"]
                job.pop("again", None)
            st = {"do": "abort", "job": job, "at": int(10 ** rng.uniform(0.5, 4.5)), "exc": rng.choice(list(SETTRACE_EXC))}
            if rng.random() < 0.6:
                st["fn"] = rng.random()
                st["at"] = rng.random()
            if st["exc"] not in ("interrupt", "exit") and rng.random() < 0.5:
                st["exc"] = "interrupt"
        steps.append(st)
    if rng.random() < 0.3:
        # calls with other settings in between
        for st in steps:
            if st["do"] == "call" and st["job"]["k"] in ("compile", "decompile") and not st["job"].get("decoder") and rng.random() < 0.5:
                st["job"]["ppl"] = rng.choice(["$OTHER_LIST", "$SCENARIO_MAIN", "$GROUND_ENTER"])
                if st["job"]["k"] == "decompile":
                    st["job"]["dm"] = rng.choice([["C", "O", "R", "OR"], ["DMODE_OPEN", "DMODE_CLOSED", "x", "y"]])
                    st["job"].pop("again", None)
                    st["job"].pop("keep", None)
    # the last call repeats one of the inputs
    jobs_done = [s["job"] for s in steps if "job" in s]
    if jobs_done:
        j = dict(rng.choice(jobs_done))
        steps.append({"do": "call", "job": j})
    return {"mode": "history", "projs": projs, "sets": sets, "docs": docs, "steps": steps, "shift": rng.choice([0, 0, rng.randrange(64)]),
            "gc": rng.choice([0, 0, 0, 1, 50]),
            "ids": None if rng.random() < 0.3 else {"seed": rng.randrange(1 << 30), "p": rng.choice([1.0, 1.0, 0.7]), "order": rng.choice(["lifo", "fifo", "any"])}}


def deep_source(rng):
    n = rng.choice([30, 60, 90, 120, 150, 200, 250, 300])
    return "def 0 { " + "if (debug) { " * n + "op(); " + "} " * n + "end; }"


def gen_restart(rng, tier):
    """The same calls in fresh interpreters: other hash seeds, nothing but the needed modules imported, after other calls."""
    work = []
    for _ in range(10):
        z = rng.random()
        if z < 0.45:
            p = project(rng)
            work.append({"k": "compile", **p})
        elif z < 0.5:
            work.append({"k": "compile", "files": {"main.exps": deep_source(rng)}, "main": "main.exps", "lookups": []})
        elif z < 0.95:
            work.append({"k": "decompile", **set_job(rng)})
        else:
            work.append({"k": "ssbs-decompile", "set": routine_set(rng)})
    procs = [{"hash": rng.choice([0, 1, rng.randrange(1 << 31)]), "how": "alone"}]
    for _ in range(2):
        o = list(range(len(work)))
        rng.shuffle(o)
        procs.append({"hash": rng.randrange(1, 1 << 31), "how": rng.choice(["alone", "order"]), "order": o})
    return {"mode": "restart", "work": work, "procs": procs}


# ------------------------------------------------------------------------------------------------ execution
def full_job(plan, job):
    j = dict(job)
    if "proj" in j:
        j.update(plan["projs"][j.pop("proj")])
    if "s" in j:
        j.update(plan["sets"][j.pop("s")])
    if j["k"] == "cli-read":
        j["doc"] = plan["docs"][j["doc"]]
    return j


def short(v):
    t = json.dumps(v)
    return t if len(t) < 300 else t[:300] + "..."


def differ(a, b):
    """Where two results differ."""
    def go(x, y, path):
        if type(x) is not type(y) or not isinstance(x, list):
            return (path, x, y)
        for i in range(max(len(x), len(y))):
            if i >= len(x) or i >= len(y):
                return (path + [i], x[i] if i < len(x) else "<missing>", y[i] if i < len(y) else "<missing>")
            if x[i] != y[i]:
                return go(x[i], y[i], path + [i])
        return (path, x, y)

    p, x, y = go(a, b, [])
    if isinstance(x, str) and isinstance(y, str):
        k = next((i for i, (u, v) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
        x, y = x[max(0, k - 60):k + 120], y[max(0, k - 60):k + 120]
    return f"at {p}: {short(x)} instead of {short(y)}"


class Cut:
    """Raises once, at the k-th line event of the package. Not at the line of a `with`: its event on leaving the block comes
    before the exit method is called, where the interpreter never raises (signals are looked at after calls and at jumps)."""

    def __init__(self, at, exc):
        self.left, self.exc, self.fired = at, exc, None
        self.root = os.environ.get("VERIF_REPO", "/repo")

    def local(self, frame, event, arg):
        if event == "line":
            self.left -= 1
            if self.left <= 0 and self.fired is None and not linecache.getline(frame.f_code.co_filename, frame.f_lineno).lstrip().startswith("with "):
                self.fired = frame.f_code.co_name
                sys.settrace(None)
                raise SETTRACE_EXC[self.exc]("cut off by the simulator")
        return self.local

    def glob(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if self.fired is None and fn.startswith(self.root) and frame.f_code.co_name != "<module>":
            return self.local
        return None


class CutIn(Cut):
    """Raises once, at a line event of one function: which function and which of its line events as fractions of what a
    dry run of the call (in a child process) executes."""

    def __init__(self, seen, fn, at, exc):
        super().__init__(0, exc)
        names = list(seen)
        self.code = names[min(int(fn * len(names)), len(names) - 1)] if names else None
        self.left = max(1, int(at * seen[self.code] + 0.999)) if names else 0

    def glob(self, frame, event, arg):
        if self.fired is None and key_of(frame.f_code) == self.code:
            return self.local
        return None


def key_of(code):
    return f"{code.co_filename}:{code.co_firstlineno}:{code.co_name}"


def lines_per_function(job, root):
    """Function -> number of line events, in order of first call (without the generated parser)."""
    seen = {}
    repo = os.environ.get("VERIF_REPO", "/repo")

    def local(frame, event, arg):
        if event == "line":
            k = key_of(frame.f_code)
            seen[k] = seen.get(k, 0) + 1
        return local

    def glob(frame, event, arg):
        c = frame.f_code
        if c.co_filename.startswith(repo) and "/antlr/" not in c.co_filename and c.co_name != "<module>":
            return local
        return None

    call, _ = jobs.prepare(job, jobs.Objects(root))
    sys.settrace(glob)
    try:
        call()
    except Exception:
        pass
    finally:
        sys.settrace(None)
    return seen


def execute(plan, out):
    if plan["mode"] == "restart":
        return execute_restart(plan, out)
    root = disk.scratch("c11", core.digest(plan))
    try:
        zy = Zygote(lambda job: lines_per_function(job["dry"], root) if "dry" in job else jobs.run(job, jobs.Objects(root)))
        try:
            history(plan, out, root, zy)
        finally:
            zy.close()
    finally:
        shutil.rmtree(root, ignore_errors=True)


def history(plan, out, root, zy):
    import igraph

    sim = None
    if plan["ids"]:
        sim = ids.SimIds(plan["ids"]["seed"], plan["ids"]["p"], plan["ids"]["order"])
        sim.install()
    ob = jobs.Objects(root)
    keep = [igraph.Graph() for _ in range(plan["shift"])]
    gc.collect()  # collections happen at the same points whatever the worker process did before
    if plan["gc"]:
        gc.set_threshold(plan["gc"] * 20)
    trail = []
    done = 0
    for st in plan["steps"]:
        if st["do"] == "gc":
            gc.collect()
            out.fault("gc")
        elif st["do"] == "alloc":
            keep += [igraph.Graph() for _ in range(st["graphs"])] + [bytearray(st["junk"]) for _ in range(st["junk"] % 17)]
            out.fault("heap-shift")
        elif st["do"] == "drop":
            ob.sets.clear()
            ob.decompilers.clear()
            keep.clear()
            gc.collect()
            out.fault("objects-dropped")
        elif st["do"] == "abort":
            job = full_job(plan, st["job"])
            job.pop("keep", None)
            job.pop("again", None)
            call, _ = jobs.prepare(job, ob)
            if "fn" in st:
                job["written"] = 1
                cut = CutIn(zy.ask({"dry": job}), st["fn"], st["at"], st["exc"])
            else:
                cut = Cut(st["at"], st["exc"])
            r = "finished"
            try:
                sys.settrace(cut.glob)
                try:
                    call()
                finally:
                    sys.settrace(None)
            except BaseException as e:
                r = type(e).__name__
            trail.append(["abort", job["k"], st["job"].get("inst"), cut.fired, r])
            if cut.fired:
                out.fault(f"call-aborted-{st['exc']}")
            out.log.append(trail[-1])
            del call
        else:
            job = full_job(plan, st["job"])
            if job["k"] == "compile":
                ob.write(job["files"])
                job["written"] = 1
            ref_job = {k: v for k, v in job.items() if k not in ("inst", "keep", "again")}
            want = zy.ask(ref_job)
            got = json.loads(json.dumps(jobs.run(job, ob, hold=True)))
            out.events += 1
            trail.append([job["k"], st["job"].get("proj", st["job"].get("s")), st["job"].get("inst"), st["job"].get("keep"), bool(st["job"].get("again")),
                          got[0], got[1] if got[0] == "raised" else None])
            out.log.append(core.digest(json.dumps(got).replace(root, "ROOT")))
            out.hit(f"{job['k']}-{got[0]}")
            if done:
                out.hit("calls_after_others")
            done += 1
            if job.get("inst") is not None:
                out.hit("compiler_object_reused")
            if job.get("again"):
                out.hit("convert_again")
            if got[0] == "text" and got[1].startswith("//?: is-ssb-script"):
                out.hit("fallback_texts")
            if got[0] == "input-changed":
                out.violate(f"input-changed:{job['k']}", f"the routine set differs after {job['k']}; history {short(trail)}")
                return
            if want[0] == "input-changed":
                out.violate(f"input-changed:{job['k']}", f"the routine set differs after {job['k']} in a fresh process")
                return
            if got != want:
                how = "convert-again" if job.get("again") else "kept-objects" if job.get("keep") else "compiler-reused" if job.get("inst") is not None else "fresh-objects"
                out.violate(f"differs:{job['k']}:{how}", f"{job['k']} after {short(trail[:-1])}: {differ(got, want)} (alone)")
                return
    now = [[jobs.freeze_map(o) if hasattr(o, "serialize") else jobs.freeze(o) for o in objs] for _, objs in ob.held]
    if json.dumps(now) != json.dumps([f for f, _ in ob.held]):
        out.violate("earlier-result-changed", f"a result that was handed out earlier has changed; history {short(trail)}")
    if sim:
        out.fault("ids-recycled", sim.reused)
    out.state(trail)


# ---------------------------------------------------------------------------------------------- fresh processes
FRESH = """
import sys, json, os
sys.path.insert(0, {verif!r}); sys.path.insert(0, {repo!r}); sys.dont_write_bytecode = True
import logging; logging.disable(logging.CRITICAL)
from sim import jobs, core
import resource; resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
d = json.load(open({file!r}))
ob = jobs.Objects(d["root"])
res = {{}}
for i in d["order"]:
    if d["how"] == "alone":
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            data = json.dumps(jobs.run(d["work"][i], jobs.Objects(d["root"]))).encode()
            while data:
                data = data[os.write(w, data[:65536]):]
            os._exit(0)
        os.close(w)
        buf = b""
        while True:
            x = os.read(r, 1 << 20)
            if not x: break
            buf += x
        os.close(r); os.waitpid(pid, 0)
        res[i] = json.loads(buf or b'["died"]')
    else:
        res[i] = jobs.run(d["work"][i], ob)
print(json.dumps(res))
"""


def execute_restart(plan, out):
    root = disk.scratch("c11", core.digest(plan))
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.environ.get("VERIF_REPO", "/repo")
    try:
        first = None
        for n, p in enumerate(plan["procs"]):
            fn = os.path.join(root, "in.json")
            order = p.get("order") or list(range(len(plan["work"])))
            order = [i for i in order if i < len(plan["work"])]
            with open(fn, "w") as fh:
                json.dump({"root": root, "work": plan["work"], "how": p["how"], "order": order}, fh)
            env = {**os.environ, "PYTHONHASHSEED": str(p["hash"]), "PYTHONDONTWRITEBYTECODE": "1"}
            c = subprocess.run([sys.executable, "-B", "-c", FRESH.format(verif=verif, repo=repo, file=fn)], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=RUN_TIMEOUT - 5, cwd=root)
            if c.returncode != 0:
                raise RuntimeError(c.stderr.decode(errors="replace")[-800:])
            res = {int(k): v for k, v in json.loads(c.stdout).items()}
            out.fault("process-restart")
            out.hit(f"restart-{p['how']}")
            out.events += len(order)
            if first is None:
                first = res
                out.log.append(core.digest(json.dumps(sorted(res.items())).replace(root, "ROOT")))
            for i in order:
                if res[i] != first[i]:
                    out.violate(f"differs:restart-{p['how']}:{plan['work'][i]['k']}",
                                f"call {i} in a fresh process with hash seed {p['hash']}, {p['how']}: {differ(res[i], first[i])} (process 0)")
                    return
            out.state([core.digest(plan["work"]), n, p["hash"]])
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ reporting
def describe(plan):
    if plan["mode"] == "restart":
        return {"mode": "restart", "processes": plan["procs"], "calls": [text_of(j) for j in plan["work"]]}
    return {"mode": "history", "steps": plan["steps"], "projects": [text_of({"k": "compile", **p}) for p in plan["projs"]],
            "routine_sets": [text_of({"k": "decompile", **s}) for s in plan["sets"]], "ids": plan["ids"], "gc": plan["gc"], "shift": plan["shift"]}


def text_of(j):
    if "files" in j:
        return "".join(f"--- {p}{' (main)' if p == j['main'] else ''}\n{t}" for p, t in j["files"].items())[:2500] + f"lookups {j['lookups']}"
    return (ssbgen.text(j["set"]) if "set" in j else j.get("src", ""))[:2500]


def shrink(plan):
    if plan["mode"] == "restart":
        if len(plan["procs"]) > 2:
            for i in range(1, len(plan["procs"])):
                yield {**plan, "procs": [plan["procs"][0], plan["procs"][i]]}
        for i, p in enumerate(plan["procs"]):
            if p.get("order"):
                for c in core.shrink_list(p["order"], 1):
                    yield {**plan, "procs": plan["procs"][:i] + [{**p, "order": c}] + plan["procs"][i + 1:]}
        return
    for c in core.shrink_list(plan["steps"], 1):
        yield {**plan, "steps": c}
    for k, v in (("ids", None), ("shift", 0), ("gc", 0)):
        if plan[k]:
            yield {**plan, k: v}
    for i, s in enumerate(plan["sets"]):
        if "set" in s:
            for c in ssbgen.shrink(s["set"]):
                yield {**plan, "sets": plan["sets"][:i] + [{**s, "set": c}] + plan["sets"][i + 1:]}
        else:
            lines = s["src"].splitlines(True)
            for c in core.shrink_list(lines, 1):
                yield {**plan, "sets": plan["sets"][:i] + [{**s, "src": "".join(c)}] + plan["sets"][i + 1:]}
    for i, p in enumerate(plan["projs"]):
        for q, t in p["files"].items():
            for c in core.shrink_list(t.splitlines(True)):
                yield {**plan, "projs": plan["projs"][:i] + [{**p, "files": {**p["files"], q: "".join(c)}}] + plan["projs"][i + 1:]}
    for i, st in enumerate(plan["steps"]):
        if "job" in st:
            for k in ("inst", "keep", "again"):
                if st["job"].get(k):
                    yield {**plan, "steps": plan["steps"][:i] + [{**st, "job": {a: b for a, b in st["job"].items() if a != k}}] + plan["steps"][i + 1:]}
