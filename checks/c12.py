"""C12: concurrent compilation and decompilation give the sequential results."""
import gc
import json
import os
import random
import shutil

from checks import c05, c10, c11
from sim import boot, core, disk, ids, jobs, lang, ssbgen, threads
from sim.zygote import Zygote

PROP = "C12"
LEVEL = "exploration"
RULE = ("distinct = different interleaving: the calls assigned to each thread and the list of thread switches (number of the step at which it "
        "happens, thread that goes on)")
SIM_TIME = "none: no clock is read; progress is counted in scheduling points (lines or bytecode instructions of the code under test)"
COMPONENTS = {
    "real": ["explorerscript compilers and decompilers", "antlr4 runtime and its prediction caches", "igraph", "the interpreter's threads, one awake at a time"],
    "stub": ["thread scheduler: parks and wakes threads as the seed says", "threading.Lock/RLock: cooperative locks with deadlock detection",
             "id() in the package's modules: recycles the ids of dead objects as the seed says"],
}
ASSUMPTIONS = [
    "threads share no input objects and no compiler or decompiler objects (the statement is about different inputs)",
    "a switch happens between lines, or between bytecode instructions in functions picked for it, of the package and the ANTLR runtime; C code "
    "(igraph, dict operations) runs without a switch, as under the GIL",
    "of a failing call the exception type is compared, not the message",
]
TIERS = {
    "quick": {"runs": 1800, "budget_s": 170, "determinism_sample": 60},
    "thorough": {"runs": 1000000, "budget_s": 1700, "determinism_sample": 400},
}
RUN_TIMEOUT = 60


# ------------------------------------------------------------------------------------------------ generation
def small_compile(rng, z=None):
    z = rng.random() if z is None else z
    if z < 0.35:
        p = c10.project(rng)
        f = {q: lang.to_text(x, 0) for q, x in p["files"].items()}
        for d, to in p["decoys"].items():
            f[d] = c05.decoy_text(p, to)
        j = {"k": "compile", "files": f, "main": p["main"], "lookups": p["lookups"]}
    elif z < 0.8:
        t = lang.to_text(lang.gen_program(rng, macros=None, width=rng.randrange(1, 4), depth=rng.randrange(1, 3)), 0)
        j = {"k": "compile", "files": {"main.exps": t}, "main": "main.exps", "lookups": []}
    elif z < 0.9:
        t = "//?: is-ssb-script: true\n" + ssbs_text(rng)
        j = {"k": "compile", "files": {"main.exps": t}, "main": "main.exps", "lookups": []}
        if rng.random() < 0.5:
            j["decoder"] = "ssbs"
    else:
        m = c10.gen_meaningless(rng, "quick")
        if "proj" not in m:
            return small_compile(rng, z)
        j = {"k": "compile", "files": {q: lang.to_text(x, 0) for q, x in m["proj"]["files"].items()}, "main": m["proj"]["main"], "lookups": m["proj"]["lookups"]}
    if rng.random() < 0.08:
        j["files"] = {**j["files"], j["main"]: c10.corrupt(rng, j["files"][j["main"]])}
    return j


def ssbs_text(rng):
    out = []
    for i in range(rng.randrange(1, 3)):
        out.append(f"def {i} {{\n")
        for k in range(rng.randrange(1, 5)):
            out.append(f"    @l{k};\n    se_Play({rng.randrange(9)});\n")
            if rng.random() < 0.4:
                out.append(f"    BranchDebug(1, @l{k});\n")
        out.append("    Return();\n}\n")
    return "".join(out)


def decompile_job(rng, z=None):
    z = rng.random() if z is None else z
    if z < 0.35:
        s = c11.small_set(rng)
    elif z < 0.75:
        s = {"set": ssbgen.SsbGen(rng, blocks=rng.randrange(2, 8), p_call=0, **rng.choice([dict(p_switch=0.5), dict(p_branch=0.7, p_back=0.4), {}])).gen()}
    elif z < 0.9:
        s = {"set": c11.routine_set(rng)}
    elif z < 0.96:
        s = {"set": c11.bad_set(rng)}
    else:
        s = {"src": lang.to_text(lang.gen_program(rng, macros=None, width=2, depth=2), 0)}
    return {"k": "decompile" if rng.random() < 0.92 else "ssbs-decompile", **s}


def gen(rng, idx, tier):
    focus = rng.choice(["mixed", "decompile", "decompile", "compile", "compile"])
    nt = rng.choice([2, 2, 2, 3, 3, 4] if tier == "quick" else [2, 2, 3, 3, 4, 5, 6])
    work = []
    scope = "all" if rng.random() < (0.35 if focus == "compile" else 0.15) else "pkg"
    if scope == "all":
        nt = min(nt, 3)
    fresh = scope == "pkg" and rng.random() < 0.24
    theme = rng.random() if rng.random() < (0.8 if fresh else 0.45) else None  # all threads do the same kind of thing
    if theme is not None and focus == "compile" and rng.random() < 0.4:
        theme *= 0.35
    for _ in range(nt):
        mine = []
        for _ in range(rng.choice([1, 1, 2, 2, 3]) if scope == "pkg" and not fresh else 1):
            if focus == "decompile" or (focus == "mixed" and rng.random() < 0.5):
                mine.append(decompile_job(rng, theme))
            else:
                mine.append(small_compile(rng, theme))
        work.append(mine)
    if rng.random() < 0.3:  # similar inputs in different threads: the shared tables then hold entries that look alike
        a, b = rng.sample(range(nt), 2)
        j = rng.choice(work[a])
        if j["k"] == "compile":
            q = c11.tweak(rng, {"files": j["files"], "main": j["main"], "lookups": j["lookups"]})
            work[b][rng.randrange(len(work[b]))] = {**j, **q}
        elif "set" in j:
            work[b][rng.randrange(len(work[b]))] = {"k": j["k"], **rng.choice([c11.reshaped, c11.sibling])(rng, j)}
    aborts = []
    if rng.random() < 0.15:
        t = rng.randrange(nt)
        aborts.append({"thread": t, "job": rng.randrange(len(work[t])), "fn": rng.random(), "at": rng.random()})
    z = rng.random()
    strategy = "random" if z < 0.25 else "pct" if z < 0.4 else "hot" if z < 0.7 else "meet" if z < 0.92 else "lock"
    sched = {"seed": rng.randrange(1 << 30), "strategy": strategy, "scope": scope,
             "q": int(10 ** rng.uniform(0.3, 3.7)), "p": rng.choice([0.02, 0.1, 0.3, 0.6, 1.0]), "fine": rng.random() < 0.5,
             "gc": rng.choice([0, 0, 0.1, 0.5])}
    if sched["scope"] == "all":
        sched["q"] = int(10 ** rng.uniform(1.5, 5))
    if strategy == "hot":
        sched["pick"] = [[rng.choice(["changed", "state", "state", "shared", "shared", "common", "common", "any"]), rng.random()] for _ in range(rng.choice([1, 2, 3, 4]))]
        sched["q"] = rng.choice([0, 0, sched["q"]])
    if fresh and rng.random() < 0.7:  # switch where the calls touch what they find empty
        sched["strategy"] = strategy = "hot"
        sched["p"] = rng.choice([0.01, 0.03, 0.1, 0.3])
        sched["pick"] = [[rng.choice(["changed", "changed", "changed", "state"]), rng.random()] for _ in range(rng.choice([1, 1, 2]))]
        sched["q"] = 0
    if strategy == "meet":
        sched["p"] = rng.choice([0.05, 0.2, 0.2, 0.5])
        sched["fine"] = rng.random() < 0.15
        sched["meet"] = [rng.choice([0.1, 0.3, 1.0]), rng.randrange(1 << 30)]
    if strategy == "pct":
        sched["u"] = [rng.random() for _ in range(rng.choice([1, 2, 3, 5, 8, 20]))]
    return {"work": work, "aborts": aborts, "sched": sched, "warm": 0 if fresh else rng.choice([0, 0, 0, 0, 1, 2]),
            "cold": focus != "decompile" and rng.random() < 0.2, "fresh": fresh,
            "ids": None if rng.random() < 0.3 else {"seed": rng.randrange(1 << 30), "p": rng.choice([1.0, 1.0, 0.7]), "order": rng.choice(["lifo", "fifo", "any"])}}


def setup(tier):
    from sim import warm

    warm.warm()
    threads.assigned_globals()


def cold():
    """Forget what the generated parsers have learnt so far, as in a process that has not parsed anything."""
    import sys

    from antlr4.dfa.DFA import DFA

    for n, m in list(sys.modules.items()):
        if n.startswith("explorerscript.") and m is not None:
            for c in list(vars(m).values()):
                d = getattr(c, "decisionsToDFA", None)
                if isinstance(c, type) and isinstance(d, list):
                    for i, x in enumerate(d):
                        d[i] = DFA(x.atnStartState, x.decision)
                    for st in c.atn.states:
                        if st is not None and hasattr(st, "nextTokenWithinRule"):
                            st.nextTokenWithinRule = None
                    if getattr(c, "sharedContextCache", None) is not None:
                        c.sharedContextCache.cache.clear()


# ------------------------------------------------------------------------------------------------ execution
def alone(msg, root):
    """A call in a process of its own, and what it executes."""
    ob = jobs.Objects(os.path.join(root, msg["dir"]))
    sc = threads.Scope(msg["scope"])
    call, inp = jobs.prepare(msg["job"], ob)
    was = threads.fingerprint()
    res, seen = threads.count(lambda: outcome(call), sc)
    now = threads.fingerprint()
    names = threads.shared_names()
    changed = {k[2] for k in now if now[k] != was.get(k) and ".antlr" not in k[0]}
    state = changed | threads.PROCESS_STATE | threads.assigned_globals()
    touching, state_of, changing = [], [], []
    for c in sc.codes:
        if threads.key_of(c) in seen and names.intersection(c.co_names):
            touching.append(threads.key_of(c))
        if threads.key_of(c) in seen and state.intersection(c.co_names):
            state_of.append(threads.key_of(c))
        if threads.key_of(c) in seen and changed.intersection(c.co_names):
            changing.append(threads.key_of(c))
    return [res, list(seen.items()), touching, state_of, changing]


def outcome(call):
    try:
        return call()[0]
    except (Exception, threads.simlock.Deadlock) as e:
        return jobs.failure(e)


def execute(plan, out):
    root = disk.scratch("c12", core.digest(plan))
    if plan["fresh"]:
        boot.reload()
        out.hit("runs_in_which_nothing_was_used_before")
    try:
        zy = Zygote(lambda m: alone(m, root))
        try:
            simulate(plan, out, root, zy)
        finally:
            zy.close()
    finally:
        shutil.rmtree(root, ignore_errors=True)


def simulate(plan, out, root, zy):
    sc = plan["sched"]
    todo = []
    wants = []
    seen = {}
    shared = []
    state, changed = [], []
    total = 0
    for t, mine in enumerate(plan["work"]):
        wants.append([])
        for k, job in enumerate(mine):
            d = f"t{t}j{k}"
            job = dict(job)
            if job["k"] == "compile":
                jobs.Objects(os.path.join(root, d)).write(job["files"])
                job["written"] = 1
            want, lines, touching, state_of, changing = zy.ask({"job": job, "dir": d, "scope": sc["scope"]})
            wants[-1].append([want, lines])
            shared += [x for x in touching if x not in shared]
            state += [x for x in state_of if x not in state]
            changed += [x for x in changing if x not in changed]
            for f, n in lines:
                seen[f] = seen.get(f, 0) + n
                total += n
            todo.append((t, k, d, job))
    if plan["cold"] and not plan["fresh"]:
        cold()
        out.hit("cold_parser_runs")
    if plan["warm"]:
        for t, k, d, job in todo:
            if (t + k) % plan["warm"] == 0:
                call, _ = jobs.prepare(job, jobs.Objects(os.path.join(root, d)))
                outcome(call)
    sim = None
    if plan["ids"]:
        sim = ids.SimIds(plan["ids"]["seed"], plan["ids"]["p"], plan["ids"]["order"])
        sim.install()
    calls = {}
    inputs = {}
    for t, k, d, job in todo:
        call, inp = jobs.prepare(job, jobs.Objects(os.path.join(root, d)))
        calls[t, k] = call
        inputs[t, k] = (inp, json.dumps(jobs.freeze(list(inp))) if inp is not None else None)
    cfg = {k: sc[k] for k in ("strategy", "q", "p", "fine", "gc")}
    if sc["strategy"] == "pct":
        cfg["points"] = sorted({1 + int(u ** 1.3 * total) for u in sc["u"]})
    if sc["strategy"] == "hot":
        names = list(seen)
        cfg["hot"] = []
        # functions that calls of more than one thread execute, those with few lines executed first
        common = [f for f in names if sum(any(f == g for _, lines in mine for g, _ in lines) for mine in wants) > 1]
        common.sort(key=lambda f: seen[f])
        for kind, u in sc["pick"]:
            pool = names
            if kind == "common" and common:
                pool = common
                u *= u ** 0.5
            elif kind == "changed" and changed:
                pool = changed
            elif kind in ("state", "changed") and state:
                pool = [f for f in common if f in state] or state
            elif kind in ("shared", "state", "changed") and shared:
                pool = [f for f in common if f in shared] or shared
            if pool:
                cfg["hot"].append(pool[min(int(u * len(pool)), len(pool) - 1)])
    if sc["strategy"] == "meet":
        share, seed = sc["meet"]
        r = random.Random(seed)
        cfg["hot"] = [f for f in sorted(seen) if sum(any(f == g for _, lines in mine for g, _ in lines) for mine in wants) > 1 and r.random() < share]
    if sc["strategy"] == "list":
        cfg.update(trace=sc["trace"], first=sc["first"], hot=sc.get("hot") or [])
    if os.environ.get("VERIF_DEBUG"):
        out.log.append([cfg, total])
    limit = 50000 + 40 * total
    s = threads.Sched(len(plan["work"]), cfg, sc["seed"], threads.Scope(sc["scope"]), limit)
    results = {}
    objects = {}
    overlapped = set()
    aborts = {(a["thread"], a["job"]): a for a in plan["aborts"]}

    def body_of(t):
        def body(sched, tid):
            for k in range(len(plan["work"][t])):
                a = aborts.get((t, k))
                if a:
                    lines = wants[t][k][1]
                    if lines:
                        f, n = lines[min(int(a["fn"] * len(lines)), len(lines) - 1)]
                        sched.aborts[tid] = [f, max(1, int(a["at"] * n + 0.999))]
                before = sched.switches
                try:
                    sched.in_call[tid] = True
                    try:
                        res, objs = calls[t, k]()
                        objects[t, k] = (objs, frozen(objs))
                    finally:
                        sched.in_call[tid] = False
                except threads.Killed:
                    raise
                except BaseException as e:
                    res = jobs.failure(e)
                    e = None
                sched.aborts[tid] = None
                results[t, k] = res
                calls[t, k] = None
                if sched.switches != before:
                    overlapped.add((t, k))
        return body

    gc.collect()
    gc.freeze()
    dead = s.run([body_of(t) for t in range(len(plan["work"]))])
    out.events += s.n
    out.hit(f"strategy-{sc['strategy']}")
    out.hit(f"scope-{sc['scope']}")
    if cfg.get("fine") and cfg.get("hot"):
        out.hit("instruction_level_runs")
    out.fault("thread-preempted", s.preempts)
    out.hit("thread_switches", s.switches)
    if s.met:
        out.hit("meetings_in_a_function", s.met)
    if s.blocked:
        out.hit("waits_for_a_lock", s.blocked)
    if s.gcs:
        out.fault("gc-at-switch", s.gcs)
    if sim:
        out.fault("ids-recycled", sim.reused)
    for a in s.aborted:
        if a:
            out.fault("call-aborted-in-one-thread")
    out.hit("calls_overlapping_others", len(overlapped))
    out.state([core.digest(plan["work"]), s.first, s.trace])
    out.log += [s.n, s.first, core.digest(s.trace), [[list(k), core.digest(json.dumps(v).replace(root, "ROOT"))] for k, v in sorted(results.items())], dead]
    plan["_trace"] = {"trace": s.trace, "first": s.first, "hot": list(s.hot)}
    if dead:
        if dead.startswith("harness"):
            raise RuntimeError(dead)
        out.violate("deadlock" if "deadlock" in dead else "no-progress", dead)
        return
    for (t, k), res in sorted(results.items()):
        if (t, k) in aborts:
            continue
        job = plan["work"][t][k]
        want = wants[t][k][0]
        res = json.loads(json.dumps(res))
        out.hit(f"{job['k']}-{res[0]}")
        if res[0] == "text" and res[1].startswith("//?: is-ssb-script"):
            out.hit("fallback_texts")
        if res != want:
            kind = "raised-because-of-others" if res[0] == "raised" and want[0] != "raised" else "differs"
            out.violate(f"{kind}:{job['k']}", f"{job['k']} (thread {t}, call {k}): {c11.differ(res, want)} (alone)")
            return
        inp, was = inputs[t, k]
        if inp is not None and json.dumps(jobs.freeze(list(inp))) != was:
            out.violate(f"input-changed:{job['k']}", f"the routine set given to thread {t}, call {k} has changed")
            return
        if (t, k) in objects and frozen(objects[t, k][0]) != objects[t, k][1]:
            out.violate(f"result-changed-later:{job['k']}", f"the result of thread {t}, call {k} changed after it was returned")
            return


def frozen(objs):
    return json.dumps([jobs.freeze_map(o) if hasattr(o, "serialize") else jobs.freeze(o) for o in objs])


# ------------------------------------------------------------------------------------------------ reporting
def describe(plan):
    return {"threads": [[c11.text_of(j) for j in mine] for mine in plan["work"]], "schedule": {k: v for k, v in plan["sched"].items() if k != "trace"},
            "switches": plan["sched"].get("trace", "as the seed says"), "aborts": plan["aborts"], "ids": plan["ids"], "warm": plan["warm"]}


def traced(plan):
    """The plan with its schedule written out as a list of switches."""
    def f():
        p = json.loads(json.dumps(plan))
        execute(p, core.Out())
        return p["_trace"]

    st, v = core.fork_eval(f, RUN_TIMEOUT)
    if st != "ok":
        return None
    sc = plan["sched"]
    return {**plan, "sched": {**sc, "strategy": "list", **v}}


def shrink(plan):
    sc = plan["sched"]
    n = len(plan["work"])
    for t in range(n):
        if n > 1 and sc["strategy"] != "list":
            yield {**plan, "work": plan["work"][:t] + plan["work"][t + 1:],
                   "aborts": [{**a, "thread": a["thread"] - (a["thread"] > t)} for a in plan["aborts"] if a["thread"] != t]}
        if sc["strategy"] != "list" and len(plan["work"][t]) > 1:
            for c in core.shrink_list(plan["work"][t], 1):
                yield {**plan, "work": plan["work"][:t] + [c] + plan["work"][t + 1:], "aborts": []}
    for k, v in (("aborts", []), ("ids", None), ("warm", 0), ("cold", False), ("fresh", False)):
        if plan[k]:
            yield {**plan, k: v}
    if sc["strategy"] != "list":
        for k, v in (("gc", 0), ("fine", False)):
            if sc[k]:
                yield {**plan, "sched": {**sc, k: v}}
        for t, mine in enumerate(plan["work"]):
            for i, j in enumerate(mine):
                for c in smaller_jobs(j):
                    yield {**plan, "work": plan["work"][:t] + [mine[:i] + [c] + mine[i + 1:]] + plan["work"][t + 1:]}
        p = traced(plan)
        if p:
            yield p
    else:
        for c in core.shrink_list(sc["trace"], 0):
            yield {**plan, "sched": {**sc, "trace": c}}


def smaller_jobs(j):
    if "set" in j:
        for c in ssbgen.shrink(j["set"]):
            yield {**j, "set": c}
    elif "src" in j:
        for c in core.shrink_list(j["src"].splitlines(True), 1):
            yield {**j, "src": "".join(c)}
    else:
        for q, t in j["files"].items():
            for c in core.shrink_list(t.splitlines(True)):
                yield {**j, "files": {**j["files"], q: "".join(c)}}
