"""C15: the compile CLI prints what the decompile CLI and the docs expect; status 0 exactly on success."""
import copy
import json
import os
import random
import re
import shutil

from checks import c05, c10
from sim import core, disk, flow, lang, meaning, proc, ssbgen, warm
from sim.lang import DMODE, PPL

PROP = "C15"
LEVEL = "exploration"
RULE = ("distinct = different (kind of source or document, routine types and argument kinds in it, jumps moved by dropped ops, "
        "sequence of commands with their faults and statuses)")
SIM_TIME = "none: neither command reads a clock; progress is counted in file and stream operations of the simulated processes"
COMPONENTS = {
    "real": ["explorerscript.cli.compile and explorerscript.cli.decompile, run as __main__ with their own argv, cwd, streams and exit",
             "argparse, json, explorerscript compiler and decompiler, antlr4, igraph", "a sample of the commands as operating system "
             "processes on /dev/full, closed pipes and ordinary pipes"],
    "stub": ["process boundary (argv, exit status, flushing at exit, kill), files and standard streams: the simulator's"],
}
ASSUMPTIONS = [
    "programs with a number for every routine from 0 on; no operation named like a branch, case or jump written by hand",
    "what the API compiler returns for a source is what the command has to print (properties C01 and following)",
    "the text printed by the decompile command is compared with the API decompiler's for arbitrary documents; for documents made by the "
    "compile command the compiled text is compared with the source as well",
    "a process is killed at a write only; the file system keeps what was written before",
]
TIERS = {
    "quick": {"runs": 4000, "budget_s": 90, "determinism_sample": 80},
    "thorough": {"runs": 400000, "budget_s": 1500, "determinism_sample": 400},
}
RUN_TIMEOUT = 40
TYPES = {1: "GENERIC", 3: "ACTOR", 4: "OBJECT", 5: "PERFORMER", 9: "COROUTINE"}
TYPE_IDS = {v: k for k, v in TYPES.items()}
SETTINGS = {"performance_progress_list_var_name": PPL, "dungeon_mode_constants": dict(DMODE)}
COMPILE = "explorerscript.cli.compile"
DECOMPILE = "explorerscript.cli.decompile"


# ------------------------------------------------------------------------------------------------ generation
def gen(rng, idx, tier):
    m = rng.random()
    if m < 0.5:
        plan = gen_source(rng, tier)
    elif m < 0.62:
        plan = gen_bad_source(rng)
    elif m < 0.88:
        plan = gen_document(rng)
    else:
        plan = gen_bad_document(rng)
    if idx % (25 if tier == "quick" else 120) == 7:
        for s in plan["steps"]:
            if s["cmd"] != "act" and not s.get("rules") and (s.get("stdout") or {}).get("fault") in (None, "ENOSPC", "EPIPE"):
                s["real"] = True
    return plan


def gen_source(rng, tier):
    x = rng.random()
    proj = None
    if x < 0.25:
        proj = c10.project(rng)
        src = {"kind": "proj", "proj": proj, "style": rng.choice([0, 0, 1, 2])}
    elif x < 0.35:
        s = ssbgen.SsbGen(rng, backslash=False, p_call=0.1).gen()
        src = {"kind": "ssbs", "set": s}
    else:
        cfg = rng.choice([{}, {}, {"width": 2, "depth": 2}, {"depth": 4, "width": 2}, {"labels": True, "early_end": True, "depth": 3, "width": 3}])
        n = rng.choice([1, 2, 2, 3, 3, 4, 6])
        prog = lang.gen_program(rng, n_routines=n, macros=None, **cfg)
        if rng.random() < 0.2:
            # routines of all types next to each other
            for i, d in enumerate(prog["defs"]):
                if rng.random() < 0.4:
                    for k in ("id", "target", "legacy"):
                        d.pop(k, None)
                    d.update(t="coro", name=f"CORO_{rng.choice('XYZ')}{i}")
                elif d["t"] == "coro":
                    d.pop("name")
                    d.update(t="generic", id=i)
        for d in prog["defs"]:
            if d.get("target") and rng.random() < 0.3:
                d["target"] = rng.choice([{"t": "int", "v": -1}, {"t": "int", "v": 300}, {"t": "var", "v": "$LOCAL0"}, {"t": "int", "v": 0},
                                          {"t": "int", "v": 255, "f": "x"}])
        if rng.random() < 0.35:
            roughen(rng, prog)
        src = {"kind": "proj", "proj": {"files": {"main.exps": prog}, "main": "main.exps", "lookups": [], "decoys": {}},
               "style": rng.choice([0, 0, 1, 2])}
    plan = {"src": src, "settings": {"kind": "ok"}, "steps": []}
    st = plan["steps"]
    if rng.random() < 0.45:
        for _ in range(rng.choice([1, 1, 2])):
            st.append(faulty_compile(rng, src))
            if rng.random() < 0.4:
                st.append(dec("doc.json"))
            if rng.random() < 0.25:
                st.append(act(rng, ["doc.json", "map.json", "main"]))
    if rng.random() < 0.1:
        # a source that is edited, compiled, and put back
        st.append({"cmd": "act", "do": "truncate", "path": "main", "at": rng.random()})
        st.append(com(rng, src))
        st.append({"cmd": "act", "do": "restore", "path": "main"})
    # faults have stopped: the pipeline has to work
    st.append({"cmd": "act", "do": "restore", "path": "main"})
    if rng.random() < 0.08:
        st.append(com(rng, src, smap=rng.choice(NOWHERE)))
    st.append(com(rng, src))
    st[-1]["final"] = True
    if rng.random() < 0.3:
        st.append(faulty_decompile(rng, "doc.json"))
    st.append(dec("doc.json", smap="out.map" if rng.random() < 0.3 else None))
    if rng.random() < 0.06:
        st.append(dec("doc.json", smap=rng.choice(NOWHERE)))
    if rng.random() < 0.15:
        st.append(act(rng, ["doc.json"]))
        st.append(dec("doc.json"))
    return plan


def lists(body):
    """All statement lists below (and with) this one, except those where only one statement may be."""
    yield body
    for st in body:
        if st["k"] != "with":
            for sub in lang._bodies(st):
                yield from lists(sub)


def roughen(rng, prog):
    """Labels anywhere, jumps and calls to them from anywhere (also from other routines), dead statements, open ends."""
    bodies = [d["body"] for d in prog["defs"] if not d.get("alias")]
    for b in bodies:
        if rng.random() < 0.3 and b[-1]["k"] == "cntrl" and len(b) > 1:
            b.pop()
    names = []
    for _ in range(rng.randrange(0, 4)):
        at = rng.choice(list(lists(rng.choice(bodies))))
        names.append(f"far{len(names)}")
        at.insert(rng.randrange(0, len(at) + 1), {"k": "label", "n": names[-1], "para": rng.random() < 0.1})
    for _ in range(rng.randrange(0, 4)):
        at = rng.choice(list(lists(rng.choice(bodies))))
        if names and rng.random() < 0.8:
            st = {"k": rng.choice(["jump", "jump", "jump", "call"]), "n": rng.choice(names)}
        else:
            st = {"k": "cntrl", "w": rng.choice(["return", "end", "hold"])}
        at.insert(rng.randrange(0, len(at) + 1), st)
    for b in bodies:
        for ss in lists(b):
            for st in ss:
                if st["k"] == "with" and rng.random() < 0.1:
                    st["s"] = {"k": "cntrl", "w": rng.choice(["return", "end", "hold"])}


NOWHERE = ["no/such/map.json", "settings.json/map.json"]  # nothing can be written there


def com(rng, src, **kw):
    return {"cmd": "compile", "to": "doc.json", "smap": rng.choice([None, "map.json", "map.json"]), "style": rng.randrange(6),
            "cwd": rng.choice([".", ".", "elsewhere"]), **kw}


def dec(doc, smap=None, **kw):
    return {"cmd": "decompile", "doc": doc, "to": "text.exps", "smap": smap, **kw}


def faulty_compile(rng, src):
    s = com(rng, src, smap=rng.choice(["map.json", "map.json", None]))
    x = rng.random()
    if x < 0.3:
        s["stdout"] = out_fault(rng)
    elif x < 0.6 and s["smap"]:
        s["rules"] = [map_fault(rng, s["smap"])]
    elif x < 0.85:
        p = rng.choice(["settings.json", "main"])
        k = rng.choice(["EIO", "EACCES", "EMFILE", "short", "read-EIO", "EISDIR", "ENOENT"])
        if k == "short":
            s["rules"] = [{"path": p, "op": "read", "nth": 1, "sticky": True, "kind": "short", "chunk": rng.randrange(1, 9), "after": 0}]
        elif k == "read-EIO":
            s["rules"] = [{"path": p, "op": "read", "nth": 1, "kind": "EIO", "after": rng.randrange(0, 300)}]
        else:
            s["rules"] = [{"path": p, "op": "open", "nth": 1, "kind": k}]
    else:
        s["stderr"] = {"fault": rng.choice(["ENOSPC", "EPIPE"]), "after": rng.choice([0, 0, 10])}
        if rng.random() < 0.5:
            s["rules"] = [{"path": "settings.json", "op": "open", "nth": 1, "kind": "EIO"}]
    return s


def faulty_decompile(rng, doc):
    s = dec(doc, smap=rng.choice(["out.map", None]))
    x = rng.random()
    if x < 0.4:
        s["stdout"] = out_fault(rng)
    elif x < 0.7 and s["smap"]:
        s["rules"] = [map_fault(rng, s["smap"])]
    elif x < 0.9:
        k = rng.choice(["EIO", "EACCES", "short", "read-EIO", "truncate"])
        if k == "short":
            s["rules"] = [{"path": doc, "op": "read", "nth": 1, "sticky": True, "kind": "short", "chunk": rng.randrange(1, 9), "after": 0}]
        elif k == "read-EIO":
            s["rules"] = [{"path": doc, "op": "read", "nth": 1, "kind": "EIO", "after": rng.randrange(0, 600)}]
        elif k == "truncate":
            s["rules"] = [{"path": doc, "op": "read", "nth": 1, "kind": "truncate", "after": rng.randrange(0, 300)}]
        else:
            s["rules"] = [{"path": doc, "op": "open", "nth": 1, "kind": k}]
    else:
        s["stdout"] = {"enc": "ascii"}
    return s


def out_fault(rng):
    k = rng.choice(["ENOSPC", "ENOSPC", "EPIPE", "EIO", "EAGAIN", "short", "kill", "kill"])
    if k == "short":
        return {"fault": k, "chunk": rng.choice([1, 3, 7, 100, 4096])}
    return {"fault": k, "after": rng.choice([0, 0, 1, rng.randrange(0, 200), rng.randrange(0, 3000), 8192])}


def map_fault(rng, path):
    k = rng.choice(["ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS", "EISDIR", "kill", "kill", "kill-open"])
    if k in ("ENOSPC", "EIO", "EDQUOT", "kill"):
        return {"path": path, "op": "write", "nth": 1, "kind": k, "after": rng.choice([0, 1, rng.randrange(0, 100), rng.randrange(0, 1000)])}
    return {"path": path, "op": "open", "nth": 1, "kind": "kill" if k == "kill-open" else k}


def act(rng, paths):
    return {"cmd": "act", "do": rng.choice(["truncate", "truncate", "remove", "garble", "dir"]), "path": rng.choice(paths), "at": rng.random(),
            "byte": rng.randrange(256)}


BAD_SETTINGS = ["no-settings", "no-ppl", "no-dmc", "no-dmc-key", "not-json", "truncated", "empty", "null", "list", "string", "dmc-list",
                "missing", "not-utf8", "dir"]


def gen_bad_source(rng):
    plan = {"src": None, "settings": {"kind": "ok"}, "steps": []}
    x = rng.random()
    if x < 0.3:
        prog = lang.gen_program(rng, n_routines=1, macros=None, depth=1, width=2)
        plan["src"] = {"kind": "proj", "proj": {"files": {"main.exps": prog}, "main": "main.exps", "lookups": [], "decoys": {}}, "style": 0}
        plan["settings"] = {"kind": rng.choice(BAD_SETTINGS), "pick": rng.random()}
    elif x < 0.4:
        plan["src"] = {"kind": "missing" if rng.random() < 0.6 else "dir"}
    elif x < 0.7:
        p = c10.program(rng)
        t = c10.as_text(p)
        t = {k: v.replace("${ROOT}", "/nowhere") for k, v in t.items()}
        t[p["main"]] = c10.corrupt(rng, t[p["main"]], 1 if rng.random() < 0.6 else None)
        t = {k: v.encode("utf-8", "replace").decode() for k, v in t.items()}
        plan["src"] = {"kind": "text", "files": t, "main": p["main"], "lookups": p["lookups"]}
    elif x < 0.75:
        plan["src"] = {"kind": "text", "files": {"main.exps": {"hex": (b"def 0 { a('" + bytes(rng.randrange(128, 256) for _ in range(3)) + b"'); end; }").hex()}},
                       "main": "main.exps", "lookups": []}
    else:
        t = rng.choice(["def 0 { break; end; }", "def 0 { jump @nowhere; }", "import \"nowhere.exps\"; def 0 { end; }", "def 0 { ~nomacro(); end; }",
                        "def 0 { a(); ", "macro m() { ~m(); } def 0 { ~m(); end; }", "def 0 { continue; end; }", "def 0 { @a; @a; end; }",
                        "//?: is-ssb-script: true\ndef 0 { jump @x; }", "", "// nothing", "macro m() { a(); }", "def 0 { if (a(1)) { b(); } end; }",
                        "def 1 { end; } def 0 { end; }", "import \"./main.exps\"; def 0 { end; }", "def 0 { end; } trailing"])
        plan["src"] = {"kind": "text", "files": {"main.exps": t}, "main": "main.exps", "lookups": []}
    plan["steps"].append(com(rng, plan["src"]))
    if rng.random() < 0.5:
        plan["steps"].append(dec("doc.json"))
    return plan


# -- documents
def number(rng):
    return rng.choice([0, 1, 2, 10, 37, 100, 255])


def plain_arg(rng, g):
    a = g.arg()
    if a[0] == "pos":
        a = ["pos", rng.choice(["m0", "Mark 1", "M"]), rng.choice([0, 2]), rng.choice([0, 2]), number(rng), number(rng)]
    return a


def gen_document(rng):
    g = ssbgen.SsbGen(rng, backslash=False, rich=rng.random() < 0.5)
    straight = rng.random() < 0.5
    if straight:
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            r = []
            for _ in range(rng.randrange(0, 5)):
                r.append([rng.choice(ssbgen.PLAIN), [plain_arg(rng, g) for _ in range(rng.randrange(0, 5))]])
            r.append([rng.choice(["End", "Return", "Hold"]), []])
            ops.append(r)
        n = len(ops)
        s = {"infos": [[1, 0, None]] * n, "coros": [None] * n, "gap": 0, "first": 1, "ops": ops}
    else:
        s = g.gen()
    n = len(s["ops"])
    infos, coros = [], []
    how = rng.choice(["mixed", "mixed", "coro", "plain"])
    for i in range(n):
        t = 9 if how == "coro" or (how == "mixed" and rng.random() < 0.3) else rng.choice([1, 3, 4, 5])
        if t == 9:
            infos.append([9, 0, None])
            coros.append(f"CORO_{rng.choice(['EVENT_DIVIDE', 'A', 'n', 'Long_Name_0'])}{i}")
        else:
            coros.append(None)
            if t == 1:
                infos.append([1, 0, None])
            elif rng.random() < 0.5:
                infos.append([t, rng.choice([0, 1, 7, 20, 300]), None])
            else:
                infos.append([t, -1, rng.choice(["ACTOR_PLAYER", "OBJECT_D01P11B2_12", "$LOCAL0"])])
    s = {**s, "infos": infos, "coros": coros}
    doc = {"kind": "set", "set": s, "straight": straight, "pos": rng.choice(["int", "int", "str"]), "target": rng.choice(["plain", "plain", "constant"])}
    plan = {"doc": doc, "steps": []}
    if rng.random() < 0.3:
        plan["steps"].append(faulty_decompile(rng, "in.json"))
    if rng.random() < 0.12:
        plan["steps"].append(act(rng, ["in.json"]))
        plan["steps"].append(dec("in.json"))
        plan["steps"].append({"cmd": "act", "do": "restore", "path": "in.json"})
    if rng.random() < 0.06:
        plan["steps"].append(dec("in.json", smap=rng.choice(NOWHERE)))
    plan["steps"].append(dec("in.json", smap=rng.choice([None, "out.map"]), cwd=rng.choice([".", ".", "elsewhere"])))
    plan["steps"][-1]["final"] = True
    if straight and rng.random() < 0.4:
        # the printed text is a source for the compile command
        plan["src"] = {"kind": "output", "main": "text.exps"}
        plan["settings"] = {"kind": "ok"}
        plan["steps"].append({"cmd": "compile", "to": "doc.json", "smap": None, "style": rng.randrange(6), "cwd": "."})
        plan["steps"].append(dec("doc.json"))
    return plan


DEFECTS = ["no-settings", "no-ppl", "no-dmc", "no-dmc-key", "settings-null", "no-routines", "no-ops", "no-type", "bad-type", "no-name", "no-target",
           "no-opcode", "no-params", "param-null", "param-string", "param-list", "param-no-type", "param-no-value", "param-bad-type",
           "param-bad-fixed", "param-bad-pos", "param-no-pos-x", "top-list", "top-null", "not-json", "truncated", "empty", "missing", "not-utf8",
           "dir", "param-float", "target-no-value"]


def gen_bad_document(rng):
    p = gen_document(rng)
    p["steps"] = [dec("in.json", smap=rng.choice([None, "out.map"]))]
    p["doc"]["defect"] = rng.choice(DEFECTS)
    p["doc"]["pick"] = rng.random()
    if rng.random() < 0.15:
        p["steps"][0]["stderr"] = {"fault": "ENOSPC", "after": 0}
    return p


# ------------------------------------------------------------------------------------------------ JSON documents, the check's own reading of the docs
def json_param(p, pos="int"):
    t = p[0]
    if t == "int":
        return p[1]
    if t == "fix":
        return {"type": "FIXED_POINT", "value": p[1]}
    if t == "const":
        return {"type": "CONSTANT", "value": p[1]}
    if t == "str":
        return {"type": "CONST_STRING", "value": p[1]}
    if t == "lang":
        return {"type": "LANG_STRING", "value": {k: v for k, v in p[1]}}
    if t == "pos":
        def c(rel, off):
            if off:
                return f"{rel}.5"
            return rel if pos == "int" else str(rel)

        return {"type": "POSITION_MARK", "value": {"name": p[1], "x": c(p[4], p[2]), "y": c(p[5], p[3])}}
    raise ValueError(t)


def make_doc(d):
    s = d["set"]
    ops = ssbgen.resolve({**s, "gap": 0, "first": 1})
    routines = []
    for info, coro, r in zip(s["infos"], s["coros"], ops):
        o = {"type": TYPES[info[0]]}
        if info[0] == 9:
            o["name"] = coro
        elif info[0] != 1:
            if info[2] is None:
                o["target_id"] = info[1]
            else:
                o["target_id"] = info[2] if d.get("target") == "plain" else {"type": "CONSTANT", "value": info[2]}
        o["ops"] = [{"opcode": n, "params": [json_param(p, d.get("pos")) for p in ps]} for _, n, ps in r]
        routines.append(o)
    return {"settings": copy.deepcopy(SETTINGS), "routines": routines}


def doc_bytes(d):
    """Content of the input document, None if there is none, "dir" for a directory."""
    doc = make_doc(d)
    k = d.get("defect")
    if k is None:
        return json.dumps(doc).encode()
    r = random.Random(d.get("pick"))
    rs = doc["routines"]
    if k == "missing":
        return None
    if k == "dir":
        return "dir"
    if k in BAD_SETTINGS or k == "settings-null":
        if k in ("not-json", "truncated", "empty", "not-utf8"):
            return spoil(r, json.dumps(doc).encode(), k)
        st = doc["settings"]
        if k == "no-settings":
            del doc["settings"]
        elif k == "no-ppl":
            del st["performance_progress_list_var_name"]
        elif k == "no-dmc":
            del st["dungeon_mode_constants"]
        elif k == "no-dmc-key":
            del st["dungeon_mode_constants"][r.choice(sorted(DMODE))]
        else:
            doc["settings"] = None
    elif k == "no-routines":
        del doc["routines"]
    elif k in ("top-list", "top-null"):
        doc = [] if k == "top-list" else None
    else:
        rt = r.choice(rs)
        if k == "no-ops":
            del rt["ops"]
        elif k == "no-type":
            del rt["type"]
        elif k == "bad-type":
            rt["type"] = r.choice(["MACRO", "generic", "", "INVALID", None])
        elif k == "no-name":
            rt["type"] = "COROUTINE"
            rt.pop("name", None)
        elif k == "no-target":
            rt["type"] = r.choice(["ACTOR", "OBJECT", "PERFORMER"])
            rt.pop("target_id", None)
        elif k == "target-no-value":
            rt["type"] = r.choice(["ACTOR", "OBJECT", "PERFORMER"])
            rt["target_id"] = r.choice([{"type": "CONSTANT"}, {"value": "ACTOR_PLAYER"}, {"type": "POSITION_MARK"}, {}])
        else:
            if not rt["ops"]:
                rt["ops"].append({"opcode": "Return", "params": []})
            op = r.choice(rt["ops"])
            bad = {"no-opcode": None, "no-params": None, "param-null": None, "param-string": "LEVEL_G01", "param-list": [1], "param-no-type": {"value": "A"},
                   "param-no-value": {"type": r.choice(["CONSTANT", "CONST_STRING", "LANG_STRING", "FIXED_POINT"])},
                   "param-bad-type": {"type": r.choice(["CONST", "INTEGER", "", "constant"]), "value": "A"},
                   "param-bad-fixed": {"type": "FIXED_POINT", "value": r.choice(["abc", "1.x", "1x", "--1.5"])},
                   "param-bad-pos": {"type": "POSITION_MARK", "value": {"name": "m", "x": r.choice(["a", "1.7", "1.5.5", ""]), "y": 1}},
                   "param-no-pos-x": {"type": "POSITION_MARK", "value": {"name": "m", "y": 1}}, "param-float": 1.5}
            if k == "no-opcode":
                del op["opcode"]
            elif k == "no-params":
                del op["params"]
            else:
                op["params"].append(bad[k])
    return json.dumps(doc).encode()


def spoil(r, data, k):
    if k == "not-json":
        return r.choice([b"def 0 { end; }", b"{'settings': 1}", b"%s}" % data, b"<<SETTINGS>>"])
    if k == "truncated":
        return data[: r.randrange(1, len(data) - 1)]
    if k == "empty":
        return b""
    i = r.randrange(len(data))
    return data[:i] + b"\xff\xfe" + data[i:]


def settings_bytes(s):
    k = s["kind"]
    st = copy.deepcopy(SETTINGS)
    doc = {"settings": st}
    if k == "ok":
        return json.dumps(doc, indent=2).encode()
    r = random.Random(s.get("pick"))
    if k == "missing":
        return None
    if k == "dir":
        return "dir"
    if k in ("not-json", "truncated", "empty", "not-utf8"):
        return spoil(r, json.dumps(doc).encode(), k)
    if k == "no-settings":
        doc = {}
    elif k == "no-ppl":
        del st["performance_progress_list_var_name"]
    elif k == "no-dmc":
        del st["dungeon_mode_constants"]
    elif k == "no-dmc-key":
        del st["dungeon_mode_constants"][r.choice(sorted(DMODE))]
    elif k == "dmc-list":
        st["dungeon_mode_constants"] = []
    elif k == "null":
        doc = None
    elif k == "list":
        doc = []
    elif k == "string":
        doc = "settings"
    return json.dumps(doc).encode()


POS = re.compile(r"^(0|[1-9][0-9]*)(\.5)?$")
FIX = re.compile(r"^-?[0-9]+(\.[0-9]+)?$")


class Bad(Exception):
    pass


class Murky(Exception):
    pass


def need(c, why):
    if not c:
        raise Bad(why)


def read_settings(data):
    """The settings of a document, by the documentation."""
    need(data is not None and data != "dir", "no file")
    try:
        d = json.loads(data.decode("utf-8"))
    except (ValueError, RecursionError):
        raise Bad("not JSON")
    need(isinstance(d, dict) and "settings" in d, "settings missing")
    s = d["settings"]
    need(isinstance(s, dict), "settings malformed")
    need("performance_progress_list_var_name" in s, "variable name missing")
    need(isinstance(s.get("dungeon_mode_constants"), dict) and all(k in s["dungeon_mode_constants"] for k in DMODE), "constants missing")
    if not isinstance(s["performance_progress_list_var_name"], str) or not all(isinstance(s["dungeon_mode_constants"][k], str) for k in DMODE):
        raise Murky("settings that are no strings")
    return d, s


def read_param(p):
    if isinstance(p, bool):
        raise Murky("bool")
    if isinstance(p, int):
        return ["int", p]
    need(isinstance(p, dict) and "type" in p and "value" in p, "argument")
    t, v = p["type"], p["value"]
    need(t in ("FIXED_POINT", "CONSTANT", "CONST_STRING", "LANG_STRING", "POSITION_MARK"), "argument type")
    if t == "LANG_STRING":
        if not (isinstance(v, dict) and v and all(isinstance(x, str) for x in v.values())):
            raise Murky("language string")
        return ["lang", [[k, x] for k, x in v.items()]]
    if t == "POSITION_MARK":
        need(isinstance(v, dict) and "x" in v and "y" in v and "name" in v, "position mark")
        xy = []
        for k in "xy":
            c = v[k]
            if isinstance(c, int) and not isinstance(c, bool) and c >= 0:
                xy.append((c, 0))
                continue
            if not isinstance(c, str):
                raise Murky("position")
            if not POS.match(c):
                try:
                    float(c)
                    if c.count(".") <= 1 and (("." not in c) or c.endswith(".5")):
                        raise Murky("position")
                except ValueError:
                    pass
                if c[:1].isdigit() and c.replace("_", "").isalnum():
                    raise Murky("position")
                raise Bad("position")
            xy.append((int(c.split(".")[0]), 2 if "." in c else 0))
        if not isinstance(v["name"], str):
            raise Murky("name")
        return ["pos", v["name"], xy[0][1], xy[1][1], xy[0][0], xy[1][0]]
    if not isinstance(v, str):
        raise Murky("value")
    if t == "FIXED_POINT":
        if not FIX.match(v):
            if not re.search(r"[^-.0-9]", v) and v.count(".") <= 1 and "-" not in v[1:]:
                raise Murky("fixed point without digits")  # from_str reads a missing part as 0
            try:
                float(v)
            except ValueError:
                raise Bad("fixed point")
            raise Murky("fixed point")
        w, _, fr = v.partition(".")
        neg, w = w.startswith("-"), w.lstrip("-").lstrip("0") or "0"
        return ["fix", ("-" if neg else "") + w + "." + (fr or "0")]
    return ["const" if t == "CONSTANT" else "str", v]


def read_doc(d):
    """(infos, coros, ops) in canonical form; offsets are the 1-based positions."""
    need("routines" in d, "no routines")
    rs = d["routines"]
    if not isinstance(rs, list):
        raise Murky("routines")
    infos, coros, ops = [], [], []
    at = 1
    for r in rs:
        if not isinstance(r, dict):
            raise Murky("routine")
        need("ops" in r and "type" in r, "routine")
        t = r["type"]
        if not isinstance(t, str):
            need(False, "routine type")
        need(t in TYPE_IDS, "routine type")
        name = None
        if t == "COROUTINE":
            need("name" in r, "name")
            name = r["name"]
            if not isinstance(name, str) or not re.match(r"^[A-Za-z_]\w*$", name):
                raise Murky("name")
            infos.append([9, 0, None])
        elif t == "GENERIC":
            infos.append([1, 0, None])
        else:
            need("target_id" in r, "target")
            x = r["target_id"]
            need(not isinstance(x, dict) or "type" in x and "value" in x, "target")
            if isinstance(x, dict) and x.get("type") == "CONSTANT":
                x = x.get("value")
            if isinstance(x, int) and not isinstance(x, bool):
                infos.append([TYPE_IDS[t], x, None])
            elif isinstance(x, str) and x:
                infos.append([TYPE_IDS[t], -1, x])
            else:
                raise Murky("target")
        coros.append(name)
        if not isinstance(r["ops"], list):
            raise Murky("ops")
        rr = []
        for op in r["ops"]:
            if not isinstance(op, dict):
                raise Murky("op")
            need("opcode" in op and "params" in op, "op")
            if not isinstance(op["params"], list) or not isinstance(op["opcode"], str):
                raise Murky("op")
            rr.append([at, op["opcode"], [read_param(p) for p in op["params"]]])
            at += 1
        ops.append(rr)
    return infos, coros, ops


# ------------------------------------------------------------------------------------------------ what the API says
def api_compile(text, path, lookups):
    """["ok", infos, ops, coros, map] | ["raised", type]"""
    from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler

    c = ExplorerScriptSsbCompiler(PPL, lookups)
    try:
        c.compile(text, path)
    except Exception as e:
        return ["raised", type(e).__name__]
    if any(i is None for i in c.routine_infos):
        return ["raised", "routine without definition"]
    coros = [n if i.type.value == 9 else None for i, n in zip(c.routine_infos, c.named_coroutines)]
    return ["ok", flow.canon_infos(c.routine_infos), flow.canon_ops(c.routine_ops), coros, c.source_map.serialize()]


def api_decompile(infos, coros, ops, settings):
    from explorerscript.ssb_converting.ssb_data_types import DungeonModeConstants
    from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler

    dm = settings["dungeon_mode_constants"]
    try:
        a = ssbgen.build(infos, ops, coros)
        t, sm = ExplorerScriptSsbDecompiler(*a, settings["performance_progress_list_var_name"],
                                            DungeonModeConstants(dm["closed"], dm["open"], dm["request"], dm["open_request"])).convert()
    except Exception as e:
        return ["raised", type(e).__name__]
    return ["ok", t, sm.serialize()]


def well_formed(ops):
    """Operations that jump have their target where the documentation of the operation has it, and it is an operation."""
    try:
        pos = flow.positions(ops)
    except flow.Malformed:
        return False
    for r in ops:
        for _, n, ps in r:
            at = flow.JUMP_AT.get(n)
            if at is not None and (len(ps) != at + 1 or ps[at][0] != "int" or ps[at][1] not in pos):
                return False
    return True


def num(x):
    if isinstance(x, bool) or not isinstance(x, (int, float, str)):
        return None
    try:
        return float(x)
    except ValueError:
        return None


def compare_doc(doc, want, settings):
    """Differences between printed JSON and the API's result: list of (sig, message)."""
    _, infos, ops, coros, _ = want
    if not isinstance(doc, dict) or set(doc) < {"settings", "routines"}:
        return [("structure", f"top level keys {sorted(doc) if isinstance(doc, dict) else type(doc).__name__}")]
    s = doc["settings"]
    for k in SETTINGS:
        if not isinstance(s, dict) or s.get(k) != settings[k]:
            return [("settings", f"settings printed as {s!r}")]
    rs = doc["routines"]
    if not isinstance(rs, list) or len(rs) != len(infos):
        return [("structure", f"{len(rs) if isinstance(rs, list) else rs!r} routines printed, {len(infos)} compiled")]
    position = {}
    k = 1
    for r in ops:
        for off, _, _ in r:
            position[off] = k
            k += 1
    good = well_formed(ops)
    for i, (r, info, coro, rops) in enumerate(zip(rs, infos, coros, ops)):
        t = TYPES[info[0]]
        if not isinstance(r, dict) or r.get("type") != t:
            return [("routine-type", f"routine {i}: {r.get('type') if isinstance(r, dict) else r!r} instead of {t}")]
        if t == "COROUTINE" and r.get("name") != coro:
            return [("coroutine-name", f"routine {i}: name {r.get('name')!r} instead of {coro!r}")]
        if t in ("ACTOR", "OBJECT", "PERFORMER"):
            w = info[2] if info[2] is not None else info[1]
            g = r.get("target_id")
            if isinstance(g, dict) and g.get("type") == "CONSTANT":
                g = g.get("value")
            if type(g) is not type(w) or g != w:
                return [("target", f"routine {i}: target_id {g!r} instead of {w!r}")]
        po = r.get("ops")
        if not isinstance(po, list) or len(po) != len(rops):
            return [("ops", f"routine {i}: {len(po) if isinstance(po, list) else po!r} ops printed, {len(rops)} compiled")]
        for j, (o, (off, name, ps)) in enumerate(zip(po, rops)):
            if not isinstance(o, dict) or o.get("opcode") != name:
                return [("opcode", f"routine {i} op {j}: {o!r} instead of {name}")]
            gp = o.get("params")
            if not isinstance(gp, list) or len(gp) != len(ps):
                return [("params", f"routine {i} op {j} {name}: params {gp!r} instead of {ps}")]
            at = flow.JUMP_AT.get(name)
            for q, (g, w) in enumerate(zip(gp, ps)):
                where = f"routine {i} op {j} {name} argument {q}"
                if q == at and w[0] == "int":
                    if not good:
                        continue
                    if type(g) is not int or g != position[w[1]]:
                        return [("jump-position", f"{where}: prints {g!r}, its target is operation {position[w[1]]} of the document")]
                    continue
                if w[0] == "pos":
                    v = g.get("value") if isinstance(g, dict) else None
                    if not isinstance(v, dict) or g.get("type") != "POSITION_MARK" or v.get("name") != w[1] or num(v.get("x")) != w[4] + (
                            0.5 if w[2] > 1 else 0) or num(v.get("y")) != w[5] + (0.5 if w[3] > 1 else 0):
                        return [("argument", f"{where}: prints {g!r} for {w}")]
                    continue
                e = json_param(w)
                if type(g) is not type(e) or g != e:
                    return [("argument", f"{where}: prints {g!r} instead of {e!r}")]
    return []


def source_meaning(src, out):
    """What the language specification says about the project: (operations, routine kinds with targets and names), None if unknown."""
    if src["kind"] == "ssbs":
        s = src["set"]
        return ssbgen.resolve(s), None
    if src["kind"] != "proj":
        return None
    proj = src["proj"]
    main = proj["files"][proj["main"]]
    defs = [d for d in main["defs"] if d["t"] != "macro"]
    try:
        if main.get("imports") or len(defs) < len(main["defs"]):
            ops = c05.Model(proj, out).meaning()
        else:
            ops = meaning.routines([None if d.get("alias") else d["body"] for d in defs])
    except (meaning.NoMeaning, c05.RefusedReference):
        return None
    if ops is None or any(d.get("id", i) != i for i, d in enumerate(defs)):
        return None
    kinds = []
    for d in defs:
        t = None
        if "target" in d:
            a = meaning.arg(d["target"])
            t = a[1]
        kinds.append([{"generic": "GENERIC", "coro": "COROUTINE"}.get(d["t"], d["t"].upper()), t, d.get("name")])
    return ops, kinds


# ------------------------------------------------------------------------------------------------ execution
class World:
    """The file system between processes, and what the model expects of the next one."""

    def __init__(self, plan, root, out):
        self.plan, self.root, self.out = plan, root, out
        self.main = None
        self.lookups = []
        self.compiled_doc = None  # (bytes of doc.json, API result it was printed from)
        self.original = {}
        self.cache = {}
        os.makedirs(os.path.join(root, "elsewhere"))
        src = plan.get("src")
        self.base = ""
        if src:
            self.settings_kind = plan["settings"]["kind"]
            self.put("settings.json", settings_bytes(plan["settings"]))
            self.write_source(src)
        if plan.get("doc"):
            self.put("in.json", doc_bytes(plan["doc"]))
        for p in (self.main, "in.json"):
            if p:
                self.original[p] = self.get(p)

    def put(self, rel, data):
        p = os.path.join(self.root, rel)
        if os.path.isdir(p):
            os.rmdir(p)
        if data is None:
            if os.path.exists(p):
                os.unlink(p)
        elif data == "dir":
            if os.path.exists(p):
                os.unlink(p)
            os.makedirs(p)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(data)

    def get(self, rel):
        p = os.path.join(self.root, rel)
        if os.path.isdir(p):
            return "dir"
        if not os.path.exists(p):
            return None
        with open(p, "rb") as fh:
            return fh.read()

    def write_source(self, src):
        k = src["kind"]
        if k in ("missing", "dir"):
            self.main = "p/main.exps"
            if k == "dir":
                os.makedirs(os.path.join(self.root, self.main))
            return
        if k == "output":
            self.main = src["main"]
            return
        if k == "ssbs":
            from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler

            s = src["set"]
            t, _ = SsbScriptSsbDecompiler(*ssbgen.build(s["infos"], ssbgen.resolve(s), s["coros"])).convert(prefix="//?: is-ssb-script: true\n")
            self.main = "p/main.exps"
            disk.write_tree(self.root, {self.main: t})
            return
        base = os.path.join(self.root, "p")
        if k == "text":
            tree, main, lookups = src["files"], src["main"], src["lookups"]
        else:
            proj = src["proj"]
            tree, main, lookups = {}, proj["main"], proj["lookups"]
            for p, f in proj["files"].items():
                tree[p] = lang.to_text({**f, "imports": [i.replace("${ROOT}", base) for i in f["imports"]]}, src["style"])
            for p, to in proj["decoys"].items():
                tree[p] = c05.decoy_text(proj, to)
        for lp in lookups:
            os.makedirs(os.path.join(base, lp), exist_ok=True)
        disk.write_tree(base, tree)
        self.main = "p/" + main
        self.lookups = ["p/" + lp for lp in lookups]

    def path_of(self, name):
        return self.main if name == "main" else name

    # -- the model
    def expect_compile(self):
        """("ok", api result, settings) | ("fail", why) | ("any", why)"""
        try:
            _, st = read_settings(self.get("settings.json"))
        except Bad as e:
            return ("fail", f"settings: {e}")
        except Murky as e:
            return ("any", str(e))
        data = self.get(self.main)
        if data is None or data == "dir":
            return ("fail", "no source")
        try:
            text = data.decode("utf-8")
        except UnicodeDecodeError:
            return ("fail", "source is not UTF-8")
        text = text.replace("\r\n", "\n").replace("\r", "\n")
        r = self.memo(["c", text, st["performance_progress_list_var_name"]], lambda: api_compile(
            text, os.path.join(self.root, self.main), [os.path.join(self.root, lp) for lp in self.lookups]))
        if r[0] == "ok" and st["performance_progress_list_var_name"] == PPL:
            return ("ok", r, st)
        return ("fail", r[1])

    def expect_decompile(self, rel):
        data = self.get(rel)
        try:
            d, st = read_settings(data)
            infos, coros, ops = read_doc(d)
        except Bad as e:
            return ("fail", f"document: {e}")
        except Murky as e:
            return ("any", str(e))
        r = self.memo(["d", infos, coros, ops, st], lambda: api_decompile(infos, coros, ops, st))
        if r[0] == "ok":
            return ("ok", r, (infos, coros, ops))
        return ("fail", r[1])

    def memo(self, key, fn):
        k = core.digest(key)
        if k not in self.cache:
            self.cache[k] = fn()
        return self.cache[k]


def argv_of(w, step):
    """The command line; paths are absolute or relative to the working directory."""
    style = step.get("style", 0)
    cwd = os.path.normpath(os.path.join(w.root, step.get("cwd", ".")))

    def p(rel):
        full = os.path.join(w.root, rel)
        return full if style & 1 else os.path.relpath(full, cwd)

    if step["cmd"] == "decompile":
        a = [p(step["doc"])]
        if step.get("smap"):
            a += ["--source-map", p(step["smap"])]
        return a, cwd
    a = [p(w.main), "--settings", p("settings.json")]
    if step.get("smap"):
        sm = ["--source-map", p(step["smap"])]
        a = sm + a if style & 2 else a + sm
    if w.lookups:
        if style & 4:
            a += ["--lookup"] + [p(x) for x in w.lookups]
        else:
            for x in w.lookups:
                a += ["--lookup", p(x)]
    return a, cwd


def execute(plan, out):
    from sim import boot

    root = disk.scratch("c15", core.digest(plan))
    try:
        w = World(plan, root, out)
        for k, step in enumerate(plan["steps"]):
            if step["cmd"] == "act":
                do_act(w, step)
                continue
            if not do_step(w, plan, k, step, boot.REPO):
                break
    finally:
        shutil.rmtree(root, ignore_errors=True)


def do_act(w, step):
    rel = w.path_of(step["path"])
    data = w.get(rel)
    k = step["do"]
    if k == "restore":
        w.put(rel, w.original.get(rel))
        return
    w.out.fault("between-" + k)
    if k == "remove":
        w.put(rel, None)
    elif k == "dir":
        w.put(rel, None if data == "dir" else "dir")
    elif isinstance(data, bytes) and data:
        i = int(step["at"] * len(data))
        w.put(rel, data[:i] if k == "truncate" else data[:i] + bytes([step.get("byte", 0)]) + data[i + 1:])


def do_step(w, plan, k, step, repo):
    out = w.out
    cmd = step["cmd"]
    exp = w.expect_compile() if cmd == "compile" else w.expect_decompile(step["doc"])
    made = cmd == "decompile" and w.compiled_doc is not None and step["doc"] == "doc.json" and w.get("doc.json") == w.compiled_doc[0]
    argv, cwd = argv_of(w, step)
    rules = [dict(r, path=w.path_of(r["path"])) for r in step.get("rules", [])]
    module = COMPILE if cmd == "compile" else DECOMPILE
    if step.get("smap") and w.get(step["smap"]) == "dir":
        exp = ("fail", "the source map path is a directory") if exp[0] == "ok" else exp
    if step.get("real") and not rules:
        res = proc.run_real(module, argv, cwd, repo, step.get("stdout"), out)
        out.hit("commands-as-real-processes")
    else:
        res = proc.run(module, argv, cwd, step.get("stdout"), step.get("stderr"), rules, w.root, out)
        out.hit("commands-as-simulated-processes")
    out.events += res["ops"] + 1
    if w.get(step["to"]) != "dir":
        w.put(step["to"], res["stdout"])  # the shell's redirection
    what = f"step {k} {cmd} {' '.join(argv)}".replace(w.root, "ROOT")
    err = res["stderr"].decode("utf-8", "replace").replace(w.root, "ROOT")
    fired = [f for f in res["fired"] if f[2] != "short"]
    if (step.get("stdout") or {}).get("enc"):
        out.fault("stdout-ascii")
    out.log.append([cmd, res["status"], core.digest(res["stdout"].decode("utf-8", "replace").replace(w.root, "ROOT")), fired])
    out.hit(f"{cmd}-{exp[0]}" + ("-fault" if fired else ""))
    out.state([shape(plan), [[s["cmd"], s.get("stdout"), s.get("rules"), s.get("do")] for s in plan["steps"][: k + 1]], res["status"], exp[0]])
    nowhere = step.get("smap") in NOWHERE
    if nowhere:
        out.fault("source-map-in-no-directory")
    if res["killed"]:
        out.hit("killed")
        w.compiled_doc = None
        return True
    if cmd == "compile":
        w.compiled_doc = None
    status = res["status"]
    if status != 0:
        if not res["stderr"] and not step.get("stderr"):
            out.violate("silent-failure", f"{what}: status {status} and nothing on stderr")
            return False
        if nowhere:
            return True
        if made and not fired and not unencodable(step, exp):
            if well_formed(w.compiled_doc[1][2]):
                out.violate("compiled-document-refused", f"{what}: status {status} for a document the compile command printed: {err[-400:]}")
                return False
            return True
        if exp[0] == "ok" and not fired and not unencodable(step, exp):
            out.violate(f"{cmd}-refused", f"{what}: status {status} although the input is valid: {err[-400:]}")
            return False
        if cmd == "decompile" and plan.get("doc", {}).get("straight") and step.get("final") and not fired:
            out.violate("document-refused", f"{what}: status {status} for a document following the docs: {err[-400:]}")
            return False
        return True
    # status 0: everything has to be there
    if exp[0] == "fail":
        out.violate(f"{cmd}-status-0-on-failure", f"{what}: status 0 although {exp[1]}; stdout {res['stdout'][:100]!r} stderr {err[-200:]!r}")
        return False
    if exp[0] == "any":
        if not res["stdout"].strip() and not err:
            out.violate(f"{cmd}-status-0-without-output", f"{what}: status 0, nothing printed")
            return False
        return True
    if step.get("smap"):
        sm = w.get(step["smap"])
        want = exp[1][4] if cmd == "compile" else exp[1][2]
        if sm is None or sm == "dir" or not same_map(sm, want):
            out.violate(f"{cmd}-source-map", f"{what}: status 0, faults {fired}, source map file {sm if sm in (None, 'dir') else sm[:200]!r} instead of {want[:200]!r}")
            return False
        out.hit("source-maps-written")
    if cmd == "compile":
        try:
            doc = json.loads(res["stdout"].decode("utf-8"))
        except ValueError:
            out.violate("compile-output-incomplete", f"{what}: status 0, faults {fired}, but stdout is no JSON: {res['stdout'][:100]!r} ... {res['stdout'][-100:]!r}")
            return False
        for sig, msg in compare_doc(doc, exp[1], exp[2])[:1]:
            out.violate("printed-" + sig, f"{what}: {msg}")
            return False
        w.compiled_doc = (res["stdout"], exp[1])
        ops = exp[1][2]
        if step.get("final") and not fired:
            want = source_meaning(plan["src"], out)
            if want is not None:
                kinds = [[TYPES[t], (nm if nm is not None else lt) if t not in (1, 9) else None, co] for (t, lt, nm), co in zip(exp[1][1], exp[1][3])]
                try:
                    diff = meaning.differs(ops, want[0]) if len(ops) == len(want[0]) else f"{len(ops)} routines instead of {len(want[0])}"
                except flow.Malformed as e:
                    diff = str(e)
                if want[1] is not None and not diff and kinds != want[1]:
                    diff = f"routines {kinds} instead of {want[1]}"
                if diff:
                    out.violate("not-what-the-source-says", f"{what}: compiled (left) and the specification's meaning of the source (right) differ: {diff}")
                    return False
                out.hit("documents-compared-with-the-specification")
        jumps = sum(1 for r in ops for _, n, _ in r if n in flow.JUMP_AT)
        out.hit("jumps-printed", jumps)
        if any(off != i + 1 for i, off in enumerate(off for r in ops for off, _, _ in r)):
            out.hit("documents-with-dropped-ops")
        for i in exp[1][1]:
            out.hit("printed-" + TYPES[i[0]])
        return True
    text = res["stdout"].decode((step.get("stdout") or {}).get("enc", "utf-8"))
    if text.rstrip("\n") != exp[1][1].rstrip("\n"):
        out.violate("decompile-output", f"{what}: status 0, faults {fired}, stdout differs from the decompiler's text: "
                    + first_diff(text, exp[1][1]))
        return False
    for i in exp[2][0]:
        out.hit("read-" + TYPES[i[0]])
    for r in exp[2][2]:
        for _, _, ps in r:
            for p in ps:
                out.hit("argument-" + p[0])
    if made and well_formed(w.compiled_doc[1][2]):
        src = w.compiled_doc[1]
        return round_trip(w, what, text, src[1], src[3], src[2], "compiled-program")
    if plan.get("doc", {}).get("straight") and step["doc"] == "in.json" and step.get("final"):
        return round_trip(w, what, text, exp[2][0], exp[2][1], exp[2][2], "document")
    return True


def unencodable(step, exp):
    enc = (step.get("stdout") or {}).get("enc")
    if not enc or exp[0] != "ok" or step["cmd"] != "decompile":
        return False
    try:
        exp[1][1].encode(enc)
        return False
    except UnicodeEncodeError:
        return True


def round_trip(w, what, text, infos, coros, ops, kind):
    """The decompiled text, compiled again, behaves like what it was made from."""
    out = w.out
    r = api_compile(text, os.path.join(w.root, "again.exps"), [])
    if r[0] != "ok":
        out.violate(f"{kind}-text-refused", f"{what}: the printed text does not compile: {r[1]}: {text[:600]!r}")
        return False
    a = [[t, lt if nm is None and t not in (1, 9) else None, nm] for t, lt, nm in infos]
    b = [[t, lt if nm is None and t not in (1, 9) else None, nm] for t, lt, nm in r[1]]
    if a != b or coros != r[3]:
        out.violate(f"{kind}-routines-differ", f"{what}: {list(zip(a, coros))} became {list(zip(b, r[3]))}")
        return False
    try:
        fa, fb = flow.Flow(meaning.same_values(ops)), flow.Flow(meaning.same_values(r[2]))
        for i in range(len(ops)):
            if not ops[i] and not r[2][i]:
                continue  # alias of the previous routine
            diff = flow.behaves_same(fa, (i, 0), fb, (i, 0))
            if diff:
                out.violate(f"{kind}-behaves-differently", f"{what}: routine {i}: original (left) and decompiled (right) differ: {diff}")
                return False
    except flow.Malformed as e:
        out.violate(f"{kind}-malformed", f"{what}: {e}")
        return False
    out.hit(f"round-trips-{kind}")
    return True


def same_map(data, want):
    try:
        return json.loads(data.decode("utf-8")) == json.loads(want)
    except ValueError:
        return False


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"at {i}: {a[max(0, i - 40):i + 60]!r} instead of {b[max(0, i - 40):i + 60]!r}"
    return f"lengths {len(a)} and {len(b)}: ends {a[-60:]!r} and {b[-60:]!r}"


def shape(plan):
    if plan.get("src"):
        s = plan["src"]
        if s["kind"] == "proj":
            return ["proj", [[p, [[d["t"], d.get("alias"), [x["k"] for x in d.get("body") or []]] for d in f["defs"]]] for p, f in s["proj"]["files"].items()]]
        if s["kind"] == "ssbs":
            return ["ssbs", [[e[0] for e in r] for r in s["set"]["ops"]]]
        return [s["kind"], core.digest(s.get("files"))]
    d = plan["doc"]
    return ["doc", d.get("defect"), [[i[0], i[2] is None, [[e[0], [p[0] for p in e[1]]] for e in r if e[0] != "@"]] for i, r in zip(d["set"]["infos"], d["set"]["ops"])]]


# ------------------------------------------------------------------------------------------------ reports
def describe(plan):
    o = {"steps": plan["steps"]}
    if plan.get("src"):
        s = plan["src"]
        o["settings"] = plan["settings"]
        if s["kind"] == "proj":
            o["files"] = {p: lang.to_text(f, s["style"]) for p, f in s["proj"]["files"].items()}
            o["lookups"] = s["proj"]["lookups"]
        elif s["kind"] == "ssbs":
            o["set"] = ssbgen.text(s["set"])
        else:
            o["source"] = {k: v for k, v in s.items()}
    if plan.get("doc"):
        b = doc_bytes(plan["doc"])
        o["document"] = b.decode("utf-8", "replace") if isinstance(b, bytes) else b
        o["defect"] = plan["doc"].get("defect")
    return o


def shrink(plan):
    steps = plan["steps"]
    for c in core.shrink_list(steps, 1):
        yield {**plan, "steps": c}
    for i, s in enumerate(steps):
        for key in ("rules", "stdout", "stderr", "smap", "real"):
            if s.get(key):
                yield {**plan, "steps": steps[:i] + [{x: v for x, v in s.items() if x != key}] + steps[i + 1:]}
        if s.get("style") or s.get("cwd", ".") != ".":
            yield {**plan, "steps": steps[:i] + [{**s, "style": 0, "cwd": "."}] + steps[i + 1:]}
    src = plan.get("src")
    if src and src["kind"] == "proj":
        proj = src["proj"]
        if len(proj["files"]) == 1:
            for f in lang.shrink_file(proj["files"][proj["main"]]):
                ds = [dict(d, **({"id": i} if "id" in d else {})) for i, d in enumerate(f["defs"])]
                yield {**plan, "src": {**src, "proj": {**proj, "files": {proj["main"]: {**f, "defs": ds}}}}}
        else:
            for c in c05.shrink({"proj": proj, "style": src["style"], "rules": []}):
                yield {**plan, "src": {**src, "proj": c["proj"], "style": c["style"]}}
        if src["style"]:
            yield {**plan, "src": {**src, "style": 0}}
    if src and src["kind"] == "ssbs":
        for s in ssbgen.shrink(src["set"]):
            yield {**plan, "src": {**src, "set": s}}
    if src and src["kind"] == "text" and isinstance(src["files"][src["main"]], str):
        t = src["files"][src["main"]]
        lines = t.split("\n")
        for c in core.shrink_list(lines):
            yield {**plan, "src": {**src, "files": {**src["files"], src["main"]: "\n".join(c)}}}
    doc = plan.get("doc")
    if doc:
        for s in ssbgen.shrink(doc["set"]):
            if s["ops"]:
                yield {**plan, "doc": {**doc, "set": s}}


def setup(tier):
    warm.warm()
