"""C10: compilation fails only in documented ways and rejects meaningless programs."""
import json
import os
import posixpath
import random
import re
import shutil
import sys

from checks import c05
from sim import core, disk, lang, ssbgen
from sim.lang import PPL

PROP = "C10"
LEVEL = "exploration"
RULE = ("distinct = different (mode, kind of corruption or defect, outcome type and message with numbers and names blanked, "
        "disk faults fired)")
SIM_TIME = "none: no clock is read; a run is one compile call over a simulated disk"
COMPONENTS = {
    "real": ["explorerscript compiler (both languages, imports, macros)", "antlr4", "igraph", "file contents on tmpfs"],
    "stub": ["open/stat/read of imported files: pass through the simulated disk, which fails, truncates, garbles, swaps or removes"],
}
ASSUMPTIONS = [
    "texts of at most about 60 kB; no answer means more than 15 million interpreter line events",
    "no macro or import graphs whose expansion is exponential",
    "an allocation failure below 3 GB of address space counts as an undocumented exception",
]
TIERS = {
    "quick": {"runs": 12000, "budget_s": 80, "determinism_sample": 150},
    "thorough": {"runs": 3000000, "budget_s": 1700, "determinism_sample": 1500},
}
RUN_TIMEOUT = 20
STEP_LIMIT = 15_000_000

TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_$][\w$]*|0x[0-9a-f]+|-?\d+\.\d+|-?\d+|&<<|[=!<>]=|[-+*/]=|\|\||\s+|.', re.S)
TOK_STR = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'', re.S)
POOL = ("def macro coro if else elseif while for forever switch case default break continue break_loop return end hold jump call "
        "@l1 @ § ; : { } ( ) [ ] < > = == , $A 0 1 -1 1.5 'x' \"y\" not value scn with actor object performer alias previous "
        "import random sector dungeon_mode menu menu2 clear init reset dungeon_result adventure_log message_SwitchTalk "
        "message_SwitchMonologue debug edit variation ~m Position english= && \\ # \x00 \ufffe é \n for_actor TRUE & ^ || += "
        "Position<'m',1,2> Position<'m',1.5,2.25> Position<\"\",-1,.5> 0x 0b2 09 1. -0 00 999999999999999999999 $ ~ \"\"\" ''' \"\"\"a\nb\"\"\" "
        "{english='a'} {} op() op(1,) op<actor>() x<foo 1>() message_Talk Jump Return Null for_performer(1) "
        "\u2028 \U0001f600 \ud800 /* */ // //?: \t \r \x0c \x1a").split(" ")


# ------------------------------------------------------------------------------------------------ generation
def project(rng, **kw):
    for _ in range(50):
        p = c05._gen(rng, "quick")
        if p:
            return p["proj"]


def program(rng):
    """A valid project, mostly a single file."""
    if rng.random() < 0.45:
        return project(rng)
    f = lang.gen_program(rng, macros=None, width=rng.randrange(1, 5), depth=rng.randrange(1, 4))
    return {"files": {"main.exps": f}, "main": "main.exps", "lookups": [], "decoys": {}}


def as_text(proj, style=0):
    return {p: lang.to_text(f, style) for p, f in proj["files"].items()}


def corrupt(rng, t, n=None):
    toks = TOK.findall(t) or [";"]
    for _ in range(n or rng.choice([1, 1, 1, 2, 3, 6, 12])):
        i = rng.randrange(len(toks))
        k = rng.randrange(7)
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, " " + rng.choice(POOL) + " ")
        elif k == 2:
            toks[i] = " " + rng.choice(POOL) + " "
        elif k == 3:
            toks.insert(i, toks[rng.randrange(len(toks))])
        elif k == 4:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 5:
            j = min(len(toks), i + rng.randrange(1, 10))
            x = toks[i:j]
            del toks[i:j]
            if rng.random() < 0.5:
                at = rng.randrange(len(toks) + 1)
                toks[at:at] = x
        else:
            # swap one token for another of the same kind: stays grammatical more often
            def kind(z):
                return "w" if re.match(r"[A-Za-z_$]", z) else "n" if re.match(r"-?\d", z) else "s" if z[:1] in "\"'" else z

            same = [x for x in toks if kind(x) == kind(toks[i])]
            toks[i] = rng.choice(same)
        if not toks:
            toks = [";"]
    return "".join(toks)


def corrupt_bytes(rng, t):
    b = bytearray(t.encode("utf-8", "surrogatepass"))
    for _ in range(rng.choice([1, 1, 2, 5])):
        if not b:
            b = bytearray(b";")
        i = rng.randrange(len(b))
        k = rng.randrange(4)
        if k == 0:
            b[i] = rng.randrange(256)
        elif k == 1:
            del b[i:i + rng.randrange(1, 30)]
        elif k == 2:
            b[i:i] = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 6)))
        else:
            del b[i:]
    return b.decode("utf-8", rng.choice(["replace", "surrogateescape", "ignore"]))


HEADS = ["//?: is-ssb-script: true", "//?: is-ssb-script: 1", "//?: is-ssb-script: false", "//?:", "//?: x", "//?: a: b: c",
         "//?:is-ssb-script:true", "  //?: is-ssb-script:  true  ", "//?: is-ssb-script: TRUE", "//?: :", "//?: \x00: é"]


def gen(rng, idx, tier):
    plan = gen_case(rng, tier)
    if rng.random() < 0.25:
        # the interpreter's stack ends early: 1000 frames are Python's default, importing the decompiler makes it 10000
        plan["stack"] = rng.choice([1000, 1000, 1000, int(10 ** rng.uniform(1.8, 3))])
    return plan


def gen_case(rng, tier):
    m = rng.random()
    if m < 0.27:
        return gen_corrupt(rng)
    if m < 0.37:
        return gen_ssbs(rng)
    if m < 0.45:
        return gen_degenerate(rng)
    if m < 0.48:
        return gen_deep(rng, tier)
    if m < 0.62:
        return gen_imports(rng)
    if m < 0.65:
        return gen_meaningless_ssbs(rng)
    return gen_meaningless(rng, tier)


def text_plan(mode, kind, files, main="main.exps", lookups=(), rules=(), expect="documented"):
    return {"mode": mode, "kind": kind, "files": files, "main": main, "lookups": list(lookups), "rules": list(rules), "expect": expect}


def gen_corrupt(rng):
    p = program(rng)
    t = as_text(p, rng.choice([0, 0, 2]))
    for d, to in p["decoys"].items():
        t[d] = c05.decoy_text(p, to)
    at = p["main"] if rng.random() < 0.6 else rng.choice(list(t))
    if rng.random() < 0.15:
        t[at] = corrupt_bytes(rng, t[at])
        kind = "bytes"
    else:
        t[at] = corrupt(rng, t[at])
        kind = "tokens"
    if rng.random() < 0.1:
        t[at] = rng.choice(HEADS) + rng.choice(["\n", "\r\n", "", "\u2028"]) + t[at]
        kind += "+head"
    if rng.random() < 0.03:
        t[at] = "".join(rng.choice(POOL) + rng.choice(["", " ", "\n"]) for _ in range(rng.randrange(0, 40)))
        kind = "soup"
    return text_plan("corrupt", kind, t, p["main"], p["lookups"])


def gen_ssbs(rng):
    s = ssbgen.SsbGen(rng).gen()
    return {"mode": "ssbscript", "kind": "tokens", "set": s, "seed": rng.random(), "n": rng.choice([0, 1, 1, 2, 3, 8]),
            "head": rng.choice(HEADS[:3] + HEADS[:2] * 3), "expect": "documented", "bytes": rng.random() < 0.15}


def gen_degenerate(rng):
    k = rng.choice(["ids", "ids", "ids", "labels", "only-label", "heads", "alias", "empty", "mixed", "huge-id", "neg-id", "strings", "args"])
    r = rng
    body = lambda: r.choice(["op();", "@l;", "end;", "§x;", "jump @l; @l;", "@a; @b; @a;", "alias previous;", "if (debug) { }",
                             "switch ($X) { }", "if (debug) { @q; }", "~m();", "forever { }", "while (debug) { }", "hold; @z;",
                             "for ($X = 1; debug; $X = 2;) { }", "return;", "if (debug) { jump @k; } @k;", "call @c; @c;",
                             "switch ($X) { case 1: break; }", "switch ($X) { default: break; }", "with (actor 0) { op(); }",
                             "with (actor 0) { end; }", "with (actor 0) { jump @w; } @w;", "op<actor 1>(); @t;",
                             "if (debug) { @p; } jump @p;", "switch ($X) { case 1: @s; }", "switch (sector()) { case 2: @s1; break; } jump @s1;",
                             "message_SwitchTalk ($X) { }", "message_SwitchTalk ($X) { default: 'x' }", "with (object 1) { $X = 1; }",
                             "Jump(1);", "Jump(0);", "Return();", "Branch($X, 1, 5);", "Call();", "lives(0);", "lives(0); end;",
                             "CaseText(0, 'x');", "DefaultText('y');", "Null(1);"])
    head = lambda i: r.choice([f"def {i}", f"def {i} for actor 1", f"def {i} for_object(X)", f"def {i} for performer $V", f"coro C{i}",
                               f"def {i} for actor 1.5", f"def {i} for banana 2", f"def {i} for_actor X"])
    n = r.randrange(1, 5)
    if k in ("ids", "mixed"):
        ids = [r.choice([0, 1, 2, 3, 5, 9]) for _ in range(n)]
    elif k == "huge-id":
        ids = [0] * (n - 1) + [r.choice(["65536", "100000", "9999999", "99999999", "0xffffffff", "18446744073709551616", "1" + "0" * 30, "1" * 5000])]
    elif k == "neg-id":
        ids = [r.choice(["-1", "-2", "-0", "-100"])] + [r.choice([0, 1, "-1"]) for _ in range(n - 1)]
    else:
        ids = list(range(n))
    t = ""
    if k == "heads":
        t = "".join(r.choice(HEADS) + r.choice(["\n", "", "\r", "\r\n", "\x0b", "\u2028"]) for _ in range(r.randrange(1, 4)))
        if r.random() < 0.4:
            return text_plan("degenerate", k, {"main.exps": t})
    if k == "empty":
        return text_plan("degenerate", k, {"main.exps": r.choice(["", " ", "\n", "// x", "/*", "/**/", "macro m() { op(); }", "import 'x';", "\ufeff", "\x00",
                                                              "macro m($a $b) { op(); }", "macro m(, $a) { op(); }", "macro m($a, $a) { op($a); } def 0 { ~m(1); }",
                                                              "macro m() { alias previous; } def 0 { ~m(); }", "//", "def 0 { }", "def 0 { alias previous; }"])})
    for i in ids:
        if k in ("only-label", "labels"):
            b = r.choice(["@l;", "§l; @m;", "@l; jump @l;", "jump @x; @x;", "@a; @a;"]) if k == "only-label" or r.random() < 0.5 else body()
        elif k == "alias":
            b = r.choice(["alias previous;", body()])
        elif k == "strings":
            b = "op(" + ", ".join(r.choice(['"\\', '"\\"', "'''a'''", '"""a\n  b\n c"""', "'\\n'", '"""', "''", "'''''''", "{english='a', english=\"b\"}",
                                             "{x='a'}", "Position<'a', 1, 2>", "Position<'a', -1.5, 2.25>", "Position<'', 99999999999, 1>",
                                             "Position<'a', 0x5, 1>", "Position<'a', 1.75, 2>", "Position<'''a''', 1, 2>", "'\\'"]) for _ in range(r.randrange(1, 4))) + ");"
        elif k == "args":
            b = r.choice(["op(-1.5, 0x7f, 0b11, 0o17, 00.10, -0.0);", "op(1.123456789);", "op(99999.9);", "op(-99999.99999999);", "op(.5);", "op(5.);",
                          "$X[99999] = 1;", "$X[-1] = 1;", "if ($X[0x3]) { op(); }", "$X = value(value(1));", "dungeon_mode(1) = 5;",
                          "dungeon_mode(1.5) = X;", "$X = scn[-1, 1.5];", "if (scn($X) == [1.5, 2]) { op(); }", "1 = 2;", "X[1] += 2;", "$X[2] += value($Y);",
                          "if (1 == 2) { op(); }", "if (not 1[2]) { op(); }", "if (op()) { op(); }", "switch (op()) { case 1: break; }",
                          "switch ($X) { case menu('a'): break; }", "if ($X > 1.5) { end; }", "if (BranchSum()) { end; }", "op(9" + "9" * 4400 + ");",
                          "switch (scn($X)[5]) { case 1: break; }", "switch (scn($X)[-1]) { case 1: break; }", "switch (scn($X)[1.5]) { case 1: break; }",
                          "clear 5;", "init 1.5;", "reset scn(5);", "adventure_log = 1.5;", "switch (random(1.5)) { case 1.5: break; }",
                          "with (actor 1.5) { op(); }", "with (banana 1) { op(); }", "op<banana 1>();", "op<actor 1.5>();", "with (actor 1) { op<actor 2>(); }",
                          "if (op<actor 1>()) { end; }", "if (Branch($X, 1)) { end; }", "switch (Switch($X)) { case 1: break; }"])
        else:
            b = " ".join(body() for _ in range(r.randrange(1, 3)))
        t += f"{head(i) if k in ('mixed', 'heads') or r.random() < 0.3 else f'def {i}'} {{ {b} }}\n"
    if r.random() < 0.2:
        t += "macro m() { " + body() + " }\n"
    if r.random() < 0.15:
        t = "//?: is-ssb-script: true\n" + t.replace("@", "@")
    return text_plan("degenerate", k, {"main.exps": t})


def gen_deep(rng, tier):
    n = int(10 ** rng.uniform(0.5, 2.6 if tier == "quick" else 3.2))
    k = rng.choice(["if", "forever", "switch", "while", "elseif", "or", "args", "braces", "comments", "macros", "parens", "for", "else", "ssbs"])
    if k in ("elseif", "or", "args", "comments", "ssbs"):
        n *= 5
    o, c, mid = {"if": ("if (debug) {\n", "}", "op();"), "forever": ("forever {", "}", "op();"), "while": ("while (edit) {", "}", "op();"),
                 "switch": ("switch ($X) { case 1: ", " break; }", "op();"), "else": ("if (debug) { op(); } else {", "}", "op();"),
                 "for": ("for ($X = 1; debug; $X = 2;) {", "}", "op();"), "braces": ("{", "}", ""), "parens": ("op(", ")", "1"),
                 }.get(k, ("", "", ""))
    t = "def 0 { " + o * n + mid + c * n + " end; }"
    if k == "elseif":
        t = "def 0 { if (debug) { op(); }" + " elseif (edit) { op(); }" * n + " end; }"
    elif k == "or":
        t = "def 0 { if (debug" + " || edit" * n + ") { op(); } end; }"
    elif k == "args":
        t = "def 0 { op(1" + ", 'x'" * n + "); end; }"
    elif k == "comments":
        t = "/*" * n + "*/ def 0 { end; }"
    elif k == "macros":
        n = min(n, 120)
        ms = [f"macro m{i}() {{ " + (f"~m{i - 1}();" if i else "op();") + " }" for i in range(n)]
        rng.shuffle(ms)
        t = "\n".join(ms) + f"\ndef 0 {{ ~m{n - 1}(); end; }}"
    elif k == "ssbs":
        t = "//?: is-ssb-script: true\ndef 0 { " + "Op(1, 'x'); @l%d;" * 0 + " ".join(f"@l{i}; Jump(@l{i});" for i in range(n)) + " }"
    if rng.random() < 0.2:
        t = t[: rng.randrange(len(t))]
    return text_plan("deep", k, {"main.exps": t})


def gen_meaningless_ssbs(rng):
    """SsbScript is compiled by the same entry point: undefined labels in it, and its routines in imported files."""
    for _ in range(20):
        p = gen_ssbs(rng)
        p["n"] = 0
        p["head"] = rng.choice(HEADS[:2])
        try:
            t = materialise(p, "")[0]["main.exps"]
        except Exception:
            continue
        used = sorted(set(re.findall(r"[@§](\w+)\s*[,)]", re.sub(TOK_STR, "''", t))))
        if rng.random() < 0.4:
            main = "".join(f"import {lang.q(x)};\n" for x in rng.choice([["./lib.exps"], ["lib.exps"], ["./a.exps", "./d/../lib.exps"], ["./lib.exps", "./a.exps"]]))
            files = {"main.exps": main + rng.choice(["", "def 0 { end; }\n", "macro m() { op(); }\ndef 0 { ~m(); end; }\n"]), "lib.exps": t,
                     "a.exps": "macro am() { op(); }\n", "d/x": ""}
            return text_plan("meaningless", "routine-in-ssbscript-import", files, lookups=["nowhere", "."], expect="rejected")
        if not used:
            continue
        lab = rng.choice(used)
        t2 = re.sub(r"(?m)^\s*[@§]" + lab + r";$", "", t)
        if rng.random() < 0.3:
            t2 = re.sub(r"(?m)^(\s*)([@§])" + lab + r";$", r"\1\2" + lab + "x;", t)
        if t2 == t:
            continue
        return text_plan("meaningless", "undefined-label-ssbscript", {"main.exps": t2}, expect="rejected")
    return gen_corrupt(rng)


def gen_imports(rng):
    """Import graphs with missing files, cycles, directories, broken files and disk faults."""
    n = rng.randrange(1, 5)
    dirs = ["", "a", "a/b", "lib"]
    names = [posixpath.join(rng.choice(dirs), f"f{i}.exps") for i in range(n)]
    names[0] = rng.choice(["main.exps", "a/main.exps"])
    lookups = rng.sample(["lib", "a", "a/b", "nowhere"], rng.randrange(0, 3))
    files = {}
    edges = {i: set() for i in range(n)}
    for i in range(n):
        for j in range(n):
            if j != i and rng.random() < (0.45 if j > i else 0.06):
                edges[i].add(j)
        if rng.random() < 0.03:
            edges[i].add(i)
    missing = False
    for i in range(n):
        imps = []
        for j in sorted(edges[i]):
            d = posixpath.dirname(names[i])
            rel = posixpath.relpath(names[j], d or ".")
            form = rng.random()
            looks = [lp for lp in lookups if names[j].startswith(lp + "/")]
            if form < 0.2:
                imps.append("${ROOT}/" + names[j])
            elif form < 0.45 and looks:
                imps.append(posixpath.relpath(names[j], looks[0]))
            else:
                imps.append(rel if rel.startswith("../") else "./" + rel)
        if rng.random() < 0.12:
            bad = rng.choice(["./missing.exps", "../missing.exps", "missing.exps", "/nonexistent/dir/x.exps", "", ".", "..", "./", "/", "lib", "./a", "~/x",
                              "../" * 30, "\x00", "./\x00", "x" * 300, "./" + "y" * 5000, "a/../b", "a/./b", "./f0.exps/x", "C:\\x", "é", "./\ud800",
                              "file:///x", "//", ".hidden", "./a b", "x\\ny"])
            imps.insert(rng.randrange(len(imps) + 1), bad)
            missing = missing or bad in ("./missing.exps", "../missing.exps", "missing.exps", "/nonexistent/dir/x.exps")
        t = "".join(f"import {lang.q(x)};\n" for x in imps)
        t += f"macro m{i}($a) {{ op({i}, $a);" + "".join(f" ~m{j}($a);" for j in sorted(edges[i]) if j > i) + " }\n"
        if i == 0:
            t += "def 0 { ~m0(1); end; }\n"
        files[names[i]] = t
    kind = "graph"
    rules = []
    reach, stack = set(), [0]
    while stack:
        x = stack.pop()
        if x not in reach:
            reach.add(x)
            stack += edges[x]

    def cyc(x, path):
        return x in path or any(cyc(y, path + [x]) for y in edges[x])

    cyclic = cyc(0, [])
    expect = "documented"
    if cyclic or missing and f"missing.exps" in "".join(files[names[i]] for i in reach):
        expect = "rejected"
        kind = "cyclic-or-missing-import"
    victim = names[rng.choice(sorted(reach - {0}) or [0])]
    z = rng.random()
    if victim != names[0]:
        if z < 0.08:
            files[victim] = None
            kind = "import-of-directory"
            expect = "rejected"
        elif z < 0.16:
            files[victim] = {"hex": rng.choice([b"\xff\xfe", b"macro m() { op('\xe9'); }", b"\x80", b"\xed\xa0\x80", b"macro m1($a) { op(\"\xc3"]).hex()}
            kind = "bad-encoding"
        elif z < 0.22:
            files[victim] = corrupt(rng, files[victim])
            kind = "broken-import"
            expect = "documented"
        elif z < 0.28:
            files[victim] = rng.choice(HEADS) + "\n" + files[victim]
            expect = "documented" if expect != "rejected" else "documented"
            kind = "headed-import"
        elif z < 0.62:
            for _ in range(rng.choice([1, 1, 2])):
                op = rng.choice(["open", "open", "stat", "read"])
                r = {"path": victim, "op": op, "nth": rng.choice([1, 1, 1, 2])}
                if op == "open":
                    r["kind"] = rng.choice(["EIO", "EACCES", "ENOENT", "EMFILE", "ESTALE", "ELOOP", "EISDIR", "vanish", "become-dir", "replace"])
                elif op == "stat":
                    r["kind"] = rng.choice(["EIO", "EACCES", "ESTALE", "vanish", "become-dir", "replace"])
                else:
                    r["kind"] = rng.choice(["EIO", "ESTALE", "EISDIR", "truncate", "short", "garble"])
                    r["after"] = rng.randrange(0, 60)
                    r["chunk"] = rng.randrange(1, 9)
                    r["byte"] = rng.choice([0xFF, 0x80, 0, 0x7B, 0x22])
                if r["kind"] == "replace":
                    r["with"] = rng.choice(["", "def 0 { end; }", "import './f1.exps';", "macro", "//?: is-ssb-script: true\ndef 0 { End(); }", "\udcff"])
                rules.append(r)
            kind += "+disk"
            if any(r["kind"] in ("replace", "truncate", "garble") for r in rules) and expect == "rejected":
                expect = "documented"
    return text_plan("imports", kind, files, names[0], lookups, rules, expect)


# ---- statically meaningless programs: one defect put into a valid program
def positions(body, ctx, path=()):
    """(list, index, context) for every place a statement could be inserted."""
    for i in range(len(body) + 1):
        yield body, i, ctx
    for s in body:
        k = s["k"]
        if k == "if":
            for b in [s["body"]] + [e["body"] for e in s.get("elifs", [])] + ([s["els"]] if s.get("els") is not None else []):
                yield from positions(b, ctx)
        elif k in ("forever", "while", "for"):
            yield from positions(s["body"], {**ctx, "loop": True})
        elif k == "switch":
            for c in s["cases"]:
                if c["body"]:
                    yield from positions(c["body"], {**ctx, "case": True})


def stmts_of(proj, kind):
    out = []
    for p, f in proj["files"].items():
        for d in f["defs"]:
            if d.get("body"):
                c05.walk(d["body"], lambda s: out.append(s) if s["k"] == kind else None)
    return out


DEFECTS = ["break-outside-case", "continue-outside-loop", "break-loop-outside-loop", "undefined-label-jump", "undefined-label-call",
           "switch-ends-in-empty-case", "two-defaults", "two-defaults-message-switch", "statement-in-message-switch", "label-in-with",
           "not-on-bit", "unknown-macro", "recursive-macro", "mutually-recursive-macros", "too-few-arguments", "routine-in-import",
           "missing-import", "cyclic-import", "routine-in-import", "invisible-macro"]


def gen_meaningless(rng, tier):
    d = rng.choice(DEFECTS)
    proj = program(rng)
    if d in ("recursive-macro", "mutually-recursive-macros", "too-few-arguments", "routine-in-import", "cyclic-import", "invisible-macro"):
        proj = project(rng)
    g = lang.Gen(random.Random(rng.random()), labels=False, depth=1)
    g.cfg["macros"] = None
    bodies = []
    for p, f in proj["files"].items():
        for x in f["defs"]:
            if x.get("body"):
                bodies.append((p, x))
    p, x = rng.choice(bodies)
    where = "macro" if x["t"] == "macro" else "routine"
    pos = list(positions(x["body"], {"loop": False, "case": False}))

    def ins(s, need=lambda c: True, only_after=False):
        ok = [(b, i) for b, i, c in pos if need(c)]
        b, i = rng.choice(ok)
        b.insert(i, s)
        s["bad"] = 1

    def wrapped(s):
        # sometimes inside a fresh construct that is no loop or case
        z = rng.random()
        if z < 0.25:
            return {"k": "if", "neg": False, "conds": [g.cond()], "body": [s], "elifs": [], "els": None}
        if z < 0.35:
            return {"k": "if", "neg": False, "conds": [g.cond()], "body": [g.op()], "elifs": [], "els": [s]}
        return s

    if d == "break-outside-case":
        s = {"k": "cntrl", "w": "break", "bad": 1}
        z = rng.random()
        if z < 0.2:
            s = {"k": "forever", "body": [s]}
        elif z < 0.3:
            s = {"k": "while", "neg": False, "c": g.cond(), "body": [s]}
        elif z < 0.4:
            s = {"k": "with", "c": ["actor", {"t": "int", "v": 0}], "s": s}
        s = wrapped(s)
        ok = [(b, i) for b, i, c in pos if not c["case"]]
        b, i = rng.choice(ok)
        b.insert(i, s)
    elif d in ("continue-outside-loop", "break-loop-outside-loop"):
        s = {"k": "cntrl", "w": "continue" if d[0] == "c" else "break_loop", "bad": 1}
        z = rng.random()
        if z < 0.3:
            s = {"k": "switch", "h": {"k": "int", "a": {"t": "var", "v": "$V"}}, "cases": [{"h": {"k": "int", "a": {"t": "int", "v": 1}}, "body": [s]}]}
        elif z < 0.4:
            s = {"k": "with", "c": ["object", {"t": "int", "v": 0}], "s": s}
        s = wrapped(s)
        ok = [(b, i) for b, i, c in pos if not c["loop"]]
        b, i = rng.choice(ok)
        b.insert(i, s)
    elif d.startswith("undefined-label"):
        name = rng.choice(["nowhere", "l9", "L_", "x_x"])
        s = {"k": "jump" if d.endswith("jump") else "call", "n": name, "bad": 1}
        if rng.random() < 0.15:
            s = {"k": "with", "c": ["performer", {"t": "int", "v": 0}], "s": s}
        z = rng.random()
        others = [y for q, y in bodies if y is not x and (y["t"] == "macro" or where == "macro")]
        s = wrapped(s)
        b, i, _ = rng.choice(pos)
        b.insert(i, s)
        if z < 0.35 and others:
            # the label exists, but it is another macro's or the routine's
            y = rng.choice(others)
            y["body"].insert(rng.randrange(len(y["body"]) + 1), {"k": "label", "n": name})
    elif d == "switch-ends-in-empty-case":
        cases = [{"h": {"k": "int", "a": {"t": "int", "v": v}}, "body": [g.op(), {"k": "cntrl", "w": "break"}] if rng.random() < 0.6 else []}
                 for v in range(rng.randrange(0, 3))]
        if rng.random() < 0.3:
            cases.insert(rng.randrange(len(cases) + 1), {"h": None, "body": [g.op()]})
            last = {"h": {"k": "int", "a": {"t": "int", "v": 9}}, "body": []}
        else:
            last = {"h": rng.choice([None, {"k": "int", "a": {"t": "int", "v": 9}}, {"k": "op", "op": ">", "a": {"t": "int", "v": 2}}]), "body": []}
        s = {"k": "switch", "h": rng.choice([{"k": "int", "a": {"t": "var", "v": "$V"}}, {"k": "sector"}, {"k": "random", "a": {"t": "int", "v": 3}}]),
             "cases": cases + [last]}
        ins(s)
    elif d == "two-defaults":
        cases = [{"h": None, "body": [g.op(), {"k": "cntrl", "w": "break"}] if rng.random() < 0.7 else []} for _ in range(2)]
        for v in range(rng.randrange(0, 3)):
            cases.insert(rng.randrange(len(cases) + 1), {"h": {"k": "int", "a": {"t": "int", "v": v}}, "body": [g.op()]})
        if not cases[-1]["body"]:
            cases[-1]["body"] = [g.op()]
        ins({"k": "switch", "h": {"k": "int", "a": {"t": "var", "v": "$V"}}, "cases": cases})
    elif d == "two-defaults-message-switch":
        cases = [{"h": None, "str": g.string()} for _ in range(2)]
        for v in range(rng.randrange(0, 3)):
            cases.insert(rng.randrange(len(cases) + 1), {"h": {"k": "int", "a": {"t": "int", "v": v}}, "str": g.string()})
        ins({"k": "msw", "w": rng.choice(["message_SwitchTalk", "message_SwitchMonologue"]), "a": {"t": "var", "v": "$V"}, "cases": cases})
    elif d == "statement-in-message-switch":
        cases = [{"h": {"k": "int", "a": {"t": "int", "v": v}}, "str": g.string()} for v in range(rng.randrange(0, 3))]
        cases.insert(rng.randrange(len(cases) + 1), {"h": rng.choice([None, {"k": "int", "a": {"t": "int", "v": 7}}]),
                                                     "body": [rng.choice([g.op(), g.asg(), {"k": "cntrl", "w": "return"}, {"k": "label", "n": "ql"}])]})
        ins({"k": "msw", "w": rng.choice(["message_SwitchTalk", "message_SwitchMonologue"]), "a": {"t": "var", "v": "$V"}, "cases": cases})
    elif d == "label-in-with":
        n = f"q{rng.randrange(3)}q"
        ins({"k": "with", "c": [rng.choice(["actor", "object", "performer"]), g.intlike(False)], "s": {"k": "label", "n": n, "para": rng.random() < 0.2}})
        if rng.random() < 0.3:
            b, i, _ = rng.choice(pos)
            b.insert(i, {"k": "jump", "n": n})
    elif d == "not-on-bit":
        c = {"k": "bit", "a": rng.choice([g.var(), {"t": "int", "v": 3}, {"t": "const", "v": "SOME_VAR"}]), "i": rng.randrange(9), "neg": True}
        cs = [c]
        if rng.random() < 0.3:
            cs.insert(rng.randrange(2), g.cond())
        z = rng.random()
        if z < 0.6:
            ins({"k": "if", "neg": rng.random() < 0.3, "conds": cs, "body": [g.op()], "elifs": [], "els": None})
        elif z < 0.75:
            ins({"k": "if", "neg": False, "conds": [g.cond()], "body": [g.op()], "elifs": [{"neg": False, "conds": cs, "body": [g.op()]}], "els": None})
        elif z < 0.9:
            ins({"k": "while", "neg": rng.random() < 0.3, "c": c, "body": [g.op()]})
        else:
            ins({"k": "for", "init": g.asg(), "c": c, "inc": g.asg(), "body": [g.op()]})
    elif d == "unknown-macro":
        s = {"k": "mac", "name": rng.choice(["unknown", "m_", "op9", "Fade2"]), "args": [g.intlike() for _ in range(rng.randrange(0, 2))]}
        s["bad"] = 1
        b, i, _ = rng.choice(pos)
        b.insert(i, wrapped(s))
    elif d == "invisible-macro":
        # the macro exists, but in a file that this one does not import
        where_what = []
        for p, x in bodies:
            seen = reach_files(proj, p) | {p}
            have = {y["name"] for q in seen for y in proj["files"][q]["defs"] if y["t"] == "macro"}
            for q, f in sorted(proj["files"].items()):
                where_what += [(p, x, y) for y in f["defs"] if q not in seen and y["t"] == "macro" and y["name"] not in have]
        where_what = [z for z in where_what if z[0] == proj["main"] or z[0] in imported(proj)]
        if not where_what:
            return gen_meaningless(rng, tier)
        p, x, y = rng.choice(where_what)
        where = "macro" if x["t"] == "macro" else "routine"
        pos = list(positions(x["body"], {"loop": False, "case": False}))
        b, i, _ = rng.choice(pos)
        b.insert(i, wrapped({"k": "mac", "name": y["name"], "args": [{"t": "int", "v": 1} for _ in y["params"]], "bad": 1}))
    elif d in ("recursive-macro", "mutually-recursive-macros"):
        ms = [(q, y) for q, y in bodies if y["t"] == "macro"]
        if not ms:
            return gen_meaningless(rng, tier)
        q, y = rng.choice(ms)
        if d == "recursive-macro":
            ring = [y]
        else:
            f = proj["files"][q]
            ring = [y]
            for i in range(rng.randrange(1, 5)):
                nm = {"t": "macro", "name": f"ring{i}", "params": ["$r"] if rng.random() < 0.4 else [], "body": [g.op()]}
                f["defs"].insert(rng.randrange(len(f["defs"]) + 1), nm)
                ring.append(nm)
        for i, m in enumerate(ring):
            to = ring[(i + 1) % len(ring)]
            s = {"k": "mac", "name": to["name"], "args": [{"t": "int", "v": 1} for _ in to["params"]], "bad": 1}
            ps = list(positions(m["body"], {"loop": False, "case": False}))
            b, j, _ = rng.choice(ps)
            b.insert(j, wrapped(s))
    elif d == "too-few-arguments":
        ms = [y for q, y in bodies if y["t"] == "macro" and y["params"]]
        calls = [s for s in stmts_of(proj, "mac") if any(y["name"] == s["name"] and y["params"] for y in ms)]
        if not calls:
            return gen_meaningless(rng, tier)
        s = rng.choice(calls)
        y = next(y for y in ms if y["name"] == s["name"])
        s["args"] = s["args"][: rng.randrange(0, len(y["params"]))]
        s["bad"] = 1
    elif d == "routine-in-import":
        libs = imported(proj)
        if not libs:
            return gen_meaningless(rng, tier)
        f = proj["files"][rng.choice(libs)]
        z = rng.random()
        rt = ({"t": "generic", "id": rng.choice([0, 1, 7])} if z < 0.3 else {"t": "coro", "name": "CORO_IN_LIB"} if z < 0.6 else
              {"t": rng.choice(["actor", "object", "performer"]), "id": 0, "target": {"t": "int", "v": 1}, "legacy": rng.random() < 0.2})
        rt["bad"] = 1
        if rng.random() < 0.1:
            rt["alias"] = True
        else:
            rt["body"] = [g.op(), {"k": "cntrl", "w": "end"}]
        f["defs"].insert(rng.randrange(len(f["defs"]) + 1), rt)
    elif d == "missing-import":
        f = proj["files"][rng.choice(imported(proj) + [proj["main"]])]
        f["imports"].insert(rng.randrange(len(f["imports"]) + 1), rng.choice(
            ["./missing.exps", "../nope/x.exps", "missing.exps", "deep/missing.exps", "${ROOT}/gone.exps", "./x.exps.bak"]))
        f["bad"] = 1
    elif d == "cyclic-import":
        lib = rng.choice(imported(proj) + [proj["main"]])
        tos = [q for q in imported(proj) + [proj["main"]] if q == lib or lib in reach_files(proj, q)]
        to = rng.choice(tos)
        proj["files"][lib]["imports"].insert(rng.randrange(len(proj["files"][lib]["imports"]) + 1), c05.spell(rng, proj, lib, to))
        proj["files"][lib]["bad"] = 1
    else:
        raise AssertionError(d)
    if p != proj["main"] and p not in imported(proj) and d not in ("routine-in-import", "missing-import", "cyclic-import"):
        return gen_meaningless(rng, tier)
    if d in ("recursive-macro", "mutually-recursive-macros") and q != proj["main"] and q not in imported(proj):
        return gen_meaningless(rng, tier)
    if d == "too-few-arguments":
        pass
    return {"mode": "meaningless", "kind": d, "proj": proj, "style": rng.choice([0, 0, 0, 1, 2]), "expect": "rejected", "rules": [], "where": where}


def reach_files(proj, f, seen=None):
    seen = set() if seen is None else seen
    for s in proj["files"][f]["imports"]:
        t = c05.resolve_model(proj, f, s)
        if t and t not in seen and t in proj["files"]:
            seen.add(t)
            reach_files(proj, t, seen)
    return seen


def imported(proj):
    return sorted(reach_files(proj, proj["main"]) - {proj["main"]})


# ------------------------------------------------------------------------------------------------ execution
def materialise(plan, root):
    """(files, main, lookups) of a plan"""
    if "proj" in plan:
        proj = plan["proj"]
        t = {p: lang.to_text({**f, "imports": [i.replace("${ROOT}", root) for i in f["imports"]]}, plan["style"]) for p, f in proj["files"].items()}
        for d, to in proj["decoys"].items():
            t[d] = c05.decoy_text(proj, to)
        return t, proj["main"], proj["lookups"]
    if plan["mode"] == "ssbscript":
        from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler

        s = plan["set"]
        txt, _ = SsbScriptSsbDecompiler(*ssbgen.build(s["infos"], ssbgen.resolve(s), s["coros"])).convert(prefix=plan["head"] + "\n")
        r = random.Random(plan["seed"])
        head, rest = txt.split("\n", 1)
        if plan["n"]:
            rest = corrupt_bytes(r, rest) if plan["bytes"] else corrupt(r, rest, plan["n"])
        return {"main.exps": head + "\n" + rest}, "main.exps", []
    t = {p: (v.replace("${ROOT}", root) if isinstance(v, str) else v) for p, v in plan["files"].items()}
    return t, plan["main"], plan["lookups"]


def depth():
    n, fr = 0, sys._getframe(1)
    while fr is not None:
        n, fr = n + 1, fr.f_back
    return n


def ran_out_of_stack(e):
    while e is not None:
        if isinstance(e, RecursionError):
            return True
        e = e.__cause__ or e.__context__
    return False


def blank(msg):
    return re.sub(r"'[^']*'|\"[^\"]*\"|\d+|\{[^}]*\}", "#", msg)[:60]


def execute(plan, out):
    from explorerscript.error import ParseError, SsbCompilerError
    from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler

    root = disk.scratch("c10")
    try:
        files, main, lookups = materialise(plan, root)
        text = files[main]
        for p, v in list(files.items()):
            if isinstance(v, str):
                try:
                    v.encode("utf-8", "surrogateescape")
                except UnicodeEncodeError:
                    files[p] = v.encode("utf-8", "replace").decode()
        disk.write_tree(root, files)
        res, err = "accepted", None
        c = ExplorerScriptSsbCompiler(PPL, [os.path.join(root, lp) for lp in lookups])
        with disk.Disk(root, plan.get("rules", []), out) as d:
            limit = sys.getrecursionlimit()
            if plan.get("stack"):
                sys.setrecursionlimit(depth() + plan["stack"])
            try:
                c.compile(text, os.path.join(root, main))
            except (ParseError, SsbCompilerError, ValueError) as e:
                res, err = "refused", e
            except BaseException as e:
                if isinstance(e, core.StepLimit):
                    raise
                res, err = "undocumented", e
            finally:
                sys.setrecursionlimit(limit)
        out.events = d.ops + 1
        if plan.get("stack") and err is not None and ran_out_of_stack(err):
            out.fault("stack-exhausted")
        try:
            msg = "" if err is None else f"{type(err).__name__}: {err}".replace(root, "ROOT")
        except Exception as e:
            msg = f"{type(err).__name__}: message fails with {type(e).__name__}"
        out.log.append([res, msg[:300], d.fired])
        out.hit(f"mode-{plan['mode']}")
        out.hit(res if err is None else f"{res}-{type(err).__name__}")
        if plan["expect"] == "rejected":
            out.hit(f"meaningless-{plan['kind']}")
            if plan.get("where"):
                out.hit(f"defect-in-{plan['where']}")
        out.state([plan["mode"], plan["kind"], plan.get("where"), res, blank(msg), d.fired])
        if res == "undocumented":
            import traceback

            tb = traceback.extract_tb(err.__traceback__)
            at = [f for f in tb if "explorerscript" in f.filename] or tb
            out.violate(f"undocumented-exception:{type(err).__name__}", f"{plan['mode']}/{plan['kind']}: {msg[:300]} raised in {at[-1].name}")
        elif res == "accepted" and plan["expect"] == "rejected":
            out.violate(f"accepted:{plan['kind']}", f"a statically meaningless program ({plan['kind']}) was compiled")
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ reporting
def describe(plan):
    files, main, lookups = materialise(plan, "${ROOT}")
    return {"mode": plan["mode"], "kind": plan["kind"], "main": main, "lookups": lookups, "rules": plan.get("rules", []), "stack": plan.get("stack"),
            "files": {p: (v[:3000] if isinstance(v, str) else v) for p, v in files.items()}}


def bad_count(x):
    return json.dumps(x).count('"bad": 1')


def shrink(plan):
    if plan.get("stack"):
        yield {k: v for k, v in plan.items() if k != "stack"}
    if "proj" in plan:
        if plan["style"]:
            yield {**plan, "style": 0}
        n = bad_count(plan["proj"])
        for c in c05.shrink({"proj": plan["proj"], "style": 0, "rules": []}):
            if bad_count(c["proj"]) != n:
                continue
            if plan["kind"].startswith("two-defaults") and not any(
                    sum(1 for y in s["cases"] if y["h"] is None) > 1 for s in stmts_of(c["proj"], "switch") + stmts_of(c["proj"], "msw")):
                continue
            if plan["kind"] in ("switch-ends-in-empty-case",) and not any(
                    not s["cases"][-1].get("body", 1) for s in stmts_of(c["proj"], "switch")):
                continue
            if plan["kind"] == "statement-in-message-switch" and not any("body" in y for s in stmts_of(c["proj"], "msw") for y in s["cases"]):
                continue
            if plan["kind"] in ("routine-in-import", "cyclic-import", "missing-import") and set(imported(c["proj"])) != set(imported(plan["proj"])):
                continue
            if plan["kind"] in ("missing-import", "cyclic-import") and any(
                    len(c["proj"]["files"][p]["imports"]) != len(f["imports"]) for p, f in plan["proj"]["files"].items() if p in c["proj"]["files"]):
                continue
            if plan["kind"] == "not-on-bit" and '"neg": true' not in json.dumps(c["proj"]):
                continue
            yield {**plan, "proj": c["proj"]}
        return
    if plan["mode"] == "ssbscript":
        yield {**text_plan("corrupt", plan["kind"], materialise(plan, "")[0]), "stack": plan.get("stack")}
        return
    for i in range(len(plan["rules"])):
        yield {**plan, "rules": plan["rules"][:i] + plan["rules"][i + 1:]}
    if plan["expect"] == "rejected":
        return
    for p, v in plan["files"].items():
        if p != plan["main"]:
            yield {**plan, "files": {k: x for k, x in plan["files"].items() if k != p}}
    for p, v in plan["files"].items():
        if not isinstance(v, str):
            continue
        lines = v.splitlines(True)
        for c in core.shrink_list(lines):
            yield {**plan, "files": {**plan["files"], p: "".join(c)}}
        toks = TOK.findall(v)
        if len(toks) < 200:
            for c in core.shrink_list(toks):
                yield {**plan, "files": {**plan["files"], p: "".join(c)}}


def setup(tier):
    from sim import warm

    warm.warm()
