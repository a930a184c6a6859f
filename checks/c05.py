"""C05: a macro call means its body inlined, in any definition order and file layout."""
import json
import os
import posixpath
import random
import shutil

from sim import disk, flow, lang, meaning
from sim.lang import PPL

PROP = "C05"
LEVEL = "exploration"
RULE = ("distinct = different (macro call graph with definition order and file assignment, import spelling kinds, argument kinds "
        "per parameter, disk fault fired)")
SIM_TIME = "none: no clock is read; a run is one compile call on a simulated disk"
COMPONENTS = {
    "real": ["explorerscript compiler (imports, macro resolution, expansion, label finalizing)", "antlr4", "igraph",
             "file contents on tmpfs"],
    "stub": ["open/stat/read of project files: pass through the simulated disk, which can fail, read short, swap or remove files"],
}
ASSUMPTIONS = [
    "the meaning of a single macro-free body is taken from the compiler itself (property C01), the inlining is the check's own",
    "macro names are unique among the files a program really imports; a macro uses no free variable named like a parameter of its callers",
    "no symbolic links below the project; no with-block holds a return or jump",
    "at most 9 macros, 6 files, 700 expanded statements",
]
TIERS = {
    "quick": {"runs": 6000, "budget_s": 70, "determinism_sample": 100},
    "thorough": {"runs": 2000000, "budget_s": 1500, "determinism_sample": 1000},
}
RUN_TIMEOUT = 10
STEP_LIMIT = 6_000_000
SENT = "ZZ_BodyEnd"
CALL = "ZZ_Call"
PARAMS = ["$a", "$b", "$c", "$x", "$aVar", "$a_b"]
MNAMES = ["m", "m1", "m10", "m_1", "Macro", "helper", "Fade", "op", "main", "talk", "x", "z9", "WaitFrames", "A", "a", "B2"]
LABELS = ["l", "l1", "L", "x", "m", "main"]
DIRS = ["", "lib", "lib/deep", "macros", "scripts", "scripts/sub", "a b", "other"]
FILES = ["x.exps", "y.exps", "lib.exps", "common.exps", "naïve.exps", "x y.exps", "noext", "x.y.z.exps"]


# ------------------------------------------------------------------------------------------------ generation
def gen(rng, idx, tier):
    for _ in range(20):
        p = _gen(rng, tier)
        if p is not None:
            return p
    return p


def _gen(rng, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7]) if tier == "quick" else rng.randrange(1, 10)
    shape = rng.choice(["chain", "diamond", "random", "random", "layers", "star"])
    names = rng.sample(MNAMES, n)
    callees = {}
    for i in range(n):
        if shape == "chain":
            c = [i - 1] if i else []
            if i > 1 and rng.random() < 0.2:
                c.append(rng.randrange(i))
        elif shape == "diamond":
            c = [] if i == 0 else ([0] if i < n - 1 else list(range(n - 1)))
        elif shape == "layers":
            c = rng.sample(range(i), min(i, rng.randrange(0, 4))) if i else []
        elif shape == "star":
            c = list(range(i)) if i == n - 1 else ([i - 1] if i and rng.random() < 0.4 else [])
        else:
            c = [j for j in range(i) if rng.random() < 0.35]
        callees[i] = c
    size = {}
    for i in range(n):
        size[i] = 1 + sum(size[j] for j in callees[i])
    if sum(size.values()) > 120:
        return None
    tail_call = rng.random() < 0.15  # routines may end with a call
    base = dict(labels=True, width=3 if n > 3 else 4, depth=2, early_end=True)
    sigs = {}
    macros = {}
    for i in range(n):
        np = rng.choice([0, 1, 1, 2, 2, 3])
        kinds = [rng.choice(lang.KINDS) for _ in range(np)]
        params = rng.sample(PARAMS, np)
        sigs[i] = kinds
        r = random.Random(rng.random())
        g = lang.Gen(r, **base)
        g.cfg["macros"] = [[names[j], len(sigs[j]), sigs[j]] for j in callees[i]] or None
        g.params = [[p, k] for p, k in zip(params, kinds)]
        g.cfg["label_names"] = LABELS
        t = r.random()
        if t < 0.05:
            body = [{"k": "cntrl", "w": "return"}]
        elif t < 0.08:
            body = [{"k": "label", "n": "l"}]
        elif t < 0.12 and np:
            body = [{"k": "op", "name": "se_Play", "args": [{"t": "var", "v": p} for p in params + params[:1]]}]
        elif t < 0.2:
            body = [{"k": "if", "neg": r.random() < 0.3, "conds": g.conds(), "body": [{"k": "cntrl", "w": "return"}], "elifs": [], "els": None}, g.op()]
        elif t < 0.25 and callees[i]:
            body = [g.mcall() for _ in callees[i]]
        else:
            body = g.body(end=r.random() < 0.15)
            if body[-1]["k"] == "cntrl" and body[-1]["w"] != "return" and r.random() < 0.5:
                body[-1]["w"] = "return"
        for j in callees[i]:
            if not _calls(body, names[j]):
                g.cfg["macros"] = [[names[j], len(sigs[j]), sigs[j]]]
                body.insert(r.randrange(len(body) + 1), g.mcall())
        macros[i] = {"t": "macro", "name": names[i], "params": params, "body": body}
    # top level arguments may be named like parameters: substitution must be simultaneous
    routines = []
    nr = rng.randrange(1, 4)
    coro = rng.random() < 0.1
    for k in range(nr):
        r = random.Random(rng.random())
        g = lang.Gen(r, **base)
        use = [j for j in range(n) if r.random() < 0.5] or [n - 1]
        g.cfg["macros"] = [[names[j], len(sigs[j]), sigs[j]] for j in use]
        # labels of routines share one name space, those of macros do not
        g.cfg["label_names"] = LABELS if k == 0 else [f"l_{k}", f"x{k}"]
        if r.random() < 0.25:
            g.params = [[p, r.choice(lang.KINDS[:2])] for p in PARAMS[:3]]
        body = g.body(end=not tail_call)
        g.cfg["macros"] = [[names[n - 1], len(sigs[n - 1]), sigs[n - 1]]]
        if k == 0 or r.random() < 0.3:
            body.insert(r.randrange(0, max(1, len(body))) if not tail_call else len(body), g.mcall())
        if coro:
            routines.append({"t": "coro", "name": f"CORO_{k}", "body": body})
        else:
            routines.append({"t": "generic", "id": k, "body": body})
    if rng.random() < 0.04:
        for d in list(macros.values()) + routines:
            walk(d["body"], lambda s: s["k"] == "mac" and s.update(args=[
                {"t": "var", "v": PPL} if a["t"] == "var" and rng.random() < 0.3 else a for a in s["args"]]))
    return layout(rng, n, macros, callees, routines, tier)


def _calls(body, name):
    return f'"k": "mac", "name": "{name}"' in json.dumps(body)


def layout(rng, n, macros, callees, routines, tier):
    nf = rng.choice([1, 1, 1, 2, 2, 3, 4, 5]) if n > 1 else rng.choice([1, 2])
    of = sorted(rng.randrange(nf) for _ in range(n))  # file index per macro, callees come in earlier or equal files
    if rng.random() < 0.3:
        of = [min(x, nf - 2) if nf > 1 else x for x in of]
    paths = []
    while len(paths) < nf:
        p = posixpath.join(rng.choice(DIRS), rng.choice(FILES))
        if p not in paths:
            paths.append(p)
    paths[-1] = posixpath.join(rng.choice(DIRS), "main.exps")
    files = {p: {"imports": [], "defs": []} for p in paths}
    for i in range(n):
        files[paths[of[i]]]["defs"].append(macros[i])
    files[paths[-1]]["defs"] += routines
    for p in paths:
        d = files[p]["defs"]
        order = rng.random()
        if order < 0.3:
            d.reverse()
        elif order < 0.85:
            rng.shuffle(d)
        # routine ids have to ascend
        rs = iter([x for x in routines if x in d]) if p == paths[-1] else iter([])
        files[p]["defs"] = [next(rs) if x["t"] != "macro" else x for x in d]
    lookups = rng.sample([d for d in DIRS if d], rng.randrange(0, 4))
    need = {f: set() for f in range(nf)}
    for i in range(n):
        for j in callees[i]:
            if of[j] != of[i]:
                need[of[i]].add(of[j])
    for i in range(n):
        if of[i] != nf - 1:
            need[nf - 1].add(of[i])
    edges = {f: set() for f in range(nf)}

    def reach(f):
        out = set()
        for g in edges[f]:
            out |= {g} | reach(g)
        return out

    for f in range(nf):
        for g in sorted(need[f], key=lambda g: (-g if rng.random() < 0.7 else g)):
            if g in reach(f) and rng.random() < 0.7:
                continue
            edges[f].add(g)
        for g in range(f):
            if rng.random() < 0.15:
                edges[f].add(g)
    proj = {"files": files, "main": paths[-1], "lookups": lookups, "decoys": {}}
    for f in range(nf):
        order = sorted(edges[f])
        rng.shuffle(order)
        for g in order:
            files[paths[f]]["imports"].append(spell(rng, proj, paths[f], paths[g]))
            if rng.random() < 0.04:
                files[paths[f]]["imports"].append(spell(rng, proj, paths[f], paths[g]))
    # decoys: files a wrong resolution would pick
    for f in range(nf):
        for spec in files[paths[f]]["imports"]:
            if rng.random() < 0.5:
                add_decoy(rng, proj, paths[f], spec)
    rules = []
    if rng.random() < 0.25:
        target = rng.choice(paths[:-1]) if nf > 1 else None
        if target:
            kind = rng.choice(["EIO", "EACCES", "short", "vanish", "EMFILE", "ESTALE", "read-EIO", "stat-EACCES"])
            if kind == "short":
                rules.append({"path": target, "op": "read", "nth": 1, "sticky": True, "kind": "short", "chunk": rng.randrange(1, 20), "after": 0})
            elif kind == "read-EIO":
                rules.append({"path": target, "op": "read", "nth": rng.choice([1, 1, 2]), "kind": "EIO", "after": rng.randrange(0, 400)})
            elif kind == "stat-EACCES":
                rules.append({"path": target, "op": "stat", "nth": 1, "kind": "EACCES"})
            else:
                rules.append({"path": target, "op": "open", "nth": rng.choice([1, 1, 2]), "kind": kind})
    return {"proj": proj, "style": rng.choice([0, 0, 1, 2, 3]), "rules": rules}


def spell(rng, proj, frm, to):
    d = posixpath.dirname(frm)
    forms = ["rel", "rel", "abs"]
    looks = [lp for lp in proj["lookups"] if to.startswith(lp + "/")]
    if looks:
        forms += ["look"] * 3
    form = rng.choice(forms)
    if form == "look":
        spec = posixpath.relpath(to, rng.choice(looks))
        if resolve_model(proj, frm, spec) == to and not spec.startswith("."):
            return spec
        form = "rel"
    if form == "abs":
        return "${ROOT}/" + to
    rel = posixpath.relpath(to, d or ".")
    if rng.random() < 0.15:
        rel = rng.choice(["./", "./././"]) + rel if not rel.startswith("../") else "./" + rel
    elif not rel.startswith("../"):
        rel = "./" + rel
    if rng.random() < 0.1 and d:
        rel = posixpath.join("..", posixpath.basename(d), rel)
        if not rel.startswith("."):
            rel = "./" + rel
    return rel


def resolve_model(proj, frm, spec):
    """Which project file an import means: relative to the importing file, absolute, or first match in lookup order."""
    have = set(proj["files"]) | set(proj["decoys"])
    if spec.startswith("${ROOT}/"):
        c = [posixpath.normpath(spec[8:])]
    elif spec.startswith("./") or spec.startswith("../"):
        c = [posixpath.normpath(posixpath.join(posixpath.dirname(frm), spec))]
    else:
        c = [posixpath.normpath(posixpath.join(lp, spec)) for lp in proj["lookups"]]
    for p in c:
        if p in have:
            return p
    return None


def add_decoy(rng, proj, frm, spec):
    to = resolve_model(proj, frm, spec)
    cands = []
    if spec.startswith("${ROOT}/"):
        cands.append(posixpath.join(posixpath.dirname(frm), spec[8:]))
    elif spec.startswith("."):
        cands.append(posixpath.normpath(posixpath.join(posixpath.dirname(proj["main"]), spec)))
        cands += [posixpath.normpath(posixpath.join(lp, spec)) for lp in proj["lookups"]]
    else:
        cands += [posixpath.join(lp, spec) for lp in proj["lookups"]]
        cands.append(posixpath.join(posixpath.dirname(frm), spec))
        cands.append(spec)
    rng.shuffle(cands)
    for c in cands:
        if c in proj["files"] or c in proj["decoys"] or c.startswith("..") or any(
                f.startswith(c + "/") or c.startswith(f + "/") for f in list(proj["files"]) + list(proj["decoys"])):
            continue
        before = {(f, s): resolve_model(proj, f, s) for f in proj["files"] for s in proj["files"][f]["imports"]}
        proj["decoys"][c] = to
        if any(resolve_model(proj, f, s) != r for (f, s), r in before.items()):
            del proj["decoys"][c]
            continue
        return


# ------------------------------------------------------------------------------------------------ the model
def walk(body, fn):
    for s in body:
        fn(s)
        for b in lang._bodies(s):
            walk(b, fn)


class RefusedReference(Exception):
    pass


class Model:
    """Compiles every body on its own, macro-free, and inlines on the level of canonical ops."""

    def __init__(self, proj, out):
        self.proj = proj
        self.args = []
        self.bodies = []
        self.out = out
        self.ppl_bits = 0

    def visible(self, f, seen=()):
        env = {}
        for spec in self.proj["files"][f]["imports"]:
            t = resolve_model(self.proj, f, spec)
            if t is None:
                raise RefusedReference(f"import {spec} of {f} means nothing")
            if t in seen:
                raise RefusedReference("cyclic import")
            env.update(self.visible(t, seen + (f,)))
        for d in self.proj["files"][f]["defs"]:
            if d["t"] == "macro":
                env[d["name"]] = (f, d)
        return env

    def add(self, env, body, tag):
        """Register a body; returns its number."""
        key = tag
        for i, (k, _, _) in enumerate(self.bodies):
            if k == key:
                return i
        b = json.loads(json.dumps(body))

        def fix(s):
            if s["k"] in ("label", "jump", "call"):
                s["n"] = f"{s['n']}_{tag}"
            elif s["k"] == "mac":
                if s["name"] not in env:
                    raise RefusedReference(f"unknown macro {s['name']}")
                if len(s["args"]) < len(env[s["name"]][1]["params"]):
                    raise RefusedReference("too few arguments")
                self.args.append(s["name"])
                s["k"] = "op"
                s["name"] = f"{CALL}{len(self.args) - 1}"
                s.pop("ctx", None)

        walk(b, fix)
        b.append({"k": "op", "name": SENT, "args": []})
        self.bodies.append((key, b, env))
        return len(self.bodies) - 1

    def build(self):
        """Compile the bodies one by one, without macros, with the compiler; then inline."""
        text = self.collect()
        from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler

        try:
            c = ExplorerScriptSsbCompiler(PPL, []).compile(text, "/reference.exps")
        except Exception as e:
            raise RefusedReference(f"{type(e).__name__}: {e}")
        self.ops = flow.canon_ops(c.routine_ops)
        return self.inline(True)

    def meaning(self):
        """The same from what the language specification says about the bodies (for C15); may raise NoMeaning."""
        self.collect()
        self.ops = meaning.routines([b for _, b, _ in self.bodies])
        return self.inline(True)

    def collect(self):
        main = self.proj["main"]
        env = self.visible(main)
        names = {}
        # routine ids of the reference: defs of the file first, then macro bodies
        roots = []
        for d in self.proj["files"][main]["defs"]:
            if d["t"] != "macro":
                roots.append(None if d.get("alias") else self.add(env, d["body"], f"r{len(roots)}"))
        for name in sorted(env):
            f, d = env[name]
            names[name] = self.add(self.visible(f), d["body"], f"m{len(names)}")
        text = ""
        for i, (_, b, _) in enumerate(self.bodies):
            text += lang.to_text({"imports": [], "defs": [{"t": "generic", "id": i, "body": b}]})
        self.env = env
        self.names = names
        self.roots = roots
        return text

    def inline(self, strict):
        self.strict = strict
        self.counter = 0
        self.calls = 0
        self.depth = 0
        routines = []
        for r in self.roots:
            ops = []
            if r is not None:
                self.splice(self.ops[r], {}, None, ops, 1)
            routines.append(ops)
        return routines

    def new(self):
        self.counter += 1
        return self.counter

    def splice(self, src, subst, after, out, depth):
        """Append a copy of src with parameters substituted. after: offset to go on at, None for a routine."""
        self.depth = max(self.depth, depth)
        pos = {off: i for i, (off, _, _) in enumerate(src)}
        entry = [self.new() for _ in src]
        for i, (off, name, params) in enumerate(src):
            ctx = i > 0 and src[i - 1][1] in flow.CTX
            params = [subst.get(p[1], p) if p[0] == "const" else p for p in params]
            if name in ("BranchBit", "flag_CalcBit") and params[0] == ["const", PPL] and src[i][2][0] != params[0]:
                # written out, this is an access to the performance progress list, which has its own operations
                self.ppl_bits += 1
                if self.strict:
                    name, params = ("BranchPerformance", [params[1], ["int", 1], params[2]]) if name == "BranchBit" else (
                        "flag_SetPerformance", params[1:])
            at = flow.jump_target(name, params)
            if at is not None:
                params = params[:at] + [["int", entry[pos[params[at][1]]]]] + params[at + 1:]
            if name == SENT or (name == "Return" and after is not None and not ctx):
                out.append([entry[i], "Return", []] if after is None else [entry[i], "Jump", [["int", after]]])
            elif name.startswith(CALL):
                self.calls += 1
                if self.calls > 400:
                    raise RefusedReference("expansion too large")
                m = self.args[int(name[len(CALL):])]
                d = self.env[m][1]
                for p, a in zip(d["params"], params):
                    self.out.hit(f"argument-{a[0]}")
                # the call itself is a step to its first op; a call is never the last op of a body
                out.append([entry[i], "Jump", [["int", self.counter + 1]]])
                self.splice(self.ops[self.names[m]], dict(zip(d["params"], params)), entry[i + 1], out, depth + 1)
            else:
                out.append([entry[i], name, params])


# ------------------------------------------------------------------------------------------------ execution
def decoy_text(proj, to):
    """Same macros, other bodies."""
    t = {"imports": [], "defs": []}
    for d in proj["files"].get(to, {"defs": []})["defs"]:
        if d["t"] == "macro":
            t["defs"].append({**d, "body": [{"k": "op", "name": "ZZ_Decoy", "args": []}]})
    return lang.to_text(t)


def execute(plan, out):
    from explorerscript.error import SsbCompilerError
    from explorerscript.explorerscript_reader import ExplorerScriptReader  # noqa: F401
    from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler

    proj = plan["proj"]
    root = disk.scratch("c05")
    try:
        tree = {}
        for p, f in proj["files"].items():
            ff = {**f, "imports": [i.replace("${ROOT}", root) for i in f["imports"]]}
            tree[p] = lang.to_text(ff, plan["style"])
        for p, to in proj["decoys"].items():
            tree[p] = decoy_text(proj, to)
        for lp in proj["lookups"]:
            os.makedirs(os.path.join(root, lp), exist_ok=True)
        disk.write_tree(root, tree)
        for f in proj["files"]:
            for i in proj["files"][f]["imports"]:
                # every directory a relative spelling walks through exists
                if i.startswith("."):
                    os.makedirs(os.path.join(root, os.path.dirname(f)), exist_ok=True)
        m = Model(proj, out)
        try:
            want = m.build()
        except RefusedReference as e:
            out.hit("reference-refused")
            out.log.append(["refused", str(e)[:80]])
            return
        c = ExplorerScriptSsbCompiler(PPL, [os.path.join(root, lp) for lp in proj["lookups"]])
        err = None
        with disk.Disk(root, plan["rules"], out) as d:
            try:
                c.compile(tree[proj["main"]], os.path.join(root, proj["main"]))
            except Exception as e:
                err = e
        out.events = d.ops + m.counter
        out.hit("macro-expansions", m.calls)
        out.hit(f"nesting-depth-{min(m.depth - 1, 6)}")
        out.hit(f"files-{len(proj['files'])}")
        for f in proj["files"].values():
            for i in f["imports"]:
                out.hit("import-" + ("absolute" if i.startswith("${") else "relative" if i.startswith(".") else "lookup"))
        out.hit("decoy-files", len(proj["decoys"]))
        sig_graph = [[p, [[x.get("name"), len(x.get("params", []))] for x in f["defs"]], f["imports"]] for p, f in proj["files"].items()]
        out.state([sig_graph, d.fired, sorted(k for k in out.cov if k.startswith("argument"))])
        fatal = [x for x in d.fired if x[2] not in ("short",)]
        if err is not None:
            msg = f"{type(err).__name__}: {err}".replace(root, "ROOT")
            out.log.append(["err", msg])
            if fatal:
                out.hit("refused-under-disk-fault")
                return
            out.violate("does-not-compile", f"a valid project was refused: {msg}")
            return
        if d.fired:
            out.hit("compiled-under-disk-fault")
            if any(x[1] == "stat" for x in d.fired) and proj["lookups"]:
                return  # a file that cannot be examined does not exist: a later lookup path may answer
        got = flow.canon_ops(c.routine_ops)
        out.log.append(["ops", flow_digest(got)])
        imps = [i.replace("${ROOT}", root) for i in proj["files"][proj["main"]]["imports"]]
        if c.imports != imps:
            out.violate("imports-attribute", f"compile().imports is {c.imports}".replace(root, "ROOT"))
        if len(got) != len(want):
            out.violate("routine-count", f"{len(got)} routines instead of {len(want)}")
            return
        try:
            fa, fb = flow.Flow(got), flow.Flow(want)
            for r in range(len(want)):
                diff = flow.behaves_same(fa, (r, 0), fb, (r, 0))
                if diff and m.ppl_bits and not any(
                        flow.behaves_same(fa, (k, 0), flow.Flow(m.inline(False)), (k, 0)) for k in range(len(want))):
                    out.violate("ppl-argument-to-bit-access", f"routine {r}: {diff}")
                    return
                if diff:
                    out.violate("behaves-differently", f"routine {r}: compiled (left) and inlined (right) differ: {diff}")
                    return
        except flow.Malformed as e:
            out.violate("malformed-output", str(e))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def flow_digest(ops):
    from sim.core import digest

    return digest(ops)


# ------------------------------------------------------------------------------------------------ reporting
def describe(plan):
    proj = plan["proj"]
    t = f"main: {proj['main']}  lookup paths: {proj['lookups']}  faults: {plan['rules']}\n"
    for p, f in proj["files"].items():
        t += f"--- {p}\n" + lang.to_text(f, 0)
    for p, to in proj["decoys"].items():
        t += f"--- decoy {p} (of {to})\n"
    return t


def shrink(plan):
    if plan["rules"]:
        yield {**plan, "rules": []}
    if plan["style"]:
        yield {**plan, "style": 0}
    proj = plan["proj"]
    for d in list(proj["decoys"]):
        yield {**plan, "proj": {**proj, "decoys": {k: v for k, v in proj["decoys"].items() if k != d}}}
    for p in proj["files"]:
        f = proj["files"][p]
        if p != proj["main"] and len(proj["files"]) > 1:
            fs = {k: v for k, v in proj["files"].items() if k != p}
            yield {**plan, "proj": {**proj, "files": fs}}
        for i in range(len(f["imports"])):
            g = {**f, "imports": f["imports"][:i] + f["imports"][i + 1:]}
            yield {**plan, "proj": {**proj, "files": {**proj["files"], p: g}}}
        for i in range(len(f["defs"])):
            g = {**f, "defs": f["defs"][:i] + f["defs"][i + 1:]}
            if p == proj["main"] and not any(d["t"] != "macro" for d in g["defs"]):
                continue
            rs = 0
            nd = []
            for d in g["defs"]:
                if d["t"] == "generic":
                    d = {**d, "id": rs}
                    rs += 1
                nd.append(d)
            yield {**plan, "proj": {**proj, "files": {**proj["files"], p: {**g, "defs": nd}}}}
        for i, d in enumerate(f["defs"]):
            for b in lang.shrink_stmts(d.get("body", [])):
                if d["t"] != "macro" and b[-1]["k"] not in ("cntrl", "mac") or b[-1]["k"] == "label":
                    continue
                g = {**f, "defs": f["defs"][:i] + [{**d, "body": b}] + f["defs"][i + 1:]}
                yield {**plan, "proj": {**proj, "files": {**proj["files"], p: g}}}


def setup(tier):
    from sim import warm

    warm.warm()
