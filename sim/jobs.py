"""Calls into the code under test as data, and their results as plain values (shared by C11 and C12).

A job is {"k": kind, ...}; `prepare` builds its inputs, `call` is the call under observation, its outcome is a plain value
holding everything the property names: ops, text, source map, the exception.
"""
import os
import shutil

from . import disk, simlock, ssbgen
from .lang import DMODE, PPL


def freeze(x, seen=()):
    """Plain value of any result object. Indentation hints on string parameters are no part of the meaning."""
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if id(x) in seen:
        return "<cycle>"
    seen = seen + (id(x),)
    if isinstance(x, (list, tuple)):
        return [freeze(y, seen) for y in x]
    if isinstance(x, dict):
        return ["dict"] + [[freeze(k, seen), freeze(v, seen)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted((freeze(y, seen) for y in x), key=str)
    import enum

    if isinstance(x, enum.Enum):
        return str(x)
    d = getattr(x, "__dict__", None)
    if d is None:
        return str(type(x).__name__)
    return [type(x).__name__] + [[k, freeze(v, seen)] for k, v in sorted(d.items()) if k != "indent"]


def freeze_map(sm):
    if sm is None:
        return None
    try:
        return freeze(sm.serialize())
    except Exception as e:
        return ["serialize", type(e).__name__, freeze(sm)]


def compiled(c):
    return ["compiled", freeze(c.routine_infos), freeze(c.routine_ops), freeze(c.named_coroutines), freeze_map(c.source_map),
            freeze(list(c.imports)), sorted(c.macros)]


def failure(e):
    """The kind of failure. Messages are left out: what the parser says it expected depends on its prediction caches."""
    return ["raised", type(e).__name__]


class Objects:
    """Inputs and instances that live as long as a history does."""

    def __init__(self, root):
        self.root = root
        self.instances = {}
        self.sets = {}
        self.decompilers = {}
        self.held = []

    def write(self, files):
        w = os.path.join(self.root, "w")
        shutil.rmtree(w, ignore_errors=True)
        disk.write_tree(w, {p: (t.replace("${ROOT}", w) if isinstance(t, str) else t) for p, t in files.items()})
        return w

    def compiler(self, inst, lookups, ppl):
        from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler

        w = os.path.join(self.root, "w")
        key = (inst, tuple(lookups), ppl)
        if inst is None or key not in self.instances:
            # "rel:" marks lookup paths that stay relative (to the importing file)
            c = ExplorerScriptSsbCompiler(ppl, [lp[4:] if lp.startswith("rel:") else os.path.join(w, lp) for lp in lookups])
            if inst is None:
                return c
            self.instances[key] = c
        return self.instances[key]

    def routine_set(self, job):
        """Objects of a routine set; `keep` names objects that are handed to several calls."""
        key = job.get("keep")
        if key is not None and key in self.sets:
            return self.sets[key]
        if "set" in job:
            s = job["set"]
            v = ssbgen.build(s["infos"], ssbgen.resolve(s), s["coros"])
        else:
            v = compiled_set(job["src"])
        if key is not None:
            self.sets[key] = v
        return v


def compiled_set(src):
    """A routine set made by the compiler from a source text."""
    from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler
    from explorerscript.ssb_converting.ssb_data_types import SsbCoroutine

    c = ExplorerScriptSsbCompiler(PPL, [])
    c.compile(src, "/main.exps")
    return c.routine_infos, c.routine_ops, [SsbCoroutine(i, n) for i, n in enumerate(c.named_coroutines) if n]


def prepare(job, ob):
    """Everything that is not part of the call under observation. Returns (call, input objects or None)."""
    from explorerscript.ssb_converting.ssb_data_types import DungeonModeConstants

    k = job["k"]
    if k == "compile":
        w = ob.write(job["files"]) if not job.get("written") else os.path.join(ob.root, "w")
        src = job["files"][job["main"]].replace("${ROOT}", w)
        path = os.path.join(w, job["main"])
        if job.get("decoder") == "ssbs":
            from explorerscript.ssb_script.ssb_converting.ssb_compiler import SsbScriptSsbCompiler

            key = ("ssbs", job.get("inst"))
            c = ob.instances.get(key) or SsbScriptSsbCompiler()
            if job.get("inst") is not None:
                ob.instances[key] = c

            def call():
                c.compile(src)
                r = [c.routine_infos, c.routine_ops, c.named_coroutines, c.source_map]
                return ["compiled-ssbs", *map(freeze, r[:3]), freeze_map(r[3])], r

            return call, None
        c = ob.compiler(job.get("inst"), job["lookups"], job.get("ppl", PPL))

        def call():
            c.compile(src, path)
            return compiled(c), [c.routine_infos, c.routine_ops, c.named_coroutines, c.source_map]

        return call, None
    if k in ("decompile", "ssbs-decompile"):
        try:
            v = ob.routine_set(job)
        except Exception as e:
            f = failure(e)
            return (lambda: (["no-input", f], [])), None
        key = (k, job.get("keep"))
        if job.get("again") and key in ob.decompilers:
            d = ob.decompilers[key]
        elif k == "decompile":
            from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler

            dm = job.get("dm") or [DMODE["closed"], DMODE["open"], DMODE["request"], DMODE["open_request"]]
            d = ExplorerScriptSsbDecompiler(*v, job.get("ppl", PPL), DungeonModeConstants(*dm))
        else:
            from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler

            d = SsbScriptSsbDecompiler(*v)
        if job.get("keep") is not None:
            ob.decompilers[key] = d

        def call():
            t, sm = d.convert()
            return ["text", t, freeze_map(sm)], [t, sm]

        return call, v
    if k == "cli-read":
        from explorerscript.cli import decompile

        doc = job["doc"]

        def call():
            r = decompile.read_routines(doc["routines"])
            return ["read", freeze(list(r))], [r]

        return call, None
    raise ValueError(k)


def run(job, ob, hold=False):
    """Run one job; returns its outcome as a plain value."""
    call, inp = prepare(job, ob)
    before = freeze(list(inp)) if inp is not None else None
    try:
        res, objs = call()
        if hold:
            ob.held.append([[freeze_map(o) if hasattr(o, "serialize") else freeze(o) for o in objs], objs])
    except (Exception, simlock.Deadlock) as e:
        res = failure(e)
    if inp is not None and freeze(list(inp)) != before:
        res = ["input-changed", res]
    return res
