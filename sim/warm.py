"""Fill the parsers' prediction caches in the parent, so that forked runs do not all pay for it."""
import random

from . import lang, ssbgen


def warm(n=25):
    from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler
    from explorerscript.ssb_converting.ssb_data_types import DungeonModeConstants
    from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
    from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler

    for i in range(n):
        r = random.Random(f"warm{i}")
        try:
            ExplorerScriptSsbCompiler(lang.PPL, []).compile(lang.to_text(lang.gen_program(r, macros=None), 0), "/w.exps")
        except Exception:
            pass
        try:
            s = ssbgen.SsbGen(r).gen()
            a = ssbgen.build(s["infos"], ssbgen.resolve(s), s["coros"])
            t, _ = SsbScriptSsbDecompiler(*a).convert(prefix="//?: is-ssb-script: true\n")
            ExplorerScriptSsbCompiler(lang.PPL, []).compile(t, "/w.exps")
            a = ssbgen.build(s["infos"], ssbgen.resolve(s), s["coros"])
            ExplorerScriptSsbDecompiler(*a, lang.PPL, DungeonModeConstants("C", "O", "R", "OR")).convert()
        except Exception:
            pass
