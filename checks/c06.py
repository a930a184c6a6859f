"""C06: the decompiler always answers; its SsbScript fallback is marked and exact."""
import random
import sys

from sim import flow, ssbgen
from sim.lang import DMODE, PPL

PROP = "C06"
LEVEL = "exploration"
RULE = ("distinct = different (routine-set shape, outcome, injected fault site and type): the op names and jump targets by "
        "position, structured/fallback, and the function in which the fault fired")
SIM_TIME = "none: the decompiler reads no clock; progress is counted in interpreter call/line events"
COMPONENTS = {
    "real": ["explorerscript decompiler (structured and SsbScript)", "explorerscript compiler (both languages)", "antlr4", "igraph"],
    "stub": ["failing step inside a structuring pass or writer: raised by the simulator at the k-th function entry"],
}
ASSUMPTIONS = [
    "routine sets have unique ascending offsets, jump targets that are ops of the set, routines ending in a control-flow end",
    "injected exceptions are of the types the passes raise themselves; they are raised at function entry only",
    "sets of at most about 70 ops; no answer means more than 4 million interpreter line events",
]
TIERS = {
    "quick": {"runs": 12000, "budget_s": 80, "determinism_sample": 200},
    "thorough": {"runs": 2000000, "budget_s": 1500, "determinism_sample": 2000},
}
RUN_TIMEOUT = 8
STEP_LIMIT = 4_000_000
MARK = "//?: is-ssb-script: true"
# What a pass that meets a graph it was not made for can raise (InternalError: igraph's)
EXC = ["AssertionError", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "RecursionError", "InternalError"]
INJECT_IN = ("decompiler/graph_building/", "decompiler/write_handlers/", "decompiler/write_handler_manager")


def gen(rng, idx, tier):
    cfg = {}
    mode = rng.random()
    if mode < 0.12:
        # dense: almost everything jumps somewhere
        cfg = dict(p_branch=0.8, p_back=0.5, p_cross=0.2, blocks=rng.randrange(3, 10), routines=rng.randrange(1, 4), p_simple=0.2)
    elif mode < 0.2:
        cfg = dict(p_only_jump=0.5, p_cross=0.5, routines=rng.randrange(2, 6), blocks=rng.randrange(1, 4), p_empty=0.2)
    elif mode < 0.32:
        cfg = dict(p_switch=0.6, shared_blocks=True, max_cases=6, p_branch=0.2)
    elif mode < 0.37:
        cfg = dict(p_call=0.4)
    elif mode < 0.45:
        # irreducible: forward branches into loops
        cfg = dict(p_branch=0.9, p_back=0.35, targets="any", blocks=rng.randrange(4, 12), p_jump=0.2, p_end=0.0, routines=1)
    elif mode < 0.5 and tier == "thorough":
        cfg = dict(blocks=rng.randrange(10, 25), routines=rng.randrange(1, 6))
    g = ssbgen.SsbGen(rng, **cfg)
    s = g.gen()
    plan = {"set": s, "inject": []}
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2])):
            plan["inject"].append({"at": rng.random(), "exc": rng.choice(EXC)})
    return plan


def convert(infos, ops, coros):
    from explorerscript.ssb_converting.ssb_data_types import DungeonModeConstants
    from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler

    i, o, c = ssbgen.build(infos, ops, coros)
    dm = DungeonModeConstants(DMODE["closed"], DMODE["open"], DMODE["request"], DMODE["open_request"])
    return ExplorerScriptSsbDecompiler(i, o, c, PPL, dm).convert()


SUFFIX = ""


def has_backslash(ops):
    """A string parameter holds a backslash: the languages have no spelling for it (see known_findings.txt)."""
    for r in ops:
        for _, _, ps in r:
            for p in ps:
                if p[0] == "str" and "\\" in p[1]:
                    return True
                if p[0] == "lang" and any("\\" in v for _, v in p[1]):
                    return True
    return False


class Injector:
    """Counts function entries of the structuring code and raises at the chosen one."""

    def __init__(self, at=None, exc=None):
        self.n = 0
        self.at = at
        self.exc = exc
        self.fired = None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.hook)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)

    def hook(self, frame, event, arg):
        if event != "call":
            return None
        fn = frame.f_code.co_filename.replace("\\", "/")
        if "explorerscript/ssb_converting" not in fn or not any(p in fn for p in INJECT_IN):
            return None
        name = frame.f_code.co_name
        if name.startswith("<") or frame.f_code.co_flags & 0x20:  # generator resumption is no function entry
            return None
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = f"{fn.rsplit('/', 1)[1]}:{name}"
            self.at = None
            import builtins
            import igraph
            raise getattr(igraph if self.exc == "InternalError" else builtins, self.exc)("injected by the simulator")
        return None


def describe(plan):
    return {"routines": ssbgen.text(plan["set"]).split("\n"), "inject": plan["inject"]}


def execute(plan, out):
    s = plan["set"]
    ops = ssbgen.resolve(s)
    infos, coros = s["infos"], s["coros"]
    shape = [[[n, [p for p in ps if p[0] == "target"]] for n, ps in r] for r in flow.relocated(ops)]
    out.log.append(shape)
    out.events += sum(len(r) for r in ops)
    global SUFFIX
    SUFFIX = ":backslash-string" if has_backslash(ops) else ""
    counter = Injector()
    try:
        if plan["inject"]:
            with counter:
                text, sm = convert(infos, ops, coros)
        else:
            text, sm = convert(infos, ops, coros)
    except Exception as e:
        out.hit("raised")
        out.violate(f"raised:{type(e).__name__}", f"decompiling raised {type(e).__name__}: {e}")
        return
    out.log.append(text)
    kind = judge(out, infos, ops, coros, text, sm, None)
    out.state([shape, kind])
    probes(out, ops)
    for inj in plan["inject"]:
        if counter.n == 0:
            continue
        k = 1 + int(inj["at"] * counter.n)
        i2 = Injector(k, inj["exc"])
        try:
            with i2:
                text2, sm2 = convert(infos, ops, coros)
        except Exception as e:
            out.violate(f"raised-after-fault:{type(e).__name__}",
                        f"{inj['exc']} raised in {i2.fired} while structuring escaped from convert() as {type(e).__name__}: {e}")
            continue
        if i2.fired is None:
            out.hit("fault_not_reached")
            continue
        out.events += i2.n
        out.fault(inj["exc"])
        out.log.append([i2.fired, text2])
        kind = judge(out, infos, ops, coros, text2, sm2, i2.fired)
        out.state([shape, kind, i2.fired, inj["exc"]])


def judge(out, infos, ops, coros, text, sm, fault):
    from explorerscript.source_map import SourceMap

    where = f" (after a fault in {fault})" if fault else ""
    if not isinstance(text, str) or not isinstance(sm, SourceMap):
        out.violate("no-text-or-map", f"convert() returned {type(text).__name__}, {type(sm).__name__}{where}")
        return "bad"
    first = text.split("\n", 1)[0]
    if first.strip() != MARK:
        out.hit("structured" + ("_after_fault" if fault else ""))
        if fault:
            return "structured"  # the pass itself coped with the fault
        # unmarked text has to be ExplorerScript
        from explorerscript.explorerscript_reader import ExplorerScriptReader
        from explorerscript.error import ParseError

        try:
            ExplorerScriptReader(text).read()
        except ParseError as e:
            out.violate("unmarked-no-explorerscript" + SUFFIX, f"the unmarked text is not ExplorerScript: {e}\n{text[:1500]}")
        return "structured"
    out.hit("fallback" + ("_after_fault" if fault else ""))
    from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler

    c = ExplorerScriptSsbCompiler(PPL, [])
    try:
        c.compile(text, "/nowhere/x.exps")
    except Exception as e:
        out.violate("fallback-does-not-compile" + SUFFIX, f"{type(e).__name__}: {e}{where}\n{text[:2000]}")
        return "fallback"
    diff = exact_diff(infos, ops, coros, c)
    if diff:
        out.violate("fallback-not-exact" + SUFFIX, f"{diff}{where}\n{text[:2000]}")
    return "fallback"


def exact_diff(infos, ops, coros, c):
    if len(c.routine_ops) != len(ops):
        return f"{len(ops)} routines became {len(c.routine_ops)}"
    want = [[t, None if t in (1, 9) else (nm if nm else lt)] for t, lt, nm in infos]
    got = []
    for i in c.routine_infos:
        t = int(i.type.value)
        got.append([t, None if t in (1, 9) else (i.linked_to_name if i.linked_to_name else int(i.linked_to))])
    if want != got:
        return f"routine headers {want} became {got}"
    for i, n in enumerate(coros):
        if n is not None:
            names = list(c.named_coroutines or [])
            if i >= len(names) or names[i] != n:
                return f"coroutine {i} named {n} became {names}"
    try:
        got_ops = flow.relocated(flow.canon_ops(c.routine_ops))
    except flow.Malformed as e:
        return str(e)
    want_ops = flow.relocated(ops)
    for r, (a, b) in enumerate(zip(want_ops, got_ops)):
        if len(a) != len(b):
            return f"routine {r}: {len(a)} ops became {len(b)}: {a} / {b}"
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return f"routine {r} op {k}: {x} became {y}"
    return None


def probes(out, ops):
    pos = flow.positions(ops)
    for ri, r in enumerate(ops):
        if not r:
            out.hit("alias_routine")
        if len(r) == 1 and r[0][1] == "Jump":
            out.hit("only_jump_routine" + ("_foreign" if pos[r[0][2][0][1]][0] != ri else ""))
        for off, n, ps in r:
            at = flow.jump_target(n, ps)
            if at is not None:
                tr, ti = pos[ps[at][1]]
                if tr != ri:
                    out.hit("jump_into_other_routine")
                elif ps[at][1] <= off:
                    out.hit("back_jump")
                if ti == len(ops[tr]) - 1:
                    out.hit("jump_to_last_op")


def shrink(plan):
    if plan["inject"]:
        yield {**plan, "inject": []}
        if len(plan["inject"]) > 1:
            for i in plan["inject"]:
                yield {**plan, "inject": [i]}
        for i, inj in enumerate(plan["inject"]):
            for at in (0.0, 0.25, 0.5, 0.75, 0.999):
                if inj["at"] != at and at < inj["at"]:
                    yield {**plan, "inject": plan["inject"][:i] + [{**inj, "at": at}] + plan["inject"][i + 1:]}
    for c in ssbgen.shrink(plan["set"]):
        yield {**plan, "set": c}


def setup(tier):
    from sim.warm import warm

    warm()
