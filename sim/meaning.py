"""What a program means: canonical operations for syntax trees of `lang`, straight from the language specification.

No optimisation, one layout per construct, every control transfer a Jump. Only the behaviour is comparable with what a
compiler gives (`flow.behaves_same`), not the order of operations. Independent of the code under test.
"""
from . import flow
from .flow import JUMP_AT
from .lang import ASSIGN, COND, DMODE, PPL

CTX_OP = {"actor": "lives", "object": "object", "performer": "performer"}
WORD = {"debug": "BranchDebug", "edit": "BranchEdit", "variation": "BranchVariation"}
SCN = {"==": "BranchScenarioNow", "<": "BranchScenarioBefore", "<=": "BranchScenarioNowBefore", ">": "BranchScenarioAfter",
       ">=": "BranchScenarioNowAfter"}
CNTRL = {"return": "Return", "end": "End", "hold": "Hold"}


class NoMeaning(Exception):
    """The program is outside of what this module knows."""


def arg(a):
    t = a["t"]
    if t == "int":
        return ["int", a["v"]]
    if t in ("const", "var"):
        return ["const", a["v"]]
    if t == "fix":
        return ["fix", a["v"]]
    if t == "str":
        return ["str", a["v"]]
    if t == "lang":
        return ["lang", sorted([k, v] for k, v in a["v"])]
    if t == "pos":
        x, y = a["x"], a["y"]
        return ["pos", a["n"], 2 if x.endswith(".5") else 0, 2 if y.endswith(".5") else 0, int(x.split(".")[0]), int(y.split(".")[0])]
    raise NoMeaning(f"argument {t}")


def number(x):
    return ["int", x]


class Body:
    def __init__(self, labels):
        self.code = []
        self.labels = labels  # name -> label object, over all routines
        self.loops = []
        self.cases = []

    # labels are one-element lists that will hold an offset
    def label(self):
        return [None]

    def place(self, lab):
        self.code.append(lab)

    def emit(self, name, params, target=None):
        self.code.append((name, params, target))

    def named(self, n):
        return self.labels.setdefault(n, [None])

    def test(self, c, target):
        k = c["k"]
        if k == "cmp":
            a, b = arg(c["a"]), arg(c["b"])
            if c.get("val"):
                self.emit("BranchVariable", [a, number(COND.index(c["op"])), b], target)
            elif c["op"] == "==":
                self.emit("Branch", [a, b], target)
            else:
                self.emit("BranchValue", [a, number(COND.index(c["op"])), b], target)
        elif k == "bit":
            if c["a"].get("v") == PPL:
                self.emit("BranchPerformance", [number(c["i"]), number(0 if c.get("neg") else 1)], target)
            elif c.get("neg"):
                raise NoMeaning("negated bit check")
            else:
                self.emit("BranchBit", [arg(c["a"]), number(c["i"])], target)
        elif k == "neg":
            self.emit(WORD[c["w"]], [number(0 if c.get("neg") else 1)], target)
        elif k == "scn":
            self.emit(SCN[c["op"]], [arg(c["a"]), number(c["x"]), number(c["y"])], target)
        elif k == "op":
            self.emit(c["name"], [arg(a) for a in c["args"]], target)
        else:
            raise NoMeaning(f"condition {k}")

    def guarded(self, conds, neg, body, end):
        """if [not] (conds) { body } jump to end; falls through if the condition does not hold."""
        other = self.label()
        if neg:
            for c in conds:
                self.test(c, other)
        else:
            inside = self.label()
            for c in conds:
                self.test(c, inside)
            self.emit("Jump", [], other)
            self.place(inside)
        self.block(body)
        self.emit("Jump", [], end)
        self.place(other)

    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        k = s["k"]
        f = getattr(self, "s_" + k, None)
        if f is None:
            raise NoMeaning(f"statement {k}")
        f(s)

    def s_op(self, s):
        if s.get("ctx"):
            self.emit(CTX_OP[s["ctx"][0]], [arg(s["ctx"][1])])
        self.emit(s["name"], [arg(a) for a in s["args"]])

    def s_with(self, s):
        if s["s"]["k"] == "op" and s["s"].get("ctx"):
            raise NoMeaning("context in context")
        self.emit(CTX_OP[s["c"][0]], [arg(s["c"][1])])
        self.stmt(s["s"])

    def s_label(self, s):
        if any(x is self.named(s["n"]) for x in self.code):
            raise NoMeaning("label twice")
        self.place(self.named(s["n"]))

    def s_jump(self, s):
        self.emit("Jump", [], self.named(s["n"]))

    def s_call(self, s):
        self.emit("Call", [], self.named(s["n"]))

    def s_cntrl(self, s):
        w = s["w"]
        if w in CNTRL:
            self.emit(CNTRL[w], [])
        else:
            stack = self.cases if w == "break" else self.loops
            if not stack:
                raise NoMeaning(f"{w} outside")
            self.emit("Jump", [], stack[-1] if w == "break" else stack[-1][0 if w == "continue" else 1])

    def s_asg(self, s):
        a, b = arg(s["a"]), arg(s["b"])
        if s.get("i") is not None:
            if s["op"] != "=" or s.get("val"):
                raise NoMeaning("bit assignment")
            if s["a"].get("v") == PPL:
                self.emit("flag_SetPerformance", [number(s["i"]), b])
            else:
                self.emit("flag_CalcBit", [a, number(s["i"]), b])
        elif s.get("val"):
            self.emit("flag_CalcVariable", [a, number(ASSIGN.index(s["op"])), b])
        elif s["op"] == "=":
            self.emit("flag_Set", [a, b])
        else:
            self.emit("flag_CalcValue", [a, number(ASSIGN.index(s["op"])), b])

    def s_clear(self, s):
        self.emit("flag_Clear", [arg(s["a"])])

    def s_init(self, s):
        self.emit("flag_Initial", [arg(s["a"])])

    def s_reset(self, s):
        if s.get("a") is None:
            self.emit("flag_ResetDungeonResult", [])
        else:
            self.emit("flag_ResetScenario", [arg(s["a"])])

    def s_advlog(self, s):
        self.emit("flag_SetAdventureLog", [arg(s["a"])])

    def s_dmode(self, s):
        self.emit("flag_SetDungeonMode", [arg(s["a"]), arg(s["b"])])

    def s_scn(self, s):
        self.emit("flag_SetScenario", [arg(s["a"]), number(s["x"]), number(s["y"])])

    def s_if(self, s):
        end = self.label()
        self.guarded(s["conds"], s.get("neg"), s["body"], end)
        for e in s.get("elifs") or []:
            self.guarded(e["conds"], e.get("neg"), e["body"], end)
        self.block(s.get("els") or [])
        self.place(end)

    def s_switch(self, s):
        h = s["h"]
        k = h["k"]
        if k == "int":
            self.emit("Switch", [arg(h["a"])])
        elif k == "op":
            self.emit(h["name"], [arg(a) for a in h["args"]])
        elif k == "scn":
            self.emit(["SwitchScenario", "SwitchScenarioLevel"][h["i"]], [arg(h["a"])])
        elif k == "random":
            self.emit("SwitchRandom", [arg(h["a"])])
        elif k == "dmode":
            self.emit("SwitchDungeonMode", [arg(h["a"])])
        elif k == "sector":
            self.emit("SwitchSector", [])
        else:
            raise NoMeaning(f"switch {k}")
        end = self.label()
        starts = [self.label() for _ in s["cases"]]
        other = end
        for c, at in zip(s["cases"], starts):
            if "body" not in c:
                raise NoMeaning("text in a switch")
            if c.get("h") is None:
                other = at
                continue
            ch = c["h"]
            if ch["k"] == "int":
                self.emit("Case", [arg(ch["a"])], at)
            elif ch["k"] == "menu":
                self.emit("CaseMenu", [arg(ch["a"])], at)
            elif ch["k"] == "menu2":
                self.emit("CaseMenu2", [arg(ch["a"])], at)
            elif ch["k"] == "op":
                self.emit("CaseVariable" if ch.get("val") else "CaseValue", [number(COND.index(ch["op"])), arg(ch["a"])], at)
            else:
                raise NoMeaning(f"case {ch['k']}")
        self.emit("Jump", [], other)
        self.cases.append(end)
        for c, at in zip(s["cases"], starts):
            self.place(at)
            self.block(c["body"])
        self.cases.pop()
        self.place(end)

    def s_msw(self, s):
        self.emit(s["w"], [arg(s["a"])])
        for c in s["cases"]:
            if "body" in c or c.get("h") is not None and c["h"]["k"] != "int":
                raise NoMeaning("message switch")
            if c.get("h") is not None:
                self.emit("CaseText", [arg(c["h"]["a"]), arg(c["str"])])
        for c in s["cases"]:
            if c.get("h") is None:
                self.emit("DefaultText", [arg(c["str"])])

    def s_forever(self, s):
        top, end = self.label(), self.label()
        self.place(top)
        self.loops.append((top, end))
        self.block(s["body"])
        self.loops.pop()
        self.emit("Jump", [], top)
        self.place(end)

    def s_while(self, s):
        top, end = self.label(), self.label()
        self.place(top)
        if s.get("neg"):
            self.test(s["c"], end)
        else:
            inside = self.label()
            self.test(s["c"], inside)
            self.emit("Jump", [], end)
            self.place(inside)
        self.loops.append((top, end))
        self.block(s["body"])
        self.loops.pop()
        self.emit("Jump", [], top)
        self.place(end)

    def s_for(self, s):
        check, inside, cont, end = (self.label() for _ in range(4))
        self.stmt(s["init"])
        self.emit("Jump", [], check)
        self.place(inside)
        self.loops.append((cont, end))
        self.block(s["body"])
        self.loops.pop()
        self.place(cont)
        self.stmt(s["inc"])
        self.place(check)
        self.test(s["c"], inside)
        self.place(end)


def routines(bodies):
    """Canonical operations of routines with these bodies (None: no operations of its own). Labels are shared by all of them."""
    labels = {}
    made = []
    for b in bodies:
        x = Body(labels)
        if b is not None:
            x.block(b)
            # running off the end stops the routine
            x.emit("Return", [])
        made.append(x.code)
    n = 0
    for code in made:
        for i, it in enumerate(code):
            if isinstance(it, list):
                if it[0] is not None:
                    raise NoMeaning("label twice")
                it[0] = n + 1
            else:
                n += 1
    n = 0
    out = []
    for code in made:
        ops = []
        for it in code:
            if isinstance(it, list):
                continue
            n += 1
            name, params, target = it
            if target is not None:
                if target[0] is None:
                    raise NoMeaning("jump to nowhere")
                if name in JUMP_AT and JUMP_AT[name] != len(params):
                    raise NoMeaning(f"arguments of {name}")
                params = params + [["int", target[0]]]
            ops.append([n, name, params])
        out.append(ops)
    return out


PPL_OPS = {"BranchBit": "BranchPerformance", "flag_CalcBit": "flag_SetPerformance"}
DM = {DMODE["closed"]: 0, DMODE["open"]: 1, DMODE["request"]: 2, DMODE["open_request"]: 3}


def same_values(ops):
    """Language strings in one order, the constants of the settings as the dungeon modes they stand for, and operations
    for which there is another operation that does the same as that operation (the texts for both are the same)."""
    def v(p):
        if p[0] == "lang":
            return ["lang", sorted(p[1])]
        if p[0] == "const" and p[1] in DM:
            return ["int", DM[p[1]]]
        return p

    def op(off, n, ps):
        ps = [v(p) for p in ps]
        if n == "flag_CalcValue" and len(ps) == 3 and ps[1] == ["int", 0]:  # assign
            return [off, "flag_Set", [ps[0], ps[2]]]
        if n == "BranchValue" and len(ps) == 4 and ps[1] == ["int", 2]:  # equals
            return [off, "Branch", [ps[0]] + ps[2:]]
        if n == "CaseScenario":  # the compiler writes cases of a scenario switch like the game does
            return [off, "CaseValue", ps]
        if n in PPL_OPS and ps and ps[0] == ["const", PPL]:
            return [off, PPL_OPS[n], ps[1:2] + (ps[2:] if n != "BranchBit" else [["int", 1]] + ps[2:])]
        return [off, n, ps]

    return [[op(*o) for o in r] for r in ops]


def differs(ops, want):
    """None, or how these routines (left) differ in what they do from the wanted ones (right)."""
    fa, fb = flow.Flow(same_values(ops)), flow.Flow(same_values(want))
    for r in range(len(want)):
        if not ops[r] and not want[r]:
            continue  # alias of the previous routine
        d = flow.behaves_same(fa, (r, 0), fb, (r, 0))
        if d:
            return f"routine {r}: {d}"
    return None
