"""Random well-formed SSB routine sets, held symbolically (labels instead of offsets) so that any shrink step can be
repaired into another well-formed set. Independent of the code under test except for the final `build`.

Symbolic form: {"infos": [[type, linked_to, name|null]...], "coros": [name|null...], "gap": n,
                "ops": [[entry...]...]}   entry = ["@", label] | [name, [params...]];  jump parameter = ["L", label]
"""
from .flow import ENDS, CTX, JUMP_AT

SWITCHES = {
    "Switch": ["var"], "SwitchSector": [], "SwitchScenario": ["var"], "SwitchScenarioLevel": ["var"],
    "SwitchRandom": ["int"], "SwitchDungeonMode": ["int"], "ProcessSpecial": ["int", "int", "int"],
    "message_Menu": ["int"], "main_EnterAdventure": ["int", "int"],
}
MENU_SWITCHES = {"message_SwitchMenu": ["int", "int"], "message_SwitchMenu2": ["int", "int"]}
MSG = ["message_SwitchTalk", "message_SwitchMonologue"]
MSGC = ["CaseText", "DefaultText"]
CASES = {"Case": ["int"], "CaseValue": ["cop", "int"], "CaseVariable": ["cop", "var"], "CaseScenario": ["int", "int"]}
BRANCHES = {
    "Branch": ["var", "int"], "BranchBit": ["var", "bit"], "BranchDebug": ["bool"], "BranchEdit": ["bool"],
    "BranchExecuteSub": ["int"], "BranchPerformance": ["bit", "bool"], "BranchScenarioNow": ["var", "bit", "bit"],
    "BranchScenarioNowAfter": ["var", "bit", "bit"], "BranchScenarioNowBefore": ["var", "bit", "bit"],
    "BranchScenarioAfter": ["var", "bit", "bit"], "BranchScenarioBefore": ["var", "bit", "bit"],
    "BranchSum": ["int", "int", "int"], "BranchValue": ["var", "cop", "int"], "BranchVariable": ["var", "cop", "var"],
    "BranchVariation": ["bool"],
}
FLAGS = {
    "flag_CalcBit": ["var", "bit", "bool"], "flag_CalcValue": ["var", "aop", "int"], "flag_CalcVariable": ["var", "aop", "var"],
    "flag_Clear": ["var"], "flag_Initial": ["var"], "flag_Set": ["var", "int"], "flag_ResetDungeonResult": [],
    "flag_ResetScenario": ["var"], "flag_SetAdventureLog": ["int"], "flag_SetDungeonMode": ["int", "dm"],
    "flag_SetPerformance": ["bit", "bool"], "flag_SetScenario": ["var", "bit", "bit"],
}
PLAIN = ["se_Play", "WaitFrames", "bgm_PlayFadeIn", "SetAnimation", "debug_Print", "Turn2Direction", "Slide2PositionMark",
         "message_Talk", "camera_SetMyself", "screen_FadeIn"]
ALL_SWITCHES = set(SWITCHES) | set(MENU_SWITCHES)
ALL_CASES = set(CASES) | {"CaseMenu", "CaseMenu2"}
STR = ["Hello", "wait here", "[CN]Pika", "a-b", "x;y", "(paren)", "ok then"]
RICH = ["it's", 'say "hi"', "a\nb", "\nlead", "trail\n", "two\n\nlines", "tab\tx", "\u00e9 \u3042", "{x}", "// c", "/* */", "",
        " lead", "trail ", "mix'\"\n", "@label_0;", "}", "//?: is-ssb-script: false"]
BACK = ["end\\", "a\\nb", "\\", "x\\'y"]


class SsbGen:
    def __init__(self, rng, **cfg):
        self.r = rng
        r = rng
        self.cfg = dict(
            routines=r.randrange(1, 4), blocks=r.randrange(1, 9), p_simple=r.choice([0.4, 0.8]), p_switch=r.choice([0, 0.1, 0.3]),
            p_branch=r.choice([0.2, 0.5, 0.7]), p_jump=r.choice([0.1, 0.3]), p_call=r.choice([0, 0, 0.15]),
            p_end=r.choice([0.05, 0.2]), p_cross=r.choice([0, 0.05, 0.2]), p_back=r.choice([0, 0.15, 0.5]),
            p_msg=r.choice([0, 0.1]), p_ctx=r.choice([0, 0.1]), p_only_jump=r.choice([0, 0.2]), p_empty=r.choice([0, 0.15]),
            p_flag=r.choice([0, 0.3]), p_into_ctx=0.0, targets=r.choice(["any", "few"]), shared_blocks=r.random() < 0.4,
            strings=True, backslash=r.random() < 0.02, coro=r.random() < 0.2, max_cases=r.choice([2, 5]), linked_names=r.random() < 0.7,
            p_caseless=r.choice([0, 0, 0.1, 0.5]),
        )
        self.cfg.update(cfg)
        self.n = 0

    def value(self, kind):
        r = self.r
        if kind == "var":
            return ["const", r.choice(["$SCENARIO_MAIN", "$LOCAL0", "$EVENT_LOCAL", "$GROUND_ENTER"])]
        if kind == "int":
            return ["int", r.choice([0, 1, 2, 3, 7, 100, 255])] if r.random() < 0.8 else ["const", r.choice(["LEVEL_G01", "ACTOR_PLAYER", "MENU_X"])]
        if kind == "bit":
            return ["int", r.randrange(0, 8)]
        if kind == "bool":
            return ["int", r.randrange(0, 2)]
        if kind == "cop":
            return ["int", r.randrange(0, 11)]
        if kind == "aop":
            return ["int", r.randrange(0, 5)]
        if kind == "dm":
            return ["int", r.randrange(0, 4)] if r.random() < 0.7 else ["const", r.choice(["DMODE_OPEN", "DMODE_CLOSED"])]
        raise ValueError(kind)

    def string(self):
        r = self.r
        if self.cfg["backslash"] and r.random() < 0.5:
            return r.choice(BACK)
        return r.choice(RICH) if self.cfg.get("rich", True) and r.random() < 0.4 else r.choice(STR)

    def arg(self):
        r = self.r
        x = r.random()
        if x < 0.35:
            return ["int", r.choice([0, 1, 5, -1, 1000])]
        if x < 0.5:
            return ["const", r.choice(["ACTOR_PLAYER", "FACE_HAPPY", "$LOCAL0"])]
        if x < 0.6:
            return ["fix", r.choice(["1.5", "0.25", "-3.75", "-0.5", "10.0", "0.0"])]
        if x < 0.75 and self.cfg["strings"]:
            return ["str", self.string()]
        if x < 0.88 and self.cfg["strings"]:
            return ["lang", [[l, self.string()] for l in sorted(r.sample(["english", "french", "german"], r.randrange(1, 4)))]]
        return ["pos", r.choice(["m0", "Mark 1"]), r.choice([0, 2]), r.choice([0, 2]), r.randrange(0, 30), r.randrange(0, 30)]

    def simple(self):
        r = self.r
        if r.random() < self.cfg["p_flag"]:
            n = r.choice(sorted(FLAGS))
            return [[n, [self.value(k) for k in FLAGS[n]]]]
        self.n += 1
        out = [[r.choice(PLAIN), [["int", self.n]] + [self.arg() for _ in range(r.randrange(0, 3))]]]
        if r.random() < self.cfg["p_ctx"]:
            out.insert(0, [r.choice(sorted(CTX)), [self.value("int")]])
        return out

    def gen(self):
        r, c = self.r, self.cfg
        nr = c["routines"]
        plan = []  # blocks per routine
        for i in range(nr):
            if i > 0 and r.random() < c["p_empty"]:
                plan.append(0)
            elif r.random() < c["p_only_jump"]:
                plan.append(-1)
            else:
                plan.append(r.randrange(1, c["blocks"] + 1))
        if not any(p > 0 for p in plan):
            plan[r.randrange(nr)] = r.randrange(1, c["blocks"] + 1)
            if plan[0] == 0:
                plan[0] = 1
        labels = {i: [f"r{i}b{j}" for j in range(max(p, 0))] for i, p in enumerate(plan)}
        favourite = {i: r.sample(ls, min(2, len(ls))) for i, ls in labels.items()}

        def target(i, j):
            others = [k for k in labels if k != i and labels[k]]
            if others and (r.random() < c["p_cross"] or not labels[i]):
                k = r.choice(others)
                return r.choice(labels[k])
            if c["targets"] == "few" and r.random() < 0.6:
                return r.choice(favourite[i])
            if r.random() < c["p_back"]:
                return r.choice(labels[i][: j + 1])
            fwd = labels[i][j + 1:]
            return r.choice(fwd) if fwd else r.choice(labels[i])

        ops = []
        for i, p in enumerate(plan):
            rr = []
            if p == -1:
                rr.append(["Jump", [["L", target(i, 0)]]])
            for j in range(max(p, 0)):
                rr.append(["@", labels[i][j]])
                while r.random() < c["p_simple"]:
                    rr += self.simple()
                    if r.random() < 0.4:
                        break
                x = r.random()
                if x < c["p_switch"]:
                    rr += self.switch(lambda: target(i, j))
                elif x < c["p_switch"] + c["p_msg"]:
                    rr.append([r.choice(MSG), [self.value("var")]])
                    for k in range(0 if r.random() < c["p_caseless"] else r.randrange(1, 4)):
                        rr.append(["CaseText", [["int", k], ["str", self.string()]]])
                    if r.random() < 0.6:
                        rr.append(["DefaultText", [["str", self.string()]]])
                elif x < c["p_switch"] + c["p_msg"] + c["p_branch"]:
                    for _ in range(r.choice([1, 1, 1, 2])):
                        n = r.choice(sorted(BRANCHES))
                        ps = [self.value(k) for k in BRANCHES[n]]
                        ps.insert(JUMP_AT[n], ["L", target(i, j)])
                        rr.append([n, ps])
                if r.random() < c["p_call"]:
                    rr.append(["Call", [["L", target(i, j)]]])
                y = r.random()
                if y < c["p_jump"]:
                    rr.append(["Jump", [["L", target(i, j)]]])
                elif y < c["p_jump"] + c["p_end"] or j == p - 1:
                    e = r.choice(["Return", "End", "Hold", "End", "Return", "Destroy", "JumpCommon"])
                    rr.append([e, [["const", "EVENT_DIVIDE"]] if e == "JumpCommon" else []])
            ops.append(rr)
        infos, coros = [], []
        for i in range(nr):
            if c["coro"]:
                infos.append([9, 0, None])
                coros.append(f"CORO_{r.choice('ABC')}{i}")
            else:
                t = r.choice([1, 1, 3, 4, 5])
                nm = None
                if t != 1 and r.random() < 0.5 and c["linked_names"]:
                    nm = r.choice(["ACTOR_PLAYER", "OBJECT_D01"])
                infos.append([t, 0 if t == 1 else (-1 if nm else r.randrange(0, 20)), nm])
                coros.append(None)
        return normalise({"infos": infos, "coros": coros, "gap": r.choice([0, 1, 2]), "first": r.choice([0, 0, 1, 14]), "ops": ops})

    def switch(self, target):
        r = self.r
        out = []
        menu = r.random() < 0.2
        fam = MENU_SWITCHES if menu else SWITCHES
        n = r.choice(sorted(fam))
        out.append([n, [self.value(k) for k in fam[n]]])
        used = target() if self.cfg["shared_blocks"] else None
        for k in range(0 if r.random() < self.cfg["p_caseless"] else r.randrange(1, self.cfg["max_cases"] + 1)):
            t = used if used and r.random() < 0.5 else target()
            if menu:
                if r.random() < 0.7:
                    out.append(["CaseMenu", [["str", f"Option {k}" if r.random() < 0.7 else self.string()], ["L", t]]])
                else:
                    out.append(["CaseMenu2", [["int", k], ["L", t]]])
                continue
            cn = r.choice(["Case", "Case", "Case", "CaseValue", "CaseVariable"] + (["CaseScenario"] if self.cfg.get("case_scenario") else []))
            ps = [self.value(q) for q in CASES[cn]]
            if cn == "Case":
                ps = [["int", k]]
            out.append([cn, ps + [["L", t]]])
        return out


def normalise(s):
    """Repair a symbolic set into a well-formed one (used after generation and after every shrink step)."""
    ops = [[e for e in r] for r in s["ops"]]
    for _ in range(50):
        changed = False
        defined = {e[1] for r in ops for e in r if e[0] == "@"}
        out = []
        for r in ops:
            rr = []
            kept_switch = False  # inside "switch + cases" group
            for k, e in enumerate(r):
                if e[0] == "@":
                    rr.append(e)
                    continue
                name, ps = e
                tgt = [p[1] for p in ps if p[0] == "L"]
                if any(t not in defined for t in tgt):
                    changed = True
                    continue
                if name in ALL_CASES:
                    prev = _prev_op(rr)
                    ok = prev is not None and (
                        prev[0] in (SWITCHES if name in CASES else MENU_SWITCHES)
                        or (prev[0] in ALL_CASES and (prev[0] in CASES) == (name in CASES)))
                    if not ok or rr[-1][0] == "@":
                        changed = True
                        continue
                if name in MSGC:
                    if not rr or rr[-1][0] == "@" or rr[-1][0] not in MSG + MSGC or rr[-1][0] == "DefaultText":
                        changed = True
                        continue
                rr.append(e)
            # a switch without a case and a message switch without a text are what `switch (..) { }` compiles to;
            # a ctx op needs an ordinary op after it
            keep = []
            for k, e in enumerate(rr):
                nxt = rr[k + 1] if k + 1 < len(rr) else None
                if e[0] in CTX and not (nxt and (nxt[0] in PLAIN or nxt[0] in FLAGS)) :
                    changed = True
                    continue
                keep.append(e)
            rr = keep
            last = _prev_op(rr)
            if rr and last is None:
                rr.append(["Return", []])
                changed = True
            elif rr and (rr[-1][0] == "@" or not (last[0] in ENDS or last[0] == "Jump")):
                rr.append(["Return", []])
                changed = True
            out.append(rr)
        ops = out
        if not changed:
            break
    if ops and not ops[0]:
        ops[0] = [["Return", []]]
    return {**s, "ops": ops}


def _prev_op(rr):
    for e in reversed(rr):
        if e[0] != "@":
            return e
    return None


def resolve(s):
    """Symbolic -> (canonical ops with offsets). Labels at routine ends never occur after normalise()."""
    off = s.get("first", 0)
    at = {}
    placed = []
    for r in s["ops"]:
        rr = []
        pend = []
        for e in r:
            if e[0] == "@":
                pend.append(e[1])
                continue
            for l in pend:
                at[l] = off
            pend = []
            rr.append([off, e[0], e[1]])
            off += 1 + (len(e[1]) if s.get("gap") == 1 else 0) + (1 if s.get("gap") == 2 else 0)
        assert not pend, "label at the end of a routine"
        placed.append(rr)
    out = []
    for rr in placed:
        out.append([[o, n, [["int", at[p[1]]] if p[0] == "L" else p for p in ps]] for o, n, ps in rr])
    return out


def build_param(p):
    from explorerscript.ssb_converting import ssb_data_types as d

    t = p[0]
    if t == "int":
        return p[1]
    if t == "fix":
        return d.SsbOpParamFixedPoint.from_str(p[1])
    if t == "const":
        return d.SsbOpParamConstant(p[1])
    if t == "str":
        return d.SsbOpParamConstString(p[1])
    if t == "lang":
        return d.SsbOpParamLanguageString({k: v for k, v in p[1]})
    if t == "pos":
        return d.SsbOpParamPositionMarker(p[1], p[2], p[3], p[4], p[5])
    raise ValueError(t)


def build(infos, ops, coros):
    """Canonical -> objects of the code under test: (infos, ops, named coroutines)."""
    from explorerscript.ssb_converting import ssb_data_types as d

    ii = [d.SsbRoutineInfo(d.SsbRoutineType(t), lt, nm) for t, lt, nm in infos]
    oo = [[d.SsbOperation(off, d.SsbOpCode(-1, n), [build_param(p) for p in ps]) for off, n, ps in r] for r in ops]
    cc = [d.SsbCoroutine(i, n) for i, n in enumerate(coros) if n is not None]
    return ii, oo, cc


def shrink(s):
    """Smaller well-formed sets."""
    n = len(s["ops"])
    if n > 1:
        for i in range(n):
            yield normalise({**s, "ops": s["ops"][:i] + s["ops"][i + 1:], "infos": s["infos"][:i] + s["infos"][i + 1:],
                             "coros": s["coros"][:i] + s["coros"][i + 1:]})
    for i, r in enumerate(s["ops"]):
        size = len(r)
        while size >= 1:
            for k in range(0, len(r), size):
                c = normalise({**s, "ops": s["ops"][:i] + [r[:k] + r[k + size:]] + s["ops"][i + 1:]})
                if c["ops"] != s["ops"]:
                    yield c
            size //= 2
    for i, r in enumerate(s["ops"]):
        for k, e in enumerate(r):
            if e[0] in PLAIN and len(e[1]) > 0:
                yield {**s, "ops": s["ops"][:i] + [r[:k] + [[e[0], []]] + r[k + 1:]] + s["ops"][i + 1:]}
            if e[0] in BRANCHES and e[0] != "BranchDebug":
                tgt = [p for p in e[1] if p[0] == "L"]
                yield {**s, "ops": s["ops"][:i] + [r[:k] + [["BranchDebug", [["int", 1]] + tgt]] + r[k + 1:]] + s["ops"][i + 1:]}
    if s.get("gap") or s.get("first"):
        yield {**s, "gap": 0, "first": 0}
    for i, inf in enumerate(s["infos"]):
        if inf[0] != 1 and inf[0] != 9:
            yield {**s, "infos": s["infos"][:i] + [[1, 0, None]] + s["infos"][i + 1:]}


def text(s):
    out = []
    for i, r in enumerate(s["ops"]):
        out.append(f"routine {i} {s['infos'][i]} {s['coros'][i] or ''}")
        for e in r:
            if e[0] == "@":
                out.append(f"  @{e[1]}")
            else:
                out.append("    " + e[0] + "(" + ", ".join(("@" + p[1]) if p[0] == "L" else str(p[1]) for p in e[1]) + ")")
    return "\n".join(out)
