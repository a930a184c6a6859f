"""ExplorerScript programs as JSON trees: printer, generator, shrinker. Independent of the code under test."""
import random

OPNAMES = ["back_SetGround", "bgm_PlayFadeIn", "camera_SetMyself", "se_Play", "WaitFrames", "supervision_Acting",
           "screen_FadeIn", "message_Talk", "SetAnimation", "Turn2Direction", "debug_Print", "Slide2PositionMark"]
CONSTS = ["ACTOR_PLAYER", "LEVEL_G01P01A", "MENU_DUNGEON", "FACE_HAPPY", "DIR_UP", "OBJECT_D01_1"]
VARS = ["$SCENARIO_MAIN", "$LOCAL0", "$EVENT_LOCAL", "$GROUND_ENTER", "$DUNGEON_SELECT"]
PPL = "$PERFORMANCE_PROGRESS_LIST"
WORDS = ["Hello", "wait here", "[CN]Pika", "a-b", "x;y", "(paren)", "quote's", "100%", "ein Baum", "", "naïve é"]
COND = ["FALSE", "TRUE", "==", ">", "<", ">=", "<=", "!=", "&", "^", "&<<"]
ASSIGN = ["=", "-=", "+=", "*=", "/="]
DMODE = {"open": "DMODE_OPEN", "closed": "DMODE_CLOSED", "request": "DMODE_REQUEST", "open_request": "OPEN_AND_REQUEST"}


# ------------------------------------------------------------------------------------------------ printing
def q(s, ch='"'):
    s = s.replace("\n", "\\n")
    if ch == '"':
        return '"' + s.replace('"', '\\"') + '"'
    return "'" + s.replace("'", "\\'") + "'"


def p_arg(a):
    t = a["t"]
    if t == "int":
        f = a.get("f")
        v = a["v"]
        if f == "x":
            return ("-" if v < 0 else "") + hex(abs(v))
        return str(v)
    if t in ("const", "var", "fix", "raw"):
        return a["v"]
    if t == "str":
        return q(a["v"], a.get("q", '"'))
    if t == "lang":
        return "{" + ", ".join(f"{k}={q(v)}" for k, v in a["v"]) + "}"
    if t == "pos":
        return f"Position<{q(a['n'], chr(39))}, {a['x']}, {a['y']}>"
    raise ValueError(t)


def p_cond(c):
    k = c["k"]
    if k == "cmp":
        r = p_arg(c["b"])
        if c.get("val"):
            r = f"value({r})"
        return f"{p_arg(c['a'])} {c['op']} {r}"
    if k == "bit":
        return ("not " if c.get("neg") else "") + f"{p_arg(c['a'])}[{c['i']}]"
    if k == "neg":
        return ("not " if c.get("neg") else "") + c["w"]
    if k == "scn":
        return f"scn({p_arg(c['a'])}) {c['op']} [{c['x']}, {c['y']}]"
    if k == "op":
        return f"{c['name']}({', '.join(p_arg(a) for a in c['args'])})"
    raise ValueError(k)


def p_swh(h):
    k = h["k"]
    if k == "int":
        return p_arg(h["a"])
    if k == "op":
        return f"{h['name']}({', '.join(p_arg(a) for a in h['args'])})"
    if k == "scn":
        return f"scn({p_arg(h['a'])})[{h['i']}]"
    if k == "random":
        return f"random({p_arg(h['a'])})"
    if k == "dmode":
        return f"dungeon_mode({p_arg(h['a'])})"
    if k == "sector":
        return "sector()"
    raise ValueError(k)


def p_case(h):
    k = h["k"]
    if k == "int":
        return p_arg(h["a"])
    if k == "menu":
        return f"menu({p_arg(h['a'])})"
    if k == "menu2":
        return f"menu2({p_arg(h['a'])})"
    if k == "op":
        r = p_arg(h["a"])
        if h.get("val"):
            r = f"value({r})"
        return f"{h['op']} {r}"
    raise ValueError(k)


def p_simple(s):
    k = s["k"]
    if k == "op":
        ctx = f"<{s['ctx'][0]} {p_arg(s['ctx'][1])}>" if s.get("ctx") else ""
        return f"{s['name']}{ctx}({', '.join(p_arg(a) for a in s['args'])})"
    if k == "label":
        return ("§" if s.get("para") else "@") + s["n"]
    if k == "jump":
        return f"jump @{s['n']}"
    if k == "call":
        return f"call @{s['n']}"
    if k == "cntrl":
        return s["w"]
    if k == "asg":
        idx = f"[{s['i']}]" if s.get("i") is not None else ""
        r = p_arg(s["b"])
        if s.get("val"):
            r = f"value({r})"
        return f"{p_arg(s['a'])}{idx} {s['op']} {r}"
    if k == "clear":
        return f"clear {p_arg(s['a'])}"
    if k == "init":
        return f"init {p_arg(s['a'])}"
    if k == "reset":
        return "reset dungeon_result" if s.get("a") is None else f"reset scn({p_arg(s['a'])})"
    if k == "advlog":
        return f"adventure_log = {p_arg(s['a'])}"
    if k == "dmode":
        return f"dungeon_mode({p_arg(s['a'])}) = {p_arg(s['b'])}"
    if k == "scn":
        return f"{p_arg(s['a'])} = scn[{s['x']}, {s['y']}]"
    raise ValueError(k)


class Printer:
    def __init__(self, style=0):
        self.rng = random.Random(f"style{style}")
        self.style = style
        self.out = []
        self.ind = 0

    def line(self, s):
        if self.style == 0:
            self.out.append("    " * self.ind + s + "\n")
        elif self.style == 1:
            self.out.append(s + " ")
        else:
            r = self.rng.random()
            if r < 0.5:
                self.out.append(" " * self.rng.randrange(6) + s + "\n")
            elif r < 0.8:
                self.out.append(s + "  ")
            elif r < 0.9:
                self.out.append("/* c ; } */ " + s + "\n")
            else:
                self.out.append(s + " // tail { \" comment\n")

    def block(self, stmts):
        self.ind += 1
        for s in stmts:
            self.stmt(s)
        self.ind -= 1

    def stmt(self, s):
        k = s["k"]
        if k == "with":
            self.line(f"with ({s['c'][0]} {p_arg(s['c'][1])}) {{")
            self.block([s["s"]])
            self.line("}")
        elif k == "if":
            self.line(f"if {'not ' if s.get('neg') else ''}({' || '.join(p_cond(c) for c in s['conds'])}) {{")
            self.block(s["body"])
            self.line("}")
            for e in s.get("elifs", []):
                self.line(f"elseif {'not ' if e.get('neg') else ''}({' || '.join(p_cond(c) for c in e['conds'])}) {{")
                self.block(e["body"])
                self.line("}")
            if s.get("els") is not None:
                self.line("else {")
                self.block(s["els"])
                self.line("}")
        elif k == "switch":
            self.line(f"switch ({p_swh(s['h'])}) {{")
            self.ind += 1
            for c in s["cases"]:
                self.line("default:" if c.get("h") is None else f"case {p_case(c['h'])}:")
                if "str" in c:
                    self.line(p_arg(c["str"]))
                else:
                    self.block(c["body"])
            self.ind -= 1
            self.line("}")
        elif k == "msw":
            self.line(f"{s['w']} ({p_arg(s['a'])}) {{")
            self.ind += 1
            for c in s["cases"]:
                self.line("default:" if c.get("h") is None else f"case {p_case(c['h'])}:")
                if "body" in c:
                    self.block(c["body"])
                else:
                    self.line(p_arg(c["str"]))
            self.ind -= 1
            self.line("}")
        elif k == "forever":
            self.line("forever {")
            self.block(s["body"])
            self.line("}")
        elif k == "while":
            self.line(f"while {'not ' if s.get('neg') else ''}({p_cond(s['c'])}) {{")
            self.block(s["body"])
            self.line("}")
        elif k == "for":
            self.line(f"for ({p_simple(s['init'])}; {p_cond(s['c'])}; {p_simple(s['inc'])};) {{")
            self.block(s["body"])
            self.line("}")
        elif k == "mac":
            self.line(f"~{s['name']}({', '.join(p_arg(a) for a in s['args'])});")
        elif k == "rawstmt":
            self.line(s["v"])
        else:
            self.line(p_simple(s) + ";")

    def routine(self, r):
        t = r["t"]
        if t == "macro":
            head = f"macro {r['name']}({', '.join(r['params'])})"
        elif t == "coro":
            head = f"coro {r['name']}"
        elif t == "generic":
            head = f"def {r['id']}"
        else:
            head = f"def {r['id']} for {t} {p_arg(r['target'])}"
            if r.get("legacy"):
                head = f"def {r['id']} for_{t}({p_arg(r['target'])})"
        self.line(head + " {")
        if r.get("alias"):
            self.ind += 1
            self.line("alias previous;")
            self.ind -= 1
        else:
            self.block(r["body"])
        self.line("}")

    def file(self, f):
        for i in f.get("imports", []):
            self.line(f"import {q(i)};")
        for r in f["defs"]:
            self.routine(r)
        return "".join(self.out)


def to_text(f, style=0):
    return Printer(style).file(f)


# ------------------------------------------------------------------------------------------------ generation
KINDS = ["var", "ctx", "int", "any"]


class Gen:
    """Generates programs the compiler accepts. cfg switches features off."""

    def __init__(self, rng, **cfg):
        self.r = rng
        self.cfg = dict(
            depth=3, width=4, labels=True, loops=True, switches=True, msw=True, ctx=True, macros=None, multi_cond=True,
            neg_if=True, calls=True, fors=True, pos=True, fallthrough=True, ends=True, weird_strings=True,
            early_end=True, op_ctx_cntrl=False, ppl=True, extra_args=False, empties=rng.choice([0, 0, 0, 0.05, 0.3]), for_ops=True,
        )
        self.cfg.update(cfg)
        self.n_label = 0
        self.n_op = 0
        self.params = []  # macro parameters in scope: [name, kind], kind in any > int > ctx > var

    # -- arguments
    def param(self, kind):
        fit = KINDS[: KINDS.index(kind) + 1]
        names = [n for n, k in self.params if k in fit]
        return {"t": "var", "v": self.r.choice(names)} if names else None

    def intlike(self, allow_fix=True):
        r = self.r
        x = r.random()
        if self.params and x < 0.35:
            p = self.param("int" if allow_fix else "ctx")
            if p:
                return p
            x = 0.35 + x / 0.35 * 0.65
        if x < 0.6:
            v = {"t": "int", "v": r.choice([0, 1, 2, 3, 5, 10, 100, -1, 255])}
            if r.random() < 0.1:
                v["f"] = "x"
            return v
        if x < 0.8:
            return {"t": "const", "v": r.choice(CONSTS)}
        if x < 0.95 or not allow_fix:
            return {"t": "var", "v": r.choice(VARS)}
        return {"t": "fix", "v": r.choice(["1.5", "0.25", "-3.75", "10.0"])}

    def var(self):
        if self.params and self.r.random() < 0.3:
            p = self.param("var")
            if p:
                return p
        return {"t": "var", "v": self.r.choice(VARS)}

    def string(self):
        r = self.r
        s = r.choice(WORDS if self.cfg["weird_strings"] else WORDS[:5])
        a = {"t": "str", "v": s}
        if r.random() < 0.3:
            a["q"] = "'"
        return a

    def arg(self):
        r = self.r
        if self.params and r.random() < 0.4:
            p = self.param("any")
            if p:
                return p
        x = r.random()
        if x < 0.55:
            return self.intlike()
        if x < 0.8:
            return self.string()
        if x < 0.9:
            langs = r.sample(["english", "french", "german", "italian", "spanish"], r.randrange(1, 4))
            return {"t": "lang", "v": [[l, r.choice(WORDS[:5])] for l in langs]}
        if self.cfg["pos"]:
            return {"t": "pos", "n": r.choice(["m0", "Mark 1"]), "x": r.choice(["10", "20.5", "0"]), "y": r.choice(["7", "3.5", "12"])}
        return self.string()

    def op(self, uniq=True):
        self.n_op += 1
        args = [{"t": "int", "v": self.n_op}] if uniq else []
        args += [self.arg() for _ in range(self.r.randrange(0, 3))]
        s = {"k": "op", "name": self.r.choice(OPNAMES), "args": args}
        if self.cfg["ctx"] and self.r.random() < 0.08:
            s["ctx"] = [self.r.choice(["actor", "object", "performer"]), self.intlike(False)]
        return s

    # -- conditions
    def cond(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return {"k": "cmp", "a": self.var(), "op": r.choice(COND), "b": self.intlike(), "val": r.random() < 0.2}
        if x < 0.65:
            return {"k": "neg", "w": r.choice(["debug", "edit", "variation"]), "neg": r.random() < 0.5}
        if x < 0.75:
            if self.cfg["ppl"] and r.random() < 0.3:
                return {"k": "bit", "a": {"t": "var", "v": PPL}, "i": r.randrange(0, 9), "neg": r.random() < 0.5}
            return {"k": "bit", "a": self.var(), "i": r.randrange(0, 9)}
        if x < 0.9:
            return {"k": "scn", "a": self.var(), "op": r.choice(["==", "<", "<=", ">", ">="]), "x": r.randrange(0, 5), "y": r.randrange(0, 5)}
        return {"k": "op", "name": "BranchSum", "args": [self.intlike(), self.intlike(), self.intlike()]} if r.random() < 0.5 else {
            "k": "op", "name": "BranchExecuteSub", "args": [self.intlike()]}

    def conds(self):
        n = 1
        if self.cfg["multi_cond"] and self.r.random() < 0.25:
            n = self.r.randrange(2, 4)
        return [self.cond() for _ in range(n)]

    # -- statements
    def asg(self):
        r = self.r
        x = r.random()
        if x < 0.45:
            return {"k": "asg", "a": self.var(), "op": r.choice(ASSIGN), "b": self.intlike(), "val": r.random() < 0.3}
        if x < 0.55:
            a = {"t": "var", "v": PPL} if self.cfg["ppl"] and r.random() < 0.3 else self.var()
            return {"k": "asg", "a": a, "i": r.randrange(0, 6), "op": "=", "b": {"t": "int", "v": r.randrange(0, 2)}}
        if x < 0.63:
            return {"k": "clear", "a": self.var()}
        if x < 0.71:
            return {"k": "init", "a": self.var()}
        if x < 0.79:
            return {"k": "reset", "a": self.var() if r.random() < 0.5 else None}
        if x < 0.86:
            return {"k": "advlog", "a": self.intlike()}
        if x < 0.93:
            return {"k": "dmode", "a": self.intlike(), "b": {"t": "const", "v": r.choice(list(DMODE.values()))}}
        return {"k": "scn", "a": self.var(), "x": r.randrange(0, 9), "y": r.randrange(0, 9)}

    def switch_header(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return {"k": "int", "a": self.var()}
        if x < 0.62:
            return {"k": "scn", "a": self.var(), "i": r.randrange(0, 2)}
        if x < 0.72:
            return {"k": "random", "a": self.intlike(False)}
        if x < 0.8:
            return {"k": "dmode", "a": self.intlike(False)}
        if x < 0.87:
            return {"k": "sector"}
        if x < 0.94:
            return {"k": "op", "name": "message_SwitchMenu", "args": [{"t": "int", "v": 0}, {"t": "int", "v": 1}]}
        return {"k": "op", "name": "ProcessSpecial", "args": [self.intlike(), {"t": "int", "v": 0}, {"t": "int", "v": 0}]}

    def switch(self, depth, loop):
        r = self.r
        h = self.switch_header()
        menu = h["k"] == "op" and h["name"] == "message_SwitchMenu"
        ncases = r.randrange(1, 4)
        if r.random() < self.cfg["empties"]:
            ncases = 0
        cases = []
        used = set()
        for i in range(ncases):
            v = r.choice([x for x in range(0, 12) if x not in used])
            used.add(v)
            if menu:
                ch = {"k": "menu", "a": {"t": "str", "v": f"Opt {v}"}} if r.random() < 0.7 else {"k": "menu2", "a": {"t": "int", "v": v}}
            elif r.random() < 0.75:
                ch = {"k": "int", "a": {"t": "int", "v": v}}
            else:
                ch = {"k": "op", "op": r.choice(COND), "a": self.intlike(False), "val": r.random() < 0.3}
            cases.append({"h": ch, "body": self.case_body(depth, loop, empty_ok=True)})
        if r.random() < 0.55:
            cases.insert(r.randrange(0, len(cases) + 1) if r.random() < 0.3 else len(cases),
                         {"h": None, "body": self.case_body(depth, loop, empty_ok=True)})
        if cases and not cases[-1]["body"]:
            cases[-1]["body"] = self.case_body(depth, loop, empty_ok=False)
        return {"k": "switch", "h": h, "cases": cases}

    def case_body(self, depth, loop, empty_ok):
        r = self.r
        if empty_ok and self.cfg["fallthrough"] and r.random() < 0.15:
            return []
        body = self.stmts(depth + 1, loop, True, n=r.randrange(1, 3))
        if not self.cfg["fallthrough"] or r.random() < 0.75:
            if not (body and body[-1]["k"] in ("cntrl", "jump")):
                body.append({"k": "cntrl", "w": "break"})
        return body

    def inner(self, depth, loop, case):
        """The statements of a block, which can also be none."""
        return [] if self.r.random() < self.cfg["empties"] else self.stmts(depth, loop, case)

    def stmts(self, depth, loop, case, n=None):
        n = n if n is not None else self.r.randrange(1, self.cfg["width"] + 1)
        out = []
        for _ in range(n):
            out.append(self.stmt(depth, loop, case))
            if out[-1]["k"] in ("jump",) or (out[-1]["k"] == "cntrl"):
                break  # what follows would be dead
        return out

    def stmt(self, depth, loop, case):
        r = self.r
        c = self.cfg
        x = r.random()
        if depth >= c["depth"]:
            x = x * 0.5
        if x < 0.28:
            return self.op()
        if x < 0.36:
            return self.asg()
        if x < 0.40 and c["ctx"]:
            s = self.op()
            s.pop("ctx", None)
            return {"k": "with", "c": [r.choice(["actor", "object", "performer"]), self.intlike(False)], "s": s if r.random() < 0.8 else self.asg()}
        if x < 0.46 and c["macros"]:
            return self.mcall()
        if x < 0.49 and depth > 0 and c["early_end"]:
            ws = []
            if loop:
                ws += ["continue", "break_loop"]
            if case:
                ws += ["break"]
            if c["ends"]:
                ws += ["return", "end", "hold"]
            if ws:
                return {"k": "cntrl", "w": r.choice(ws)}
            return self.op()
        if x < 0.5:
            if c["msw"] and depth < c["depth"]:
                cases = [{"h": {"k": "int", "a": {"t": "int", "v": i}}, "str": self.string()} for i in range(r.randrange(0, 3))]
                if r.random() < 0.6:
                    cases.append({"h": None, "str": self.string()})
                return {"k": "msw", "w": r.choice(["message_SwitchTalk", "message_SwitchMonologue"]), "a": self.var(), "cases": cases}
            return self.op()
        if x < 0.70:
            s = {"k": "if", "neg": c["neg_if"] and r.random() < 0.3, "conds": self.conds(), "body": self.inner(depth + 1, loop, case), "elifs": []}
            while r.random() < 0.25:
                s["elifs"].append({"neg": c["neg_if"] and r.random() < 0.3, "conds": self.conds(), "body": self.inner(depth + 1, loop, case)})
            s["els"] = self.inner(depth + 1, loop, case) if r.random() < 0.4 else None
            return s
        if x < 0.83 and c["switches"]:
            return self.switch(depth, loop)
        if x < 0.92 and c["loops"]:
            y = r.random()
            if y < 0.45:
                return {"k": "forever", "body": self.inner(depth + 1, True, case)}
            if y < 0.75 or not c["fors"]:
                return {"k": "while", "neg": c["neg_if"] and r.random() < 0.3, "c": self.cond(), "body": self.inner(depth + 1, True, case)}
            return {"k": "for", "init": self.simple(), "c": self.cond(), "inc": self.simple(), "body": self.inner(depth + 1, True, case)}
        return self.op()

    def simple(self):
        return self.op() if self.cfg["for_ops"] and self.r.random() < 0.2 else self.asg()

    def mcall(self):
        name, nparams, sig = self.r.choice(self.cfg["macros"])
        args = []
        for kind in sig:
            args.append(self.arg() if kind == "any" else (self.var() if kind == "var" else self.intlike(kind != "ctx")))
        if self.cfg["extra_args"] and self.r.random() < 0.05:
            args.append(self.arg())
        return {"k": "mac", "name": name, "args": args}

    def body(self, end=True, jumps=None):
        """A routine/macro body: statements plus a few labels and jumps between top-level positions."""
        r = self.r
        b = self.stmts(0, False, False, n=r.randrange(1, self.cfg["width"] + 2))
        if self.cfg["labels"] and r.random() < 0.4:
            for _ in range(r.randrange(1, 3)):
                self.n_label += 1
                name = f"l{self.n_label}" if not self.cfg.get("label_names") else r.choice(self.cfg["label_names"])
                if any(s["k"] == "label" and s["n"] == name for s in b):
                    continue
                # label somewhere at top level, a conditional jump (or call) to it somewhere else
                b.insert(r.randrange(0, len(b) + 1), {"k": "label", "n": name, "para": r.random() < 0.1})
                if r.random() < 0.85:
                    w = "call" if self.cfg["calls"] and r.random() < 0.15 else "jump"
                    j = {"k": w, "n": name}
                    i = r.randrange(0, len(b) + 1)
                    if w == "jump":
                        j = {"k": "if", "neg": False, "conds": [self.cond()], "body": [self.op(), j] if r.random() < 0.5 else [j], "elifs": [], "els": None}
                    b.insert(i, j)
        if end:
            if not (b[-1]["k"] == "cntrl"):
                b.append({"k": "cntrl", "w": r.choice(["end", "return", "hold"])})
        return b


def gen_program(rng, n_routines=None, coro=None, **cfg):
    """A whole single-file program without imports."""
    g = Gen(rng, **cfg)
    defs = []
    n = n_routines or rng.randrange(1, 4)
    is_coro = coro if coro is not None else rng.random() < 0.2
    for i in range(n):
        if is_coro:
            r = {"t": "coro", "name": f"CORO_{rng.choice('ABCDEF')}{i}"}
        else:
            t = rng.choice(["generic", "generic", "actor", "object", "performer"])
            r = {"t": t, "id": i}
            if t != "generic":
                r["target"] = {"t": "int", "v": rng.randrange(0, 9)} if rng.random() < 0.5 else {"t": "const", "v": rng.choice(CONSTS)}
                r["legacy"] = rng.random() < 0.15
        if i > 0 and rng.random() < 0.12:
            r["alias"] = True
        else:
            r["body"] = g.body()
        defs.append(r)
    return {"imports": [], "defs": defs}


# ------------------------------------------------------------------------------------------------ shrinking
def shrink_stmts(ss, keep=1):
    """Yield smaller statement lists."""
    n = len(ss)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            cand = ss[:i] + ss[i + size:]
            if len(cand) >= keep and len(cand) < n:
                yield cand
        size //= 2
    for i, s in enumerate(ss):
        for body in _bodies(s):
            if body:
                yield ss[:i] + list(body) + ss[i + 1:]
        for c in shrink_stmt(s):
            yield ss[:i] + [c] + ss[i + 1:]


def _bodies(s):
    k = s["k"]
    if k == "if":
        yield s["body"]
        for e in s.get("elifs", []):
            yield e["body"]
        if s.get("els"):
            yield s["els"]
    elif k in ("forever", "while", "for"):
        yield s["body"]
    elif k == "switch":
        for c in s["cases"]:
            if "body" in c:
                yield c["body"]
    elif k == "with":
        yield [s["s"]]


def shrink_stmt(s):
    k = s["k"]
    if k == "if":
        if s.get("els") is not None:
            yield {**s, "els": None}
        for i in range(len(s.get("elifs", []))):
            yield {**s, "elifs": s["elifs"][:i] + s["elifs"][i + 1:]}
        if len(s["conds"]) > 1:
            for i in range(len(s["conds"])):
                yield {**s, "conds": s["conds"][:i] + s["conds"][i + 1:]}
        if s.get("neg"):
            yield {**s, "neg": False}
        for b in shrink_stmts(s["body"]):
            yield {**s, "body": b}
        if s.get("els"):
            for b in shrink_stmts(s["els"]):
                yield {**s, "els": b}
        for i, e in enumerate(s.get("elifs", [])):
            for b in shrink_stmts(e["body"]):
                yield {**s, "elifs": s["elifs"][:i] + [{**e, "body": b}] + s["elifs"][i + 1:]}
    elif k in ("forever", "while", "for"):
        for b in shrink_stmts(s["body"]):
            yield {**s, "body": b}
    elif k == "switch":
        if len(s["cases"]) > 1:
            for i in range(len(s["cases"])):
                yield {**s, "cases": s["cases"][:i] + s["cases"][i + 1:]}
        for i, c in enumerate(s["cases"]):
            if "body" in c:
                for b in shrink_stmts(c["body"], keep=1):
                    yield {**s, "cases": s["cases"][:i] + [{**c, "body": b}] + s["cases"][i + 1:]}
    elif k == "msw":
        for i in range(len(s["cases"])):
            yield {**s, "cases": s["cases"][:i] + s["cases"][i + 1:]}
    elif k == "op":
        if s.get("ctx"):
            yield {kk: v for kk, v in s.items() if kk != "ctx"}
        for i in range(len(s["args"])):
            yield {**s, "args": s["args"][:i] + s["args"][i + 1:]}


def shrink_file(f):
    n = len(f["defs"])
    if n > 1:
        for i in range(n):
            yield {**f, "defs": f["defs"][:i] + f["defs"][i + 1:]}
    for i, d in enumerate(f["defs"]):
        if d.get("body"):
            for b in shrink_stmts(d["body"]):
                yield {**f, "defs": f["defs"][:i] + [{**d, "body": b}] + f["defs"][i + 1:]}
