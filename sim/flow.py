"""Independent model of SSB operations: canonical values, control flow graph, behavioural comparison."""

# parameter index of the jump target, from the opcode documentation (own copy, not imported from the code under test)
JUMP_AT = {
    "Jump": 0, "Call": 0,
    "Branch": 2, "BranchBit": 2, "BranchDebug": 1, "BranchEdit": 1, "BranchExecuteSub": 1, "BranchPerformance": 2,
    "BranchScenarioNow": 3, "BranchScenarioNowAfter": 3, "BranchScenarioNowBefore": 3, "BranchScenarioAfter": 3,
    "BranchScenarioBefore": 3, "BranchSum": 3, "BranchValue": 3, "BranchVariable": 3, "BranchVariation": 1,
    "Case": 1, "CaseMenu": 1, "CaseMenu2": 1, "CaseScenario": 2, "CaseValue": 2, "CaseVariable": 2,
}
ENDS = {"JumpCommon", "Return", "End", "Hold", "Destroy"}
CTX = {"lives", "object", "performer"}


class Malformed(Exception):
    pass


def canon_param(p):
    n = type(p).__name__
    if isinstance(p, bool):
        return ["bool", p]
    if isinstance(p, int):
        return ["int", int(p)]
    if n == "SsbOpParamFixedPoint":
        return ["fix", str(p.value)]
    if n == "SsbOpParamConstant":
        return ["const", p.name]
    if n == "SsbOpParamConstString":
        return ["str", p.name]
    if n == "SsbOpParamLanguageString":
        return ["lang", sorted([k, v] for k, v in p.strings.items())]
    if n == "SsbOpParamPositionMarker":
        return ["pos", p.name, int(p.x_offset), int(p.y_offset), int(p.x_relative), int(p.y_relative)]
    return ["other", n, str(p)]


def canon_ops(routine_ops):
    """[[ [offset, name, [params]] ]]"""
    out = []
    for r in routine_ops:
        rr = []
        for op in r:
            rr.append([int(op.offset), str(op.op_code.name), [canon_param(p) for p in op.params]])
        out.append(rr)
    return out


def canon_infos(infos):
    out = []
    for i in infos:
        if i is None:
            out.append(None)
        else:
            lt = i.linked_to
            out.append([int(i.type.value), lt if isinstance(lt, int) else canon_param(lt), None if i.linked_to_name is None else str(i.linked_to_name)])
    return out


def jump_target(name, params):
    """Index of the jump parameter, or None if the op does not jump."""
    at = JUMP_AT.get(name)
    if at is None or at >= len(params):
        return None
    p = params[at]
    if p[0] != "int":
        return None
    return at


def positions(ops):
    """offset -> (routine, index); raises Malformed on duplicates."""
    pos = {}
    for ri, r in enumerate(ops):
        for i, (off, _, _) in enumerate(r):
            if off in pos:
                raise Malformed(f"offset {off} used twice")
            pos[off] = (ri, i)
    return pos


def relocated(ops, target_is_last=False):
    """Ops with offsets dropped and every jump target replaced by (routine, index)."""
    pos = positions(ops)
    out = []
    for r in ops:
        rr = []
        for off, name, params in r:
            at = jump_target(name, params)
            if at is None:
                rr.append([name, params])
                continue
            t = params[at][1]
            if t not in pos:
                raise Malformed(f"{name} at {off} jumps to {t}, which is no op")
            rr.append([name, params[:at] + [["target", *pos[t]]] + params[at + 1 :]])
        out.append(rr)
    return out


class Flow:
    """Control flow over canonical ops. Node = (routine, index); terminals: 'END:<kind>'."""

    def __init__(self, ops, ends_extra=()):
        self.ops = ops
        self.pos = positions(ops)
        self.ends = ENDS | set(ends_extra)

    def at(self, node):
        """Resolve jumps; returns a concrete node (r, i), or ('fall',) / ('diverge',)."""
        seen = set()
        while True:
            r, i = node
            if i >= len(self.ops[r]):
                return ("fall",)
            if node in seen:
                return ("diverge",)
            seen.add(node)
            off, name, params = self.ops[r][i]
            prev_ctx = i > 0 and self.ops[r][i - 1][1] in CTX
            if name == "Jump" and not prev_ctx:
                t = params[0][1] if params and params[0][0] == "int" else None
                if t not in self.pos:
                    raise Malformed(f"Jump at {off} to {params}, which is no op")
                node = self.pos[t]
                continue
            return node

    def label(self, node):
        r, i = node
        off, name, params = self.ops[r][i]
        at = jump_target(name, params)
        if at is not None:
            params = params[:at] + [["target"]] + params[at + 1 :]
        return [name, params]

    def succ(self, node):
        r, i = node
        off, name, params = self.ops[r][i]
        prev_ctx = i > 0 and self.ops[r][i - 1][1] in CTX
        if name in self.ends and not prev_ctx:
            return []
        out = [("next", (r, i + 1))]
        at = jump_target(name, params)
        if at is not None:
            t = params[at][1]
            if t not in self.pos:
                raise Malformed(f"{name} at {off} jumps to {t}, which is no op")
            out.append(("taken", self.pos[t]))
        return out


FALL_LABEL = ["Return", []]


def behaves_same(fa, na, fb, nb, reach=None):
    """None if the two entry points behave the same, else a description of the first difference found."""
    seen = set()
    stack = [(na, nb, ())]
    while stack:
        a, b, path = stack.pop()
        a = fa.at(a) if len(a) == 2 else a
        b = fb.at(b) if len(b) == 2 else b
        if (a, b) in seen:
            continue
        seen.add((a, b))
        la = FALL_LABEL if a == ("fall",) else (["<diverge>", []] if a == ("diverge",) else fa.label(a))
        lb = FALL_LABEL if b == ("fall",) else (["<diverge>", []] if b == ("diverge",) else fb.label(b))
        if la != lb:
            return f"after {list(path)[-6:]}: {la} != {lb}"
        if len(a) == 1 or len(b) == 1:
            # a falls off the end (= Return) or diverges; the other one has the same label
            continue
        sa, sb = fa.succ(a), fb.succ(b)
        if [k for k, _ in sa] != [k for k, _ in sb]:
            return f"after {list(path)[-6:]} at {la}: exits {[k for k, _ in sa]} != {[k for k, _ in sb]}"
        for (k, x), (_, y) in zip(sa, sb):
            stack.append((x, y, path[-7:] + (la[0] + ("" if k == "next" else "/taken"),)))
    if reach is not None:
        reach.append(len(seen))
    return None
