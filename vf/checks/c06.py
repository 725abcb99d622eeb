"""C06  the decompiler always answers; its SsbScript fallback is marked and exact."""
from __future__ import annotations
from . import c02, c07
from . import common as cm
from .. import engine
from ..oplists import Ops, well_formed


def forced(cx, o):
    """append a routine that structured ExplorerScript has no form for (a jump into the middle of the first routine)"""
    o.r.append([["BranchEdit", [1, ("@", 0, 0)]], ["Q", []], ["Jump", [("@", 0, 0)]]])
    if o.infos is not None:
        o.infos.append(("GENERIC", None))
    return o


def f_forced(h):
    """family h of routine sets (generated for C07), made well-formed and irreducible, so that the answer is the fallback"""
    return h


def run(cx, o):
    """the routine set itself, and joined by something that forces the fallback"""
    for r in o.r:
        if r and r[-1][0] not in ("Return", "End", "Hold", "Jump", "Destroy", "JumpCommon"):
            r.append(["Return", []])
    if cx.flag("forced"):
        forced(cx, o)
    if not well_formed(o):
        raise engine.Abandon
    return c02.examine(cx, o)


def f_names():
    def h(cx):
        s = c02.Slots(cx)
        o = Ops()
        nm = cx.choose(c07.NAMES, "n")
        o.r = [[[nm, [s.one("x") for _ in range(cx.pick(2, "np"))]], ["B", []], ["End", []]]]
        return run(cx, o)
    return h


def f_wild(flow_only=False):
    """jump-carrying ops with parameters of any type, in front of and inside blocks"""
    def h(cx):
        s = c02.Slots(cx)
        o = Ops()
        nm = cx.choose(sorted(set(c07.JAR) - {"Jump", "Call"}), "j")
        ps = [s.one("x") for _ in c07.JAR[nm]]
        form = cx.pick(3, "form")
        if form == 0:
            o.r = [[[nm, ps + [("@", 0, 3)]], ["B", []], ["Return", []], ["A", []], ["Return", []]]]
        elif form == 1:
            o.r = [[["A", []], [nm, ps + [("@", 0, 0)]], ["B", []], ["End", []]]]
        else:
            sw = "message_SwitchMenu" if "Menu" in nm else "Switch"
            o.r = [[[sw, [("c", "$A")] if sw == "Switch" else [1, 2]], [nm, ps + [("@", 0, 3)]], ["Hold", []], ["A", []], ["Destroy", []]]]
        o.base = 5
        return run(cx, o)
    return h


class CHECK(c02.CHECK):
    id = "C06"
    level = "model_checking"
    technique = "concolic execution of the real decompiler on symbolic routine sets; fallback texts go through the real compiler, z3 decides op-for-op equality"
    level_note = ("Every routine set of the stated families is decompiled: any exception, any unmarked text that an independent ExplorerScript parser rejects, any "
                  "marked text that the real compiler does not turn into the same ops is a violation; parameter equality for all integer values is a z3 query.")
    seconds = {"quick": 75, "thorough": 2400}
    assumptions = [
        "well-formed input as in C02; op names and constants are identifiers, not keywords",
        "the meaning of unmarked texts is decided by C02",
        "bound: flows up to 4 ops in one routine, 2+2 and 3+3 in two; every jump-carrying op with parameters of every type",
    ]
    bounds = {"quick": "8 sorts of long op lists (11 elements); every control flow of <= 4 ops, 2+2 and 2+1+1 ops, each also forced into the fallback; every op with parameters of all types",
              "thorough": "5 ops, 3+2, 2+2+1 ops, switches of 6 ops"}

    def setup(self):
        c02.ROLE = "C06"
        cm.setup_ints()

    def families(self, tier):
        T = tier == "thorough"
        ff = lambda lens, ks, **k: c02.f_flow(lens, ks, run=run, **k)
        base = ("P", "J", "B", "Return")
        out = [("infos", c02.f_infos(2)), ("names", f_names()), ("wild", f_wild()), ("stmts", c02.f_stmts(1)), ("branches", c02.f_branches(0)),
               ("switches", c02.f_switches(1)), ("params", c07.f_params(1, run)), ("big", c07.f_big((11,), run))]
        for lens in ([1], [2], [3], [4], [2, 2], [1, 2], [1, 1, 2]):
            out.append(("flow" + "".join(map(str, lens)), ff(lens, base)))
        out += [("call3", ff([3], ("P", "C", "J", "Return"))), ("call22", ff([2, 2], ("P", "C", "J", "Return"))),
                ("menu4", ff([4], ("P", "J", "M", "Return"), first=[("N",), ("M",)])),
                ("switch5", ff([5], ("P", "J", "K", "Return"), first=[("S",), ("K",)])),
                ("ctx4", ff([4], ("P", "X", "J", "Hold", "Destroy"), ends=("Hold", "Destroy"))),
                ("msg4", ff([4], ("P", "T", "t", "d", "J", "Return")))]
        if T:
            out += [("flow5", ff([5], base)), ("flow32", ff([3, 2], base)), ("flow221", ff([2, 2, 1], base)), ("branches2", c02.f_branches(2)),
                    ("switches2", c02.f_switches(2)), ("switch6", ff([6], ("P", "J", "K", "Return"), first=[("S",), ("K",)])),
                    ("msg5", ff([5], ("P", "T", "t", "d", "J", "Return")))]
        return out

    def replay(self, d):
        c02.ROLE = "C06"
        return c02.replay(d)
