"""C07  SsbScript is a lossless spelling of SSB ops."""
from __future__ import annotations
import z3
from . import c02
from . import common as cm
from .. import engine, machine, real
from ..oplists import Ops, load, symbolic_offsets
from ..run import Check

JAR = dict(c02.BR, **c02.CA)
JAR.update(CaseMenu="t", CaseMenu2="i", Jump="", Call="")
NAMES = ["op", "_x", "A9_z", "null", "label_0", "actor", "object", "english", "Return", "Hold", "if", "switch", "with", "macro", "import", "debug",
         "message_SwitchTalk", "CaseText", "flag_Set", "lives", "jumps", "Destroy", "n", "nothing", "definition", "CORO"]


def convert(o):
    infos, ops, coros = o.build()
    raw = real.routines(ops)
    text, smap = real.m.ssdeco.SsbScriptSsbDecompiler(infos, ops, coros).convert()
    return raw, text


def compiled(text):
    c = real.m.sscomp.SsbScriptSsbCompiler()
    c.compile(text)
    return c


def examine(cx, o):
    st = cx.w.stats
    st.add("programs")

    def payload(err, extra=None):
        def f(m):
            oc = o.concretise((lambda s: m.eval(s.e, model_completion=True).as_long()) if m is not None and cx.ints else (lambda s: int.__int__(s)))
            d = {"in": oc.dump(), "err": err}
            if extra:
                d["detail"] = extra
            return d
        return f
    cx.notes = payload("hang")(None)
    try:
        raw, text = convert(o)
    except Exception as e:
        cx.fail(payload("decompiling raises " + type(e).__name__))
    try:
        c = compiled(text)
    except Exception as e:
        cx.fail(payload("compiling raises " + type(e).__name__, text))
    for d in (c02.table(o.want(), c), c02.exact(raw, c)):
        if d is not None:
            if d[1] is None:
                cx.fail(payload(d[0], text))
            cx.prove(z3.Not(d[1]), payload(d[0], text))
    st.add("assertions")
    return text


def replay(d):
    o = load(d["in"])
    try:
        raw, text = convert(o)
    except Exception as e:
        return f"decompiling {o.dump()} raises {type(e).__name__}: {e}"
    try:
        c = compiled(text)
    except Exception as e:
        return f"compiling raises {type(e).__name__}: {e}\n{text}"
    for x in (c02.table(o.want(), c), c02.exact(raw, c)):
        if x and (x[1] is None or z3.is_true(z3.simplify(x[1]))):
            return f"{x[0]}\n{text}\nfor {o.dump()}"
    return None


def f_flow(lens, kinds, run=examine):
    """every op list: any op may carry a jump to any op"""
    def h(cx):
        o = Ops()
        lens_ = lens
        o.r = [[] for _ in lens_]
        for i, n in enumerate(lens_):
            for j in range(n):
                o.r[i].append(c02.gen_op(cx, o, kinds, i, j, lens_, lambda v: cx.int("v", -2**31, 2**31 - 1)))
        symbolic_offsets(cx, o)
        return run(cx, o)
    return h


def f_params(n, run=None):
    """any op with parameters of every type"""
    def h(cx):
        s = c02.Slots(cx)
        o = Ops()
        if cx.flag("jump"):
            nm = cx.choose(sorted(JAR), "j")
            ps = [s.one("x") for _ in JAR[nm][:n]] + [s.one("v") for _ in JAR[nm][n:]] + [("@", 0, 0)]
            o.r = [[["A", []], [nm, ps]]]
        else:
            o.r = [[[cx.choose(NAMES, "n"), [s.one("x") for _ in range(cx.pick(n + 1, "np"))]], ["B", [("c", "$A")]]]]
        if cx.flag("two"):
            o.r.append([["se_Play", [s.one("t"), cx.int("q", -2**31, 2**31 - 1), ("f", "0.5")]], ["End", []]])
        if run:
            return run(cx, o)
        symbolic_offsets(cx, o)
        return examine(cx, o)
    return h


def f_infos(most):
    """routine tables: kinds, targets, coroutine names, empty routines"""
    def h(cx):
        n = 1 + cx.pick(most, "n")
        o = Ops([])
        for i in range(n):
            k = cx.choose(["GENERIC", "ACTOR", "OBJECT", "PERFORMER", "COROUTINE"], "k")
            t = None
            if k == "COROUTINE":
                o.coros[i] = cx.choose(["C_", "label_", "actor"], "cn") + str(i)
            elif k != "GENERIC":
                t = [lambda: cx.int("t", -2**31, 2**31 - 1), lambda: f"T_{i}", lambda: "$T"][cx.pick(3, "tk")]()
            o.infos.append((k, t))
            o.r.append([[["x", []]], [], [["y", [1]], ["Jump", [("@", 0, 0)]]]][cx.pick(3, "body")])
        if not o.r[0] and any(x and x[-1][0] == "Jump" for x in o.r):
            raise engine.Abandon
        if o.infos[0][0] == "COROUTINE" and all(x[0] == "COROUTINE" for x in o.infos) and cx.flag("more"):
            o.coros[n] = "UNUSED"
        symbolic_offsets(cx, o)
        return examine(cx, o)
    return h


def f_big(sizes, run=None):
    """many ops, jumps, labels, parameters, routines"""
    def h(cx):
        n = cx.choose(sizes, "n")
        k = cx.choose(["ops", "one", "self", "next", "args", "routines", "coros", "empty"], "k")
        q = cx.int("q", -2**31, 2**31 - 1)
        o = Ops()
        o.base, o.stride = cx.choose([(0, 1), (7, 3)], "at")
        br = lambda r, j: ["Branch", [("c", "$V"), q, ("@", r, j)]]
        if k == "ops":
            o.r = [[br(0, (7 * j + 3) % n) if j % 3 else [f"op{j}", [j, q]] for j in range(n)] + [["Return", []]]]
        elif k == "one":
            o.r = [[br(0, n // 2) if j % 2 else [f"op{j}", []] for j in range(n)] + [["End", []]]]
        elif k == "self":
            o.r = [[br(0, j) for j in range(n)] + [["Hold", []]]]
        elif k == "next":
            o.r = [[br(0, j + 1) for j in range(n)] + [["Return", []]]]
        elif k == "args":
            o.r = [[["o", [q if j % 7 == 0 else j if j % 2 else ("c", f"K{j}") for j in range(n)]], ["Return", []]]]
        elif k in ("routines", "empty"):
            o.infos = [(["GENERIC", "ACTOR", "OBJECT", "PERFORMER"][i % 4], None if i % 4 == 0 else i if i % 3 else f"T_{i}") for i in range(n)]
            o.r = [[] if k == "empty" and i % 4 == 2 else [[f"op{i}", [i]], br((i * 7 + 3) % n // 4 * 4, 1), ["Return", []]] for i in range(n)]
        else:
            o.infos = [("COROUTINE", None) for i in range(n)]
            o.coros.update({i: f"CORO_{(i * 7) % n}" for i in range(n)})
            o.r = [[[f"op{i}", [q]], br((i * 7 + 3) % n, 0), ["Return", []]] for i in range(n)]
        return (run or examine)(cx, o)
    return h


class CHECK(Check):
    id = "C07"
    level = "model_checking"
    technique = "concolic execution of the real SsbScript decompiler and compiler on symbolic routine sets (ops, jump targets, offsets, parameters); z3 decides equality"
    level_note = ("Every routine set within the bounds goes through the real decompiler and the real compiler; offsets and integers stay symbolic and z3 shows "
                  "that the result equals the input for all of their values. Characters inside strings and identifiers are C04's subject.")
    seconds = {"quick": 70, "thorough": 1800}
    assumptions = [
        "offsets increase through the file; op and coroutine names and constants are identifiers that are no keyword of SsbScript",
        "every jump-carrying op has its usual number of parameters, the target last",
        "bound: up to 4 ops in one routine, three routines; strings from a fixed list here (any character: C04)",
    ]
    bounds = {"quick": "8 sorts of long op lists, tables and argument lists (11, 34 elements); ops: <=3 of {op, Jump, Branch, Call, Return} in one routine, 2+2, 1+0+2; every jump op and 26 op names x 2 parameters of all types; 2 routine infos",
              "thorough": "4 ops, 3+2 ops, 1+1+2 ops; 3 parameters; 3 routine infos"}

    def setup(self):
        cm.setup_ints()

    def families(self, tier):
        T = tier == "thorough"
        ks = ("P", "J", "B", "C", "Return")
        out = [("infos", f_infos(3 if T else 2)), ("params", f_params(2)), ("big", f_big((11, 34, 103) if T else (11, 34)))]
        for lens in ([1], [2], [3], [2, 1], [1, 2]):
            out.append(("flow" + "".join(map(str, lens)), f_flow(lens, ks)))
        out += [("flow22", f_flow([2, 2], ("P", "J", "B"))), ("flow102", f_flow([1, 0, 2], ("P", "J", "K"))),
                ("flow021", f_flow([0, 2, 1], ("P", "J", "M"))), ("flow201", f_flow([2, 0, 1], ("P", "J"))),
                ("flow4", f_flow([4], ("P", "J")))]
        if T:
            out += [("params3", f_params(3)), ("flow4b", f_flow([4], ("P", "J", "B"))), ("flow32", f_flow([3, 2], ("P", "J", "B"))),
                    ("flow112", f_flow([1, 1, 2], ks)), ("flow1012", f_flow([1, 0, 1, 2], ("P", "J", "B")))]
        return out

    def replay(self, d):
        return replay(d)
