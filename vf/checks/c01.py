"""C01  compiled routines vs. reference semantics of the source."""
from __future__ import annotations
import z3
from . import common as cm
from .. import engine, lang, machine, real
from ..lang import N
from ..run import Check
from ..shapes import G, I, C, S, routine, program

FULL = ("op return label jump call with if ifnot ifelse or ornot elseif elifelse switch switch2 forever while whilenot for "
        "break continue break_loop").split()
SETS = {
    "cond": "op return if ifnot ifelse ifnotelse or elseif elseif_not elifelse".split(),
    "switch": "op switch return if".split(),
    "loop": "op forever while whilenot for break_loop continue if ifelse return".split(),
    "loopswitch": "op forever switch break break_loop continue".split(),
    "jump": "op label jump call if while end".split(),
    "ctx": "op with withjump withend ctxop ctxdestroy destroy hold if label jump msgswitch".split(),
    "ender": "op withend ctxdestroy hold ifelse ifnotelse elifelse switch".split(),
}
SETS4 = dict(SETS, switch="op return switch switch2 switch3 break if".split(),
             loopswitch="op forever while switch switch2 break break_loop continue if".split(),
             jump="op label jump call if ifnot while switch end".split())


def shape(kinds, size, lit=None, nest=9, labels=("A", "B")):
    def h(cx):
        g = G(cx, kinds, labels=labels, lit=lit(cx) if lit else None, nest=nest)
        body = g.body(size, {}, "")
        prog = cm.with_cross(cx, g, body)
        text = lang.render(prog)
        cm.check_source_vs_compiled(cx, prog, text)
        return text
    return h


# ----------------------------------------------------------------- headers, assignments, tables
COND_OPS = ["FALSE", "TRUE", "==", ">", "<", ">=", "<=", "!=", "&", "^", "&<<"]


class L:
    """leaf generator with symbolic literals"""

    def __init__(self, cx, tag="t"):
        self.cx, self.tag, self.n = cx, tag, 0

    def int(self, lo=-2**31, hi=2**31 - 1):
        return N("int", str(self.cx.int(self.tag, lo, hi)))

    def inttok(self, lo=0, hi=2**31 - 1):
        return str(self.cx.int(self.tag, lo, hi))

    def intlike(self):
        k = self.cx.pick(3, self.tag + "il")
        self.n += 1
        return [self.int, lambda: C(f"$VAR_{self.n}"), lambda: C(f"CONST_{self.n}")][k]()

    def dec(self):
        return N("dec", "1.5")

    def var(self, perf=False):
        self.n += 1
        if perf and self.cx.flag(self.tag + "perf"):
            return C(real.PERF)
        return self.intlike()

    def value(self):
        """value_or_int"""
        k = self.cx.pick(3, self.tag + "v")
        self.n += 1
        return [self.int, lambda: C(f"K_{self.n}"), lambda: N("value", C(f"$X_{self.n}"))][k]()

    def if_header(self):
        k = self.cx.pick(6, self.tag + "h")
        if k == 0:
            return N("h_op", self.intlike(), self.cx.choose(COND_OPS, self.tag + "o"), self.value())
        if k == 1:
            return N("h_bit", self.cx.flag(self.tag + "n"), self.var(True), self.inttok())
        if k == 2:
            return N("h_neg", self.cx.flag(self.tag + "n"), self.cx.choose(["debug", "edit", "variation"], self.tag + "w"))
        if k == 3:
            return N("h_scn", self.intlike(), self.cx.choose(["==", "<=", "<", ">=", ">"], self.tag + "o"), self.inttok(),
                     self.inttok())
        if k == 4:
            nm = self.cx.choose(["BranchBit", "BranchEdit", "BranchSum", "BranchScenarioNow"], self.tag + "b")
            return N("h_operation", N("op", nm, None, [self.int() for _ in range(self.cx.pick(4, self.tag + "np"))]))
        self.n += 1
        return N("h_op", C(f"$Z_{self.n}"), "==", self.dec())

    def case_header(self, sw):
        k = self.cx.pick(4, self.tag + "c")
        if k == 0:
            return N("c_val", self.intlike())
        if k == 1:
            return N("c_op", self.cx.choose(COND_OPS, self.tag + "o"), self.value())
        if k == 2:
            s = S("m") if self.cx.flag(self.tag + "ls") else N("lang", [("english", S("e")), ("german", S("g"))])
            return N("c_menu", s)
        return N("c_menu2", self.intlike())

    def switch_header(self):
        k = self.cx.pick(7, self.tag + "s")
        if k == 0:
            return N("s_var", self.intlike())
        if k in (1, 2):
            return N("s_scn", self.intlike(), str(k - 1))
        if k == 3:
            return N("s_random", self.intlike())
        if k == 4:
            return N("s_dungeon_mode", self.intlike())
        if k == 5:
            return N("s_sector")
        ctx = ("actor", C("ACTOR_9")) if self.cx.flag(self.tag + "ctx") else None
        nm = self.cx.choose(["message_Menu", "ProcessSpecial", "Switch"], self.tag + "so")
        return N("s_operation", N("op", nm, ctx, [self.int() for _ in range(self.cx.pick(3, self.tag + "np"))]))

    def assign(self):
        k = self.cx.pick(8, self.tag + "a")
        if k == 0:
            return N("assign", self.intlike(), None, self.cx.choose(lang.ASSIGN_OPS, self.tag + "o"), self.value())
        if k == 1:
            return N("assign", self.var(True), self.inttok(), "=", self.intlike())
        if k == 2:
            return N("a_clear", self.intlike())
        if k == 3:
            return N("a_init", self.intlike())
        if k == 4:
            return N("a_reset", None if self.cx.flag(self.tag + "r") else self.intlike())
        if k == 5:
            return N("a_advlog", self.intlike())
        if k == 6:
            return N("a_dmode", self.intlike(), self.intlike())
        return N("a_scn", self.intlike(), self.inttok(), self.inttok())

    def operation(self, small=False):
        n = 1 if small else self.cx.pick(3, self.tag + "na")
        args = []
        for i in range(n):
            k = self.cx.pick(5, self.tag + "ak")
            if k == 0:
                args.append(self.int())
            elif k == 1:
                args.append(C(self.cx.choose(["$V", "CONST", "actor"], self.tag + "cn")))
            elif k == 2:
                args.append(S("txt"))
            elif k == 3:
                args.append(N("pos", "'mark'", self.inttok(-2000000, 2000000), "12.5"))
            else:
                args.append(N("dec", "-3.25"))
        ctx = None
        k = self.cx.pick(4, self.tag + "cx")
        if k:
            ctx = (["actor", "object", "performer"][k - 1], self.intlike())
        return N("op", self.cx.choose(["se_Play", "Null", "Switch", "message_Talk"], self.tag + "nm"), ctx, args)


def op(n):
    return N("op", n, None, [])


def f_if_headers(cx):
    l = L(cx, "a")
    h1 = l.if_header()
    form = cx.pick(7, "form")
    neg = cx.flag("neg")
    other = N("h_op", C("$OTHER"), "==", I(3))
    arm = lambda hs, b, n=False: N("arm", n, hs, b)
    if form == 0:
        b = [N("if", [arm([h1], [op("A")], neg)], None), op("E")]
    elif form == 1:
        b = [N("if", [arm([h1, other], [op("A")], neg)], [op("B")]), op("E")]
    elif form == 2:
        b = [N("if", [arm([other, h1], [op("A")], neg)], [op("B")]), op("E")]
    elif form == 3:
        b = [N("if", [arm([other], [op("A")]), arm([h1], [op("B")], neg)], [op("D")]), op("E")]
    elif form == 4:
        b = [N("while", neg, h1, [op("A")]), op("E")]
    elif form == 5:
        if neg:
            raise engine.Abandon
        b = [N("for", op("I"), h1, op("J"), [op("A")]), op("E")]
    else:
        b = [N("if", [arm([h1], [N("label", "L"), N("jump", "L2")], neg)], None), op("E"), N("label", "L2"), op("F"),
             N("call", "L")]
    return check_body(cx, b)


def f_two_headers(cx):
    l = L(cx, "a")
    h1, h2 = l.if_header(), l.if_header()
    return check_body(cx, [N("if", [N("arm", cx.flag("neg"), [h1, h2], [op("A")])], None), op("E")])


def f_switch_headers(cx):
    l = L(cx, "a")
    hd = l.switch_header()
    c1 = l.case_header(hd)
    form = cx.pick(3, "form")
    k1 = N("case", c1, [op("A"), N("break")])
    k2 = N("case", N("c_val", I(77)), [op("B"), N("break")])
    df = N("case", None, [op("D")])
    cases = [[k1, df], [k2, k1, df], [df, k1, k2]][form]
    return check_body(cx, [N("switch", hd, cases), op("E")])


def f_stmts(cx):
    l = L(cx, "a")
    form = cx.pick(5, "form")
    s = l.assign() if cx.flag("asg") else l.operation(form > 0)
    if form == 0:
        b = [s, op("E")]
    elif form == 1:
        b = [N("if", [N("arm", False, [N("h_neg", False, "debug")], [s])], None), op("E")]
    elif form == 2:
        b = [N("switch", N("s_sector"), [N("case", N("c_val", I(5)), [s, N("break")])]), op("E")]
    elif form == 3:
        if s.k == "op" and s.a[1] is not None:
            raise engine.Abandon
        b = [N("with", cx.choose(["actor", "object", "performer"], "wk"), l.intlike(), s), op("E")]
    else:
        b = [N("for", s, N("h_neg", False, "edit"), s, [op("B")]), op("E")]
    return check_body(cx, b)


def f_msgswitch(most):
    return lambda cx: msgswitch(cx, most)


def msgswitch(cx, most):
    l = L(cx, "a")
    n = 1 + cx.pick(most, "n")
    d = cx.pick(n + 2, "d")
    cs = []
    for i in range(n + (1 if d <= n else 0)):
        k = cx.pick(2, "st")
        s = [S(f"t{i}"), N("lang", [("english", S(f"e{i}")), ("french", S("f"))])][k]
        cs.append(N("case", None if i == d else N("c_val", l.intlike()), s))
    b = [N("msgswitch", cx.choose(["message_SwitchTalk", "message_SwitchMonologue"], "w"), l.intlike(), cs), op("E")]
    return check_body(cx, b)


def f_tables(most):
    return lambda cx: tables(cx, most)


def tables(cx, most):
    """routine ids, kinds, targets, aliases, coroutines"""
    l = L(cx, "a")
    n = 1 + cx.pick(most, "n")
    rs = []
    coro = cx.flag("coro")
    for i in range(n):
        if i and cx.flag("alias"):
            body = "ALIAS"
        else:
            e = cx.pick(4, "end")
            body = [N("op", f"op{i}", None, [l.int()])] + [[], [N("return")], [N("end")], [N("hold")]][e]
        if coro:
            rs.append(N("coro", f"CORO_{i}", body))
        else:
            k = cx.pick(4, "k")
            kind = [None, "actor", "object", "performer"][k]
            rs.append(N("def", str(i), kind, None if kind is None else l.intlike(), body))
    prog = program(rs)
    text = lang.render(prog)
    cm.check_source_vs_compiled(cx, prog, text)
    return text


def check_body(cx, b):
    prog = program([routine(0, b)])
    text = lang.render(prog)
    cm.check_source_vs_compiled(cx, prog, text)
    return text


# ----------------------------------------------------------------- deep chains of nested blocks
def f_nest(depth):
    def h(cx):
        cnt = [0]

        def fresh(p):
            cnt[0] += 1
            return f"{p}{cnt[0]}"

        def cond():
            return N("h_op", C(fresh("$V")), "==", I(200 + cnt[0]))

        def build(d, loop, sw):
            if d == 0:
                ks = ["op", "return", "withend"] + (["break"] if sw else []) + (["continue", "break_loop"] if loop else [])
                k = cx.choose(ks, "leaf")
                if k == "withend":
                    return [N("with", "performer", C("PERF_1"), N("end"))]
                return [op(fresh("L"))] if k == "op" else [N(k)]
            k = cx.choose(["forever", "while", "for", "switch", "switchd", "if", "else", "not"], f"k{d}")
            pre = [op(fresh("P"))] if cx.flag(f"p{d}") else []
            post = [op(fresh("Q"))] if cx.flag(f"q{d}") else []
            inner = lambda lp, s: pre + build(d - 1, lp, s) + post
            if k == "forever":
                return [N("forever", inner(True, sw))]
            if k == "while":
                return [N("while", False, cond(), inner(True, sw))]
            if k == "for":
                return [N("for", op(fresh("I")), cond(), op(fresh("J")), inner(True, sw))]
            if k == "switch":
                return [N("switch", N("s_var", C(fresh("$S"))), [N("case", N("c_val", I(300 + cnt[0])), inner(loop, True)),
                                                               N("case", N("c_val", I(700 + cnt[0])), [op(fresh("R")), N("break")])])]
            if k == "switchd":
                return [N("switch", N("s_var", C(fresh("$S"))), [N("case", N("c_val", I(300 + cnt[0])), [op(fresh("R")), N("break")]),
                                                               N("case", None, inner(loop, True))])]
            if k == "if":
                return [N("if", [N("arm", False, [cond()], inner(loop, sw))], None)]
            if k == "not":
                return [N("if", [N("arm", True, [cond(), cond()], inner(loop, sw))], None)]
            return [N("if", [N("arm", False, [cond()], [op(fresh("T"))])], inner(loop, sw))]
        b = build(depth, False, False)
        if cx.flag("tail"):
            b.append(op("TAIL"))
        return check_body(cx, b)
    return h


# ----------------------------------------------------------------- long programs
BIG = ["ops", "ifs", "elseifs", "ors", "cases", "groups", "switches", "msgcases", "loops", "args", "routines", "labels", "falls", "deep", "calls"]


def big(cx, kind, n, lit):
    """n statements / arms / cases / ... of one sort in a row -> routines"""
    i3 = lambda i, b=0: lit(1000 * b + i) if i in (0, n // 2, n - 1) else I(1000 * b + i)      # some of the literals are symbolic
    cond = lambda i: N("h_op", C(f"$V{i}"), "==", i3(i, 2))
    case = lambda i: N("c_val", i3(i, 3))
    if kind == "ops":
        b = [N("op", f"o{i}", None, [i3(i, 1)]) for i in range(n)]
    elif kind == "ifs":
        b = [N("if", [N("arm", i % 3 == 1, [cond(i)], [op(f"A{i}")])], [op(f"B{i}")] if i % 2 else None) for i in range(n)]
    elif kind == "elseifs":
        b = [N("if", [N("arm", i % 4 == 3, [cond(i)], [op(f"A{i}")]) for i in range(n)], [op("EL")] if cx.flag("else") else None)]
    elif kind == "ors":
        b = [N("if", [N("arm", cx.flag("neg"), [cond(i) for i in range(n)], [op("A")])], [op("EL")])]
    elif kind == "cases":
        d = cx.pick(3, "d")
        cs = [N("case", case(i), [op(f"A{i}"), N("break")]) for i in range(n)]
        if d:
            cs.insert([0, n // 2][d - 1], N("case", None, [op("D"), N("break")]))
        b = [N("switch", N("s_var", C("$S")), cs)]
    elif kind == "groups":
        b = [N("switch", N("s_var", C("$S")), [N("case", case(i), [op(f"A{i}"), N("break")] if i % 5 == 4 or i == n - 1 else []) for i in range(n)])]
    elif kind == "falls":
        b = [N("switch", N("s_var", C("$S")), [N("case", case(i), [op(f"A{i}")]) for i in range(n)])]
    elif kind == "switches":
        b = [N("switch", N("s_var", C(f"$S{i}")), [N("case", case(2 * i), [op(f"A{i}"), N("break")]), N("case", N("c_val", I(i + 9000)), [op(f"B{i}"), N("break")])])
             for i in range(n)]
    elif kind == "msgcases":
        b = [N("msgswitch", "message_SwitchTalk", C("$M"), [N("case", case(i), S(f"m{i}")) for i in range(n)] + [N("case", None, S("d"))])]
    elif kind == "loops":
        b = [N("while", i % 2 == 1, cond(i), [op(f"A{i}")]) if i % 3 else N("forever", [op(f"A{i}"), N("if", [N("arm", False, [cond(i)], [N("break_loop")])], None)])
             for i in range(n)]
    elif kind == "args":
        b = [N("op", "o", None, [i3(i, 1) if i % 2 else C(f"K{i}") for i in range(n)])]
    elif kind == "routines":
        return [N("def", str(i), [None, "actor", "object", "performer"][i % 4], None if i % 4 == 0 else i3(i, 4),
                  "ALIAS" if i and i % 5 == 0 else [N("op", f"o{i}", None, [i3(i, 1)])] + ([N("return")] if i % 2 else [])) for i in range(n)]
    elif kind == "labels":
        b = []
        for i in range(n):
            b += [N("label", f"l{i}"), op(f"A{i}"), N("if", [N("arm", False, [cond(i)], [N("jump", f"l{(i * 7 + 3) % n}")])], None)]
    elif kind == "calls":
        b = [x for i in range(n) for x in (op(f"A{i}"), N("call", f"s{(i * 5 + 2) % n}"))] + [N("return")]
        for i in range(n):
            b += [N("label", f"s{i}"), op(f"S{i}"), N("return")]
    else:
        b = [op("core")]
        for i in range(n):
            b = [N("forever", [op(f"F{i}")] + b + [N("break_loop")]) if i % 4 == 3 else N("if", [N("arm", False, [cond(i)], b)], [op(f"B{i}")] if i % 2 else None),
                 op(f"Q{i}")]
    return [routine(0, b + [op("E")])]


def f_big(kinds, sizes):
    def h(cx):
        kind = cx.choose(kinds, "kind")
        n = cx.choose(sizes, "n")
        prog = program(big(cx, kind, n, cm.symlit(cx)))
        text = lang.render(prog)
        cm.check_source_vs_compiled(cx, prog, text)
        return text
    return h


class CHECK(Check):
    id = "C01"
    level = "translation_validation"
    technique = "concolic execution of the real compiler; z3 decides bisimulation of the compiled ops with an independent reference semantics"
    level_note = ("Every program of the stated shape families is run through the real compiler with symbolic literals; per program z3 shows that no "
                  "reachable pair of states (source LTS, SSB machine) is distinguishable for any test outcome or literal value. Bounded by program size; "
                  "trusts vf/lang.py as the reading of docs/language_spec.rst and the ANTLR runtime.")
    seconds = {"quick": 75, "thorough": 2400}
    assumptions = [
        "bound: programs of the stated shape families (statement count, nesting); literals are 32-bit integers, pairwise distinct per program",
        "programs with a reachable op-free cycle (for example `forever {}`) are excluded: they have no observable behaviour",
        "an op that stops the flow does not stop it directly after a context op reached by fall-through (both sides of the comparison)",
        "reference semantics (vf/lang.py) written from docs/language_spec.rst; SSB machine model from the property text",
        "ANTLR runtime is executed, not encoded; parser input is concrete apart from integer literals",
    ]
    bounds = {
        "quick": "long programs of 15 sorts (statements, arms, `||`, cases, groups, nesting, labels, calls, routines, ...) with 11 and 34 elements; all 23 statement kinds up to 2 statements; 7 restricted kind sets up to 3; header/assignment/operation/table families with "
                 "symbolic literals; nests of blocks up to depth 2 around one control statement",
        "thorough": "all kinds up to 3 statements, restricted sets up to 4, nests up to depth 3",
    }

    def setup(self):
        cm.setup_ints()

    def families(self, tier):
        f = [("if-headers", f_if_headers), ("switch-headers", f_switch_headers),
             ("stmts", f_stmts), ("msgswitch", f_msgswitch(2 if tier == "quick" else 3)), ("tables", f_tables(2 if tier == "quick" else 3)),
             ("full1", shape(FULL, 1, cm.symlit)), ("full2", shape(FULL, 2, cm.symlit)), ("nest1", f_nest(1)), ("nest2", f_nest(2))]
        f.append(("switchcases", shape("op break switch3".split(), 2)))
        f.append(("big", f_big(BIG, (11, 34) if tier == "quick" else (11, 34, 103))))
        for n, ks in SETS.items():
            f.append((n + "3", shape(ks, 3, labels=("A",) if tier == "quick" else ("A", "B"))))
        if tier == "thorough":
            f.append(("two-headers", f_two_headers))
            f.append(("full3", shape(FULL, 3)))
            f.append(("nest3", f_nest(3)))
            for n, ks in SETS4.items():
                f.append((n + "4", shape(ks, 4, labels=("A",))))
        return f

    def control(self):
        """compile a program, swap the outcomes of its test in the machine: must be refuted"""
        prog = program([routine(0, [N("if", [N("arm", False, [N("h_neg", False, "debug")], [op("A")])], None), op("B")])])
        src = lang.Sem().program(prog)
        mg = machine.machine([[(0, "BranchDebug", (("i", 1), ("i", 3))), (1, "B", ()), (2, "Return", ()), (3, "A", ()),
                               (4, "Jump", (("i", 1),))]])
        good = machine.Product(src, mg, [(src.entries[0][1], mg.entries[0][1])]).query(0)
        n = [i for i, x in enumerate(mg.nodes) if x[0] == "test"]
        for i in n:
            x = mg.nodes[i]
            mg.nodes[i] = x[:3] + (x[4], x[3])
        bad = machine.Product(src, mg, [(src.entries[0][1], mg.entries[0][1])]).query(0)
        r = []
        for p in (good, bad):
            s = z3.Solver()
            s.add(p)
            r.append(str(s.check()))
        return r == ["unsat", "sat"], f"correct machine: {r[0]}, machine with swapped outcomes: {r[1]}"

    def replay(self, payload):
        prog = lang.parse(payload["text"])
        src = lang.Sem().program(prog)
        try:
            c = real.compile_text(payload["text"])
        except Exception as e:
            if not cm.plain_headers(prog):
                return None
            return f"a valid program is rejected: {type(e).__name__}: {str(e)[:200]}\nprogram:\n" + payload["text"]
        r = cm.concrete_compare(src, c)
        return None if r is None else r + "\nprogram:\n" + payload["text"]
