"""C13  flat structured programs decompile back to structured, jump-free text."""
from __future__ import annotations
import re
import z3
from . import c01, common as cm
from .. import engine, lang, machine, real
from ..lang import N
from ..run import Check
from ..shapes import C, I, S, program, routine

MARK = "//?: is-ssb-script: true"


# ----------------------------------------------------------------- what the text prints
def printed(prog):
    """-> (operations printed anywhere, as (routine, statement) in order; jump/call/label statements found)"""
    ops, jumps = [], []

    def stmts(i, b):
        for s in b:
            k = s.k
            if k in ("jump", "call"):
                jumps.append(k)
            elif k == "label":
                pass
            elif k == "if":
                for a in s.a[0]:
                    stmts(i, a.a[2])
                if s.a[1] is not None:
                    stmts(i, s.a[1])
            elif k == "switch":
                for c in s.a[1]:
                    stmts(i, c.a[1])
            elif k == "forever":
                stmts(i, s.a[0])
            elif k == "while":
                stmts(i, s.a[2])
            elif k == "for":
                ops.append((i, s.a[0]))
                ops.append((i, s.a[2]))
                stmts(i, s.a[3])
            elif k in ("break", "continue", "break_loop"):
                pass
            elif k == "with" and s.a[2].k == "op":
                # `with (actor X) { op(); }` and `op<actor X>();` are the same operation
                ops.append((i, N("op", s.a[2].a[0], (s.a[0], s.a[1]), s.a[2].a[2])))
            elif k == "with" and s.a[2].k in ("jump", "call"):
                jumps.append(s.a[2].k)
            else:
                ops.append((i, s))

    for i, r in enumerate(prog.a[1]):
        b = r.a[-1]
        if isinstance(b, list):
            stmts(i, b)
    return ops, jumps


def heads(prog):
    """conditions, switch headers and cases per routine"""
    out = []

    def go(i, b):
        for s in b:
            if s.k == "if":
                for a in s.a[0]:
                    out.extend((i, h) for h in a.a[1])
                    go(i, a.a[2])
                if s.a[1] is not None:
                    go(i, s.a[1])
            elif s.k == "switch":
                out.append((i, s.a[0]))
                for c in s.a[1]:
                    if c.a[0] is not None:
                        out.append((i, c.a[0]))
                    go(i, c.a[1])
            elif s.k in ("forever", "while", "for"):
                go(i, s.a[-1])
    for i, r in enumerate(prog.a[1]):
        if isinstance(r.a[-1], list):
            go(i, r.a[-1])
    return out


def event(s, val):
    """the ops a single statement stands for, whichever way it is spelled"""
    if s.k == "a_dmode" and s.a[1].k == "const" and s.a[1].a[0] in real.DMODE:
        s = N("a_dmode", s.a[0], I(real.DMODE.index(s.a[1].a[0])))       # the names the project gave to these values
    g = lang.Sem(val).program(program([routine(0, [s])]))
    return tuple(n[1:3] for n in g.nodes if n[0] in ("op", "test", "stop") and n[1] != "Return") or (s.k,)


def hevent(h, val):
    b = N("op", "B", None, [])
    if h.k.startswith("h_"):
        s = N("if", [N("arm", False, [h], [b])], None)
    elif h.k.startswith("s_"):
        s = N("switch", h, [N("case", N("c_val", I(1)), [b])])
    else:
        s = N("switch", N("s_sector"), [N("case", h, [b])])
    g = lang.Sem(val).program(program([routine(0, [s])]))
    ns = [n[1:3] for n in g.nodes if n[0] in ("op", "test") and n[1] not in ("B", "Return")]
    if h.k.startswith("s_"):
        ns = [n for n in ns if n[0] != "Case"]
    if h.k.startswith("c_"):
        ns = [n for n in ns if n[0] != "SwitchSector"]
    return tuple(ns)


def concrete(x):
    if isinstance(x, (list, tuple)):
        return tuple(concrete(y) for y in x)
    return int.__int__(x) if isinstance(x, int) else x


def compare(src, out, val=lang.int_value):
    """-> (None or description, conditions under which matched operations are the same)"""
    a, _ = printed(src)
    b, j = printed(out)
    conds = []
    if j:
        return f"the text contains {j[0]} statements", conds
    def opheads(x, y):
        """header operations of x, with those headers of x that stand for an operation which is a header in x or y
        (`if (edit)` is BranchEdit(1))"""
        hs = heads(x)
        ops = {concrete((i,) + hevent(h, val)) for z in (x, y) for i, h in heads(z) if h.k in ("s_operation", "h_operation")}
        return [(i, h) for i, h in hs if concrete((i,) + hevent(h, val)) in ops]
    for what, p, q, ev in (("operation", a, b, event), ("header", opheads(src, out), opheads(out, src), hevent)):
        cp, cq = {}, {}
        for d, l in ((cp, p), (cq, q)):
            for i, x in l:
                e = (i,) + ev(x, val)
                d.setdefault(concrete(e), []).append(e)
        for k, l in cp.items():
            m = cq.get(k, [])
            if len(m) != len(l):
                return f"{what} {k[1:]} is printed {len(m)} times instead of {len(l)}", conds
            for x, y in zip(l, m):
                c = machine.val_eq(x, y)
                if c is False:
                    return f"{what} {k[1:]} is printed differently", conds
                if c is not True:
                    conds.append(c)
        for k in cq:
            if k not in cp:
                return f"{what} {k[1:]} is printed, but not in the source", conds
    return None, conds


def decompiled(text):
    c = real.compile_text(text)
    dt = real.m.dt
    coros = [dt.SsbCoroutine(i, n) for i, n in enumerate(c.named_coroutines) if c.routine_infos[i].type == dt.SsbRoutineType.COROUTINE]
    return real.make_decompiler(c.routine_infos, c.routine_ops, coros).convert()[0]


def verdict(text, out, val=lang.int_value):
    if out.startswith(MARK):
        return "the answer is SsbScript", []
    try:
        p = lang.parse(out)
    except lang.LangError as e:
        return f"the text is not ExplorerScript: {e}", []
    return compare(lang.parse(text), p, val)


def examine(cx, prog):
    st = cx.w.stats
    text = lang.render(prog)
    st.add("programs")

    def payload(err, out=None):
        return lambda m: {"text": cm.at_values(cx, m, text) if m is not None and cx.ints else text, "err": err, "out": out}
    cx.notes = {"text": text}
    try:
        real.compile_text(text)
    except Exception:
        st.add("rejected_by_compiler")
        raise engine.Abandon
    try:
        out = decompiled(text)
    except Exception as e:
        cx.fail(payload("raises " + type(e).__name__))
    v, conds = verdict(text, out, cm.int_val(cx))
    if v is not None:
        cx.fail(payload(re.sub(r"\d+", "#", v)[:90], out))
    cx.prove(z3.And(conds) if conds else True, payload("a literal is printed as another value", out))
    return text


# ----------------------------------------------------------------- programs
class P:
    def __init__(self, cx, lit):
        self.cx, self.lit, self.n = cx, lit, 0

    def id(self):
        self.n += 1
        return self.n

    def op(self):
        n = self.id()
        return N("op", f"op{n}", None, [self.lit(100 + n)])

    def plain(self, kinds):
        cx, n = self.cx, self.id()
        k = cx.choose(kinds, "p")
        if k == "op":
            return N("op", f"op{n}", None, [self.lit(100 + n)])
        if k == "assign":
            return N("assign", C(f"$W{n}"), None, "=", self.lit(400 + n))
        if k == "clear":
            return N("a_clear", C(f"$W{n}"))
        if k == "with":
            return N("with", "actor", C("ACTOR_1"), N("op", f"op{n}", None, [self.lit(100 + n)]))
        if k == "msg":
            return N("msgswitch", "message_SwitchTalk", C(f"$M{n}"), [N("case", N("c_val", self.lit(500 + n)), S(f"m{n}")), N("case", None, S(f"d{n}"))])
        if k == "msg1":
            return N("msgswitch", "message_SwitchMonologue", C(f"$M{n}"), [N("case", N("c_val", self.lit(500 + n)), S(f"m{n}"))])
        raise AssertionError(k)

    def block(self, most, kinds):
        return [self.plain(kinds) for _ in range(self.cx.pick(most + 1, "b"))]

    def cond(self, kinds=("op",)):
        n = self.id()
        k = self.cx.choose(kinds, "c") if len(kinds) > 1 else kinds[0]
        if k == "op":
            return N("h_op", C(f"$V{n}"), "==", self.lit(200 + n))
        if k == "bit":
            return N("h_bit", False, C(f"$V{n}"), str(self.lit(200 + n).a[0]))
        if k == "scn":
            return N("h_scn", C(f"$V{n}"), "<=", self.lit(200 + n).a[0], self.lit(300 + n).a[0])
        if k == "debug":
            return N("h_neg", False, "debug")
        if k == "value":
            return N("h_op", C(f"$V{n}"), ">", N("value", C(f"$U{n}")))
        if k == "sub":
            return N("h_operation", N("op", "BranchSum", None, [self.lit(1), self.lit(2), self.lit(n)]))
        raise AssertionError(k)

    def iff(self, arms, blk, kinds, two=True, neg=True, els=True, conds=("op",)):
        cx = self.cx
        rows = []
        for i in range(1 + cx.pick(arms, "arms")):
            hs = [self.cond(conds)]
            for _ in range(cx.pick(int(two) + 1, "or")):      # two: how many more conditions at most
                hs.append(self.cond(conds))
            rows.append(N("arm", neg and cx.flag("neg"), hs, self.block(blk, kinds)))
        e = self.block(blk, kinds) if els and cx.flag("else") else None
        return N("if", rows, e)

    HEADS = ("var", "scn", "scn1", "random", "dmode", "sector", "op", "menu")

    def switch(self, cases, blk, kinds, heads=("var",), group=True, default="any"):
        cx, n = self.cx, self.id()
        h = cx.choose(heads, "sh") if len(heads) > 1 else heads[0]
        menu = h == "menu"
        hd = {"var": lambda: N("s_var", C(f"$S{n}")), "scn": lambda: N("s_scn", C(f"$S{n}"), "0"), "scn1": lambda: N("s_scn", C(f"$S{n}"), "1"),
              "random": lambda: N("s_random", self.lit(600 + n)), "dmode": lambda: N("s_dungeon_mode", C(f"D_{n}")), "sector": lambda: N("s_sector"),
              "op": lambda: N("s_operation", N("op", "ProcessSpecial", None, [self.lit(1), self.lit(2), self.lit(n)])),
              "menu": lambda: N("s_operation", N("op", "message_SwitchMenu", None, [self.lit(1), self.lit(n)]))}[h]()
        nc = 1 + cx.pick(cases, "nc")
        d = -1
        if default == "any":
            d = cx.pick(nc + 1, "d")            # nc: none
        elif default == "last":
            d = nc - 1 if cx.flag("d") else nc
        rows = []
        for i in range(nc):
            m = self.id()
            if i == d:
                ch = None
            elif menu:
                ch = N("c_menu", S(f"c{m}")) if not cx.flag("m2") else N("c_menu2", self.lit(700 + m))
            elif h == "var" and len(heads) > 1 and cx.flag("cv"):
                ch = N("c_op", "<", N("value", C(f"$Y{m}")) if cx.flag("cvv") else self.lit(700 + m))
            else:
                ch = N("c_val", self.lit(700 + m))
            if group and i < nc - 1 and cx.flag("grp"):
                rows.append(N("case", ch, []))      # shares the body of the next one
            else:
                rows.append(N("case", ch, self.block(blk, kinds) + [N("break")]))
        return N("switch", hd, rows)


def term(cx, all=True):
    return N(cx.choose(["return", "end", "hold"], "term")) if all else N("return")


def f_if(arms, blk, **kw):
    def h(cx):
        p = P(cx, cm.symlit(cx))
        b = [p.op()] if cx.flag("pre") else []
        b.append(p.iff(arms, blk, ("op",), **kw))
        if cx.flag("post"):
            b.append(p.op())
        return examine(cx, program([routine(0, b + [term(cx, False)])]))
    return h


def f_switch(cases, blk, **kw):
    def h(cx):
        p = P(cx, cm.symlit(cx))
        b = [p.op()] if cx.flag("pre") else []
        b.append(p.switch(cases, blk, ("op",), **kw))
        if cx.flag("post"):
            b.append(p.op())
        return examine(cx, program([routine(0, b + [term(cx, False)])]))
    return h


PLAIN = ("op", "assign", "with", "msg", "msg1", "clear")


def f_plain(n):
    """plain statements of every kind alone, in blocks and around blocks; terminators; several routines; headers"""
    def h(cx):
        p = P(cx, cm.symlit(cx))
        form = cx.pick(4, "form")
        if form == 0:
            b = [p.plain(PLAIN) for _ in range(cx.pick(n + 1, "n"))]
        elif form == 1:
            b = [p.plain(PLAIN), N("if", [N("arm", cx.flag("neg"), [p.cond()], [p.plain(PLAIN)])], [p.plain(PLAIN)] if cx.flag("else") else None), p.plain(PLAIN)]
        elif form == 2:
            b = [N("switch", N("s_var", C("$S")), [N("case", N("c_val", p.lit(5)), [p.plain(PLAIN), N("break")]),
                                                  N("case", None if cx.flag("def") else N("c_val", p.lit(6)), [p.plain(PLAIN), N("break")])]), p.plain(PLAIN)]
        else:
            b = [N("if", [N("arm", False, [p.cond()], [p.plain(PLAIN), p.plain(PLAIN)])], None)]
        return examine(cx, program([routine(0, b + [term(cx)])]))
    return h


def f_heads():
    def h(cx):
        p = P(cx, cm.symlit(cx))
        if cx.flag("sw"):
            b = [p.switch(2, 1, ("op",), heads=P.HEADS, group=False)]
        else:
            b = [p.iff(2, 1, ("op",), conds=("op", "bit", "scn", "debug", "value", "sub"), two=False, neg=False)]
        return examine(cx, program([routine(0, b + [p.op(), term(cx, False)])]))
    return h


def f_leaves(cx):
    """every kind of condition, switch header, case header, assignment and operation (literals symbolic) in a flat program"""
    l = c01.L(cx, "a")
    form = cx.pick(7, "form")
    A, B = N("op", "A", None, []), N("op", "B", None, [])
    arm = lambda hs, b, n=False: N("arm", n, hs, b)
    if form < 3:
        h = l.if_header()
        if h.k == "h_operation" and len(h.a[0].a[2]) != OPERANDS[h.a[0].a[0]]:
            raise engine.Abandon         # no such op: the opcode needs a number of parameters of its own
        other = N("h_op", C("$OTHER"), "==", I(3))
        neg = cx.flag("neg")
        b = [[N("if", [arm([h], [A], neg)], [B] if cx.flag("else") else None)],
             [N("if", [arm([other, h] if cx.flag("o") else [h, other], [A], neg)], None)],
             [N("if", [arm([other], [A]), arm([h], [B], neg)], None)]][form]
    elif form == 3:
        hd = l.switch_header()
        if hd.k == "s_operation" and hd.a[0].a[0] == "Switch" and len(hd.a[0].a[2]) != 1:
            raise engine.Abandon
        b = [N("switch", hd, [N("case", N("c_val", I(77)), [A, N("break")])] + ([N("case", None, [B, N("break")])] if cx.flag("def") else []))]
    elif form == 4:
        ch = l.case_header(None)
        menu = ch.k.startswith("c_menu")
        hd = N("s_operation", N("op", "message_SwitchMenu", None, [l.int(), l.int()])) if menu else N("s_var", C("$S"))
        k2 = N("c_menu", S("more")) if menu else N("c_val", I(77))
        b = [N("switch", hd, [N("case", ch, [A, N("break")])] +
               [[], [N("case", None, [B, N("break")])], [N("case", k2, [B, N("break")])]][cx.pick(3, "more")])]
    else:
        s = l.assign() if form == 5 else l.operation()
        if s.k == "op" and s.a[0] == "Switch":
            raise engine.Abandon         # not a plain statement: it starts a switch
        b = [[s], [N("if", [arm([N("h_neg", False, "debug")], [s])], None)],
             [N("switch", N("s_sector"), [N("case", N("c_val", I(5)), [s, N("break")])])]][cx.pick(3, "at")]
    return examine(cx, program([routine(0, b + [N("op", "E", None, []), term(cx, False)])]))


BIG = ["ops", "ifs", "elseifs", "ors", "cases", "groups", "switches", "msgcases", "args", "routines", "deepseq"]


def f_big(sizes):
    """long programs: n statements / arms / conditions / cases / routines"""
    def h(cx):
        kind, n = cx.choose(BIG, "kind"), cx.choose(sizes, "n")
        if kind == "deepseq":
            p = P(cx, cm.symlit(cx))
            b = [item(p, cx, 0) if i in (0, n - 1) else [p.op(), N("if", [N("arm", False, [p.cond()], [p.op()])], [p.op()])][i % 2] for i in range(n)]
            return examine(cx, program([routine(0, b + [term(cx)])]))
        rs = c01.big(cx, kind, n, cm.symlit(cx))
        for r in rs:
            if isinstance(r.a[-1], list) and (not r.a[-1] or r.a[-1][-1].k != "return"):
                r.a[-1].append(term(cx, False))
        return examine(cx, program(rs))
    return h


OPERANDS = {"BranchBit": 2, "BranchEdit": 1, "BranchSum": 3, "BranchScenarioNow": 3}


def item(p, cx, rich):
    k = cx.pick(5 + rich, "it")
    arm = lambda b, neg=False: N("arm", neg, [p.cond()], b)
    if k == 0:
        return N("if", [arm([p.op()])], None)
    if k == 1:
        return N("if", [arm([p.op()])], [p.op()])
    if k == 2:
        return N("if", [arm([p.op()], True), arm([p.op()])], None)
    if k == 3:
        return N("switch", N("s_var", C(f"$S{p.id()}")), [N("case", N("c_val", p.lit(800 + p.id())), [p.op(), N("break")]),
                                                       N("case", N("c_val", p.lit(800 + p.id())), [p.op(), N("break")])])
    if k == 4:
        return N("switch", N("s_var", C(f"$S{p.id()}")), [N("case", N("c_val", p.lit(800 + p.id())), [p.op(), N("break")]),
                                                       N("case", None, [p.op(), N("break")])])
    if k == 5:
        return N("if", [arm([])], None)
    if k == 6:
        return N("switch", N("s_var", C(f"$S{p.id()}")), [N("case", N("c_val", p.lit(800 + p.id())), []),
                                                       N("case", None, [N("break")])])
    if k == 7:
        return N("if", [arm([p.op()]), arm([]), arm([p.op()])], [])
    raise AssertionError(k)


def f_seq(n, rich):
    """any sequence of n blocks, with or without plain statements between them"""
    def h(cx):
        p = P(cx, cm.symlit(cx))
        b = []
        for i in range(n):
            if cx.flag("sep"):
                b.append(p.op())
            b.append(item(p, cx, rich))
        if cx.flag("post"):
            b.append(p.op())
        return examine(cx, program([routine(0, b + [N("return")])]))
    return h


def f_routines(n):
    def h(cx):
        p = P(cx, cm.symlit(cx))
        rs = []
        coro = cx.flag("coro")
        for i in range(2 + cx.pick(n - 1, "nr")):
            b = []
            if cx.flag("pre"):
                b.append(p.op())
            if cx.flag("it"):
                b.append(item(p, cx, 1))
            b.append(term(cx))
            rs.append(N("coro", f"CORO_{i}", b) if coro else routine(i, b))
        return examine(cx, program(rs))
    return h


class CHECK(Check):
    id = "C13"
    level = "model_checking"
    technique = "concolic execution of the real compiler and decompiler over all flat structured programs within a size bound, literals symbolic"
    level_note = ("Every flat structured program of the stated shapes is compiled and decompiled by the real code with symbolic literals; the text is read by an "
                  "independent parser and must contain no jump and every operation of the source exactly once. Paths split only where the solver finds literal "
                  "values that take the other branch, so each verdict covers all literals.")
    seconds = {"quick": 75, "thorough": 2400}
    assumptions = [
        "bound: programs of the stated shapes; literals are 32-bit integers, pairwise different within a program",
        "`with (actor X) { op(); }` and `op<actor X>();` are two spellings of one operation",
        "an operation is identified by its text in the source (kind, name, parameters)",
    ]
    bounds = {"quick": "every kind of condition, switch and case header, assignment, operation once with symbolic literals; long flat programs of 11 sorts (11, 34 elements); if chains: <= 2 arms, 2 conditions each (1 arm: 4, 2 arms: 3), blocks of 0-1 statements, and 3 arms single condition; switches of <= 3 cases with default anywhere and "
                       "grouped cases, blocks 0-1; 6 kinds of plain statements in 4 contexts; sequences of 3 blocks; 2 routines; all headers",
              "thorough": "3 arms / blocks of 2, switches of 4 cases, sequences of 4 blocks, 3 routines"}

    def setup(self):
        cm.setup_ints()

    def families(self, tier):
        T = tier == "thorough"
        out = [("plain", f_plain(2)), ("heads", f_heads()), ("leaves", f_leaves), ("big", f_big((11, 34) if not T else (11, 34, 103))), ("if2", f_if(2, 1)), ("if3", f_if(3, 1, two=False)), ("if2b", f_if(2, 2, two=False)), ("if1b", f_if(1, 2)), ("ifor4", f_if(1, 1, two=3)), ("ifor3", f_if(2, 1, two=2, neg=False)),
               ("sw3", f_switch(3, 1)), ("sw2b", f_switch(2, 2)), ("sw4", f_switch(4, 1, group=False, default="last")),
               ("seq2", f_seq(2, 3)), ("seq3", f_seq(3, 0)), ("sw4b", f_switch(4, 1)), ("seq3b", f_seq(3, 2)), ("routines", f_routines(2))]
        if T:
            out += [("if3b", f_if(3, 1)), ("sw5", f_switch(5, 1, group=False)), ("seq3c", f_seq(3, 3)), ("seq4", f_seq(4, 0)), ("routines3", f_routines(3))]
        return out

    def replay(self, d):
        try:
            out = decompiled(d["text"])
        except Exception as e:
            return f"decompiling raises {type(e).__name__}: {e}\n{d['text']}"
        v = verdict(d["text"], out)[0]
        return None if v is None else f"{v}\nsource:\n{d['text']}\ndecompiled:\n{out}"
