"""C02  decompiled source denotes the input routines; recompiling preserves behaviour."""
from __future__ import annotations
import json
import z3
from . import c01
from . import common as cm
from .. import engine, lang, machine, real, sym
from ..oplists import FromText, Ops, load, well_formed
from ..run import Check
from ..sym import SymInt

MARK = "//?: is-ssb-script: true"
DM = {n: i for i, n in enumerate(real.DMODE)}


def norm_routines(rs):
    """dungeon-mode constants and numbers are the same value where a dungeon mode is written"""
    out = []
    dmswitch = False
    for r in rs:
        row = []
        for off, nm, ps in r:
            if nm == "flag_SetDungeonMode" and len(ps) == 2 and ps[1][0] == "c" and ps[1][1] in DM:
                ps = (ps[0], ("i", DM[ps[1][1]]))
            if nm == "Case" and len(ps) == 2 and ps[0][0] == "c" and ps[0][1] in DM:
                ps = (("i", DM[ps[0][1]]), ps[1])
            row.append((off, nm, ps))
        out.append(row)
    return out


def norm_graph(g):
    for i, n in enumerate(g.nodes):
        if n[0] in ("op", "stop") and n[1] == "flag_SetDungeonMode" and len(n[2]) == 2 and n[2][1][0] == "c" and n[2][1][1] in DM:
            g.nodes[i] = n[:2] + ((n[2][0], ("i", DM[n[2][1][1]])),) + n[3:]
        elif n[0] == "test" and n[1] == "Case" and len(n[2]) == 1 and n[2][0][0] == "c" and n[2][0][1] in DM:
            g.nodes[i] = n[:2] + ((("i", DM[n[2][0][1]]),),) + n[3:]
    return g


def want_table(o):
    return o.want()


def table(want, c):
    """compiled tables against the input"""
    saved = cm.routine_table
    cm.routine_table = lambda e: e
    try:
        return cm.table_diff(want, c)
    finally:
        cm.routine_table = saved


def decompile(o):
    infos, ops, coros = o.build()
    before = machine.machine(norm_routines(real.routines(ops)))
    raw = real.routines(ops)
    text, smap = real.make_decompiler(infos, ops, coros).convert()
    return before, raw, text, smap


ROLE = "C02"     # C06: exceptions and exactness of the fallback; C02: meaning of the text, whichever language it is in


def examine(cx, o):
    """-> text.  Violations are reported through cx."""
    st = cx.w.stats
    st.add("programs")

    def payload(err, extra=None):
        def f(m):
            if isinstance(o, FromText):
                d = {"text": cm.at_values(cx, m, o.text) if m is not None and cx.ints else o.text}
                oc = o
            elif m is not None and cx.ints:
                oc = o.concretise(lambda s: m.eval(s.e, model_completion=True).as_long())
            else:
                oc = o.concretise(lambda s: int.__int__(s))
            d = {"in": oc.dump() if oc is not o or not isinstance(o, FromText) else d, "err": err}
            if extra:
                d["detail"] = extra
            return d
        return f
    cx.notes = payload("hang")(None)
    try:
        before, raw, text, smap = decompile(o)
    except Exception as e:
        if ROLE != "C06":
            st.add("raised")
            raise engine.Abandon
        cx.fail(payload("raises " + type(e).__name__))
    if ROLE == "C06" and not (type(text) is str and isinstance(smap, real.m.smap.SourceMap)):
        cx.fail(payload("result is not a text and a source map"))
    if text.startswith(MARK):
        st.add("fallback")
        if ROLE == "C06":
            return fallback(cx, o, raw, before, text, payload)
        recompiled(cx, o, before, text, payload)
        return text
    if ROLE == "C06":
        # the text has to be one of the two languages (what it means is decided by C02)
        try:
            lang.parse(text)
        except lang.LangError:
            cx.fail(payload("unmarked text that is not ExplorerScript", text))
        st.add("assertions")
        return text
    try:
        src = lang.Sem(cm.int_val(cx)).program(lang.parse(text))
        norm_graph(src)
    except lang.LangError as e:
        cx.fail(payload("not in the language: " + str(e)[:40], text))
    d = src_table_diff(want_table(o), src.entries)
    if d is not None:
        if d[1] is None:
            cx.fail(payload("table: " + d[0], text))
        cx.prove(z3.Not(d[1]), payload("table: " + d[0], text))
    pairs = [(e, f) for (_, e), (_, f) in zip(src.entries, before.entries) if e is not None]
    try:
        p = machine.Product(src, before, pairs)
    except machine.Malformed as e:
        cx.fail(payload("undefined label in the text", text))
    cm.decide(cx, p, payload("text means something else", text))
    recompiled(cx, o, before, text, payload)
    return text


def src_table_diff(want, entries):
    got = cm.routine_table(entries)
    if len(got) != len(want):
        return ("number of routines", None)
    conds = []
    for i, ((k, t, n, e), (k2, t2, n2, e2)) in enumerate(zip(want, got)):
        if k != k2 or n != n2 or (e is None) != (e2 is None):
            return (f"routine {i}: {(k2, n2)} instead of {(k, n)}", None)
        if t is not None:
            q = machine.val_eq(t, t2)
            if q is False:
                return (f"target of {i}", None)
            if q is not True:
                conds.append(q)
    return ("target", z3.Not(z3.And(conds))) if conds else None


def recompiled(cx, o, before, text, payload):
    try:
        c = real.compile_text(text)
    except Exception as e:
        cx.fail(payload("the text is not accepted: " + type(e).__name__, text))
    try:
        after = machine.machine(norm_routines(real.routines(c.routine_ops)))
    except machine.Malformed as e:
        cx.fail(payload("recompiled: malformed", text))
    d = table(want_table(o), c)
    if d is not None:
        if d[1] is None:
            cx.fail(payload("recompiled table: " + d[0], text))
        cx.prove(z3.Not(d[1]), payload("recompiled table: " + d[0], text))
    pairs = [(e, f) for (_, e), (_, f) in zip(before.entries, after.entries) if e is not None]
    p = machine.Product(before, after, pairs)
    cm.decide(cx, p, payload("recompiling changes the behaviour", text))


def exact(raw, c):
    """op for op the same, targets denoting the corresponding op  -> None or (text, z3 condition of the difference / None)"""
    got = real.routines(c.routine_ops)
    if [len(r) for r in raw] != [len(r) for r in got]:
        return ("number of ops", None)
    m = {}
    for r, q in zip(raw, got):
        for (a, _, _), (b, _, _) in zip(r, q):
            m[a] = b
    conds = []
    for r, q in zip(raw, got):
        for (a, nm, ps), (b, nm2, ps2) in zip(r, q):
            if nm != nm2 or len(ps) != len(ps2):
                return (f"op at {a}: {nm2} with {len(ps2)} parameters instead of {nm} with {len(ps)}", None)
            if nm in machine.JUMPS and ps:
                t = ps[-1]
                if ps2[-1] != ("i", m.get(t[1])):
                    return (f"target of the op at {a}", None)
                ps, ps2 = ps[:-1], ps2[:-1]
            c1 = machine.val_eq(ps, ps2)
            if c1 is False:
                return (f"parameters of the op at {a}: {ps2} instead of {ps}", None)
            if c1 is not True:
                conds.append(c1)
    return ("parameters", z3.Not(z3.And(conds))) if conds else None


def fallback(cx, o, raw, before, text, payload):
    try:
        c = real.compile_text(text)
    except Exception as e:
        cx.fail(payload("the marked SsbScript is not accepted: " + type(e).__name__, text))
    for d in (table(want_table(o), c), exact(raw, c)):
        if d is not None:
            if d[1] is None:
                cx.fail(payload("marked SsbScript: " + d[0], text))
            cx.prove(z3.Not(d[1]), payload("marked SsbScript: " + d[0], text))
    cx.w.stats.add("assertions")
    return text


# ----------------------------------------------------------------- families
def gen_op(cx, o, kinds, i, j, lens, lit):
    """one op at routine i, position j; targets anywhere in the set"""
    k = cx.choose(kinds, "k")

    def target():
        n = sum(lens)
        t = cx.pick(n, "t")
        for q, l in enumerate(lens):
            if t < l:
                return ("@", q, t)
            t -= l
    if k == "P":
        return [f"op{i}_{j}", [lit(100 * i + j)]]
    if k == "J":
        return ["Jump", [target()]]
    if k == "B":
        return ["Branch", [("c", f"$V{i}_{j}"), lit(1000 + 100 * i + j), target()]]
    if k == "C":
        return ["Call", [target()]]
    if k == "K":
        return ["Case", [lit(2000 + 100 * i + j), target()]]
    if k == "S":
        return ["Switch", [("c", f"$S{i}_{j}")]]
    if k == "M":
        return ["CaseMenu", [("s", f"m{i}_{j}"), target()]]
    if k == "N":
        return ["message_SwitchMenu", [lit(i + j), 0]]
    if k == "X":
        return ["object", [("c", "OBJ_A")]]
    if k == "T":
        return ["message_SwitchTalk", [("c", f"$M{i}_{j}")]]
    if k == "t":
        return ["CaseText", [lit(3000 + j), ("s", f"t{i}_{j}")]]
    if k == "d":
        return ["DefaultText", [("s", f"d{i}_{j}")]]
    if k in ("Return", "End", "Hold", "Destroy", "JumpCommon"):
        return [k, [5] if k == "JumpCommon" else []]
    raise AssertionError(k)


def f_flow(lens, kinds, ends=("Return",), first=None, run=None):
    """every op list with the given routine lengths over `kinds`; the last op of a routine is one of `ends` or a Jump"""
    def h(cx):
        o = Ops()
        lit = lambda v: 1000 + v
        for i, n in enumerate(lens):
            row = []
            o.r.append(row)
            for j in range(n):
                ks = list(kinds)
                if j == n - 1:
                    ks = [k for k in kinds if k == "J" or k in ends]
                elif first and i == 0 and j < len(first):
                    ks = list(first[j])
                row.append(gen_op(cx, o, ks, i, j, lens, lit))
                # never a Jump to itself; no case outside a switch
                if row[-1][0] == "Jump" and row[-1][1][0] == ("@", i, j):
                    raise engine.Abandon
                if row[-1][0] in ("Case", "CaseMenu") and (j == 0 or row[-2][0] not in ("Switch", "Case", "message_SwitchMenu", "CaseMenu")):
                    raise engine.Abandon
        if not well_formed(o):
            raise engine.Abandon
        return (run or examine)(cx, o)
    return h


# ----------------------------------------------------------------- parameters of every kind of op
BR = {"Branch": "vi", "BranchBit": "vn", "BranchDebug": "n", "BranchEdit": "n", "BranchExecuteSub": "i", "BranchPerformance": "nn",
      "BranchScenarioNow": "vnn", "BranchScenarioNowAfter": "vnn", "BranchScenarioNowBefore": "vnn", "BranchScenarioAfter": "vnn",
      "BranchScenarioBefore": "vnn", "BranchSum": "iii", "BranchValue": "voi", "BranchVariable": "vov", "BranchVariation": "n"}
SW = {"message_SwitchMenu": "ii", "message_SwitchMenu2": "i", "Switch": "v", "SwitchSector": "", "ProcessSpecial": "iii", "message_Menu": "i",
      "SwitchScenario": "v", "SwitchRandom": "i", "SwitchScenarioLevel": "v", "SwitchDungeonMode": "i", "main_EnterAdventure": "ii",
      "main_EnterRescueUser": "", "main_EnterTraining": "ii", "main_EnterTraining2": "ii"}
CA = {"Case": "i", "CaseValue": "oi", "CaseVariable": "ov", "CaseScenario": "oi"}
FL = {"flag_CalcBit": "vnn", "flag_CalcValue": "vai", "flag_CalcVariable": "vav", "flag_Clear": "v", "flag_Initial": "v", "flag_Set": "vi",
      "flag_ResetDungeonResult": "", "flag_ResetScenario": "v", "flag_SetAdventureLog": "i", "flag_SetDungeonMode": "ii",
      "flag_SetPerformance": "nn", "flag_SetScenario": "vnn"}


class Slots:
    """parameter generator: n integer, i integer or constant, v variable, o/a operators, plus anything else a parameter can be"""

    def __init__(self, cx, wild=False):
        self.cx, self.n, self.wild = cx, 0, wild

    def one(self, k):
        cx = self.cx
        self.n += 1
        if k == "o":
            return cx.pick(11, "o")
        if k == "a":
            return cx.pick(5, "a")
        if k == "v":
            return [lambda: ("c", f"$VAR_{self.n}"), lambda: cx.int("v", -2**15, 2**15 - 1)][cx.pick(2, "v")]()
        if k == "t":
            return [("s", "it's\n\"x\""), ("l", (("english", "a"), ("german", "b\nc"))), ("s", "t"), ("c", "CONST")][cx.pick(4, "t")]
        c = [lambda: cx.int("p", -2**15, 2**15 - 1), lambda: ("c", f"CONST_{self.n}")]
        if k == "n":
            c = c[:1]
        if k == "x":
            c += [lambda: ("f", "1.5"), lambda: ("s", "it's\n\"x\""), lambda: ("l", (("english", "a"), ("german", "b\nc"))),
                  lambda: ("p", "mark", 2, 0, cx.int("px", -2**15, 2**15 - 1), 7)]
        return c[cx.pick(len(c), "s")]()

    def all(self, ks):
        return [self.one(k) for k in ks]


def lay(cx, o):
    o.stride = [1, 0][cx.pick(2, "stride")]
    o.base = [0, 11][cx.pick(2, "base")] if o.stride == 0 else 0


T_ = lambda i, j: ("@", i, j)


def f_branches(two):
    def h(cx):
        s = Slots(cx)
        o = Ops()
        nm = cx.choose(sorted(BR), "b")
        b1 = [nm, s.all(BR[nm])]
        if two:
            form = cx.pick(3, "form")
            nm2 = cx.choose(sorted(BR), "b2") if two > 1 else "Branch"
            b2 = [nm2, s.all(BR[nm2])]
            if cx.flag("swap"):
                b1, b2 = b2, b1
            if form == 0:      # a || b
                o.r = [[b1, b2, ["B", []], ["Return", []], ["A", []], ["Return", []]]]
                b1[1].append(T_(0, 4)), b2[1].append(T_(0, 4))
            elif form == 1:    # elseif
                o.r = [[b1, b2, ["C", []], ["Jump", [T_(0, 7)]], ["A", []], ["Jump", [T_(0, 7)]], ["B", []], ["End", []]]]
                b1[1].append(T_(0, 4)), b2[1].append(T_(0, 6))
            else:              # nested
                o.r = [[b1, ["B", []], ["End", []], b2, ["A", []], ["Hold", []]]]
                b1[1].append(T_(0, 3)), b2[1].append(T_(0, 1))
        else:
            lay(cx, o)
            form = cx.pick(4, "form")
            if form == 0:      # if
                o.r = [[b1, ["B", []], ["Return", []], ["A", []], ["Return", []]]]
                b1[1].append(T_(0, 3))
            elif form == 1:    # not
                o.r = [[b1, ["B", []], ["A", []], ["End", []]]]
                b1[1].append(T_(0, 2))
            elif form == 2:    # loop
                o.r = [[["A", []], b1, ["Jump", [T_(0, 0)]], ["B", []], ["End", []]]]
                b1[1].append(T_(0, 3))
            else:              # other routine
                o.r = [[b1, ["B", []], ["Return", []]], [["A", []], ["C", []], ["Hold", []]]]
                b1[1].append(T_(1, 1))
        return examine(cx, o)
    return h


def f_switches(cases):
    def h(cx):
        s = Slots(cx)
        o = Ops()
        nm = cx.choose(sorted(SW), "w")
        menu = nm.startswith("message_SwitchMenu")
        hd = [nm, s.all(SW[nm])]
        cs = []
        for i in range(cases):
            if menu:
                c = cx.choose(["CaseMenu", "CaseMenu2"], "c")
                cs.append([c, [s.one("x")] if cases == 1 else [("s", f"m{i}") if c == "CaseMenu" else 5]])
            else:
                c = cx.choose(sorted(CA), "c") if i == 0 else "Case"
                cs.append([c, s.all(CA[c])])
        form = cx.pick(3, "form")
        n = 1 + cases
        # bodies of the cases first / default first / last case falls through to the end
        if form == 0:
            ops = [hd] + cs + [["D", []], ["Jump", [T_(0, n + 2 + 2 * cases)]]]
            for i in range(cases):
                cs[i][1].append(T_(0, n + 2 + 2 * i))
                ops += [[f"K{i}", []], ["Jump", [T_(0, n + 2 + 2 * cases)]]]
            ops += [["E", []], ["Return", []]]
        elif form == 1:
            ops = [hd] + cs + [["Jump", [T_(0, n + 1 + cases)]]]
            for i in range(cases):
                cs[i][1].append(T_(0, n + 1 + i))
                ops += [[f"K{i}", []]]
            ops += [["E", []], ["End", []]]
        else:
            ops = [hd] + cs + [["Return", []]]
            for i in range(cases):
                cs[i][1].append(T_(0, n + 1 + 2 * i))
                ops += [[f"K{i}", []], ["End", []]]
        o.r = [ops]
        return examine(cx, o)
    return h


HT = {"BranchSum": 3, "BranchExecuteSub": 1}
ST = {"message_SwitchMenu": 2, "message_SwitchMenu2": 1, "ProcessSpecial": 3, "message_Menu": 1, "main_EnterAdventure": 2}


def f_headers(cx):
    """headers that are operations, with arguments of every kind (texts of several lines, marks, ..), in every place a header can be printed"""
    s = Slots(cx)
    o = Ops()
    which = cx.pick(3, "w")
    B = lambda *t: ["Branch", [("c", "$V"), 1, *t]]
    j, e = (lambda t: ["Jump", [T_(0, t)]]), ["End", []]

    def args(n):
        a = [i + 1 for i in range(n)]
        a[cx.pick(n, "at")] = s.one("x")
        return a
    if which == 0:
        nm = cx.choose(sorted(HT), "h")
        h = lambda t: [nm, hp + [T_(0, t)]]
        hp = args(HT[nm])
        form = cx.pick(8, "form")
        if form == 0:        # if / else
            r = [h(4), ["B", []], ["B2", []], j(6), ["A", []], ["A2", []], ["L", []], e]
        elif form == 1:      # not
            r = [h(2), ["B", []], ["A", []], e]
        elif form == 2:      # elseif, else
            r = [B(4), h(6), ["C", []], j(7), ["A", []], j(7), ["B", []], ["L", []], e]
        elif form == 3:      # second and third elseif
            r = [B(6), ["BranchEdit", [1, T_(0, 8)]], h(10), ["BranchDebug", [1, T_(0, 12)]], ["E", []], j(13), ["A", []], j(13), ["B", []], j(13), ["C", []], j(13), ["D", []],
                 ["L", []], e]
        elif form == 4:      # a || b
            r = [h(4), B(4), ["B", []], j(6), ["A", []], ["A2", []], ["L", []], e]
        elif form == 5:      # b || a
            r = [B(4), h(4), ["B", []], j(6), ["A", []], ["A2", []], ["L", []], e]
        elif form == 6:      # loop around it
            r = [["A", []], h(4), ["B", []], j(0), ["L", []], e]
        else:                # in a case, behind a nested block
            r = [["Switch", [("c", "$S")]], ["Case", [1, T_(0, 3)]], j(8), ["K", []], h(6), ["B", []], ["A", []], j(8), ["L", []], e]
    else:
        nm = cx.choose(sorted(ST), "h")
        hp = args(ST[nm])
        menu = nm.startswith("message_SwitchMenu")
        c1 = ["CaseMenu", [s.one("x") if which == 2 else ("s", "m")]] if menu else ["Case", [1]]
        c2 = ["CaseMenu2", [s.one("x") if which == 2 else 5]] if menu else ["CaseValue", [2, s.one("i") if which == 2 else 3]]
        if which == 2 and not menu:
            raise engine.Abandon
        if which == 2:
            hp = [1] * ST[nm]
        form = cx.pick(4, "form")
        k = lambda c, t: [c[0], c[1] + [T_(0, t)]]
        if form == 0:
            r = [[nm, hp], k(c1, 5), k(c2, 7), ["D", []], j(8), ["A", []], j(8), ["B", []], ["L", []], e]
        elif form == 1:      # grouped
            r = [[nm, hp], k(c1, 5), k(c2, 5), ["D", []], j(7), ["A", []], ["A2", []], ["L", []], e]
        elif form == 2:      # behind an if and in its else
            r = [B(7), [nm, hp], k(c1, 5), j(6), ["X", []], ["A", []], j(8), ["B", []], ["L", []], e]
        else:                # in a loop
            r = [[nm, hp], k(c1, 4), k(c2, 6), j(0), ["A", []], j(0), ["B", []], e]
    o.r = [r, [["z", [("s", "a\nb")]], e]]
    return examine(cx, o)


def f_stmts(args):
    def h(cx):
        s = Slots(cx)
        o = Ops()
        lay(cx, o)
        k = cx.pick(3, "kind")
        if k == 0:
            nm = cx.choose(sorted(FL), "f")
            x = [nm, s.all(FL[nm])]
        elif k == 1:
            nm = cx.choose(["se_Play", "Null", "WaitEffect", "debug", "message_Mail", "JumpCommon"], "n")
            x = [nm, s.all("x" * (1 + cx.pick(args, "na") if nm == "se_Play" else 1))]
        else:
            x = [cx.choose(["Hold", "Destroy", "End", "Return"], "e"), []]
        ctx = cx.pick(4, "ctx")
        pre = [[["lives", "object", "performer"][ctx - 1], [s.one("i")]]] if ctx else []
        form = cx.pick(3, "form")
        if form == 0:
            o.r = [pre + [x, ["Return", []]]]
        elif form == 1:
            o.r = [[["BranchDebug", [1, T_(0, 3)]], ["B", []], ["End", []]] + pre + [x, ["End", []]]]
        else:
            o.r = [[["Switch", [("c", "$S")]], ["Case", [1, T_(0, 3)]], ["Return", []]] + pre + [x, ["End", []]]]
        if not well_formed(o):
            raise engine.Abandon
        return examine(cx, o)
    return h


def f_msgs(n):
    def h(cx):
        s = Slots(cx)
        o = Ops()
        rows = []
        for i in range(1 + cx.pick(n, "n")):
            rows.append(["CaseText", [s.one("i"), s.one("t")]])
        if cx.flag("d"):
            rows.append(["DefaultText", [s.one("t")]])
        m = cx.choose(["message_SwitchTalk", "message_SwitchMonologue"], "m")
        o.r = [[[m, [s.one("v")]]] + rows + [["E", []], ["Return", []]]]
        if cx.flag("ctx"):
            o.r[0].insert(0, ["object", [3]])
        return examine(cx, o)
    return h


def f_infos(most):
    def h(cx):
        n = 1 + cx.pick(most, "n")
        o = Ops([])
        lay(cx, o)
        coro = cx.flag("coro")
        for i in range(n):
            if coro:
                o.infos.append(("COROUTINE", None))
                o.coros[i] = f"CORO_{i}"
            else:
                k = cx.choose(["GENERIC", "ACTOR", "OBJECT", "PERFORMER"], "k")
                t = None if k == "GENERIC" else [lambda: cx.int("t", 0, 2**15 - 1), lambda: f"TARGET_{i}"][cx.pick(2, "tk")]()
                o.infos.append((k, t))
            e = cx.choose(["empty", "one", "two", "back"], "body")
            if e == "empty":
                if i == 0:
                    raise engine.Abandon
                o.r.append([])
            elif e == "one":
                o.r.append([["Return", []]])
            elif e == "two":
                o.r.append([[f"op{i}", [i]], ["End", []]])
            else:
                if not o.r[0:i] or not o.r[0]:
                    raise engine.Abandon
                o.r.append([[f"op{i}", []], ["BranchEdit", [1, T_(0, 0)]], ["Hold", []]])
        if coro and cx.flag("more"):
            o.coros[n] = "CORO_UNUSED"
        return examine(cx, o)
    return h


def from_text(h):
    """family of C01, seen as a family of compiled routine sets"""
    def g(cx):
        cm.SINK = lambda cx, prog, text: sink(cx, prog, text)
        try:
            return h(cx)
        finally:
            cm.SINK = None
    return g


def sink(cx, prog, text):
    try:
        src = lang.Sem(cm.int_val(cx)).program(prog)
    except lang.LangError:
        raise engine.Abandon
    if cm.has_divergence(src, [e for _, e in src.entries]):
        raise engine.Abandon
    o = FromText(text, cx)
    try:
        real.compile_text(text)
    except Exception:
        raise engine.Abandon
    return examine(cx, o)


class CHECK(Check):
    id = "C02"
    level = "translation_validation"
    technique = "concolic execution of the real decompiler and compiler on symbolic routine sets; z3 decides bisimulation of input, text and recompiled ops"
    level_note = ("Every routine set of the stated families (op kinds, parameters, every jump target a choice of the solver) is decompiled by the real code; "
                  "the text is read by an independent parser/semantics and z3 shows that no reachable pair of states (input ops, text) and (input ops, "
                  "recompiled ops) is distinguishable. Bounded by the number of ops; trusts vf/lang.py and the ANTLR runtime.")
    seconds = {"quick": 75, "thorough": 2400}
    assumptions = [
        "bound: routine sets of the stated families (up to 5 ops in one routine, 2+2 in two; parameter families put every op kind in small contexts)",
        "well-formed input as in the property: every path ends in a flow-ending op, no cycle of Jump ops only, targets exist; also the last op of "
        "every routine, reachable or not, ends the flow",
        "a dungeon mode number 0..3 and its constant are the same value where a dungeon mode is written",
        "an op that stops the flow does not stop it directly after a context op reached by fall-through (both sides)",
        "SsbScript fallback texts are compared through the real SsbScript compiler (its exactness is C06/C07)",
    ]
    bounds = {
        "quick": "compiled long programs (C01's 15 sorts, 11 and 34 elements); all op kinds with symbolic parameters in 3-4 contexts each; every control flow of <= 4 ops over {op, Jump, Branch, Return}, 2+2 ops in two "
                 "routines, Call/Switch/menu/context variants; compiled forms of C01's shape families up to 2 statements",
        "thorough": "5 and 3+2 ops, switches up to 6 ops, compiled shapes up to 3 statements",
    }

    def setup(self):
        cm.setup_ints()

    def families(self, tier):
        T = tier == "thorough"
        base = ("P", "J", "B", "Return")
        out = [("infos", f_infos(3 if T else 2)), ("stmts", f_stmts(2 if T else 1)), ("msgs", f_msgs(2 if T else 1)),
               ("branches", f_branches(0)), ("branches2", f_branches(2 if T else 1)), ("switches", f_switches(1)), ("headers", f_headers)]
        for n in (1, 2, 3, 4):
            out.append((f"flow{n}", f_flow([n], base)))
        out += [("flow22", f_flow([2, 2], base)), ("call4", f_flow([4], ("P", "C", "J", "Return"))),
                ("switch5", f_flow([5], ("P", "J", "K", "Return"), first=[("S",), ("K",)])),
                ("menu5", f_flow([5], ("P", "J", "M", "Return"), first=[("N",), ("M",)])),
                ("ctx4", f_flow([4], ("P", "X", "J", "Hold", "Destroy"), ends=("Hold", "Destroy")))]
        sets = dict(c01.SETS)
        for n, ks in sets.items():
            out.append(("c_" + n + "2", from_text(c01.shape(ks, 2, labels=("A",)))))
        out += [("c_full1", from_text(c01.shape(c01.FULL, 1, cm.symlit))), ("c_nest1", from_text(c01.f_nest(1)))]
        out.append(("c_big", from_text(c01.f_big(c01.BIG, (11, 34) if not T else (11, 34, 103)))))
        if T:
            out += [("switches2", f_switches(2)), ("flow5", f_flow([5], base)), ("flow32", f_flow([3, 2], base)),
                    ("switch6", f_flow([6], ("P", "J", "K", "Return"), first=[("S",), ("K",)])),
                    ("call32", f_flow([3, 2], ("P", "C", "J", "Return"))),
                    ("c_full2", from_text(c01.shape(c01.FULL, 2))), ("c_nest2", from_text(c01.f_nest(2)))]
            for n, ks in sets.items():
                out.append(("c_" + n + "3", from_text(c01.shape(ks, 3, labels=("A",)))))
        return out

    def replay(self, d):
        return replay(d)


def replay(d):
    o = load(d["in"])
    try:
        before, raw, text, smap = decompile(o)
    except Exception as e:
        return f"convert() raises {type(e).__name__}: {e} for {o.dump()}" if ROLE == "C06" else None
    if ROLE == "C06" and not (type(text) is str and isinstance(smap, real.m.smap.SourceMap)):
        return f"convert() returns {type(text)} and {type(smap)}"
    marked = text.startswith(MARK)
    if marked and ROLE == "C06":
        try:
            c = real.compile_text(text)
        except Exception as e:
            return f"marked SsbScript is not accepted: {e}\n{text}"
        for x in (table(want_table(o), c), exact(raw, c)):
            if x and (x[1] is None or z3.is_true(z3.simplify(x[1]))):
                return f"marked SsbScript: {x[0]}\n{text}"
        return None
    if ROLE == "C06":
        try:
            lang.parse(text)
        except lang.LangError as e:
            return f"unmarked text that is not ExplorerScript ({e}):\n{text}"
        return None
    if not marked:
        try:
            src = norm_graph(lang.Sem(lang.int_value).program(lang.parse(text)))
        except lang.LangError as e:
            return f"text is not in the language ({e}):\n{text}\nfor {o.dump()}"
        x = src_table_diff(want_table(o), src.entries)
        if x:
            return f"routine table: {x[0]}\n{text}\nfor {o.dump()}"
        pairs = [(e, f) for (_, e), (_, f) in zip(src.entries, before.entries) if e is not None]
        try:
            p = machine.Product(src, before, pairs)
        except machine.Malformed as e:
            return f"undefined label: {e}\n{text}\nfor {o.dump()}"
        if p.bad:
            return f"text means something else: {p.explain()}\n{text}\nfor {o.dump()}"
    try:
        c = real.compile_text(text)
    except Exception as e:
        return f"the text is not accepted: {type(e).__name__} {e}\n{text}\nfor {o.dump()}"
    try:
        after = machine.machine(norm_routines(real.routines(c.routine_ops)))
    except machine.Malformed as e:
        return f"recompiled: malformed: {e}\n{text}"
    x = table(want_table(o), c)
    if x:
        return f"recompiled: {x[0]}\n{text}"
    pairs = [(e, f) for (_, e), (_, f) in zip(before.entries, after.entries) if e is not None]
    p = machine.Product(before, after, pairs)
    if p.bad:
        return f"recompiling changes the behaviour: {p.explain()}\n{text}\nfor {o.dump()}"
    return None
