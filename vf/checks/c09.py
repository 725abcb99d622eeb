"""C09  decompile-time source map."""
from __future__ import annotations
import json
import z3
from . import c01, c02, c08
from . import common as cm
from .. import engine, lang, layout, machine, possem, real, sym
from ..lang import N
from ..oplists import FromText, Ops, load, symbolic_offsets, well_formed
from ..run import Check

MARK = c02.MARK


class Bad(Exception):
    pass


def con(x):
    return int.__int__(x)


def flat_ops(ops):
    return [o for r in ops for o in r]


def pos(t):
    return (t.line, t.col)


def starts(text, prog, toks):
    """statements of the text -> the places one may say they begin at"""
    prev = {}
    for a, b in zip(toks, toks[1:]):
        prev[b.i] = a
    return prev


def header_places(s, h, toks_by_i, prev):
    """first tokens: the header itself, the keyword of its arm/case/statement, and for `} elseif` the brace in front of it"""
    out = [h.t0]
    t = h.t0
    # walk back to the keyword
    seen = 0
    while t is not None and seen < 4000:
        t = prev.get(t.i)
        seen += 1
        if t is None:
            break
        if t.k in ("if", "elseif", "while", "case", "switch", "for", "default"):
            out.append(t)
            if t.k == "elseif":
                p = prev.get(t.i)
                if p is not None and p.k == "}" and p.line == t.line:
                    out.append(p)
            break
    return out


def expected(ow, name, prev, case_of):
    """places the entry of an op printed as (statement, header) may name"""
    s, h, _ = ow
    if h is not None:
        return header_places(s, h, None, prev)
    if s.k == "switch":
        return [s.t0, s.a[0].t0]
    if s.k == "msgswitch" and name in ("CaseText", "DefaultText"):
        out = []
        for ca in s.a[2]:
            if (ca.a[0] is None) == (name == "DefaultText"):
                out += [ca.t0] + ([ca.a[0].t0] if ca.a[0] is not None else [])
        return out
    return [s.t0]


def judge(o, infos, ops, text, smap, int_val, before):
    """-> list of (condition, what)"""
    tests = []
    flat = flat_ops(ops)
    byoff = {con(x.offset): x for x in flat}
    entries = list(smap)          # (offset, mapping)
    keys = {}
    for off, e in entries:
        if con(off) not in byoff:
            raise Bad(f"entry {con(off)} is not the offset of an op of the input")
        tests.append((c08.eq(off, byoff[con(off)].offset), f"key {off!r} of the entry of {byoff[con(off)].op_code.name}"))
        keys[con(off)] = e
    if text.startswith(MARK):
        return tests + judge_fallback(flat, keys, text)
    toks = lang.lex(text)
    prog = lang.Parser(text, tokens=toks).program()
    sem = possem.PosSem(int_val)
    src = sem.program(prog)
    c02.norm_graph(src)
    pairs = [(e, f) for (_, e), (_, f) in zip(src.entries, before.entries) if e is not None]
    p = machine.Product(src, before, pairs)
    if p.bad:
        raise engine.Abandon if engine.CUR is not None else c08.SkipReplay()       # C02
    own = {}
    for a, b in p.pairs:
        if a < 0 or b <= 0:
            continue
        ow = src.owner[a]
        if ow[0] is not None and ow not in own.setdefault((b - 1) // 2, []):
            own[(b - 1) // 2].append(ow)
    prev = starts(text, prog, toks)
    nxt, allst = {}, []
    for nm, b in possem.bodies(prog):
        possem.walk(b, allst.append, nxt)
    control = [n.t0 for n in allst if n.k in ("jump", "break", "continue", "break_loop", "return")]
    loops = [n.t0 for n in allst if n.k in ("forever", "while", "for")]
    for i, x in enumerate(flat):
        e = keys.get(con(x.offset))
        nm = x.op_code.name
        at = None if e is None else (con(e.line), con(e.column))
        if nm == "Jump":
            if e is not None and not any(pos(t) == at for t in control):
                raise Bad(f"Jump ({con(x.offset)}): entry {at} is at no jump, break, break_loop, continue or return")
            continue
        if i not in own:
            if e is not None and not any(pos(n.t0) == at for n in allst):
                raise Bad(f"{nm} ({con(x.offset)}): entry {at} is at the beginning of nothing")
            continue
        ows = own[i]
        want = [t for ow in ows for t in expected(ow, nm, prev, None)]
        if e is None:
            if nm in machine.CTX:
                continue
            if all(ow[1] is not None and not first_cond(ow, prev) for ow in ows):
                continue        # one of several conditions of a header
            if all(any(pos(t) == pos_of(keys, flat[j]) for j in own if j != i and ow in own[j] for t in expected(ow, nm, prev, None)) for ow in ows):
                continue        # the statement is the one of an op that cannot be told from this one (a cycle of calls that are taken back to themselves)
            raise Bad(f"{nm} ({con(x.offset)}) has no entry, printed at {sorted(set(map(pos, want)))}")
        if not any(pos(t) == at for t in want):
            raise Bad(f"{nm} ({con(x.offset)}): entry {at}, but printed at {sorted(set(map(pos, want)))}")
    # jumps printed directly behind the op that stands in front of them in the input
    rows = []
    for r in ops:
        rows += [(k, len(r)) for k in range(len(r))]
    targets = {con(x.params[-1]) for x in flat if x.op_code.name in machine.JUMPS}
    for i, x in enumerate(flat[:-1]):
        k, n = rows[i]
        if k + 1 >= n or flat[i + 1].op_code.name != "Jump" or len(own.get(i, ())) != 1:
            continue
        t = byoff.get(con(flat[i + 1].params[-1]))
        if con(flat[i + 1].offset) in targets or t is None or t.op_code.name == "Jump":
            continue        # jumps to jumps: the decompiler may send everything to the last target directly
        s, h, _ = own[i][0]
        if h is not None or s.k not in ("op", "assign", "a_scn", "a_clear", "a_init", "a_reset", "a_advlog", "a_dmode") or x.op_code.name in machine.ENDERS:
            continue
        m = nxt.get(id(s))
        e = keys.get(con(flat[i + 1].offset))
        if m is None or m.k not in ("jump", "continue", "break_loop"):
            continue
        if e is None:
            raise Bad(f"Jump ({con(flat[i + 1].offset)}) has no entry, printed as `{m.k}` at {pos(m.t0)}")
        if (con(e.line), con(e.column)) != pos(m.t0):
            raise Bad(f"Jump ({con(flat[i + 1].offset)}): entry {(con(e.line), con(e.column))}, but printed as `{m.k}` at {pos(m.t0)}")
    # recompiled
    try:
        c = real.compile_text(text)
        after = machine.machine(c02.norm_routines(real.routines(c.routine_ops)))
    except Exception:
        raise engine.Abandon if engine.CUR is not None else c08.SkipReplay()       # C02, C03
    flat2 = flat_ops(c.routine_ops)
    pr = machine.Product(before, after, [(e, f) for (_, e), (_, f) in zip(before.entries, after.entries) if e is not None])
    if pr.bad:
        raise engine.Abandon if engine.CUR is not None else c08.SkipReplay()
    lines = {}
    for a, b in pr.pairs:
        if a > 0 and b > 0:
            m = c.source_map.get_op_line_and_col(flat2[(b - 1) // 2].offset)
            lines.setdefault((a - 1) // 2, set()).add(con(m.line) if m is not None else None)
    for i, x in enumerate(flat):
        e = keys.get(con(x.offset))
        if e is None or i not in lines or x.op_code.name == "Jump":
            continue
        if con(e.line) not in lines[i]:
            raise Bad(f"{x.op_code.name} ({con(x.offset)}): line {con(e.line)}, but in the map of the recompiled text line {sorted(map(str, lines[i]))}")
    return tests


def pos_of(keys, x):
    e = keys.get(con(x.offset))
    return None if e is None else (con(e.line), con(e.column))


def first_cond(ow, prev):
    p = prev.get(ow[1].t0.i)
    return p is None or p.k != "||"


def judge_fallback(flat, keys, text):
    toks = lang.lex(text)
    firsts = [t for r in c08.ss_ops(toks) for t in r]
    if len(firsts) != len(flat):
        raise engine.Abandon if engine.CUR is not None else c08.SkipReplay()       # C06
    for x, t in zip(flat, firsts):
        e = keys.get(con(x.offset))
        if e is None:
            raise Bad(f"SsbScript: {x.op_code.name} ({con(x.offset)}) has no entry")
        if (con(e.line), con(e.column)) != pos(t):
            raise Bad(f"SsbScript: {x.op_code.name} ({con(x.offset)}): entry {(con(e.line), con(e.column))}, but printed at {pos(t)}")
    c = real.compile_text(text)
    for x, y in zip(flat, flat_ops(c.routine_ops)):
        m = c.source_map.get_op_line_and_col(y.offset)
        if m is None or con(m.line) != con(keys[con(x.offset)].line):
            raise Bad(f"SsbScript: {x.op_code.name} ({con(x.offset)}): line {con(keys[con(x.offset)].line)}, recompiled {m and con(m.line)}")
    return []


SSB = False          # decompile with the SsbScript decompiler


def convert(o, ssb=False):
    infos, ops, coros = o.build()
    before = machine.machine(c02.norm_routines(real.routines(ops)))
    # the converter works on copies: offsets of the input are read afterwards
    saved = [[real.m.dt.SsbOperation(x.offset, x.op_code, list(x.params)) for x in r] for r in ops]
    if ssb:
        text, smap = real.m.ssdeco.SsbScriptSsbDecompiler(infos, ops, coros).convert()
        text2 = text if text.startswith(MARK) else text
        return infos, saved, before, text2, smap
    text, smap = real.make_decompiler(infos, ops, coros).convert()
    return infos, saved, before, text, smap


def examine(cx, o, ssb=False):
    st = cx.w.stats
    st.add("programs")

    def payload(err):
        def f(m):
            if isinstance(o, FromText):
                d = {"text": cm.at_values(cx, m, o.text) if m is not None and cx.ints else o.text}
            else:
                ev = (lambda s: m.eval(s.e, model_completion=True).as_long()) if m is not None and cx.ints else con
                d = o.concretise(ev).dump()
            return {"in": d, "err": err, "ssb": ssb}
        return f
    cx.notes = payload("hang")(None)
    try:
        infos, ops, before, text, smap = convert(o, ssb)
    except machine.Malformed:
        raise engine.Abandon
    except Exception:
        st.add("raised")
        raise engine.Abandon          # C06
    try:
        if ssb:
            tests = judge_ssb(ops, text, smap)
        else:
            tests = judge(o, infos, ops, text, smap, cm.int_val(cx), before)
    except lang.LangError:
        raise engine.Abandon          # C02
    except machine.Malformed:
        raise engine.Abandon
    except Bad as e:
        cx.fail(payload(str(e)))
    if text.startswith(MARK):
        st.add("fallback")
    if tests:
        cx.defer(z3.And([z3.Or([z3.Not(t) for t, _ in tests])] + cx.pending), payload("key"))
    else:
        st.add("assertions")
    return text


def judge_ssb(ops, text, smap):
    flat = flat_ops(ops)
    byoff = {con(x.offset): x for x in flat}
    keys, tests = {}, []
    for off, e in smap:
        if con(off) not in byoff:
            raise Bad(f"entry {con(off)} is not the offset of an op of the input")
        tests.append((c08.eq(off, byoff[con(off)].offset), f"key {off!r}"))
        keys[con(off)] = e
    toks = lang.lex(text)
    firsts = [t for r in c08.ss_ops(toks) for t in r]
    if len(firsts) != len(flat):
        raise Bad(f"{len(firsts)} statements for {len(flat)} ops")
    c = real.m.sscomp.SsbScriptSsbCompiler()
    c.compile(text)
    for x, t, y in zip(flat, firsts, flat_ops(c.routine_ops)):
        e = keys.get(con(x.offset))
        if e is None:
            raise Bad(f"{x.op_code.name} ({con(x.offset)}) has no entry")
        if (con(e.line), con(e.column)) != pos(t):
            raise Bad(f"{x.op_code.name} ({con(x.offset)}): entry {(con(e.line), con(e.column))}, but printed at {pos(t)}")
        m = c.source_map.get_op_line_and_col(y.offset)
        if m is None or con(m.line) != con(e.line):
            raise Bad(f"{x.op_code.name} ({con(x.offset)}): line {con(e.line)}, recompiled {m and con(m.line)}")
    return tests


# ----------------------------------------------------------------- families
def from_text(f):
    def h(cx):
        cm.SINK = lambda cx, prog, text: examine(cx, FromText(text, cx))
        try:
            return f(cx)
        finally:
            cm.SINK = None
    return h


def flow(*a, **k):
    return c02.f_flow(*a, run=examine, **k)


TEXTS = ["t", "two\nlines", "\n", "a\n\nb\n", "it's \"q\"\n'''", "\"\"\"'''\nx", "", " pad \n", "line\nsep\u2028b", "v\x0bt\n", "f\x0cf \x85"]


def tx(cx, l):
    return TEXTS[cx.pick(len(TEXTS), l)]


def f_strings(cx):
    """multi-line strings in front of, in and behind blocks"""
    o = Ops()
    k = cx.pick(3, "kind")
    v = ("s", tx(cx, "t")) if k == 0 else ("l", (("english", tx(cx, "t")), ("german", TEXTS[cx.pick(3, "u")]))) if k == 1 else ("p", "m", 2, 0, 5, 6)
    form = cx.pick(8, "form")
    T = lambda i: ("@", 0, i)
    t = ["say", [v]]
    if form == 0:
        r = [t, ["a", []], ["End", []]]
    elif form == 1:
        r = [["a", [1, v, v]], ["b", [v, 2]], ["Return", []]]
    elif form == 2:
        r = [["Branch", [("c", "$V"), 1, T(4)]], ["say", [v]], ["b", []], ["Jump", [T(6)]], ["say", [v, 7]], ["c", []], ["Hold", []]]
    elif form == 3:
        r = [["Switch", [("c", "$S")]], ["Case", [1, T(5)]], ["Case", [2, T(7)]], ["say", [v]], ["Jump", [T(9)]], ["say", [v, 1]], ["Jump", [T(9)]], ["say", [v, 2]], ["x", []], ["End", []]]
    elif form == 4:
        r = [["message_SwitchTalk", [("c", "$M")]], ["CaseText", [1, v]], ["CaseText", [2, ("s", "x")]], ["DefaultText", [v]], ["a", []], ["Return", []]]
    elif form == 5:
        r = [["message_SwitchMenu", [1, 2]], ["CaseMenu", [v, T(4)]], ["CaseMenu", [("s", "o"), T(6)]], ["Jump", [T(8)]], ["a", [v]], ["Jump", [T(8)]], ["b", []], ["c", []], ["End", []]]
    elif form == 6:
        r = [["a", []], ["say", [v]], ["Branch", [("c", "$V"), 1, T(5)]], ["say", [v, 1]], ["Jump", [T(0)]], ["End", []]]
    else:
        r = [["object", [("c", "OBJ")]], ["say", [v]], ["object", [("c", "OBJ")]], ["End", []], ["say", [v, 1]], ["Return", []]]
        r = [["object", [("c", "OBJ")]], ["say", [v]], ["object", [("c", "OBJ")]], ["flag_Set", [("c", "$X"), 1]], ["say", [v, 1]], ["Return", []]]
    o.r = [r, [["z", [v]], ["y", []], ["End", []]]]
    if cx.flag("infos"):
        o.infos = [("ACTOR", "A"), ("OBJECT", 4)]
    ssb = cx.pick(2, "ssb") == 1
    if cx.flag("symoff"):
        symbolic_offsets(cx, o)
    return examine(cx, o, ssb)


def f_stmts(n):
    """sequences of every kind of statement, nested in a block or not; with every layout of offsets"""
    def h(cx):
        s = c02.Slots(cx)
        o = Ops()
        r = []
        for j in range(n):
            k = cx.pick(len(c02.FL) + 3, "k")
            if k < len(c02.FL):
                nm = sorted(c02.FL)[k]
                r.append([nm, [7 if x in "ni" else ("c", "$V") if x == "v" else 0 for x in c02.FL[nm]]])
            elif k == len(c02.FL):
                r.append([f"op{j}", [("s", "a\nb")]])
            elif k == len(c02.FL) + 1:
                r += [["lives", [("c", "ACTOR_1")]], [f"op{j}", [1]]]
            else:
                r += [["performer", [3]], ["flag_Clear", [("c", "$C")]]]
        end = [["Return", []], ["End", []], ["Hold", []]][cx.pick(3, "end")]
        if cx.flag("block"):
            m = len(r)
            r = [["BranchDebug", [1, ("@", 0, m + 2)]]] + r + [["Jump", [("@", 0, m + 3)]], ["els", []], ["last", []], end]
        else:
            r = r + [end]
        o.r = [r]
        symbolic_offsets(cx, o)
        return examine(cx, o)
    return h


def f_ssb(lens, kinds):
    def h(cx):
        return c02.f_flow(lens, kinds, run=lambda cx, o: examine(cx, o, True))(cx)
    return h


class CHECK(Check):
    id = "C09"
    level = "exploration"
    technique = ("concolic execution of the real decompiler and compiler; every source-map entry is compared with the position, in the emitted text, of the statement or header "
                 "which a bisimulation product of the text's reference semantics with the input ops assigns to the op; z3 decides symbolic offsets and values")
    level_note = ("Which statement was printed for which op is established by the product construction (vf/possem.py, vf/machine.py), its position by an independent lexer and parser, "
                  "and the line of the recompiled op by the product of input and recompiled ops.")
    seconds = {"quick": 90, "thorough": 2400}
    limit = 40
    assumptions = [
        "an if/elseif/switch/case header may be said to begin at its keyword, at the header inside the parentheses, or (elseif) at the brace in front of the keyword",
        "jumps without a statement of their own need no entry, nor do jumps to jumps and the jumps they lead to; an entry of a jump must be at a jump, break, break_loop, continue or return statement",
        "context operations and the conditions of a header behind its first one need no entry of their own",
        "decompilations that raise, are not in the language or mean something else are C06's and C02's business",
    ]
    bounds = {
        "quick": "C01's long programs (11, 34); op lists: 1 routine up to 4 ops or 2 of 2 (plain, Jump, Branch, Return); 5 ops of switch, menu, context and 4 of call kinds; every statement kind and every branch, switch and case header; "
                 "8 places x 11 texts/marks; SsbScript of 3 ops over 12 kinds; compiled programs: every statement, all kinds up to 2 statements, restricted kinds up to 3, nests of depth 1, message switches of 2 cases; "
                 "all increasing offsets (symbolic), all jump targets; outside: larger routines, long texts, names that need several lines",
        "thorough": "op lists of 5 ops, [3, 2] ops, 6 ops of switch kinds; two statements of every kind in sequence; two switch headers; nests of depth 2; SsbScript of 4 ops",
    }

    def setup(self):
        cm.setup_ints()

    def families(self, tier):
        T = tier == "thorough"
        base = ("P", "J", "B", "Return")
        f = [("strings", f_strings), ("stmts1", f_stmts(1)), ("flow3", flow([3], base)), ("flow4", flow([4], base)), ("flow22", flow([2, 2], base)),
             ("call4", flow([4], ("P", "C", "J", "Return"))), ("switch5", flow([5], ("P", "J", "K", "Return"), first=[("S",), ("K",)])),
             ("menu5", flow([5], ("P", "J", "M", "Return"), first=[("N",), ("M",)])),
             ("ctx4", flow([4], ("P", "X", "J", "Hold", "Destroy"), ends=("Hold", "Destroy"))),
             ("ssb3", f_ssb([3], ("P", "J", "B", "C", "S", "K", "X", "T", "t", "d", "Return", "Hold"))), ("msgs", with_run(c02.f_msgs(1))),
             ("branches", with_run(c02.f_branches(0))), ("headers", with_run(c02.f_headers)), ("switches", with_run(c02.f_switches(1))),
             ("c_stmts", from_text(c01.f_stmts)), ("c_full1", from_text(c01.shape(c01.FULL, 1))), ("c_full2", from_text(c01.shape(c01.FULL, 2))),
             ("c_nest1", from_text(c01.f_nest(1))), ("c_msg", from_text(c01.f_msgswitch(2))),
             ("c_big", from_text(c01.f_big(c01.BIG, (11, 34))))]
        for n, ks in c01.SETS.items():
            f.append(("c_" + n + "2", from_text(c01.shape(ks, 2, labels=("A",)))))
        if T:
            f += [("stmts2", f_stmts(2)), ("flow5", flow([5], base)), ("flow32", flow([3, 2], base)), ("call32", flow([3, 2], ("P", "C", "J", "Return"))),
                  ("switch6", flow([6], ("P", "J", "K", "Return"), first=[("S",), ("K",)])), ("switches2", with_run(c02.f_switches(2))), ("branches2", with_run(c02.f_branches(2))),
                  ("ssb4", f_ssb([4], ("P", "J", "B", "S", "K", "X", "Return"))), ("c_nest2", from_text(c01.f_nest(2))), ("msgs2", with_run(c02.f_msgs(2)))]
            for n, ks in c01.SETS.items():
                f.append(("c_" + n + "3", from_text(c01.shape(ks, 3, labels=("A",)))))
        return f

    def control(self):
        """an entry moved by one column, and one moved to another op, must be refuted; the real map not"""
        r = []
        for d in range(3):
            o = Ops()
            o.r = [[["Branch", [("c", "$V"), 1, ("@", 0, 2)]], ["a", [1]], ["b", [2]], ["End", []]]]
            infos, ops, before, text, smap = convert(o)
            e = smap.get_op_line_and_col(ops[0][1].offset)
            if d == 1:
                e.column += 1
            if d == 2:
                e.line = smap.get_op_line_and_col(ops[0][2].offset).line
            try:
                t = judge(o, infos, ops, text, smap, lang.int_value, before)
                r.append("violated" if any(not z3.is_true(z3.simplify(c)) for c, _ in t) else "holds")
            except Bad:
                r.append("violated")
        return r == ["holds", "violated", "violated"], f"real map: {r[0]}, one column further: {r[1]}, line of another op: {r[2]}"

    def replay(self, d):
        o = load(d["in"])
        try:
            infos, ops, before, text, smap = convert(o, d["ssb"])
            if d["ssb"]:
                t = judge_ssb(ops, text, smap)
            else:
                t = judge(o, infos, ops, text, smap, lang.int_value, before)
            bad = [w for c, w in t if not z3.is_true(z3.simplify(c))]
            if bad:
                return bad[0] + "\n" + text
        except Bad as e:
            return str(e) + "\n" + "\n".join(f"{i}: {l}" for i, l in enumerate(text.split("\n"))) + f"\nfor {o.dump()}"
        except c08.SkipReplay:
            return None
        except lang.LangError:
            return None
        return None


def with_run(f):
    def h(cx):
        old = c02.examine
        c02.examine = examine
        try:
            return f(cx)
        finally:
            c02.examine = old
    return h
