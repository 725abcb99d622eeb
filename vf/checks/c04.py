"""C04: parameter values through printer and reader, over symbolic characters and integers."""
from __future__ import annotations
import copy
import re
import z3
from .. import cset, engine, lang, real, run, sx
from . import common as cm

NAME = "/nonexistent/main.exps"
DEC = "The following was decompiled"


# ------------------------------------------------------------------------------------------------ the specification
class Plain:
    """characters of a concrete text"""

    def member(self, ch, cls):
        return cset.has(cls, ord(ch))


PLAIN = Plain()
QUOTE, BS, NLC, SP, CR, FF = (cset.of(c) for c in ("'", "\\", "\n", " ", "\r", "\f"))
DQ = cset.of('"')
ESC = cset.of("\"'n")


def harmful(t, s):
    """a backslash that a single line literal can not hold as it is"""
    for i, ch in enumerate(s):
        if t.member(ch, BS) and (i + 1 == len(s) or t.member(s[i + 1], ESC)):
            return True
    return False


def lines_of(t, s):
    out, cur = [], []
    for ch in s:
        if t.member(ch, NLC):
            out.append("".join(cur))
            cur = []
        else:
            cur.append(ch)
    return out + ["".join(cur)]


def contains3(t, s, q):
    run_ = 0
    for ch in s:
        run_ = run_ + 1 if t.member(ch, q) else 0
        if run_ == 3:
            return True
    return False


def single_ok(t, s):
    return not any(t.member(ch, CR) or t.member(ch, FF) for ch in s) and not harmful(t, s)


def expressible(t, s):
    """some literal of the language stands for the string"""
    if single_ok(t, s):
        return True
    ls = lines_of(t, s)

    def sp(l):
        return bool(l) and t.member(l[0], SP)
    block = any(not sp(l) for l in ls) and not any(l and t.member(l[-1], CR) for l in ls)
    inline = not any(l and t.member(l[-1], CR) for l in ls[:-1]) and \
        (len(ls) == 1 or (ls[0] != "" and not all(t.member(c, SP) for c in ls[-1]) and any(not sp(l) for l in ls[1:])))
    for q in (QUOTE, DQ):
        if contains3(t, s, q):
            continue
        if block or (inline and not t.member(s[-1], q)):
            return True
    return False


def read_single(t, body):
    """value of a single line literal; None where the documentation leaves it open (a backslash in front of an escape sequence)"""
    out, i = [], 0
    while i < len(body):
        ch = body[i]
        if t.member(ch, BS) and i + 1 < len(body):
            d = body[i + 1]
            if t.member(d, BS) and i + 2 < len(body) and t.member(body[i + 2], cset.union(ESC, BS)):
                return None
            if t.member(d, cset.of("n")):
                out.append("\n")
                i += 2
                continue
            if t.member(d, cset.union(QUOTE, DQ)):
                out.append(d)
                i += 2
                continue
        out.append(ch)
        i += 1
    return "".join(out)


def one_token(t, body, q):
    """quotes around the body make one literal"""
    qs = cset.of(q[0])
    if len(q) == 3:
        return not contains3(t, body, qs) and not (body and t.member(body[-1], qs))
    i = 0
    while i < len(body):
        if t.member(body[i], BS):
            i += 2
            if i > len(body):
                return False
            continue
        if t.member(body[i], cset.union(qs, NLC, CR, FF)):
            return False
        i += 1
    return True


BLANK = cset.minus(cset.pred("isspace"), cset.of(" \n"))


def read_multi(t, body):
    """value of a multi line literal (docs/language_spec.rst); None where the documentation leaves it open (blanks that are not spaces in
    an indentation)"""
    s, i = [], 0
    while i < len(body):
        if t.member(body[i], CR) and i + 1 < len(body) and t.member(body[i + 1], NLC):
            i += 1
        s.append(body[i])
        i += 1
    ls = lines_of(t, "".join(s))
    if len(ls) == 1:
        return ls[0]

    def ind(l):
        n = 0
        while n < len(l) and t.member(l[n], SP):
            n += 1
        if n < len(l) and t.member(l[n], BLANK):
            return None
        return n
    first, rest = ls[0], ls[1:]
    inds = [ind(l) for l in rest]
    if None in inds:
        return None
    if inds[-1] == len(rest[-1]):
        rest, inds = rest[:-1], inds[:-1]
    m = min(inds, default=0)
    rest = [l[m:] for l in rest]
    return "\n".join(([first] if first else []) + rest)


NUM_BASES = (("xX", 16), ("oO", 8), ("bB", 2))
ALPHA = cset.of("0123456789abcdefABCDEFxXoO-.")


def read_number(t, s):
    """-> ("i", sign, digits, base), ("f", sign, whole digits, fraction digits) or None: not a number"""
    sign = 1
    if s and t.member(s[0], cset.of("-")):
        sign, s = -1, s[1:]
    if not s:
        return None
    if len(s) > 2 and t.member(s[0], cset.of("0")):
        for chars, b in NUM_BASES:
            if t.member(s[1], cset.of(chars)):
                d = cset.of("0123456789abcdefABCDEF"[:b] + ("ABCDEF" if b == 16 else ""))
                return ("i", sign, s[2:], b) if all(t.member(c, d) for c in s[2:]) else None
    k = None
    for i, c in enumerate(s):
        if t.member(c, cset.of(".")):
            if k is not None:
                return None
            k = i
        elif not t.member(c, cset.DIGIT):
            return None
    if k is None:
        if len(s) > 1 and t.member(s[0], cset.of("0")) and not all(t.member(c, cset.of("0")) for c in s):
            return None
        return ("i", sign, s, 10)
    if k == len(s) - 1:
        return None
    return ("f", sign, s[:k], s[k + 1:])


def number_value(t, s):
    """exact value of a text of digits as a z3 term / int"""
    e = 0
    for ch in s:
        e = e * 10 + (sx.digit_term(t, ch) if isinstance(t, sx.Text) else int(ch, 16))
    return e


def base_value(t, s, b):
    e = 0
    for ch in s:
        e = e * b + (sx.digit_term(t, ch) if isinstance(t, sx.Text) else int(ch, 16))
    return e


def scaled(t, d, scale):
    """(sign, whole, fraction) * 10**scale"""
    _, sign, w, f = d
    return sign * (number_value(t, w) * 10 ** scale + number_value(t, f) * 10 ** (scale - len(f)))


# ------------------------------------------------------------------------------------------------ printing contexts
STR_TMPL = {
    "args": """def 0 {
    a('@0');
    b(1, '@0', {english='@0', german='x', french='@0'}, K, '@0');
    if ($V == 3) {
        a('@0', {english='@0'});
        forever {
            c('@0', {e='@0'}, 5);
            if (debug) { d({e='@0'}); } else { break_loop; }
        }
    }
    end;
}
""",
    "menus": """def 0 {
    switch (message_Menu('@0')) { case 3: a(); break; default: b(); }
    message_SwitchMenu(1, 2);
    switch (message_SwitchMenu('@0', 2)) {
        case menu('@0'): a(); break;
        case menu({e='@0', f='@0'}): b('@0'); break;
        case menu2(3): c('@0'); break;
        default: d();
    }
    if (edit) {
        switch (message_SwitchMenu2({e='@0'}, '@0')) { case menu({e='@0'}): a({e='@0'}); break; case menu('@0'): d(); break; }
    }
    end;
}
""",
    "message": """def 0 {
    message_SwitchTalk ($V) { case 1: '@0' case 2: {e='@0', f='@0'} default: '@0' }
    if (debug) {
        message_SwitchMonologue ($V) { case K: {e='@0'} default: {e='@0'} }
        a('@0');
    }
    end;
}
""",
    "ctx": """def 0 {
    with (actor A) { a('@0'); }
    b<object 3>({e='@0'}, '@0');
    while (not edit) { with (performer 2) { a({e='@0'}, '@0'); } }
    hold;
}
def 1 for actor X { switch (ProcessSpecial('@0', 1, {e='@0'})) { case 1: a('@0'); break; } return; }
""",
    "fallback": """def 0 {
    @a;
    a('@0', {e='@0'}, 3);
    if (debug) { jump @b; }
    end;
}
def 1 { jump @a; @b; b('@0'); jump @a; }
""",
}
POS_TMPL = """def 0 {
    a(Position<'@0', 1, 2>, 3);
    if ($V == 3) { forever { b(1, Position<'@0', 3, 5>, Position<'@0', 7, 8>); if (edit) { break_loop; } } }
    with (actor A) { a(Position<'@0', 4, 9>); }
    end;
}
"""
CONST_TMPL = """def 0 for actor @0 {
    a(@0, 1, @0);
    if (@0 == @0) { b<actor @0>(@0); }
    if (@0 < value(@0)) { b(); }
    switch (@0) { case @0: a(@0); break; case > @0: b(); break; case < value(@0): c(); break; }
    message_SwitchTalk (@0) { case @0: 'x' default: 'y' }
    with (object @0) { a(@0); }
    @0 = @0;
    @0 += value(@0);
    @0[3] = 1;
    clear @0;
    init @0;
    @0 = scn[1, 2];
    if (scn(@0) == [1, 2]) { a(); }
    if (@0[2]) { b(); }
    adventure_log = @0;
    dungeon_mode(@0) = @0;
    end;
}
"""
INT_TMPL = """def 0 for actor 1001 {
    a(1002, 1003, {e='x'}, K);
    b<actor 1004>(1005);
    if ($V == 1006) { c(1007); }
    switch ($W) { case 1008: a(); break; case > 1009: b(); break; }
    message_SwitchTalk ($V) { case 1010: 'x' default: 'y' }
    with (performer 1011) { d(1012); }
    $V = 1013;
    $V -= 1014;
    $V[1015] = 1;
    $V = scn[1016, 1017];
    dungeon_mode(1018) = 1019;
    adventure_log = 1020;
    if (scn($S) >= [1021, 1022]) { a(); }
    if ($V[1023]) { b(); }
    switch (random(1024)) { case 1025: a(); break; }
    switch (dungeon_mode(1026)) { case 1: a(); break; case 1027: b(); break; }
    switch (sector()) { case 1028: a(); break; }
    switch (ProcessSpecial(1029, 1030, 1031)) { case 1032: a(); break; }
    if (not $PERFORMANCE_PROGRESS_LIST[1033]) { a(); }
    $PERFORMANCE_PROGRESS_LIST[1034] = 1;
    init $V;
    end;
}
"""
FIX_TMPL = """def 0 {
    a(1.5, 2, 1.5);
    if ($V == 3) { b<actor 1.5>(K, 1.5); }
    with (actor 1.5) { a(1.5); }
    switch ($V) { case 1.5: a(1.5); break; default: b(); }
    end;
}
"""
PROGS = {}      # template -> (infos, ops, coros, expected parameter lists after a round trip)


def prog_of(key, text):
    if key not in PROGS:
        # operations as they come back from the decompiler, so that a further round trip keeps their order
        try:
            c = again(real.decompile(real.compile_text(text))[0], False)
            PROGS[key] = (c.routine_infos, c.routine_ops, [])
        except (engine.Abandon, engine.Inconclusive):
            raise
        except Exception:
            PROGS[key] = None       # reported by the templates family
    if PROGS[key] is None:
        raise engine.Abandon
    return PROGS[key]


def all_templates():
    return {**STR_TMPL, "pos": POS_TMPL, "const": CONST_TMPL.replace("@0", "HOLE"), "int": INT_TMPL, "fix": FIX_TMPL}


def dmode(v):
    return ("i", real.DMODE.index(v[1])) if v[0] == "c" and v[1] in real.DMODE else v


def template_back(key):
    """the program of a template comes back with the same operations (in any order)"""
    text = all_templates()[key]
    c0 = real.compile_text(text)
    for ss in (False, True):
        try:
            t, c1 = show((c0.routine_infos, c0.routine_ops, []), ss)
        except Exception as e:
            return f"printed and compiled again ({'SsbScript' if ss else 'ExplorerScript'}): {type(e).__name__}: {str(e)[:200]} for\n{text}"
        a, b = (sorted(repr((n, [dmode(real.param(p)) for p in ps])) for n, ps in strip(flat(c.routine_ops)) if n not in GLUE) for c in (c0, c1))
        if a != b:
            return f"printed and compiled again ({'SsbScript' if ss else 'ExplorerScript'}), these operations are lost: {[x for x in a if x not in b]} and these new: {[x for x in b if x not in a]}\n{t}"
    return None


def templates(cx):
    key = cx.choose(list(all_templates()), "t")
    cx.w.stats.add("programs")
    cx.w.stats.add("assertions")
    try:
        r = template_back(key)
    except (engine.Abandon, engine.Inconclusive):
        raise
    except Exception as e:
        raise engine.Inconclusive(f"template {key} not compiled: {type(e).__name__}")
    if r is not None:
        cx.fail(dict(kind="template", key=key, err="template"))
    return dict(template=key)


def replaced(x, f):
    """copy of a routine set with the parameters mapped by f"""
    infos, ops, coros = x
    ops = copy.deepcopy(ops)
    for r in ops:
        for o in r:
            o.params = [f(p) for p in o.params]
    return copy.deepcopy(infos), ops, coros


def put_string(s, pos=None):
    dt = real.m.dt

    def f(p):
        p = copy.deepcopy(p)
        if isinstance(p, dt.SsbOpParamConstString) and p.name == "@0":
            p.name = s
        elif isinstance(p, dt.SsbOpParamLanguageString):
            p.strings = {k: (s if v == "@0" else v) for k, v in p.strings.items()}
        elif isinstance(p, dt.SsbOpParamPositionMarker) and p.name == "@0":
            p.name = s
            if pos is not None:
                p.x_relative, p.x_offset, p.y_relative, p.y_offset = pos
        return p
    return f


def put_const(name):
    dt = real.m.dt

    def f(p):
        if isinstance(p, dt.SsbOpParamConstant) and p.name == "HOLE":
            return dt.SsbOpParamConstant(name)
        return p
    return f


def fixed(value):
    p = real.m.dt.SsbOpParamFixedPoint(0, "0")
    p.value = value
    return p


def show(x, ss):
    """decompile and compile again -> (text, compiler)"""
    infos, ops, coros = x
    if ss:
        text, _ = real.m.ssdeco.SsbScriptSsbDecompiler(infos, ops, coros).convert()
    else:
        text, _ = real.make_decompiler(infos, ops, coros).convert()
    return text, again(text, ss)


def again(text, ss):
    if ss:
        c = real.m.sscomp.SsbScriptSsbCompiler()
        c.compile(text)
        return c
    return real.compile_text(text, NAME)


def flat(ops):
    return [(o.op_code.name, [p for p in o.params]) for r in ops for o in r]


def params_of(c):
    return [p for _, ps in c for p in ps]


# ---- values of parameters: canonical forms with symbolic parts
def val(p):
    dt = real.m.dt
    if isinstance(p, dt.SsbOpParamFixedPoint):
        return ("f", p.value)
    if isinstance(p, dt.SsbOpParamConstant):
        return ("c", p.name)
    if isinstance(p, dt.SsbOpParamConstString):
        return ("s", p.name)
    if isinstance(p, dt.SsbOpParamLanguageString):
        return ("l", *sorted(p.strings.items()))
    if isinstance(p, dt.SsbOpParamPositionMarker):
        return ("p", p.name, p.x_relative, p.x_offset, p.y_relative, p.y_offset)
    if isinstance(p, int):
        return ("i", p)
    return ("?", repr(p))


def ieq(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    return sx.iterm(a) == sx.iterm(b)


def eqs(t, a, b):
    """conditions (z3 or bool) under which two parameter values are equal"""
    if a[0] != b[0] or len(a) != len(b):
        if {a[0], b[0]} == {"i", "c"}:
            i, c = (a, b) if a[0] == "i" else (b, a)
            if c[1] in real.DMODE:
                return [ieq(i[1], real.DMODE.index(c[1]))]
        return [False]
    k = a[0]
    if k in ("s", "c"):
        return [same(t, a[1], b[1])]
    if k == "l":
        out = []
        for (x, v), (y, w) in zip(a[1:], b[1:]):
            out += [same(t, x, y), same(t, v, w)]
        return out
    if k == "p":
        return [same(t, a[1], b[1])] + [ieq(x, y) for x, y in zip(a[2:], b[2:])]
    if k == "i":
        return [ieq(a[1], b[1])]
    if k == "f":
        return [feq(t, a[1], b[1])]
    return [a == b]


def same(t, a, b):
    return t.same(a, b) if isinstance(t, sx.Text) else a == b


def feq(t, a, b):
    x, y = (read_number(t, s) for s in (a, b))
    if x is None or y is None:
        return same(t, a, b)
    x, y = (("f", d[1], d[2], "") if d[0] == "i" else d for d in (x, y))
    n = max(len(x[3]), len(y[3]))
    return scaled(t, x, n) == scaled(t, y, n)


def compare(t, want, got):
    """two lists of (opcode, parameters) -> list of conditions"""
    if [n for n, _ in want] != [n for n, _ in got]:
        return [False]
    out = []
    for (_, ps), (_, qs) in zip(want, got):
        if len(ps) != len(qs):
            return [False]
        for p, q in zip(ps, qs):
            out += eqs(t, val(p), val(q))
    return out


def targets(t, a, b):
    out = []
    for x, y in zip(a, b):
        (k, u), (k2, v) = real.info(x), real.info(y)
        if k != k2:
            return [False]
        if k in ("GENERIC", "COROUTINE"):
            continue
        if u[0] != v[0]:
            return [False]
        out.append(ieq(u[1], v[1]) if u[0] == "i" else same(t, u[1], v[1]))
    return out


# control flow is C02's
GLUE = {"Jump", "Return", "End", "Hold"}


def matchops(t, x, c):
    """conditions for: c has the operations of x"""
    a = [(n, ps) for n, ps in flat(x[1]) if n not in GLUE]
    b = [(n, ps) for n, ps in flat(c.routine_ops) if n not in GLUE]
    return compare(t, strip(a), strip(b)) + targets(t, x[0], c.routine_infos)


def strip(ops):
    """jump targets are C02's; they are the last parameter of jumping operations"""
    return [(n, ps[:-1] if jumps(n) else ps) for n, ps in ops]


def jumps(n):
    return n in JUMPERS


JUMPERS = set()


# ------------------------------------------------------------------------------------------------ print -> parse
def conj(cs):
    if any(c is False for c in cs):
        return False
    cs = [c for c in cs if c is not True]
    return z3.And(cs) if cs else True


def nolit(cx, tx, payload):
    """a value no literal stands for (known findings): a few are reported, all are counted"""
    cx.w.stats.add("inexpressible")
    cx.w.nolit = getattr(cx.w, "nolit", 0) + 1
    if cx.w.nolit > 2:
        raise engine.Abandon
    tx.fail(payload)


def roundtrip(cx, tx, x, ss, payload, ok=None):
    """decompile x, compile, compare; `ok`: on a mismatch, is the value one the language can express at all"""
    cx.w.stats.add("programs")
    text = None

    def bad(err):
        if ok is not None and not ok():
            nolit(cx, tx, payload("no literal stands for the value"))
        tx.fail(payload(err))
    try:
        text, c = show(x, ss)
    except (engine.Abandon, engine.Inconclusive):
        raise
    except Exception as e:
        bad(f"{type(e).__name__} on the way back")
    cs = matchops(tx, x, c)
    cond = conj(cs)
    if cond is False:
        bad("different value")
    if cond is not True:
        tx.flush()
        if cx.check(z3.Not(cond)):
            tx.assume(z3.Not(cond))
            bad("different value")
    cx.w.stats.add("assertions")
    return text


def string_family(shape, keys=None, ss=(False, True)):
    """shape: function(tx, cx) -> symbolic string"""
    def h(cx):
        tx = sx.Text(cx)
        key = cx.choose(keys or [*STR_TMPL, "pos"], "t")
        s_ = cx.choose(ss, "ss")
        s = shape(tx, cx)
        src = POS_TMPL if key == "pos" else STR_TMPL[key]
        x0 = prog_of(key, src)
        x = replaced(x0, put_string(s))
        ok = (lambda: single_ok(tx, s)) if key == "pos" else (lambda: expressible(tx, s))
        text = roundtrip(cx, tx, x, s_, lambda err: lambda m: dict(kind="string", key=key, ss=s_, err=err, s=tx.concrete(s, m)), ok)
        return dict(key=key, ss=s_, text=tx.plain(text)[:120])
    return h


def free(n, dom=sx.ALL):
    return lambda tx, cx: tx.run(n, dom=dom)


PIECES = ["'''", '"""', "\n", " ", "\\", "'", '"', "n", "\t", "\r", "  x", "a", "\u2028"]
INTEREST = cset.of("'\"\n \\nx\r\t\f")


def pieces(n, k, ps=PIECES, dom=sx.ALL):
    """n pieces in any order among k symbolic characters"""
    def f(tx, cx):
        where = cx.pick(2 ** (n + k), "where")
        if bin(where).count("1") != n:
            raise engine.Abandon
        return "".join(cx.choose(ps, "piece") if where >> i & 1 else tx.char(dom=dom) for i in range(n + k))
    return f


def direct(n, dom=sx.ALL, indents=(0, 1, 3)):
    """str(parameter) at an indentation, in a minimal program"""
    def h(cx):
        tx = sx.Text(cx)
        dt = real.m.dt
        form = cx.pick(2, "form")
        ind = cx.choose(indents, "indent")
        s = tx.run(n, dom=dom)
        p = dt.SsbOpParamConstString(s) if form == 0 else dt.SsbOpParamLanguageString({"english": s})
        p.indent = ind
        pl = lambda err: lambda m: dict(kind="direct", form=form, ind=ind, err=err, s=tx.concrete(s, m))

        def bad(err):
            if not expressible(tx, s):
                nolit(cx, tx, pl("no literal stands for the value"))
            tx.fail(pl(err))
        cx.w.stats.add("programs")
        lit = str(p)
        try:
            c = real.compile_text("def 0 {\n" + " " * (4 * ind) + "a(" + lit + ");\n}\n")
        except real.documented_errors():
            bad("rejected")
        q = c.routine_ops[0][0].params
        cs = [False] if len(q) != 1 else eqs(tx, val(p), val(q[0]))
        cond = conj(cs)
        if cond is False:
            bad("different value")
        if cond is not True:
            tx.flush()
            if cx.check(z3.Not(cond)):
                tx.assume(z3.Not(cond))
                bad("different value")
        cx.w.stats.add("assertions")
        return dict(indent=ind, literal=tx.plain(lit)[:80])
    return h


IDS = cset.of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_")
KEYWORDS = {"import", "macro", "def", "coro", "for_actor", "for_object", "for_performer", "alias", "for", "previous", "Position", "if", "elseif", "else", "forever", "while", "switch",
            "return", "end", "hold", "continue", "break", "break_loop", "value", "debug", "edit", "variation", "random", "sector", "dungeon_mode", "menu2", "menu", "case", "default",
            "clear", "reset", "init", "scn", "dungeon_result", "adventure_log", "message_SwitchTalk", "message_SwitchMonologue", "jump", "call", "not", "with", "TRUE", "FALSE"}


def constants(n, ss=(False, True)):
    def h(cx):
        tx = sx.Text(cx)
        s_ = cx.choose(ss, "ss")
        dollar = cx.flag("dollar")
        first = tx.char("a", IDS)
        name = ("$" if dollar else "") + first + tx.run(n - 1, "b", cset.union(IDS, cset.DIGIT))
        if not dollar:
            for k in sorted(KEYWORDS):
                if len(k) == n and sx.s_eq(name, k):
                    raise engine.Abandon
        x0 = prog_of("const", CONST_TMPL.replace("@0", "HOLE"))
        x = replaced(x0, put_const(name))
        for i in x[0]:
            if i.linked_to_name == "HOLE":
                i.linked_to_name = name
        text = roundtrip(cx, tx, x, s_, lambda err: lambda m: dict(kind="const", ss=s_, err=err, s=tx.concrete(name, m)))
        return dict(constant=tx.plain(name), ss=s_, text=tx.plain(text)[:120])
    return h


def fixeds(w, f, ss=(False, True)):
    """canonical texts of fixed-point numbers with w digits before and f digits after the point"""
    def h(cx):
        tx = sx.Text(cx)
        s_ = cx.choose(ss, "ss")
        neg = cx.flag("neg")
        first = tx.char("w", cset.DIGIT if w == 1 else cset.of("123456789"))
        v = ("-" if neg else "") + first + tx.run(w - 1, "w", cset.DIGIT) + "." + tx.run(f, "f", cset.DIGIT)
        x0 = prog_of("fix", FIX_TMPL)
        x = replaced(x0, lambda p: fixed(v) if isinstance(p, real.m.dt.SsbOpParamFixedPoint) else p)
        text = roundtrip(cx, tx, x, s_, lambda err: lambda m: dict(kind="fixed", ss=s_, err=err, s=tx.concrete(v, m)))
        return dict(fixed=tx.plain(v), ss=s_, text=tx.plain(text)[:100])
    return h


def ints(lo, hi, ss=(False, True), names=None):
    """every integer of a program is symbolic"""
    def h(cx):
        tx = sx.Text(cx)
        s_ = cx.choose(ss, "ss")
        x0 = prog_of("int", INT_TMPL)
        hot = None if names is None else cx.choose(names, "which")
        m_ = {}

        def sub(v):
            if not (1001 <= v <= 1034) or (hot is not None and v != hot):
                return v
            if v not in m_:
                m_[v] = cx.int("v", lo, hi)
            return m_[v]
        x = replaced(x0, lambda p: sub(p) if type(p) is int else p)
        for i in x[0]:
            if type(i.linked_to) is int and i.linked_to >= 1000:
                i.linked_to = sub(i.linked_to)

        def pl(err):
            def f(m):
                vals = cx.values(m)
                by = {str(v.e): k for k, v in m_.items()}
                return dict(kind="int", ss=s_, err=err, vals={str(k): vals[str(v.e)] for k, v in m_.items()})
            return f
        text = roundtrip(cx, tx, x, s_, pl)
        return dict(ss=s_, ints=len(m_), text=text[:100])
    return h


def positions(lo, hi, ss=(False, True)):
    def h(cx):
        tx = sx.Text(cx)
        s_ = cx.choose(ss, "ss")
        xo, yo = cx.choose((0, 2, 4), "xo"), cx.choose((0, 2, 4), "yo")
        xr, yr = cx.int("x", lo, hi), cx.int("y", lo, hi)
        x0 = prog_of("pos", POS_TMPL)
        x = replaced(x0, put_string("m", (xr, xo, yr, yo)))

        def pl(err):
            return lambda m: dict(kind="pos", ss=s_, err=err, pos=[cx.values(m)["x"], xo, cx.values(m)["y"], yo])
        # an offset of 4 (half a tile as well) is written as .5
        y = replaced(x0, put_string("m", (xr, min(xo, 2), yr, min(yo, 2))))
        text, c = None, None
        cx.w.stats.add("programs")
        try:
            text, c = show(x, s_)
        except (engine.Abandon, engine.Inconclusive):
            raise
        except Exception as e:
            tx.fail(pl(f"{type(e).__name__} on the way back"))
        tx.prove(conj(matchops(tx, y, c)), pl("different value"))
        return dict(pos=[xo, yo], ss=s_, text=text[:100])
    return h


# ------------------------------------------------------------------------------------------------ parse
LIT_PROG = "def 0 { a(%s); if (debug) { b(1, {e=%s, f=%s}, %s); } message_SwitchTalk ($V) { case 1: %s default: {e=%s} } switch (message_Menu(%s)) { case menu(%s): a(); } }"
LIT_SS = "def 0 { a(%s); b(1, {e=%s, f=%s}, %s); }"
NUM_PROG = "def 0 { a(%s, 1, %s); $V = %s; if ($V == %s) { b<actor %s>(); } switch ($V) { case %s: a(); case > %s: b(); } with (actor %s) { c(); } }"
NUM_SS = "def 0 { a(%s, 1, %s); }"
POSL_PROG = "def 0 { a(Position<%s, 1, 2>, Position<'a', %n, 3>, Position<'b', 3, %n>); }"


def read(text, ss):
    return again(text, ss).routine_ops


def accepted(text, ss):
    try:
        return read(text, ss)
    except real.documented_errors():
        return None


def string_values(ops):
    """all string values of a compiled literal program"""
    dt = real.m.dt
    out = []
    for r in ops:
        for o in r:
            for p in o.params:
                if isinstance(p, dt.SsbOpParamConstString):
                    out.append(p.name)
                elif isinstance(p, dt.SsbOpParamLanguageString):
                    out += p.strings.values()
                elif isinstance(p, dt.SsbOpParamPositionMarker) and p.name not in ("a", "b"):
                    out.append(p.name)
    return out


Q3 = ("'''", '"""')


def string_lits(shape, quotes=("'", '"', "'''", '"""'), ss=(False, True)):
    def h(cx):
        tx = sx.Text(cx)
        q = cx.choose(quotes, "q")
        s_ = cx.choose(ss, "ss")
        form = "lit" if len(q) == 3 else cx.choose(("lit", "pos"), "form")
        body = shape(tx, cx)
        lit = q + body + q
        tmpl = POSL_PROG.replace("%n", "0") if form == "pos" else LIT_SS if s_ else LIT_PROG
        # the literal must be one token
        if not one_token(tx, body, q):
            raise engine.Abandon
        want = (read_multi if len(q) == 3 else read_single)(tx, body)
        if want is None:
            raise engine.Abandon
        n = tmpl.count("%s")
        cx.w.stats.add("programs")
        pl = lambda err: lambda m: dict(kind="lit", form=form, ss=s_, q=q, body=tx.concrete(body, m), err=err)
        ops = accepted(tmpl.replace("%s", lit), s_)
        if ops is None:
            tx.fail(pl("rejected"))
        got = string_values(ops)
        if len(got) != n:
            tx.fail(pl("other parameters"))
        tx.prove(conj([tx.same(g, want) for g in got]), pl("other value"))
        return dict(literal=tx.plain(lit), ss=s_, form=form)
    return h


def numbers(n, first=ALPHA, head=("",), ss=(False, True), dom=ALPHA):
    """texts of n symbolic characters of the number alphabet"""
    def h(cx):
        tx = sx.Text(cx)
        s_ = cx.choose(ss, "ss")
        form = cx.choose(("num", "pos"), "form")
        lit = cx.choose(head, "head") + tx.char(dom=first) + tx.run(n - 1, dom=dom)
        d = read_number(tx, lit)
        if d is None:
            raise engine.Abandon
        tmpl = POSL_PROG.replace("%s", "'m'").replace("%n", "%s") if form == "pos" else NUM_SS if s_ else NUM_PROG
        if form == "num" and d[0] == "f" and not s_:
            tmpl = "def 0 { a(%s, 1, %s); b<actor %s>(); switch ($V) { case %s: a(); } with (actor %s) { c(); } }"
        cx.w.stats.add("programs")
        pl = lambda err: lambda m: dict(kind="num", form=form, ss=s_, lit=tx.concrete(lit, m), err=err)
        half = None
        if form == "pos" and d[0] == "f":
            # only whole and half tiles exist
            f = d[3]
            while f and tx.member(f[-1], cset.of("0")):
                f = f[:-1]
            half = None if len(f) > 1 else False if not f else True if tx.member(f[0], cset.of("5")) else None
            if half is None:
                raise engine.Abandon
        ops = accepted(tmpl.replace("%s", lit), s_)
        if ops is None:
            tx.fail(pl("rejected"))
        tx.prove(conj(number_conds(tx, ops, d, form, half)), pl("other value"))
        return dict(literal=tx.plain(lit), ss=s_, form=form)
    return h


def number_conds(t, ops, d, form, half):
    dt = real.m.dt
    ps = [p for r in ops for o in r for p in o.params]
    cs = []
    if form == "pos":
        ms = [p for p in ps if isinstance(p, dt.SsbOpParamPositionMarker) and p.name in ("a", "b")]
        if len(ms) != 2:
            return [False]
        w = d[1] * (base_value(t, d[2], d[3]) if d[0] == "i" else number_value(t, d[2]))
        o = 2 if half else 0
        a, b = ms
        return [ieq_(a.x_relative, w), ieq_(a.x_offset, o), ieq_(b.y_relative, w), ieq_(b.y_offset, o), ieq_(a.y_relative, 3), ieq_(b.x_relative, 3)]
    if d[0] == "i":
        want = d[1] * base_value(t, d[2], d[3])
        n = 0
        for r in ops:
            for o in r:
                for k in HOLES.get(o.op_code.name, ()):
                    if k >= len(o.params) or isinstance(o.params[k], (dt.SsbOpParamFixedPoint, dt.SsbOpParamConstant)):
                        if k < len(o.params):
                            return [False]
                        continue
                    n += 1
                    cs.append(ieq_(o.params[k], want))
        return cs + [n >= 2]
    fs = [p for p in ps if isinstance(p, dt.SsbOpParamFixedPoint)]
    if len(fs) < 2:
        return [False]
    for p in fs:
        g = read_number(t, p.value)
        if g is None:
            return [False]
        if g[0] == "i":
            g = ("f", g[1], g[2], "")
        k = max(len(g[3]), len(d[3]))
        cs.append(scaled(t, g, k) == scaled(t, d, k))
    return cs


# where the literal ends up: opcode -> parameter positions
HOLES = {"a": (0, 2), "flag_Set": (1,), "lives": (0,), "Case": (0,), "CaseValue": (1,)}


def ieq_(a, b):
    a = a if type(a) is int else sx.iterm(a)
    return a == b


# ------------------------------------------------------------------------------------------------ check
class C04(run.Check):
    id = "C04"
    level = "exploration"
    technique = ("symbolic execution of the real decompilers (printers) and compilers (ANTLR lexer and parser, readers) over symbolic characters and integers; z3 decides per path that "
                 "the value read equals the value printed, or the value the specification gives for the literal")
    level_note = "all strings, numbers, constants and position marks up to the stated lengths, in the stated printing contexts; longer strings only through fixed pieces"
    seconds = {"quick": 80, "thorough": 3600}
    limit = 40
    maxviol = 120
    bounds = {
        "quick": "strings of up to 2 characters of all of Unicode (outside plane 16 and the surrogates), of 3 among the special characters, of 3 pieces (triple quotes, quotes, line feed, CR, "
                 "blanks, backslash, n, tab, U+2028) and of one piece and one character, in 23 places (arguments, language strings, menus, message texts, blocks, contexts, headers, SsbScript, fallback, "
                 "position names); of 3 characters as argument at 3 indentations; constants of up to 3 characters in 45 places; integers of 32 bits in 34 places, -4..12 in each; fixed-point numbers "
                 "with up to 2+1 or 1+2 digits; position marks with 16 bit coordinates and offsets 0, 2, 4; literals: strings of 4 characters, multi line strings of 2 lines, numbers of 3 "
                 "characters and with bases, leading zeros and signs",
        "thorough": "strings of up to 4 characters and of 2 pieces and 2 characters in the same places, of 5 as argument; constants of up to 7 characters; fixed-point numbers with up to 4+8 digits; string "
                    "literals of 6 characters, multi line strings of up to 5 lines and pieces, numbers of 6 characters",
    }
    assumptions = ["printed and read operations are compared in the order of the compiled text; control flow is C02's",
                   "constants are identifiers that are not keywords, with or without $",
                   "fixed-point numbers are compared as numbers (-0.0 equals 0.0); an offset of 4 in a position mark is a half tile and comes back as 2",
                   "literals the documentation leaves open are left out: a backslash in front of an escape sequence, tabs in the indentation of multi line strings",
                   "in multi line strings CR LF is a line break"]

    def setup(self):
        sx.install()
        cm.setup_ints()
        from explorerscript.ssb_converting import ssb_special_ops as so
        JUMPERS.update(so.OPS_WITH_JUMP_TO_MEM_OFFSET)
        for k, s in all_templates().items():
            try:
                prog_of(k, s)
            except engine.Abandon:
                pass

    def control(self):
        ok = read_multi(PLAIN, "\n  a\n   b\n ") == "a\n b" and expressible(PLAIN, "a\r\nb") is False and judge(dict(kind="lit", form="lit", ss=False, q="'", body="a"), lambda v: v + "x") is not None
        return ok, "a reader that appends a character is refuted"

    def families(self, tier):
        F = [("templates", templates)]
        q = tier == "quick"
        F += [("str%d" % n, string_family(free(n))) for n in ((0, 1, 2) if q else (0, 1, 2, 3, 4))]
        F += [("pieces%d%d" % nk, string_family(pieces(*nk))) for nk in (((1, 1),) if q else ((1, 1), (1, 2), (2, 1), (3, 0), (2, 2)))]
        if q:
            F += [("str3", string_family(free(3, INTEREST), ["args", "message"], (False,))), ("pieces30", string_family(pieces(3, 0), ["args"], (False,)))]
        F += [("direct%d" % n, direct(n)) for n in ((3,) if q else (3, 4, 5))]
        F += [("const%d" % n, constants(n)) for n in ((1, 2, 3) if q else (1, 2, 3, 4, 5, 6, 7))]
        F += [("fixed%d%d" % wf, fixeds(*wf)) for wf in (((1, 1), (1, 2), (2, 1)) if q else ((1, 1), (1, 2), (2, 2), (3, 3), (4, 4), (4, 8), (1, 8)))]
        F += [("ints", ints(-2 ** 31, 2 ** 31 - 1)), ("small", ints(-4, 12, names=list(range(1001, 1035))))]
        F += [("positions", positions(-2 ** 15, 2 ** 15 - 1)), ("positions0", positions(-2, 2))]
        F += [("lit%d" % n, string_lits(free(n))) for n in ((0, 1, 2, 3, 4) if q else (0, 1, 2, 3, 4, 5, 6))]
        LP = ["\n ", "\n  ", "\n", "\\", " ", "\r\n"]
        F += [("litp%d%d" % nk, string_lits(pieces(*nk, LP), Q3 if q else Q3 + ("'", '"'))) for nk in (((1, 2), (2, 1)) if q else ((1, 2), (2, 1), (2, 2), (3, 1), (4, 0), (2, 3), (3, 2), (4, 1)))]
        F += [("num%d" % n, numbers(n)) for n in ((1, 2, 3) if q else (1, 2, 3, 4, 5, 6))]
        F += [("based", numbers(3, dom=cset.of("0123456789abcdefABCDEF"), first=cset.of("xXoObB"), head=("0", "-0"))),
              ("zeros", numbers(2, dom=cset.DIGIT, first=cset.DIGIT, head=("-00.", "00.", "-.", "."))), ("zerosw", numbers(3, dom=cset.of("0123456789."), first=cset.of("0"), head=("-0", "0")))]
        return F

    def extra(self, stats):
        return {"paths_with_values_no_literal_stands_for": int(stats.get("inexpressible", 0)), "programs": int(stats.get("programs", 0))}

    def replay(self, p):
        return judge(p)

    confirm = replay

    def finding(self, p, desc):
        if p["kind"] == "string" and p["key"] == "pos":
            if not single_ok(PLAIN, p["s"]):
                return "position-name"
        elif p["kind"] in ("string", "direct") and not expressible(PLAIN, p["s"]):
            return "inexpressible-string"


def judge(p, spoil=lambda v: v):
    k, ss = p["kind"], p.get("ss")
    cm.load_all()
    from explorerscript.ssb_converting import ssb_special_ops as so
    JUMPERS.update(so.OPS_WITH_JUMP_TO_MEM_OFFSET)
    if k == "template":
        return template_back(p["key"])
    t = PLAIN
    if k in ("string", "const", "fixed", "int", "pos"):
        if k == "string":
            key = p["key"]
            x0 = prog_of(key, POS_TMPL if key == "pos" else STR_TMPL[key])
            f = put_string(p["s"])
        elif k == "const":
            key = "const"
            x0 = prog_of(key, CONST_TMPL.replace("@0", "HOLE"))
            f = put_const(p["s"])
        elif k == "fixed":
            key = "fix"
            x0 = prog_of(key, FIX_TMPL)
            f = lambda q: fixed(p["s"]) if isinstance(q, real.m.dt.SsbOpParamFixedPoint) else q
        elif k == "int":
            key = "int"
            x0 = prog_of(key, INT_TMPL)
            f = lambda q: p["vals"].get(str(q), q) if type(q) is int else q
        else:
            key = "pos"
            x0 = prog_of(key, POS_TMPL)
            f = put_string("m", p["pos"])
        x = replaced(x0, f)
        for i in x[0]:
            if k == "const" and i.linked_to_name == "HOLE":
                i.linked_to_name = p["s"]
            if k == "int" and str(i.linked_to) in p["vals"]:
                i.linked_to = p["vals"][str(i.linked_to)]
        want = x if k != "pos" else replaced(x0, put_string("m", [min(v, 2) if n % 2 else v for n, v in enumerate(p["pos"])]))
        what = repr(p.get("s", p.get("vals", p.get("pos"))))
        try:
            text, c = show(x, ss)
        except Exception as e:
            return f"{k} {what} ({'SsbScript' if ss else 'ExplorerScript'}, {key}): {type(e).__name__} when printing it and compiling the text: {str(e)[:300]}"
        if conj(matchops(t, want, c)) is not True:
            a = [(n, [val(q) for q in ps]) for n, ps in flat(want[1])]
            b = [(n, [val(q) for q in ps]) for n, ps in flat(c.routine_ops)]
            d = [(u, v) for u, v in zip(a, b) if u != v][:2]
            return f"{k} {what} ({'SsbScript' if ss else 'ExplorerScript'}, {key}): printed as\n{text}\nwhich is compiled to another value: {d}"
        return None
    if k == "direct":
        dt = real.m.dt
        q = dt.SsbOpParamConstString(p["s"]) if p["form"] == 0 else dt.SsbOpParamLanguageString({"english": p["s"]})
        q.indent = p["ind"]
        lit = str(q)
        try:
            c = real.compile_text("def 0 {\n" + " " * (4 * p["ind"]) + "a(" + lit + ");\n}\n")
        except Exception as e:
            return f"{p['s']!r} printed as {lit!r}, which is not accepted: {type(e).__name__}"
        r = c.routine_ops[0][0].params
        if len(r) != 1 or r[0] != q:
            return f"{p['s']!r} printed as {lit!r}, which is read as {r!r}"
        return None
    if k == "lit":
        lit = p["q"] + p["body"] + p["q"]
        want = (read_multi if len(p["q"]) == 3 else read_single)(t, p["body"])
        tmpl = POSL_PROG.replace("%n", "0") if p["form"] == "pos" else LIT_SS if ss else LIT_PROG
        ops = accepted(tmpl.replace("%s", lit), ss)
        if want is None or not one_token(t, p["body"], p["q"]):
            return None
        if ops is None:
            return f"the literal {lit!r} is rejected ({'SsbScript' if ss else 'ExplorerScript'}, {p['form']})"
        got = [spoil(g) for g in string_values(ops)]
        if len(got) != tmpl.count("%s") or any(g != want for g in got):
            return f"the literal {lit!r} is read as {got!r}, expected {want!r} ({'SsbScript' if ss else 'ExplorerScript'}, {p['form']})"
        return None
    if k == "num":
        lit = p["lit"]
        d = read_number(t, lit)
        form = p["form"]
        tmpl = POSL_PROG.replace("%s", "'m'").replace("%n", "%s") if form == "pos" else NUM_SS if ss else NUM_PROG
        if form == "num" and d[0] == "f" and not ss:
            tmpl = "def 0 { a(%s, 1, %s); b<actor %s>(); switch ($V) { case %s: a(); } with (actor %s) { c(); } }"
        half = d[0] == "f" and d[3].rstrip("0") == "5"
        try:
            ops = read(tmpl.replace("%s", lit), ss)
        except Exception as e:
            return f"the literal {lit} is rejected: {type(e).__name__} {str(e)[:200]}"
        if conj(number_conds(t, ops, d, form, half)) is not True:
            return f"the literal {lit} is read as another value: {real.routines(ops)}"
        return None


CHECK = C04
