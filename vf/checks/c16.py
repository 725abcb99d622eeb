"""C16  layout, comments and alternative spellings do not change the compiled ops."""
from __future__ import annotations
import os
import signal
import z3
from . import common as cm
from .. import cset, engine, lang, proj, real, run, sx

NAME = "/nonexistent/main.exps"
HEAD = "//?: is-ssb-script: true\n"

# every construct of the language, written as tightly as the tokens allow; one statement per source piece
SOURCES = [
    'def 0{@l;a(1,-2,"s");jump @l;}def 1{alias previous;}',
    'coro A{alias previous;}coro B{op<actor 1>();call @l;§l;hold;}',
    "def 0 for actor B{op({e='a',f=\"b\",},CONST,$V,);}def 1 for_object(2){end;}def 2 for performer -3{return;}",
    'macro m($a,$b){op($a,$b);return;}macro n(){~m(1,.5,);}def 0{~n();~m(5,X);}',
    'def 0{switch($V){case 1:op();break;case>=2:case<value($X):default:end;}}',
    "def 0{message_SwitchTalk($V){case 1:'a' default:'b'}message_SwitchMonologue(3){case X:{e='c'}}}",
    'def 0{forever{if(not debug||$A==1||edit){continue;}elseif not($B[2]){break_loop;}else{op();}}}',
    'def 0{while(not $PERFORMANCE_PROGRESS_LIST[1]){op();}for($i=0;$i<3;$i+=1;){op();}if(BranchVariation(1)){b();}else{if(BranchBit($A,3)){c();}}}',
    "def 0{op(Position<'p',1.5,-2>,-.5,0x1F,'''m//''',\"\"\"n/*\"\"\",'*/');with(actor A){op();}}",
    'def 0{$A[1]=2;clear $B;$C=scn[1,2];dungeon_mode(1)=X;reset scn($D);reset dungeon_result;}',
    'def 0{$E-=value($F);init $G;adventure_log=4;$H*=-1;$I/=X;$J+=5;}',
    'def 0{switch(scn($S)[0]){case>value($X):op();case menu("q"):op();case menu2(4):break;}}',
    'def 0{switch(random(5)){case 1:a();}switch(dungeon_mode(3)){case OPEN:a();}switch(sector()){case<3:b();}switch(ProcessSpecial(1,2,3)){case==1:c();}}',
    'def 0{if(scn($S)>=[1,2]||$A&1||$A^2||$A&<<3||$A!=value($B)||$C TRUE 1||$C FALSE 2){a();}if not(variation){}else{b();}}',
    'def 0{iff(nots,$if,debugger);endx();@for_actors;message_SwitchTalker(FALSEX,scn2,menu3);jump @for_actors;}',
    "def 0{a(Position<'p',1,2>,Position<'p',3,4>);b(Position<'p',1,2>);~m();~m();}macro m(){c(Position<'p',1,2>);c(Position<'p',3,2>);}",
    HEAD + "def 0{a(1,'s',@l);@l;b({e='s',});§k;}coro C{c();}def 1 for_actor(1){d(Position<'p',1,2.5>,@k,);}",
]
SRC2 = [0, 3, 6, 9, 16]
BLANK = cset.of(" \t\n\r")
NL = cset.of("\n\r")
# white space elsewhere; this language does not know it
OTHER = None


def others():
    global OTHER
    if OTHER is None:
        OTHER = cset.minus(cset.union(cset.pred("isspace"), cset.of("\ufeff\u200b\u2060\u180e\u0000\u001a")), BLANK)
    return OTHER


def layout_kind(t, s, last):
    """what a text between two tokens is: 'layout', 'other' (white space the language does not know), None; `last`: the program ends behind it"""
    st, other = "out", False
    for ch in s:
        if st in ("out", "joined"):
            if t.member(ch, BLANK):
                continue
            if st == "joined" and t.member(ch, cset.of("\f")):
                st = "out"
            elif t.member(ch, cset.of("/")):
                st = "slash"
            elif t.member(ch, cset.of("\\")):
                st = "join"
            elif t.member(ch, others()):
                other, st = True, "out"
            else:
                return None
        elif st == "slash":
            if t.member(ch, cset.of("/")):
                st = "line"
            elif t.member(ch, cset.of("*")):
                st = "block"
            else:
                return None
        elif st == "line":
            if t.member(ch, NL):
                st = "out"
        elif st == "block":
            if t.member(ch, cset.of("*")):
                st = "star"
        elif st == "star":
            if t.member(ch, cset.of("/")):
                st = "out"
            elif not t.member(ch, cset.of("*")):
                st = "block"
        elif st == "join":
            if t.member(ch, NL):
                st = "joined"
            elif t.member(ch, cset.of("\f")):
                st = "out"
            elif not t.member(ch, cset.of(" \t")):
                return None
    if st in ("slash", "join") or (st in ("line", "block", "star") and not last):
        return None
    return "other" if other else "layout"


class Chars:
    """the same questions about known characters"""

    def member(self, ch, cls):
        return cset.has(cls, ord(ch))


CHARS = Chars()


# ------------------------------------------------------------------------------------------------ sources as tokens
class Source:
    def __init__(self, text):
        self.head = HEAD if text.startswith(HEAD) else ""
        self.text = text
        body = text[len(self.head):]
        self.toks = [t.t for t in lang.lex(body)][:-1]
        self.kinds = [t.k for t in lang.lex(body)][:-1]
        ts = lang.lex(body)
        self.gaps = [""] + [body[a.i + len(a.t):b.i] for a, b in zip(ts, ts[1:])]      # gap i stands in front of token i; the last one behind the program

    def with_gaps(self, g):
        """g: gap number -> text; the other gaps stay"""
        out = [self.head]
        for i in range(len(self.toks) + 1):
            out.append(g.get(i, self.gaps[i]))
            if i < len(self.toks):
                out.append(self.toks[i])
        return "".join(out)


_S = {}


def source(text):
    if text not in _S:
        _S[text] = Source(text)
    return _S[text]


_REF = {}


def reference(text):
    if text not in _REF:
        cur, engine.CUR = engine.CUR, None
        try:
            _REF[text] = Result(real.compile_text(text, NAME))
        except Exception as e:
            if not isinstance(e, real.documented_errors()):
                raise
            _REF[text] = e
        finally:
            engine.CUR = cur
    if isinstance(_REF[text], Exception):
        raise engine.Abandon        # not an accepted program
    return _REF[text]


# ------------------------------------------------------------------------------------------------ results
class Result:
    def __init__(self, c):
        dt = real.m.dt
        self.ops = c.routine_ops
        self.infos = c.routine_infos
        self.coros = c.named_coroutines
        sm = c.source_map
        self.marks = [(None, None, m) for m in sm.get_position_marks__direct()] + [(f, n, m) for f, n, m in sm.get_position_marks__macros()]


def pval(p):
    dt = real.m.dt
    if isinstance(p, dt.SsbOpParamFixedPoint):
        return ("f", p.value)
    if isinstance(p, dt.SsbOpParamConstant):
        return ("c", p.name)
    if isinstance(p, dt.SsbOpParamConstString):
        return ("s", p.name)
    if isinstance(p, dt.SsbOpParamLanguageString):
        return ("l", *sum(p.strings.items(), ()))
    if isinstance(p, dt.SsbOpParamPositionMarker):
        return ("p", p.name, p.x_relative, p.x_offset, p.y_relative, p.y_offset)
    if isinstance(p, int):
        return ("i", p)
    return (type(p).__name__, repr(p))


def veq(t, a, b):
    """values: strings, ints, None"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b if t is None else t.same(a, b)
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, int) and isinstance(b, int):
        return a == b if type(a) is int and type(b) is int else sx.iterm(a) == sx.iterm(b)
    return type(a) is type(b) and a == b


def conds(t, a, b):
    """-> list of (what, condition) for: the results are the same"""
    out = []

    def flat(r):
        return [o for x in r.ops for o in x]
    if [len(x) for x in a.ops] != [len(x) for x in b.ops]:
        return [("number of ops", False)]
    for x, y in zip(flat(a), flat(b)):
        out.append(("opcode", veq(t, x.op_code.name, y.op_code.name)))
        out.append(("offset", veq(t, x.offset, y.offset)))
        if len(x.params) != len(y.params):
            return [("number of parameters", False)]
        for p, q in zip(x.params, y.params):
            p, q = pval(p), pval(q)
            if p[0] != q[0] or len(p) != len(q):
                return [("kind of parameter", False)]
            out += [("parameter", veq(t, u, v)) for u, v in zip(p[1:], q[1:])]
    if len(a.infos) != len(b.infos) or len(a.coros) != len(b.coros):
        return [("number of routines", False)]
    for x, y in zip(a.infos, b.infos):
        out.append(("kind of routine", x.type.name == y.type.name))
        out.append(("target of routine", veq(t, x.linked_to, y.linked_to)))
        out.append(("name of the target of the routine", veq(t, x.linked_to_name, y.linked_to_name)))
    out += [("name of coroutine", veq(t, x, y)) for x, y in zip(a.coros, b.coros)]
    if len(a.marks) != len(b.marks):
        return [("number of position marks", False)]
    for (f, n, x), (g, k, y) in zip(a.marks, b.marks):
        out += [("position mark", veq(t, u, v)) for u, v in ((f, g), (n, k), (x.name, y.name), (x.x_offset, y.x_offset), (x.y_offset, y.y_offset), (x.x_relative, y.x_relative),
                                                            (x.y_relative, y.y_relative))]
    return out


def compiled(text):
    return Result(real.compile_text(text, NAME))


def attempt(text, prj=None):
    """-> Result / exception"""
    try:
        return compiled(text) if prj is None else prj(text)
    except (engine.Abandon, engine.Inconclusive, engine.Hang):
        raise
    except Exception as e:
        return e


# ------------------------------------------------------------------------------------------------ judging
def check_same(cx, tx, ref, got, payload, lenient=False):
    cx.w.stats.add("programs")
    if isinstance(got, Exception):
        if lenient and isinstance(got, real.documented_errors()):
            return
        tx.fail(payload(f"{type(got).__name__} for the other spelling"))
    cs = conds(tx, ref, got)
    for w, c in cs:
        if c is False:
            tx.fail(payload("other " + w))
    z = [(w, c) for w, c in cs if c is not True]
    if z:
        tx.prove(z3.And([c for _, c in z]), payload("other " + z[0][0]))
    else:
        cx.w.stats.add("assertions")


def pair(tx, a, b, **kw):
    return lambda err: lambda m: dict(kind="pair", a=tx.concrete(a, m), b=tx.concrete(b, m), err=err, **kw)


def compare(cx, tx, a, b, lenient=False):
    """a: the accepted text (concrete: cached), b: the other spelling"""
    if sx.is_sym(a):
        ra = attempt(a)
        if isinstance(ra, Exception):
            if isinstance(ra, real.documented_errors()):
                raise engine.Abandon
            tx.fail(pair(tx, a, b)(type(ra).__name__))
    else:
        ra = reference(a)
    check_same(cx, tx, ra, attempt(b), pair(tx, a, b, lenient=lenient), lenient)


# ------------------------------------------------------------------------------------------------ layout
def directive(tx, text):
    """does the text start with meta attributes? (they are no comments)"""
    first = sx.call(text[:12], "splitlines")
    return bool(first) and bool(sx.call(sx.call(first[0], "lstrip"), "startswith", "//?:"))


def legal_empty(s, i):
    """no layout in gap i leaves the tokens as they are"""
    try:
        body = s.with_gaps({i: ""})[len(s.head):]
        return [t.t for t in lang.lex(body)][:-1] == s.toks
    except lang.LangError:
        return False


def at(cx, s, first=None):
    return cx.pick(len(s.toks) + 1, "at")


def free(n, sources=None, dom=sx.ALL):
    """n arbitrary characters in any gap, as far as they are layout"""
    def h(cx):
        tx = sx.Text(cx)
        g = tx.run(n, "c", dom)
        # the text is looked at first: there are few kinds of layout and many places
        kinds = {last: layout_kind(tx, g, last) for last in (True, False)}
        if kinds[True] is None:
            raise engine.Abandon
        src = cx.choose(sources or SOURCES, "src")
        s = source(src)
        i = at(cx, s)
        last = i == len(s.toks)
        if kinds[last] is None:
            raise engine.Abandon
        if n == 0 and not legal_empty(s, i):
            raise engine.Abandon
        text = s.with_gaps({i: g})
        if i == 0 and not s.head and directive(tx, text):
            raise engine.Abandon
        compare(cx, tx, src, text, kinds[last] == "other")
        return dict(family="layout", text=tx.plain(text)[:90])
    return h


COMMENTS = [("//", "\n"), ("//", "\r"), ("//", "\r\n"), ("/*", "*/"), ("/*\n", "\n*/"), (" /**", "**/ "), ("\n//", "\n\n"), ("/*", "*//*x*/"), ("//x\n/*", "*/"), ("\\", "\n"), ("//", ""), ("/*", "")]


def comments(n, sources=None, around=COMMENTS):
    """n arbitrary characters in a comment in any gap"""
    def h(cx):
        tx = sx.Text(cx)
        a, b = cx.choose(around, "comment")
        g = a + tx.run(n) + b
        kinds = {last: layout_kind(tx, g, last) for last in (True, False)}
        if kinds[True] is None:
            raise engine.Abandon
        src = cx.choose(sources or SOURCES, "src")
        s = source(src)
        if kinds[False] is None:
            i = len(s.toks)
        else:
            i = at(cx, s)
        text = s.with_gaps({i: g})
        if i == 0 and not s.head and directive(tx, text):
            raise engine.Abandon
        compare(cx, tx, src, text, kinds[i == len(s.toks)] == "other")
        return dict(family="comments", text=tx.plain(text)[:90])
    return h


# texts of comments that look like something else
TEXTS = ["'", '"', "'''", '"""', "{", "}", "(", ")", ";", "@l;", "def 1 { }", "\\'", "//", "/*", "\\", "\\n", "import \"x\";", "macro m() { }", "*", "/", "//?: is-ssb-script: true", "?: is-ssb-script: true", "é\u2028b", "\x0c", "\t",
         "for_actor(1)", "a();", "~m();", "$V", "-", "0x", "default:", "\u00a7l;"]
FORMS = ["//%s\n", "/*%s*/", "\n//%s\n", " // %s\r\n", "/* %s\n*/", "\n/*\n%s\n*/\n", "//%s\r"]


def texts(forms, sources=SOURCES, top=False):
    def h(cx):
        tx = sx.Text(cx)
        src = cx.choose(sources, "src")
        s = source(src)
        i = 0 if top else at(cx, s)
        g = cx.choose(forms, "form").replace("%s", cx.choose(TEXTS, "text"))
        if i == 0 and not s.head and (s.with_gaps({0: g})).lstrip().startswith("//?:"):
            raise engine.Abandon
        if layout_kind(CHARS, g, i == len(s.toks)) != "layout":
            raise engine.Abandon
        compare(cx, tx, src, s.with_gaps({i: g}))
        return dict(family="texts", gap=g)
    return h


POOL = [" ", "\n", "\r\n", "\t", "/**/", "//\n", "/*//*/", "//*/\n", "/*\n*/", "\\\n", "/*'*/", '//"\n', "//'''\r", "\\ \r\n", "/***/", "//\\\n", "/*\\*/", " \n ", "//x\n//y\n", "/*/**/"]


def two(pool, near, sources=None, mid=0):
    """layout of the pool in two gaps, a symbolic blank beside the second one"""
    def h(cx):
        tx = sx.Text(cx)
        src = cx.choose(sources or SOURCES, "src")
        s = source(src)
        n = len(s.toks)
        i = cx.pick(n, "at")
        j = i + 1 + cx.pick(min(near, n - i) if near else n - i, "then")
        g = {i: cx.choose(pool, "g"), j: cx.choose(pool, "h") + tx.run(mid, "c", BLANK)}
        compare(cx, tx, src, s.with_gaps(g))
        return dict(family="two", text=tx.plain(s.with_gaps(g))[:90])
    return h


def everywhere(n):
    """the same layout in every gap; n symbolic characters of it"""
    def h(cx):
        tx = sx.Text(cx)
        src = cx.choose(SOURCES, "src")
        s = source(src)
        a, b = cx.choose([("", ""), ("//", "\n"), ("/*", "*/"), ("", "/**/"), ("\\", "\n"), ("//\n", ""), ("", " \r\n\t")], "form")
        g = a + tx.run(n) + b
        k = layout_kind(tx, g, False)
        if k != "layout":
            raise engine.Abandon
        gaps = {i: g for i in range(len(s.toks) + 1)}
        text = s.with_gaps(gaps)
        if not s.head and directive(tx, text):
            raise engine.Abandon
        compare(cx, tx, src, text)
        return dict(family="everywhere", text=tx.plain(text)[:90])
    return h


def dense(pool):
    """every blank between tokens that can go is gone, all but those of a window of two gaps"""
    return lambda cx: dense_(cx, pool)


def dense_(cx, pool):
    tx = sx.Text(cx)
    src = cx.choose(SOURCES, "src")
    s = source(src)
    g = {}
    for i in range(len(s.toks) + 1):
        g[i] = "" if legal_empty(s, i) else " "
    text = s.with_gaps(g)
    i = at(cx, s)
    g[i] = cx.choose(pool, "g")
    if i + 1 <= len(s.toks):
        g[i + 1] = cx.choose(["", " ", "\n"], "h") if legal_empty(s, i + 1) else cx.choose([" ", "\n", "/**/"], "h2")
    compare(cx, tx, src, s.with_gaps(g))
    return dict(family="dense", text=text[:60])


# ------------------------------------------------------------------------------------------------ spellings of one token sequence
def alternatives(s, i):
    """other spellings of token i (concrete pool): list of (first gap, token texts) replacing it"""
    k, t = s.kinds[i], s.toks[i]
    out = []
    if k in ("@", "§") and s.toks[i - 1] in (";", "{", ":", "}"):
        out = ["@", "§"]
    elif k == "INT":
        v = lang.int_value(t)
        sg, a = ("-", -v) if t.startswith("-") else ("", v)
        out = [sg + x for x in (str(a), hex(a), "0X%X" % a, "0x00%x" % a, "0o%o" % a, "0O0%o" % a, bin(a), "0B0" + bin(a)[2:])]
        if a == 0:
            out += [sg + "00", sg + "0000"]
    elif k == "DEC":
        sg, a = ("-", t[1:]) if t.startswith("-") else ("", t)
        w, f = a.split(".")
        w = w.lstrip("0")
        out = [sg + w + "." + f, sg + "0" + w + "." + f, sg + "000" + w + "." + f]
    elif k == "STR":
        v = lang.str_value_single(t)
        q = {"'": "'", '"': '"'}
        out = ["'" + esc(v, "'") + "'", '"' + esc(v, '"') + '"']
        if "Position" not in s.toks[max(0, i - 2):i] and s.toks[i - 1] != "import":
            out += ["'''" + v + "'''", '"""' + v + '"""']
    elif k == "MSTR":
        v = t[3:-3]
        out = ["'''" + v + "'''", '"""' + v + '"""'] + ["'" + v + "'", '"' + v + '"'] * ("\n" not in v and v == v.strip() and not set("'\"\\") & set(v))
    elif t in ("for_actor", "for_object", "for_performer"):
        out = [t, "for " + t[4:]]
    elif t in ("actor", "object", "performer") and s.toks[i - 1] == "for":
        out = []
    elif t in (")", "}") and s.toks[i - 1] != "," and trailing(s, i):
        out = [t, "," + t]
    elif t == "," and s.toks[i + 1] in (")", "}") and trailing(s, i + 1):
        out = [t, ""]
    return [x for x in out if x != t]


def esc(v, q):
    return v.replace("\n", "\\n").replace(q, "\\" + q)


def trailing(s, i):
    """token i closes an argument list (or a language string) with at least one argument"""
    d = 0
    for j in range(i - 1, -1, -1):
        t = s.toks[j]
        if t in (")", "}", "]") or (t == ">" and s.toks[j - 2] in ("actor", "object", "performer") or t == ">" and "Position" in s.toks[max(0, j - 7):j]):
            d += 1
        elif t in ("(", "{", "[") or (t == "<" and d and s.toks[j + 1] in ("actor", "object", "performer") or t == "<" and s.toks[j - 1] == "Position"):
            if d == 0:
                if j == i - 1:
                    return False
                if t == "{":
                    return s.toks[i] == "}" and s.toks[j + 2] == "="  and s.kinds[j + 1] == "ID" and s.kinds[j + 3] in ("STR", "MSTR")
                if s.toks[i] != ")":
                    return False
                return s.kinds[j - 1] in ("ID", "MACRO") and s.toks[j - 2] != "macro" or s.toks[j - 1] == ">"
            d -= 1
    return False


def respelled(s, subst, gap=None):
    """the source with other spellings of some tokens"""
    out = [s.head]
    for i in range(len(s.toks) + 1):
        g = s.gaps[i] if gap is None else gap.get(i, s.gaps[i])
        out.append(g)
        if i < len(s.toks):
            out.append(subst.get(i, s.toks[i]))
    return "".join(out)


def header_parens(s, subst):
    """`for_actor(X)` <-> `for actor X`: the parentheses go, too"""
    for i, x in list(subst.items()):
        if s.toks[i].startswith("for_"):
            subst[i + 1], subst[i + 3] = " ", ""
    return subst


SITES = {}


def sites(src):
    if src not in SITES:
        s = source(src)
        SITES[src] = [(i, a) for i in range(len(s.toks)) for a in alternatives(s, i)]
    return SITES[src]


SPELL = SOURCES + [
    "def 0{@a;a(-0x1F,0,-3,07.50,-.5,0.0,'s',\"d'q\",'d\"q',\"a\\nb\",{e='x',f='''y'''});~m('q',3);}macro m($a,$b){b($a,$b,$a);@c;if(debug){jump @c;}}",
    "def 0{switch($V){case 3:@a;case 0x0A:op(1,);@b;default:@c;a('x',);}if($A[3]||$B>=10){@d;}jump @d;}",
    "def 0 for_actor(5){a();}def 1 for_object(X){a();}def 2 for_performer($V){a();}def 3 for_actor(0x10){a();}def 4 for_performer(-1){alias previous;}",
    "def 0{a(Position<'p',10,03.5>,Position<\"q\",0x10,-.5>);b(Position<'d\"q',0.5,-00.5>);}",
    "def 0{op<actor 12>(1);with(object 0x2){a(2,);}$A[3]=5;$C=scn[12,0o3];dungeon_mode(9)=3;switch(scn($S)[1]){case menu('x'):a();case menu({e='y'}):b();}}",
    "def 0{message_SwitchTalk(12){case 1:'a' case 0x2:{e='b'} default:'''c'''}switch(random(10)){case 9:a();}if(scn($S)==[1,2]){b();}adventure_log=13;a(1);}def 0x1{b();}def 2{a(\"\",'');}",
]


def spelled(k, gaps=None):
    """k tokens in another spelling at once, layout of the pool around the first one"""
    def h(cx):
        tx = sx.Text(cx)
        src = cx.choose(SPELL, "src")
        s = source(src)
        ss = sites(src)
        if not ss:
            raise engine.Abandon
        subst, lo = {}, 0
        at = []
        for _ in range(k):
            if lo >= len(ss):
                raise engine.Abandon
            j = lo + cx.pick(len(ss) - lo, "site")
            i, a = ss[j]
            subst[i] = a
            at.append(i)
            lo = next((n for n in range(j, len(ss)) if ss[n][0] != i), len(ss))
        gap = {}
        if gaps:
            gap = {at[0]: cx.choose(gaps, "g"), at[0] + 1: cx.choose(gaps, "h")}
        text = respelled(s, header_parens(s, subst), gap)
        compare(cx, tx, src, text)
        return dict(family="spelled", text=text[:100])
    return h


def all_spelled(cx):
    """every token in its k-th spelling"""
    tx = sx.Text(cx)
    src = cx.choose(SPELL, "src")
    s = source(src)
    k = cx.pick(9, "k")
    g = cx.choose([None, "/**/", "\n", "//\r\n"], "gap")
    by = {}
    for i, a in sites(src):
        by.setdefault(i, []).append(a)
    subst = {i: v[k % len(v)] for i, v in by.items()}
    text = respelled(s, header_parens(s, subst), None if g is None else {i: g for i in range(len(s.toks) + 1)})
    compare(cx, tx, src, text)
    return dict(family="all_spelled", text=text[:100])


# ------------------------------------------------------------------------------------------------ literals with symbolic digits and characters
INTS = ["def 0{op(%s,1,%s);}", "def 0{op<actor %s>();}", "def 0{with(object %s){a();}}", "def 0 for actor %s{a();}", "def 0 for_object(%s){a();}", "macro m($a){op($a);}def 0{~m(%s);}",
        "def 0{switch($V){case %s:a();case>=%s:b();case menu2(%s):c();}}", "def 0{switch(random(%s)){case 1:a();}}", "def 0{switch(dungeon_mode(%s)){case 1:a();}}", "def 0{if($A==%s){a();}}",
        "def 0{while(not debug||$A<%s){a();}}", "def 0{if(scn($S)==[%s,%s]){a();}}", "def 0{if(scn($S)<[%s,2]){a();}}", "def 0{if($A[%s]){a();}}", "def 0{if(not $PERFORMANCE_PROGRESS_LIST[%s]){a();}}", "def 0{$A=%s;$B[%s]=1;$B[2]=%s;}",
        "def 0{$A=scn[%s,%s];}", "def 0{dungeon_mode(%s)=%s;}", "def 0{adventure_log=%s;}", "def 0{message_SwitchTalk(%s){case %s:'a'}}", "def 0{op(Position<'p',%s,%s>);}", "def 0{switch(scn($S)[%s]){case 1:a();}}",
        "def 0{switch(ProcessSpecial(%s,2,3)){case 1:a();}}", "def 0{if(BranchBit($A,%s)){a();}}", "def 0{for($i=%s;$i<%s;$i+=%s;){a();}}", "def 0{a(\"s\");}def %s{b();}", "def %s for actor %s{a();}",
        HEAD + "def 0{op(%s,%s);}", HEAD + "def %s for_actor(%s){a();}", HEAD + "def 0{op(%s,Position<'p',%s,2.5>);}"]
SMALLS = [t for t in INTS if "def %s" in t]
BASES = [("0x", "0123456789abcdefABCDEF", 16), ("0X", "0123456789abcdefABCDEF", 16), ("0o", "01234567", 8), ("0O", "01234567", 8), ("0b", "01", 2), ("0B", "01", 2), ("", "0123456789", 10)]


def value(tx, ds, base):
    e = z3.IntVal(0)
    for d in ds:
        e = e * base + sx.digit_term(tx, d)
    return e


def bases(n, dec, tmpl=INTS, signs=("", "-")):
    """an integer of dec decimal digits; the same one written with n digits of another base"""
    def h(cx):
        tx = sx.Text(cx)
        t = cx.choose(tmpl, "tmpl")
        sign = cx.choose(signs, "sign")
        pre, ds, base = cx.choose(BASES, "base")
        a = tx.run(dec, "d", cset.DIGIT)
        if dec > 1:
            tx.narrow(tx.sc(a[0]), cset.of("123456789"))
        if base == 10:
            # only zero has redundant digits
            if dec > 1:
                raise engine.Abandon
            tx.narrow(tx.sc(a[0]), cset.of("0"))
            b = "0" * (n + 1)
        else:
            b = tx.run(n, "b", cset.of(ds))
            tx.assume(value(tx, a, 10) == value(tx, b, base), [tx.sc(c) for c in a + b])
            if not tx.check():
                raise engine.Abandon
        x, y = t.replace("%s", sign + a), t.replace("%s", sign + pre + b)
        compare(cx, tx, x, y)
        return dict(family="bases", text=tx.plain(y))
    return h


DECS = ["def 0{op(%s,1,%s);}", "def 0{op<actor %s>();}", "macro m($a){op($a);}def 0{~m(%s);}", "def 0{switch($V){case %s:a();}}", "def 0{if($A==%s){a();}}", "def 0{$A=%s;}", "def 0{adventure_log=%s;}",
        "def 0{op(Position<'p',%s,%s>);}", "def 0{op(Position<'p',3,%s>);}", "def 0{with(object %s){a();}}", "def 0{message_SwitchTalk(%s){case %s:'a'}}", HEAD + "def 0{op(%s);}",
        HEAD + "def 0{op(Position<'p',%s,2>);}", "def 0{dungeon_mode(%s)=%s;}", "def 0{switch(random(%s)){case 1:a();}}", "def 0{clear %s;init %s;}"]


def decimals(w, f, zeros):
    """-w digits.f digits with redundant zeros in front"""
    def h(cx):
        tx = sx.Text(cx)
        t = cx.choose(DECS, "tmpl")
        sign = cx.choose(["", "-"], "sign")
        a = tx.run(w, "d", cset.DIGIT)
        b = tx.run(f, "f", cset.DIGIT)
        z = 1 + cx.pick(zeros, "zeros")
        x, y = sign + a + "." + b, sign + "0" * z + a + "." + b
        compare(cx, tx, t.replace("%s", x), t.replace("%s", y))
        return dict(family="decimals", text=tx.plain(y))
    return h


STRS = ["def 0{op(%s,1,%s);}", "def 0{op({e=%s,f=%s});}", "macro m($a){op($a);}def 0{~m(%s);}", "def 0{switch(op()){case menu(%s):a();}}", "def 0{message_SwitchTalk(1){case 1:%s default:{e=%s}}}",
        HEAD + "def 0{op(%s);}", HEAD + "def 0{op({e=%s});}"]
NLS = ("\n ", "\n  a\n ", "a\n", " \n", "\r\n", "\\n", "\\")
SSTR = STRS + ["def 0{op(Position<%s,1,2>);}", "def 0{~m();}macro m(){op(Position<%s,1,2>);}", HEAD + "def 0{op(Position<%s,1,2>);}"]
NOSINGLE = cset.of("\r\n\f\\")


def written(tx, cs, q):
    """the characters as content of a single line literal with this quote; both quotes may be escaped in it, the own one has to be"""
    return "".join("\\" + c if tx.member(c, cset.of(q)) else c for c in cs)


def quotes(n, tmpl=SSTR):
    """' against " """
    def h(cx):
        tx = sx.Text(cx)
        t = cx.choose(tmpl, "tmpl")
        cs = tx.run(n, "c", cset.minus(sx.ALL, NOSINGLE))
        a, b = "'" + written(tx, cs, "'") + "'", '"' + written(tx, cs, '"') + '"'
        # an empty literal next to another quote would be a longer one
        compare(cx, tx, t.replace("%s", a), t.replace("%s", b))
        return dict(family="quotes", text=tx.plain(b))
    return h


def escapes(n, tmpl=SSTR):
    """' against " with escape sequences"""
    def h(cx):
        tx = sx.Text(cx)
        t = cx.choose(tmpl, "tmpl")
        c1 = tx.run(1, "c", cset.minus(sx.ALL, cset.union(NOSINGLE, cset.of("'\""))))
        e = cx.choose(["\\n", "\\'", '\\"', "\\n\\n"], "esc")
        c2 = tx.run(n, "c", cset.minus(sx.ALL, cset.union(NOSINGLE, cset.of("'\""))))
        v = c1 + e + c2
        compare(cx, tx, t.replace("%s", "'" + v + "'"), t.replace("%s", '"' + v + '"'))
        return dict(family="escapes", text=tx.plain(v))
    return h


def triple(n, dom=sx.ALL, tmpl=STRS, pieces=("",)):
    """''' against \"\"\" """
    def h(cx):
        tx = sx.Text(cx)
        t = cx.choose(tmpl, "tmpl")
        v = cx.choose(pieces, "piece") + tx.run(n, "c", cset.minus(dom, cset.of("'\"")))
        compare(cx, tx, t.replace("%s", '"""' + v + '"""'), t.replace("%s", "'''" + v + "'''"))
        return dict(family="triple", text=tx.plain(v))
    return h


def single_multi(n, tmpl=STRS):
    """one line without blanks at its ends in all four styles"""
    def h(cx):
        tx = sx.Text(cx)
        t = cx.choose(tmpl, "tmpl")
        solid = cset.minus(sx.ALL, cset.union(NOSINGLE, cset.of("'\"\u2028\u2029\x85\x1c\x1d\x1e\x0b"), cset.pred("isspace")))
        inner = cset.minus(sx.ALL, cset.union(NOSINGLE, cset.of("'\"\u2028\u2029\x85\x1c\x1d\x1e\x0b")))
        v = "".join(tx.char("c", solid if i in (0, n - 1) else inner) for i in range(n))
        q = cx.choose(['"', "'''", '"""'], "q")
        compare(cx, tx, t.replace("%s", "'" + v + "'"), t.replace("%s", q + v + q))
        return dict(family="single_multi", text=tx.plain(v))
    return h


ID0 = cset.of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
IDN = cset.union(ID0, cset.DIGIT)


def headers(n):
    """for_actor(X) against for actor X, X: names and variables"""
    def h(cx):
        tx = sx.Text(cx)
        k = cx.choose(["actor", "object", "performer"], "kind")
        hd = cx.choose(["", HEAD], "ss")
        x = cx.choose(["", "$"], "var") + tx.char("c", ID0) + tx.run(n - 1, "c", IDN)
        body = cx.choose(["{a();}", "{a();@l;jump @l;}" if not hd else "{a(@l);@l;}"], "body")
        i = cx.pick(2, "id")
        f = ("def 0{b();}" if i else "") + "def %d %%s" % i + body + "def %d{alias previous;}" % (i + 1)
        g = cx.choose(["", " ", "\n", "/**/"], "gap")
        a, b = hd + f % ("for %s %s" % (k, x)), hd + f % ("for_%s%s(%s%s%s)" % (k, g, g, x, g))
        compare(cx, tx, a, b)
        return dict(family="headers", text=tx.plain(b))
    return h


def sigils(n):
    """@ against § at each label definition, layout behind it"""
    def h(cx):
        tx = sx.Text(cx)
        t = cx.choose(["def 0{%sL;a();jump @L;}", "def 0{if(debug){%sL;a();}else{jump @L;}}", "def 0{switch($V){case 1:%sL;default:%sM;a();}call @L;jump @M;}", "macro m(){%sL;a();if(edit){jump @L;}}def 0{~m();%sL;~m();jump @L;}",
                       "def 0{a();%sL;}def 1{%sM;jump @L;}", HEAD + "def 0{%sL;a(@L);%sM;b(@M);}"], "tmpl")
        l = tx.char("c", ID0) + tx.run(n - 1, "c", IDN)
        a, b = t.replace("%s", "@"), t
        for _ in range(t.count("%s")):
            b = b.replace("%s", cx.choose(["§", "@"], "sigil") + cx.choose(["", " ", "\n", "/*§*/"], "gap"), 1)
        compare(cx, tx, a.replace("L", l), b.replace("L", l))
        return dict(family="sigils", text=tx.plain(b))
    return h


# ------------------------------------------------------------------------------------------------ imported files
LIB = "macro m($a){op($a,Position<'p',1,2.5>);@l;if(debug){jump @l;}}macro n(){~m('x',);}"
PMAIN = 'import "./lib/a.exps";import "b.exps";def 0{~m(3,);~n();~k();}'
PB = 'import "../lib/a.exps";macro k(){~n();b();}'


def project(files):
    with proj.Scratch(files, ["look"]) as s:
        return Result(s.compile("main.exps"))


def psame(tx, a, b):
    """file names of position marks are those of the scratch directories"""
    a.marks = [(os.path.basename(f) if f else f, n, m) for f, n, m in a.marks]
    b.marks = [(os.path.basename(f) if f else f, n, m) for f, n, m in b.marks]


def imported(n):
    """layout in the imported files; quotes of the import statements"""
    def h(cx):
        tx = sx.Text(cx)
        files = {"main.exps": PMAIN, "lib/a.exps": LIB, "look/b.exps": PB}
        f = cx.choose(sorted(files), "file")
        s = source(files[f])
        how = cx.choose(["gap", "spell"], "how")
        new = dict(files)
        if how == "gap":
            a, b = cx.choose([("", ""), ("//", "\n"), ("/*", "*/")], "form")
            g = a + tx.run(n) + b
            k = layout_kind(tx, g, False)
            if k != "layout":
                raise engine.Abandon
            i = at(cx, s)
            new[f] = s.with_gaps({i: g})
            if i == 0 and directive(tx, new[f]):
                raise engine.Abandon
        else:
            ss = sites(files[f])
            i, a = ss[cx.pick(len(ss), "site")]
            new[f] = respelled(s, {i: a})
        key = ("proj",)
        if key not in _REF:
            cur, engine.CUR = engine.CUR, None
            try:
                _REF[key] = project(files)
            finally:
                engine.CUR = cur
        try:
            got = project(new)
        except (engine.Abandon, engine.Inconclusive, engine.Hang):
            raise
        except Exception as e:
            got = e
        ref = _REF[key]
        if not isinstance(got, Exception):
            psame(tx, ref, got)
        check_same(cx, tx, ref, got, lambda err: lambda m: dict(kind="project", a=files, b={x: tx.concrete(y, m) for x, y in new.items()}, err=err))
        return dict(family="imported", file=f)
    return h


# ------------------------------------------------------------------------------------------------ check
def judge(p):
    def get(x):
        return project(x) if p["kind"] == "project" else compiled(x)

    class TO(Exception):
        pass

    def alarm(*_):
        raise TO
    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(60)
    try:
        try:
            a = get(p["a"])
        except real.documented_errors():
            return None
        try:
            b = get(p["b"])
        except TO:
            return f"compiling {p['b']!r} does not terminate"
        except Exception as e:
            if p.get("lenient") and isinstance(e, real.documented_errors()):
                return None
            return f"{p['a']!r} is accepted, {p['b']!r} raises {type(e).__name__}: {str(e)[:100]}"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if p["kind"] == "project":
        psame(None, a, b)
    for w, c in conds(None, a, b):
        if not c:
            return f"{p['a']!r} and {p['b']!r} compile to different results (other {w})"


class C16(run.Check):
    id = "C16"
    level = "exploration"
    technique = ("symbolic execution of the real ANTLR lexer (its automaton split over symbolic characters), parser, readers and compiler on pairs of spellings; layout characters, comment texts, digits, names and "
                 "string contents are symbolic, z3 decides that the compiled operations, routine tables and position marks are equal")
    level_note = "all layout texts up to the stated length at every token boundary of the stated programs, all literals up to the stated lengths; programs outside of the set only through their constructs"
    seconds = {"quick": 100, "thorough": 3600}
    limit = 40
    bounds = {
        "quick": "layout: any text of up to 2 characters of all of Unicode in every gap between tokens of 17 programs covering every construct (3 characters for 1 program); comments of 7 forms with 1 (6 forms: 2) arbitrary "
                 "characters, 32 telling texts in 2 forms (9 programs); 5 layouts in each of 2 neighbouring gaps, 2 in each of any two (3 programs); the same layout with up to 2 arbitrary characters in all gaps; no layout where none is needed. Spellings: "
                 "every other spelling of every 1 and 2 tokens of 23 programs, with layout around 1, and of all tokens at once; integers of up to 2 decimal digits against up to 3 digits in each base in 30 places; decimals with up "
                 "to 2+1 digits and 1 to 3 zeros in 16 places; strings of up to 2 (one line: 3) arbitrary characters in each style in 10 places; header targets of up to 3 characters; imported files with 1 character of layout",
        "thorough": "any layout of up to 3 characters in every gap (4 for 5 programs), comments of 2 (5 programs: 3) characters; 20 layouts in neighbouring gaps, 8 in any two; every other spelling of 3 tokens; integers of up to 4 digits "
                    "against up to 8 digits of another base; decimals of up to 3+3 digits; strings of up to 4 characters; imported files with 3 characters of layout",
    }
    assumptions = ["layout is what the language specification and grammar call so: blanks, tabs, CR, LF, line and block comments, backslash line joining; other white space may be rejected, but must not change the result",
                   "lines //?: at the start of a file are attributes, not comments",
                   "triple quoted strings are compared with single line ones for texts of one line that does not start or end with white space"]

    def setup(self):
        sx.install(pygments=False)
        cm.load_all()
        cm.setup_ints()
        for s in SOURCES + SPELL:
            source(s)
            sites(s)

    def control(self):
        ok = judge(dict(kind="pair", a="def 0{a(1);}", b="def 0{a(2);}")) is not None and judge(dict(kind="pair", a="def 0{a(1);}", b="def 0{a(0x1 )\n;}")) is None
        return ok, "two programs with different numbers are told apart"

    def families(self, tier):
        few = [SOURCES[i] for i in SRC2]
        if tier == "quick":
            return [("bases11", bases(1, 1)), ("bases22", bases(2, 2)), ("bases31", bases(3, 1)), ("decimals11", decimals(1, 1, 3)), ("decimals02", decimals(0, 2, 2)), ("decimals21", decimals(2, 1, 1)), ("quotes0", quotes(0)),
                    ("quotes1", quotes(1)), ("quotes2", quotes(2)), ("escapes", escapes(1)), ("triple1", triple(1)), ("triple2", triple(2)), ("triplenl", triple(1, pieces=NLS)), ("single1", single_multi(1)),
                    ("single2", single_multi(2)), ("single3", single_multi(3)), ("headers1", headers(1)), ("headers3", headers(3)), ("sigils1", sigils(1)), ("imported1", imported(1)), ("free0", free(0)), ("free1", free(1)),
                    ("free2", free(2)), ("free3", free(3, few[1:2])), ("comments1", comments(1, None, COMMENTS[:5] + COMMENTS[-2:])), ("comments2", comments(2, few[:2], COMMENTS[:6])), ("texts", texts(FORMS[:2], SOURCES[::2])), ("texts0", texts(FORMS[2:], SOURCES[:1] + SOURCES[-1:], True)), ("near", two(POOL[:5], 1)), ("far", two([POOL[6], POOL[7]], 0, few[:3])),
                    ("every1", everywhere(1)), ("every2", everywhere(2)), ("dense", dense(POOL[:5])), ("spelled1", spelled(1)), ("spelled2", spelled(2)), ("spelledgaps", spelled(1, POOL[:4])), ("all_spelled", all_spelled)]
        return [("bases%d%d" % nd, bases(*nd)) for nd in ((1, 1), (2, 2), (3, 1), (2, 3), (3, 4), (4, 4), (8, 3), (6, 2))] + [("decimals%d%d%d" % x, decimals(*x)) for x in ((1, 1, 3), (0, 2, 3), (2, 1, 3), (2, 2, 3), (3, 3, 3), (0, 5, 2))] + \
            [("quotes%d" % n, quotes(n)) for n in (0, 1, 2, 3, 4)] + [("escapes%d" % n, escapes(n)) for n in (0, 1, 2)] + [("triple%d" % n, triple(n)) for n in (1, 2, 3, 4)] + [("triplenl%d" % n, triple(n, pieces=NLS)) for n in (1, 2, 3)] + \
            [("single%d" % n, single_multi(n)) for n in (1, 2, 3, 4, 5)] + [("headers%d" % n, headers(n)) for n in (1, 2, 3, 4, 5)] + [("sigils%d" % n, sigils(n)) for n in (1, 2, 3)] + [("imported%d" % n, imported(n)) for n in (1, 2, 3)] + \
            [("free%d" % n, free(n)) for n in (0, 1, 2, 3)] + [("comments%d" % n, comments(n)) for n in (1, 2)] + [("textsall", texts(FORMS)), ("near", two(POOL, 1)), ("nearmid", two(POOL, 2, mid=1)), ("every1", everywhere(1)),
             ("every2", everywhere(2)), ("every3", everywhere(3)), ("dense", dense(POOL)), ("spelled1", spelled(1)), ("spelled2", spelled(2)), ("spelledgaps", spelled(1, POOL)), ("all_spelled", all_spelled), ("far", two(POOL[:8], 0)),
             ("free4", free(4, few)), ("comments3", comments(3, few)), ("spelled3", spelled(3)), ("spelledgaps2", spelled(2, POOL[:6]))]

    def replay(self, p):
        return judge(p)

    confirm = replay


CHECK = C16
