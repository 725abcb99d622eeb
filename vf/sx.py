"""Symbolic characters.

A symbolic character is a code point of plane 16 inside an ordinary str (so that C code - slicing, joining, formatting - just moves it
around).  What it stands for is a z3 integer, restricted by a set of code points (its domain) and by relations with other characters.
Every place where the code under test looks at a character is routed here and forks:
  * comparisons, `in`, str methods, int() and regular expressions in the modules of the package, by rewriting their AST on import;
  * the ANTLR lexer, by letting its ATN simulator split the alphabet at a symbolic character into the classes that lead to different
    lexer states (the automaton is the one deserialised from the generated lexer of the package);
  * Pygments' RegexLexer (see `pygments_match`).
Code that is not intercepted sees a character unlike any other; counterexamples are replayed on the unpatched code in any case.
"""
from __future__ import annotations
import ast
import re
import sys
import types
import z3
from . import cset, engine

BASE = 0x100000
ALL = ((0, 0xD7FF), (0xE000, 0xFFFFF))
_int = int
_ser = [0]


class SC:
    __slots__ = ("i", "dom", "e", "rel", "flushed", "name")

    def __init__(self, i, dom, name):
        self.i, self.dom, self.name = i, dom, name
        self.e = z3.Int(name)
        self.rel = False
        self.flushed = None


def formula(e, dom):
    return z3.Or([e == a if a == b else z3.And(e >= a, e <= b) for a, b in dom])


class Text:
    """the symbolic characters of a path"""

    def __init__(self, cx):
        self.cx = cx
        cx.sx = self
        _ser[0] = (_ser[0] + 1) % 600
        self.base = BASE + 100 * _ser[0]
        self.cs = []
        self.eqs = {}

    # ------------------------------------------------------------ creation
    def char(self, label="c", dom=ALL):
        i = len(self.cs)
        if i >= 100:
            raise engine.Inconclusive("too many symbolic characters")
        self.cs.append(SC(i, cset.inter(dom, ALL), self.cx.fresh_name(label)))
        return chr(self.base + i)

    def run(self, n, label="c", dom=ALL):
        return "".join(self.char(label, dom) for _ in range(n))

    def sc(self, ch):
        """symbolic character of a one-character string / code point, or None"""
        o = ch if isinstance(ch, _int) else ord(ch)
        if o < BASE:
            return None
        i = o - self.base
        return self.cs[i] if 0 <= i < len(self.cs) else None

    def dom(self, ch):
        s = self.sc(ch)
        if s is not None:
            return s.dom
        o = ch if isinstance(ch, _int) else ord(ch)
        return ((o, o),)

    def const(self, ch):
        """the code point, when it is known, else None"""
        d = self.dom(ch)
        return d[0][0] if len(d) == 1 and d[0][0] == d[0][1] else None

    def term(self, ch):
        s = self.sc(ch)
        return s.e if s is not None else z3.IntVal(ord(ch))

    # ------------------------------------------------------------ decisions
    def narrow(self, s, dom):
        s.dom = dom
        if s.rel and not self.check():
            raise engine.Abandon

    def member(self, ch, cls):
        d = self.dom(ch)
        a = cset.inter(d, cls)
        if not a:
            return False
        if a == d:
            return True
        s = self.sc(ch)
        self.cx.w.stats.add("forks")
        if self.cx.pick(2, "in") == 0:
            self.narrow(s, a)
            return True
        self.narrow(s, cset.minus(d, cls))
        return False

    def cell(self, ch, cells):
        """index of the class (of a partition) the character is in"""
        d = self.dom(ch)
        live = [(k, x) for k, x in ((k, cset.inter(d, c)) for k, c in enumerate(cells)) if x]
        if not live:
            raise engine.Inconclusive("not a partition")
        if len(live) == 1:
            return live[0][0]
        self.cx.w.stats.add("forks")
        k, x = live[self.cx.pick(len(live), "cell")]
        self.narrow(self.sc(ch), x)
        return k

    def pin(self, ch):
        """give the character one value (loses generality; counted)"""
        s = self.sc(ch)
        if s is None:
            return ord(ch)
        if self.const(ch) is None:
            self.cx.w.stats.add("concretised")
            if s.rel:
                self.check() or self.abandon()
                v = self.cx.model().eval(s.e, model_completion=True).as_long()
            else:
                v = s.dom[0][0]
            self.narrow(s, ((v, v),))
        return s.dom[0][0]

    def abandon(self):
        raise engine.Abandon

    def eq(self, a, b):
        """equality of two characters"""
        if a == b:
            return True
        sa, sb = self.sc(a), self.sc(b)
        ca, cb = self.const(a), self.const(b)
        if ca is not None and cb is not None:
            return ca == cb
        if ca is not None:
            return self.member(b, ((ca, ca),))
        if cb is not None:
            return self.member(a, ((cb, cb),))
        x = cset.inter(sa.dom, sb.dom)
        if not x:
            return False
        k = (min(sa.i, sb.i), max(sa.i, sb.i))
        if k in self.eqs:
            return self.eqs[k]
        r = self.branch(sa.e == sb.e, (sa, sb))
        self.eqs[k] = r
        if r:
            sa.dom = sb.dom = x
        return r

    def branch(self, cond, chars=()):
        """fork on a relation"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cx = self.cx
        for s in chars:
            s.rel = True
        if cx.pos < len(cx.prefix):
            r = bool(cx.prefix[cx.pos])
            cx.pos += 1
            cx.trace.append(int(r))
        else:
            t, f = self.check(cond), self.check(z3.Not(cond))
            if not t and not f:
                raise engine.Abandon
            r = t
            if t and f:
                cx.alts.append((len(cx.trace), 0, None))
            cx.pos += 1
            cx.trace.append(int(r))
            cx.w.stats.add("forks")
        cx.add(cond if r else z3.Not(cond))
        return r

    # ------------------------------------------------------------ solver
    def flush(self):
        for s in self.cs:
            if s.flushed is not s.dom:
                self.cx.add(formula(s.e, s.dom))
                s.flushed = s.dom

    def check(self, *extra):
        self.flush()
        return self.cx.check(*extra)

    def assume(self, cond, chars=()):
        for s in chars:
            s.rel = True
        self.flush()
        self.cx.assume(cond)

    def fail(self, info):
        self.flush()
        self.cx.fail(info)

    def prove(self, cond, info):
        self.flush()
        self.cx.prove(cond, info)

    def concrete(self, s, m):
        out = []
        for ch in s:
            x = self.sc(ch)
            if x is None:
                out.append(ch)
                continue
            out.append(chr(self.value(x, m)))
        return "".join(out)

    def value(self, x, m):
        v = m.eval(x.e, model_completion=True).as_long()
        if not cset.has(x.dom, v):
            v = x.dom[0][0]
        return v

    def plain(self, s):
        """text with the known characters filled in"""
        return "".join(ch if self.const(ch) is None else chr(self.const(ch)) for ch in s)

    def same(self, a, b):
        """z3 condition / bool: two strings are equal"""
        if len(a) != len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            if x == y:
                if self.sc(x) is not None:
                    cs.append(self.term(x) == self.term(y))
                continue
            cx_, cy = self.const(x), self.const(y)
            if cx_ is not None and cy is not None:
                if cx_ != cy:
                    return False
                continue
            cs.append(self.term(x) == self.term(y))
        return z3.And(cs) if cs else True


def cur():
    cx = engine.CUR
    return None if cx is None else getattr(cx, "sx", None)


def symbolic(s):
    return not s.isascii() and any(c >= "\U00100000" for c in s)


# ------------------------------------------------------------------------------------- integers read from symbolic text
class TInt(_int):
    """an integer whose digits are symbolic characters"""

    def __new__(cls, e, chars):
        t = cur()
        v = 0
        s = _int.__new__(cls, v)
        s.e, s.chars, s.t = e, chars, t
        return s

    def pin(self):
        t = self.t
        for c in self.chars:
            t.pin(chr(t.base + c.i))
        t.check()
        return t.cx.model().eval(self.e, model_completion=True).as_long()

    def __hash__(self):
        return hash(self.pin())

    def __int__(self):
        return self.pin()

    __index__ = __int__
    __trunc__ = __int__

    def __repr__(self):
        return repr(self.pin())

    __str__ = __repr__

    def __format__(self, spec):
        return format(self.pin(), spec)

    def __bool__(self):
        return self.t.branch(self.e != 0, self.chars)

    def __neg__(self):
        return TInt(-self.e, self.chars)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __deepcopy__(self, m):
        return self

    __copy__ = lambda self: self


def iterm(v):
    from . import sym
    if type(v) is TInt or type(v) is sym.SymInt:
        return v.e
    return z3.IntVal(_int.__int__(v))


def _bin(name, op, swap):
    def f(self, o):
        if not isinstance(o, _int):
            return NotImplemented
        a, b = self.e, iterm(o)
        return TInt(op(b, a) if swap else op(a, b), list(dict.fromkeys(self.chars + getattr(o, "chars", []))))
    return f


for _n, _o in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("mul", lambda a, b: a * b)):
    setattr(TInt, f"__{_n}__", _bin(_n, _o, False))
    setattr(TInt, f"__r{_n}__", _bin(_n, _o, True))


def _rel(op):
    def f(self, o):
        if not isinstance(o, _int):
            return NotImplemented
        return self.t.branch(op(self.e, iterm(o)), self.chars + getattr(o, "chars", []))
    return f


for _n, _o in (("eq", lambda a, b: a == b), ("ne", lambda a, b: a != b), ("lt", lambda a, b: a < b), ("le", lambda a, b: a <= b),
               ("gt", lambda a, b: a > b), ("ge", lambda a, b: a >= b)):
    setattr(TInt, f"__{_n}__", _rel(_o))

HEXA = cset.of("0123456789abcdefABCDEF")


def digit_term(t, ch):
    """value of a hexadecimal digit"""
    c = t.const(ch)
    if c is not None:
        return z3.IntVal(_int(chr(c), 16))
    e = t.term(ch)
    d = t.dom(ch)
    if not cset.minus(d, cset.DIGIT):
        return e - 48
    return z3.If(e <= 57, e - 48, z3.If(e <= 70, e - 55, e - 87))


SPACE = None


def to_int(s, base=10):
    """int(s, base) of a text with symbolic characters"""
    t = cur()
    s = strip(s)
    i, sign = 0, 1
    bad = ValueError(f"invalid literal for int() with base {base}: {s!r}")

    def at(k, chars):
        return k < len(s) and t.member(s[k], cset.of(chars))
    if at(i, "-"):
        i, sign = 1, -1
    elif at(i, "+"):
        i = 1
    under = False
    b = base
    zero_only = False
    if base in (0, 2, 8, 16) and at(i, "0") and i + 1 < len(s):
        for chars, k in (("xX", 16), ("oO", 8), ("bB", 2)):
            if base in (0, k) and at(i + 1, chars):
                i += 2
                b = k
                if at(i, "_"):
                    i += 1
                break
        else:
            if base == 0:
                zero_only = True
    if b == 0:
        b = 10
    ds = cset.of("0123456789abcdefghijklmnopqrstuvwxyz"[:b] + "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[:max(0, b - 10)])
    if b > 16:
        raise engine.Inconclusive("base of an integer")
    out = []
    last_us = False
    for ch in s[i:]:
        if t.member(ch, ds):
            out.append(ch)
            last_us = False
        elif out and not last_us and t.member(ch, cset.of("_")):
            last_us = True
        elif not ch.isascii() and t.member(ch, cset.pred("isdecimal")):
            v = _int(chr(t.pin(ch)))
            if v >= b:
                raise bad
            out.append(str(v))
            last_us = False
        else:
            raise bad
    if not out or last_us:
        raise bad
    if zero_only:
        for ch in out:
            if not t.member(ch, cset.of("0")):
                raise bad
        return 0
    if all(t.const(c) is not None for c in out):
        return sign * _int(t.plain("".join(out)), b)
    e = z3.IntVal(0)
    for ch in out:
        e = e * b + digit_term(t, ch)
    cs = [t.sc(c) for c in out if t.sc(c) is not None]
    return TInt(sign * e, list(dict.fromkeys(cs)))


class _IntMeta(type):
    def __call__(cls, *a, **k):
        if a and type(a[0]) is TInt:
            return a[0]
        if a and isinstance(a[0], str) and symbolic(a[0]) and cur() is not None:
            return to_int(*a, **k)
        from . import sym
        return sym.HookInt(*a, **k)


class XInt(metaclass=_IntMeta):
    pass


# ------------------------------------------------------------------------------------- strings
def s_eq(a, b):
    t = cur()
    return len(a) == len(b) and all(t.eq(x, y) for x, y in zip(a, b))


def _clip(n, a, b):
    a, b, _ = slice(a, b).indices(n)
    return a, b


def s_find(s, sub, a=None, b=None):
    t = cur()
    a, b = _clip(len(s), a, b)
    k = len(sub)
    for i in range(a, b - k + 1):
        if all(t.eq(s[i + j], sub[j]) for j in range(k)):
            return i
    return -1


def s_rfind(s, sub, a=None, b=None):
    t = cur()
    a, b = _clip(len(s), a, b)
    k = len(sub)
    for i in range(b - k, a - 1, -1):
        if all(t.eq(s[i + j], sub[j]) for j in range(k)):
            return i
    return -1


def s_index(s, *a):
    r = s_find(s, *a)
    if r < 0:
        raise ValueError("substring not found")
    return r


def s_rindex(s, *a):
    r = s_rfind(s, *a)
    if r < 0:
        raise ValueError("substring not found")
    return r


def s_count(s, sub, a=None, b=None):
    a, b = _clip(len(s), a, b)
    if not sub:
        return max(0, b - a + 1)
    n = 0
    while True:
        i = s_find(s, sub, a, b)
        if i < 0:
            return n
        n += 1
        a = i + len(sub)


def s_replace(s, old, new, count=-1):
    if not old:
        return s.replace(old, new, count)
    out, a = [], 0
    while count != 0:
        i = s_find(s, old, a)
        if i < 0:
            break
        out += [s[a:i], new]
        a = i + len(old)
        count -= 1
    return "".join(out) + s[a:]


def s_startswith(s, p, a=None, b=None):
    if isinstance(p, tuple):
        return any(s_startswith(s, q, a, b) for q in p)
    a, b = _clip(len(s), a, b)
    return b - a >= len(p) and s_eq(s[a:a + len(p)], p)


def s_endswith(s, p, a=None, b=None):
    if isinstance(p, tuple):
        return any(s_endswith(s, q, a, b) for q in p)
    a, b = _clip(len(s), a, b)
    return b - a >= len(p) and s_eq(s[b - len(p):b], p)


def s_split(s, sep=None, maxsplit=-1):
    if sep is None:
        t = cur()
        sp = cset.pred("isspace")
        out, w, i = [], "", 0
        while i < len(s):
            if t.member(s[i], sp):
                if w:
                    out.append(w)
                    w = ""
                i += 1
            elif not w and maxsplit >= 0 and len(out) >= maxsplit:
                out.append(rstrip(s[i:]))
                return out
            else:
                w += s[i]
                i += 1
        return out + [w] if w else out
    if not sep:
        raise ValueError("empty separator")
    out, a = [], 0
    while maxsplit != 0:
        i = s_find(s, sep, a)
        if i < 0:
            break
        out.append(s[a:i])
        a = i + len(sep)
        maxsplit -= 1
    return out + [s[a:]]


def s_rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return s_split(s, sep)
    if sep is None:
        raise engine.Inconclusive("rsplit")
    out, b = [], len(s)
    while maxsplit != 0:
        i = s_rfind(s, sep, 0, b)
        if i < 0:
            break
        out.insert(0, s[i + len(sep):b])
        b = i
        maxsplit -= 1
    return [s[:b]] + out


def s_partition(s, sep):
    i = s_find(s, sep)
    return (s, "", "") if i < 0 else (s[:i], s[i:i + len(sep)], s[i + len(sep):])


def s_rpartition(s, sep):
    i = s_rfind(s, sep)
    return ("", "", s) if i < 0 else (s[:i], s[i:i + len(sep)], s[i + len(sep):])


def s_splitlines(s, keepends=False):
    t = cur()
    out, a, i = [], 0, 0
    while i < len(s):
        if t.member(s[i], cset.BREAKS):
            e = i
            i += 1
            if i < len(s) and t.member(s[e], cset.of("\r")) and t.member(s[i], cset.NL):
                i += 1
            out.append(s[a:i] if keepends else s[a:e])
            a = i
        else:
            i += 1
    if a < len(s):
        out.append(s[a:])
    return out


def _strip_set(chars):
    if chars is None:
        sp = cset.pred("isspace")
        t = cur()
        return lambda c: t.member(c, sp)
    t = cur()
    return lambda c: any(t.eq(c, d) for d in chars)


def lstrip(s, chars=None):
    p = _strip_set(chars)
    i = 0
    while i < len(s) and p(s[i]):
        i += 1
    return s[i:]


def rstrip(s, chars=None):
    p = _strip_set(chars)
    i = len(s)
    while i and p(s[i - 1]):
        i -= 1
    return s[:i]


def strip(s, chars=None):
    return rstrip(lstrip(s, chars), chars)


def s_removeprefix(s, p):
    return s[len(p):] if s_startswith(s, p) else s


def s_removesuffix(s, p):
    return s[:len(s) - len(p)] if p and s_endswith(s, p) else s


def _all_in(name):
    def f(s):
        t = cur()
        return bool(s) and all(t.member(c, cset.pred(name)) for c in s)
    return f


def s_isidentifier(s):
    t = cur()
    return bool(s) and t.member(s[0], cset.pred("isidentifier")) and all(t.member(c, cset.id_continue()) for c in s[1:])


def s_isascii(s):
    t = cur()
    return all(t.member(c, ((0, 127),)) for c in s)


def s_isprintable(s):
    t = cur()
    return all(t.member(c, cset.pred("isprintable")) for c in s)


def _case(name):
    def f(s):
        t = cur()
        out = []
        for c in s:
            if t.sc(c) is None:
                out.append(getattr(c, name)())
            elif t.member(c, cset.changed_by(name)):
                out.append(getattr(chr(t.pin(c)), name)())
            else:
                out.append(c)
        return "".join(out)
    return f


def _pinned(name):
    def f(s, *a, **k):
        t = cur()
        for x in (s,) + a:
            if isinstance(x, str):
                for c in x:
                    t.pin(c)
        a = tuple(t.plain(x) if isinstance(x, str) else x for x in a)
        return getattr(t.plain(s), name)(*a, **k)
    return f


def s_expandtabs(s, tabsize=8):
    return s_replace(s, "\t", " " * tabsize) if "\n" not in s else _pinned("expandtabs")(s, tabsize)


STR = {"find": s_find, "rfind": s_rfind, "index": s_index, "rindex": s_rindex, "count": s_count, "replace": s_replace,
       "startswith": s_startswith, "endswith": s_endswith, "split": s_split, "rsplit": s_rsplit, "partition": s_partition,
       "rpartition": s_rpartition, "splitlines": s_splitlines, "strip": strip, "lstrip": lstrip, "rstrip": rstrip,
       "removeprefix": s_removeprefix, "removesuffix": s_removesuffix, "isidentifier": s_isidentifier, "isascii": s_isascii,
       "isprintable": s_isprintable, "lower": _case("lower"), "upper": _case("upper"), "casefold": _case("casefold"),
       "__eq__": s_eq, "__contains__": lambda s, x: s_find(s, x) >= 0}
for _n in ("isdigit", "isdecimal", "isnumeric", "isspace", "isalpha", "isalnum"):
    STR[_n] = _all_in(_n)
for _n in ("title", "capitalize", "swapcase", "expandtabs", "isupper", "islower", "istitle", "translate"):
    STR[_n] = _pinned(_n)


# ------------------------------------------------------------------------------------- regular expressions
from re import _parser as _p, _constants as _k      # noqa: E402

_CAT = {_k.CATEGORY_DIGIT: r"\d", _k.CATEGORY_NOT_DIGIT: r"\D", _k.CATEGORY_SPACE: r"\s", _k.CATEGORY_NOT_SPACE: r"\S",
        _k.CATEGORY_WORD: r"\w", _k.CATEGORY_NOT_WORD: r"\W"}


class SMatch:
    def __init__(self, rx, s, pos, spans):
        self.re, self.string, self.pos, self.endpos = rx, s, pos, len(s)
        self._s = spans
        self.lastindex = max((k for k in spans if k), default=None)

    def _k(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        if not 0 <= g <= self.re.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        return self._s.get(self._k(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _g(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else self.string[a:b]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = tuple(self._g(g) for g in gs)
        return r[0] if len(r) == 1 else r

    __getitem__ = lambda self, g: self._g(g)

    def groups(self, default=None):
        return tuple(self._g(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._g(g, default) for n, g in self.re.groupindex.items()}

    @property
    def lastgroup(self):
        for n, g in self.re.groupindex.items():
            if g == self.lastindex:
                return n

    def expand(self, tpl):
        out, i = [], 0
        for m in re.finditer(r"\\(?:g<(\w+)>|(\d{1,2})|(.))", tpl, re.S):
            out.append(tpl[i:m.start()])
            i = m.end()
            if m[1] is not None:
                out.append(self._g(_int(m[1]) if m[1].isdigit() else m[1], ""))
            elif m[2] is not None:
                out.append(self._g(_int(m[2]), ""))
            else:
                out.append({"n": "\n", "t": "\t", "r": "\r", "\\": "\\"}.get(m[3], "\\" + m[3]))
        return "".join(out) + tpl[i:]


class RX:
    """matcher for a parsed pattern"""
    cache = {}

    def __init__(self, rx):
        self.rx = rx
        self.tree = _p.parse(rx.pattern, rx.flags & ~re.UNICODE if isinstance(rx.pattern, bytes) else rx.flags)
        self.flags = rx.flags
        self.cls = {}

    @staticmethod
    def of(rx):
        r = RX.cache.get(rx)
        if r is None:
            r = RX.cache[rx] = RX(rx)
        return r

    def klass(self, op, av):
        key = (op, str(av))
        r = self.cls.get(key)
        if r is None:
            r = self.cls[key] = self._klass(op, av)
        return r

    def _klass(self, op, av):
        fl = "(?a:%s)" if self.flags & re.ASCII else "%s"
        if self.flags & re.IGNORECASE and op in (_k.LITERAL, _k.NOT_LITERAL, _k.RANGE):
            pat = lambda a, b: "(?i:[%s-%s])" % (re.escape(chr(a)), re.escape(chr(b)))
            if op is _k.RANGE:
                return cset.matching(pat(*av))
            r = cset.matching(pat(av, av))
            return r if op is _k.LITERAL else cset.neg(r)
        if op is _k.LITERAL:
            return ((av, av),)
        if op is _k.NOT_LITERAL:
            return cset.neg(((av, av),))
        if op is _k.ANY:
            return cset.FULL if self.flags & re.DOTALL else cset.neg(cset.NL)
        if op is _k.RANGE:
            return (tuple(av),)
        if op is _k.CATEGORY:
            return cset.matching(fl % _CAT[av])
        if op is _k.IN:
            n = False
            xs = []
            for o, a in av:
                if o is _k.NEGATE:
                    n = True
                else:
                    xs.append(self._klass(o, a))
            r = cset.union(*xs)
            return cset.neg(r) if n else r
        return None

    def inn(self, ch, cls):
        t = cur()
        if t is None or ch < "\U00100000" or t.sc(ch) is None:
            return cset.has(cls, ord(ch))
        return t.member(ch, cls)

    def word(self, s, i):
        return 0 <= i < len(s) and self.inn(s[i], cset.matching(r"\w"))

    def at(self, av, s, i, multi):
        if av is _k.AT_BEGINNING:
            return i == 0 or multi and self.inn(s[i - 1], cset.NL)
        if av is _k.AT_BEGINNING_STRING:
            return i == 0
        if av is _k.AT_END:
            return i == len(s) or i == len(s) - 1 and self.inn(s[i], cset.NL) or multi and self.inn(s[i], cset.NL)
        if av is _k.AT_END_STRING:
            return i == len(s)
        if av is _k.AT_BOUNDARY:
            return self.word(s, i - 1) != self.word(s, i)
        if av is _k.AT_NON_BOUNDARY:
            return self.word(s, i - 1) == self.word(s, i)
        raise engine.Inconclusive(f"regex {av}")

    def m(self, items, k, s, i, g):
        """generator of (end, groups)"""
        if k == len(items):
            yield i, g
            return
        op, av = items[k]
        if op in (_k.LITERAL, _k.NOT_LITERAL, _k.ANY, _k.IN):
            if i < len(s) and self.inn(s[i], self.klass(op, av)):
                yield from self.m(items, k + 1, s, i + 1, g)
        elif op is _k.AT:
            if self.at(av, s, i, self.flags & re.MULTILINE):
                yield from self.m(items, k + 1, s, i, g)
        elif op is _k.BRANCH:
            for alt in av[1]:
                for j, h in self.m(list(alt), 0, s, i, g):
                    yield from self.m(items, k + 1, s, j, h)
        elif op is _k.SUBPATTERN:
            grp, add, sub, p = av
            if add or sub:
                raise engine.Inconclusive("regex: inline flags")
            for j, h in self.m(list(p), 0, s, i, g):
                if grp is not None:
                    h = {**h, grp: (i, j)}
                yield from self.m(items, k + 1, s, j, h)
        elif op in (_k.MAX_REPEAT, _k.POSSESSIVE_REPEAT):
            lo, hi, p = av
            p = list(p)
            single = len(p) == 1 and p[0][0] in (_k.LITERAL, _k.NOT_LITERAL, _k.ANY, _k.IN)
            if single or op is _k.POSSESSIVE_REPEAT:
                ends, h = [(i, g)], g
                j = i
                while len(ends) - 1 < hi:
                    r = next(self.m(p, 0, s, j, h), None)
                    if r is None or r[0] == j:
                        break
                    j, h = r
                    ends.append(r)
                if op is _k.POSSESSIVE_REPEAT:
                    ends = [e for n, e in enumerate(ends) if n == len(ends) - 1 and n >= lo]
                    lo = 0
                for j, h in reversed(ends[lo:]):
                    yield from self.m(items, k + 1, s, j, h)
            else:
                yield from self.rep(p, lo, hi, items, k, s, i, g, True, 0)
        elif op is _k.MIN_REPEAT:
            lo, hi, p = av
            yield from self.rep(list(p), lo, hi, items, k, s, i, g, False, 0)
        elif op is _k.ASSERT or op is _k.ASSERT_NOT:
            d, p = av
            p = list(p)
            if d > 0:
                r = next(self.m(p, 0, s, i, g), None)
            else:
                w = p and _width(p)
                r = None if w is None or i - w < 0 else next((x for x in self.m(p, 0, s, i - (w or 0), g) if x[0] == i), None)
            if op is _k.ASSERT:
                if r is not None:
                    yield from self.m(items, k + 1, s, i, r[1])
            elif r is None:
                yield from self.m(items, k + 1, s, i, g)
        elif op is _k.GROUPREF:
            if av in g:
                x = s[g[av][0]:g[av][1]]
                y = s[i:i + len(x)]
                if (s_eq(x, y) if symbolic(x + y) else x == y):
                    yield from self.m(items, k + 1, s, i + len(x), g)
        elif op is _k.ATOMIC_GROUP:
            r = next(self.m(list(av), 0, s, i, g), None)
            if r is not None:
                yield from self.m(items, k + 1, s, r[0], r[1])
        else:
            raise engine.Inconclusive(f"regex {op}")

    def rep(self, p, lo, hi, items, k, s, i, g, greedy, n):
        if n < lo:
            for j, h in self.m(p, 0, s, i, g):
                yield from self.rep(p, lo, hi, items, k, s, j, h, greedy, n + 1)
            return
        if not greedy:
            yield from self.m(items, k + 1, s, i, g)
        if n < hi:
            for j, h in self.m(p, 0, s, i, g):
                if j != i:
                    yield from self.rep(p, lo, hi, items, k, s, j, h, greedy, n + 1)
        if greedy:
            yield from self.m(items, k + 1, s, i, g)

    # ------------------------------------------------------------ API
    def match_at(self, s, i, full=False):
        sys.setrecursionlimit(max(sys.getrecursionlimit(), 8000))
        for j, g in self.m(list(self.tree), 0, s, i, {}):
            if full and j != len(s):
                continue
            return SMatch(self.rx, s, i, {**g, 0: (i, j)})
        return None

    def match(self, s, pos=0, endpos=None):
        return self.match_at(s if endpos is None else s[:endpos], pos)

    def fullmatch(self, s, pos=0, endpos=None):
        return self.match_at(s if endpos is None else s[:endpos], pos, True)

    def search(self, s, pos=0, endpos=None):
        s = s if endpos is None else s[:endpos]
        for i in range(pos, len(s) + 1):
            r = self.match_at(s, i)
            if r is not None:
                return r
        return None

    def finditer(self, s, pos=0, endpos=None):
        s = s if endpos is None else s[:endpos]
        i = pos
        last_empty = None
        while i <= len(s):
            m = self.search(s, i)
            if m is None:
                return
            if m.end() == m.start() and m.start() == last_empty:
                i += 1
                continue
            yield m
            if m.end() == m.start():
                i = m.end() + 1
            else:
                i = m.end()
                last_empty = None

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            n = self.rx.groups
            out.append(m.group() if n == 0 else m.groups("")[0] if n == 1 else m.groups(""))
        return out

    def subn(self, repl, s, count=0):
        out, i, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out += [s[i:m.start()], repl(m) if callable(repl) else m.expand(repl)]
            i = m.end()
            n += 1
        return "".join(out) + s[i:], n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        out, i, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out += [s[i:m.start()], *m.groups()]
            i = m.end()
            n += 1
        return out + [s[i:]]


def _width(items):
    w = 0
    for op, av in items:
        if op in (_k.LITERAL, _k.NOT_LITERAL, _k.ANY, _k.IN):
            w += 1
        elif op is _k.AT:
            pass
        elif op is _k.SUBPATTERN:
            x = _width(list(av[3]))
            if x is None:
                return None
            w += x
        else:
            return None
    return w


REM = ("match", "fullmatch", "search", "finditer", "findall", "sub", "subn", "split")


# ------------------------------------------------------------------------------------- what the rewritten modules call
def is_sym(x):
    return isinstance(x, str) and not x.isascii() and symbolic(x)


# library modules whose functions look at the characters of texts
LOOKING = {"json", "shlex", "html", "unicodedata", "string", "fnmatch", "difflib", "ast", "codecs", "locale"}


def call(o, name, *a, **k):
    if o is str:
        if name in STR and a and isinstance(a[0], str) and any(is_sym(x) for x in a) and cur() is not None:
            return STR[name](*a, **k)
    elif isinstance(o, str):
        if name in STR and (is_sym(o) or any(is_sym(x) for x in a)) and cur() is not None:
            return STR[name](o, *a, **k)
    elif o is re:
        if name in REM:
            i = 2 if name in ("sub", "subn") else 1
            if len(a) > i and is_sym(a[i]) and cur() is not None:
                fl = k.pop("flags", 0)
                return getattr(RX.of(re.compile(a[0], fl)), name)(*a[1:], **k)
    elif isinstance(o, re.Pattern):
        if name in REM:
            i = 1 if name in ("sub", "subn") else 0
            if len(a) > i and is_sym(a[i]) and cur() is not None:
                return getattr(RX.of(o), name)(*a, **k)
    elif isinstance(o, dict):
        if name in DICTM and a:
            a = (key(o, a[0]),) + a[1:]
    elif isinstance(o, list):
        if name in LISTM and a and isinstance(a[0], str) and cur() is not None and a[0] not in o:
            for x in o:
                if isinstance(x, str) and (is_sym(a[0]) or is_sym(x)) and s_eq(a[0], x):
                    a = (x,) + a[1:]
                    break
    elif type(o) is types.ModuleType and o.__name__ in LOOKING:
        t = cur()
        if t is not None and any(is_sym(x) for x in a):
            for x in a:
                for c in x if is_sym(x) else ():
                    t.pin(c)
            a = [t.plain(x) if is_sym(x) else x for x in a]
    return getattr(o, name)(*a, **k)


class _StrM:
    """str.method used as a value"""

    def __getattr__(self, name):
        f = getattr(str, name)
        if name not in STR:
            return f
        return lambda *a, **k: call(str, name, *a, **k)


STRM = _StrM()


def key(d, k):
    """the key of a dictionary that equals k (dictionaries compare characters by identity)"""
    if type(k) is TInt and isinstance(d, (list, tuple, str)):
        return k.pin()
    if not isinstance(k, str) or not isinstance(d, dict) or cur() is None or dict.__contains__(d, k):
        return k
    sym = is_sym(k)
    for x in list(d):
        if isinstance(x, str) and (sym or is_sym(x)) and s_eq(k, x):
            return x
    return k


def get(o, k):
    return o[key(o, k)] if isinstance(o, dict) or type(k) is TInt else o[k]


DICTM = {"get", "pop", "setdefault", "__getitem__", "__contains__"}
LISTM = {"index", "remove", "count"}


def _in(a, b):
    if isinstance(b, str):
        if isinstance(a, str) and (is_sym(a) or is_sym(b)):
            return s_find(b, a) >= 0
        return a in b
    if isinstance(a, str) and isinstance(b, (list, tuple, set, frozenset, dict)):
        if is_sym(a) or any(is_sym(x) for x in b):
            return any(isinstance(x, str) and (s_eq(a, x) if is_sym(a) or is_sym(x) else a == x) for x in b)
    return a in b


def _lt(a, b):
    t = cur()
    for x, y in zip(a, b):
        if t.eq(x, y):
            continue
        c, d = t.const(x), t.const(y)
        if c is not None and d is not None:
            return c < d
        if d is not None:
            return t.member(x, ((0, d - 1),) if d else ())
        if c is not None:
            return t.member(y, ((c + 1, cset.TOP),))
        return t.branch(t.term(x) < t.term(y), [s for s in (t.sc(x), t.sc(y)) if s])
    return len(a) < len(b)


def compare(op, a, b):
    if op in ("in", "notin"):
        if cur() is None:
            return a in b if op == "in" else a not in b
        r = _in(a, b)
        return r if op == "in" else not r
    if isinstance(a, str) and isinstance(b, str) and (is_sym(a) or is_sym(b)) and cur() is not None:
        if op == "==":
            return s_eq(a, b)
        if op == "!=":
            return not s_eq(a, b)
        if op == "<":
            return _lt(a, b)
        if op == ">":
            return _lt(b, a)
        if op == "<=":
            return not _lt(b, a)
        return not _lt(a, b)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and cur() is not None and any(is_sym(x) for x in (*a, *b)):
        sub = lambda x, y: all(_in(e, y) for e in sorted(x, key=repr))
        if op == "<=":
            return sub(a, b)
        if op == ">=":
            return sub(b, a)
        if op == "==":
            return sub(a, b) and sub(b, a)
        if op == "!=":
            return not (sub(a, b) and sub(b, a))
    if op == "==":
        return a == b
    if op == "!=":
        return a != b
    if op == "<":
        return a < b
    if op == ">":
        return a > b
    if op == "<=":
        return a <= b
    return a >= b


def x_ord(c):
    t = cur()
    if t is None or not is_sym(c) or len(c) != 1:
        return ord(c)
    s = t.sc(c)
    if s is None:
        return ord(c)
    k = t.const(c)
    return k if k is not None else TInt(s.e, [s])


def x_float(*a):
    t = cur()
    if a and is_sym(a[0]) and t is not None:
        for c in a[0]:
            t.pin(c)
        return float(t.plain(a[0]))
    return float(*a)


OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.In: "in", ast.NotIn: "notin"}


class Rewrite(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in OPS:
            return ast.copy_location(ast.Call(ast.Name("_sx_compare", ast.Load()),
                                              [ast.Constant(OPS[type(n.ops[0])]), n.left, n.comparators[0]], []), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "_sx_str":
            return n
        if isinstance(f, ast.Attribute) and f.attr != "f" and not (isinstance(f.value, ast.Name) and f.value.id in ("logger", "logging", "warnings")):
            return ast.copy_location(ast.Call(ast.Name("_sx_call", ast.Load()), [f.value, ast.Constant(f.attr)] + n.args, n.keywords), n)
        if isinstance(f, ast.Name) and f.id in ("int", "ord", "float"):
            n.func = ast.copy_location(ast.Name("_sx_" + f.id, ast.Load()), f)
        return n

    def visit_Subscript(self, n):
        import copy
        self.generic_visit(n)
        if isinstance(n.slice, (ast.Slice, ast.Tuple)) or isinstance(n.slice, ast.Constant) and not isinstance(n.slice.value, str):
            return n
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name("_sx_get", ast.Load()), [n.value, n.slice], []), n)
        if isinstance(n.value, (ast.Name, ast.Attribute)):
            v = copy.deepcopy(n.value)
            for x in ast.walk(v):
                if hasattr(x, "ctx"):
                    x.ctx = ast.Load()
            n.slice = ast.copy_location(ast.Call(ast.Name("_sx_key", ast.Load()), [v, n.slice], []), n.slice)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Name) and n.value.id == "str" and isinstance(n.ctx, ast.Load):
            n.value = ast.copy_location(ast.Name("_sx_str", ast.Load()), n.value)
        return n

    def visit_MatchValue(self, n):
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arg(self, n):
        return n


def install(pygments=False):
    from . import loader
    import os
    also = {}
    for n in ("textwrap",):
        sys.modules.pop(n, None)
        also[n] = os.path.join(os.path.dirname(os.__file__), n + ".py")
    if pygments:
        import pygments as P
        also["pygments.lexer"] = os.path.join(os.path.dirname(P.__file__), "lexer.py")
    f = loader.install(lambda t: Rewrite().visit(t),
                       {"_sx_compare": compare, "_sx_call": call, "_sx_int": XInt, "_sx_ord": x_ord, "_sx_float": x_float, "_sx_str": STRM, "_sx_get": get, "_sx_key": key}, also=also)
    patch_antlr()
    if pygments:
        from pygments.lexer import RegexLexerMeta
        orig = RegexLexerMeta._process_regex

        def process(cls, regex, rflags, state):
            m = orig(cls, regex, rflags, state)
            rx = getattr(m, "__self__", None)
            if not isinstance(rx, re.Pattern):
                return m

            def match(text, pos, *a):
                if is_sym(text) and cur() is not None:
                    return RX.of(rx).match(text, pos, *a)
                return m(text, pos, *a)
            return match
        RegexLexerMeta._process_regex = process
    return f


# ------------------------------------------------------------------------------------- ANTLR lexer
def patch_antlr():
    from antlr4.atn.LexerATNSimulator import LexerATNSimulator as L
    from antlr4.atn.Transition import Transition as T
    if getattr(L, "_sx", False):
        return
    L._sx = True
    exist, comp, consume = L.getExistingTargetState, L.computeTargetState, L.consume
    tables = {}

    def target(self, inp, s, c):
        r = exist(self, s, c)
        return comp(self, inp, s, c) if r is None else r

    def label(tr):
        k = tr.serializationType
        if k == T.ATOM:
            return ((tr.label_, tr.label_),) if tr.label_ >= 0 else ()
        if k == T.RANGE:
            return ((tr.start, tr.stop),)
        if k == T.SET or k == T.NOT_SET:
            x = cset.norm([(r.start, r.stop - 1) for r in tr.label.intervals or [] if r.start >= 0])
            return x if k == T.SET else cset.neg(x)
        if k == T.WILDCARD:
            return cset.FULL
        return ()

    def table(self, inp, s):
        key = (id(s), id(s.configs))
        r = tables.get(key)
        if r is not None:
            return r[1]
        labels = {label(tr) for cfg in s.configs for tr in cfg.state.transitions} - {()}
        cuts = sorted({0} | {a for l in labels for a, _ in l} | {b + 1 for l in labels for _, b in l if b < cset.TOP})
        cells = {}
        for k, a in enumerate(cuts):
            b = cuts[k + 1] - 1 if k + 1 < len(cuts) else cset.TOP
            sig = frozenset(l for l in labels if cset.has(l, a))
            cells.setdefault(sig, []).append((a, b))
        out = {}
        for iv in cells.values():
            rep = iv[0][0]
            tg = target(self, inp, s, rep)
            out.setdefault(id(tg), [[], tg])[0].extend(iv)
        out = [(cset.norm(iv), tg) for iv, tg in out.values()]
        out.sort(key=lambda x: x[0])
        tables[key] = (s, out, s.configs)
        return out

    def existing(self, s, t):
        if t < BASE:
            return exist(self, s, t)
        tx = cur()
        if tx is None or tx.sc(t) is None:
            return exist(self, s, t)
        c = tx.const(t)
        if c is not None:
            return target(self, self._sx_in, s, c)
        tab = table(self, self._sx_in, s)
        return tab[tx.cell(t, [x for x, _ in tab])][1]

    ex = L.execATN

    def execATN(self, inp, ds0):
        self._sx_in = inp
        try:
            return ex(self, inp, ds0)
        finally:
            self._sx_in = None

    def cons(self, inp):
        c = inp.LA(1)
        if c >= BASE:
            tx = cur()
            if tx is not None and tx.sc(c) is not None and tx.const(c) == 10:
                self.line += 1
                self.column = 0
            else:
                self.column += 1
            inp.consume()
        else:
            consume(self, inp)

    L.getExistingTargetState = existing
    L.execATN = execATN
    L.consume = cons
