"""ExplorerScript: an independent lexer/parser (written from the grammar documents and docs/language_spec.rst, not from
the code), an AST, a renderer, and the reference semantics (source program -> labelled transition system).

Nothing here imports explorerscript; this is the oracle side.
"""
from __future__ import annotations
import re

PERF = "$PERFORMANCE_PROGRESS_LIST"
KEYWORDS = """FALSE TRUE not jump call import macro if elseif else forever with switch return end hold continue break
break_loop value debug edit variation random sector dungeon_mode menu2 menu case default clear reset init scn
dungeon_result adventure_log message_SwitchTalk message_SwitchMonologue while for_actor for_object for_performer coro def
alias for previous Position""".split()
KW = set(KEYWORDS)
PUNCT = ["&<<", "==", "<=", ">=", "!=", "-=", "+=", "*=", "/=", "||", "=", "<", ">", "&", "^", "[", "]", "(", ")", ",",
         ":", "+", "@", "\u00a7", "{", "}", ";"]
_ident = r"[a-zA-Z_][0-9a-zA-Z_]*"
_RULES = [
    ("MSTR", re.compile(r"'''.*?'''|\"\"\".*?\"\"\"", re.S)),
    ("STR", re.compile(r"'(?:\\.|[^\\\r\n\f'])*'|\"(?:\\.|[^\\\r\n\f\"])*\"", re.S)),
    ("ID", re.compile(_ident)),
    ("VAR", re.compile(r"\$" + _ident)),
    ("MACRO", re.compile("~" + _ident)),
    ("INT", re.compile(r"-?0[oO][0-7]+|-?0[xX][0-9a-fA-F]+|-?0[bB][01]+|-?[1-9][0-9]*|-?0+")),
    ("DEC", re.compile(r"-?[0-9]+\.[0-9]+|-?\.[0-9]+")),
    ("SKIP", re.compile(r"//[^\r\n]*|/\*.*?(?:\*/|\Z)|[ \t\n\r]+|\\[ \t\n\r]*(?:\r?\n|\r|\f)", re.S)),
]


class LangError(Exception):
    """The text is not an ExplorerScript program (by the grammar) or not statically valid (by the language spec)."""


class Tok:
    __slots__ = ("k", "t", "i", "line", "col")

    def __init__(self, k, t, i, line, col):
        self.k, self.t, self.i, self.line, self.col = k, t, i, line, col

    def __repr__(self):
        return f"{self.k}:{self.t!r}@{self.line}:{self.col}"


def lex(text):
    """Longest match, first rule wins ties (ANTLR).  Lines end with \\n only (ANTLR counts only \\n)."""
    out = []
    i, n = 0, len(text)
    line, ls = 0, 0
    while i < n:
        best, bk = 0, None
        for k, rx in _RULES:
            m = rx.match(text, i)
            if m and m.end() - i > best:
                best, bk = m.end() - i, k
        for p in PUNCT:
            if len(p) > best and text.startswith(p, i):
                best, bk = len(p), p
        if bk is None:
            raise LangError(f"unknown character {text[i]!r} at {line}:{i - ls}")
        t = text[i:i + best]
        if bk == "ID" and t in KW:
            bk = t
        if bk != "SKIP":
            out.append(Tok(bk, t, i, line, i - ls))
        for j in range(i, i + best):
            if text[j] == "\n":
                line += 1
                ls = j + 1
        i += best
    out.append(Tok("EOF", "<EOF>", n, line, n - ls))
    return out


class N:
    __slots__ = ("k", "a", "t0", "t1")

    def __init__(self, k, *a, t0=None, t1=None):
        self.k, self.a, self.t0, self.t1 = k, a, t0, t1

    def __repr__(self):
        return f"{self.k}({', '.join(map(repr, self.a))})"

    def __eq__(self, o):
        return isinstance(o, N) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, repr(self.a)))


COND_OPS = ["FALSE", "TRUE", "==", ">", "<", ">=", "<=", "!=", "&", "^", "&<<"]
COND_VAL = {o: i for i, o in enumerate(COND_OPS)}
ASSIGN_OPS = ["=", "-=", "+=", "*=", "/="]
ASSIGN_VAL = {o: i for i, o in enumerate(ASSIGN_OPS)}


class Parser:
    def __init__(self, text, tokens=None):
        self.text = text
        self.ts = tokens if tokens is not None else lex(text)
        self.p = 0

    # -- helpers
    @property
    def cur(self):
        return self.ts[self.p]

    def la(self, n=1):
        return self.ts[min(self.p + n, len(self.ts) - 1)].k

    def err(self, what=""):
        raise LangError(f"syntax error at {self.cur!r} {what}")

    def ex(self, k):
        t = self.cur
        if t.k != k:
            self.err(f"expected {k}")
        self.p += 1
        return t

    def acc(self, k):
        if self.cur.k == k:
            self.p += 1
            return self.ts[self.p - 1]
        return None

    def mk(self, k, t0, *a):
        return N(k, *a, t0=t0, t1=self.ts[self.p - 1])

    # -- program
    def program(self):
        imports, items = [], []
        while self.cur.k == "import":
            t0 = self.cur
            self.p += 1
            s = self.ex("STR")
            self.ex(";")
            imports.append(self.mk("import", t0, s.t))
        while self.cur.k != "EOF":
            k = self.cur.k
            if k == "macro":
                items.append(self.macrodef())
            elif k in ("def", "coro"):
                items.append(self.funcdef())
            else:
                self.err("definition expected")
        return N("program", imports, items)

    def macrodef(self):
        t0 = self.ex("macro")
        name = self.ex("ID").t
        self.ex("(")
        params = []
        if self.cur.k == "VAR":
            params.append(self.ex("VAR").t)
        while self.acc(","):
            params.append(self.ex("VAR").t)
        self.ex(")")
        body = self.func_suite()
        return self.mk("macrodef", t0, name, params, body)

    def funcdef(self):
        t0 = self.cur
        if self.acc("coro"):
            name = self.ex("ID").t
            return self.mk("coro", t0, name, self.func_suite())
        self.ex("def")
        rid = self.ex("INT").t
        kind = target = None
        if self.acc("for"):
            kind = self.ex("ID").t
        elif self.cur.k in ("for_actor", "for_object", "for_performer"):
            kind = self.cur.k[4:]
            self.p += 1
        if kind is not None:
            self.acc("(")
            target = self.integer_like()
            self.acc(")")
        return self.mk("def", t0, rid, kind, target, self.func_suite())

    def func_suite(self):
        self.ex("{")
        if self.cur.k == "alias":
            self.p += 1
            self.ex("previous")
            self.ex(";")
            self.ex("}")
            return "ALIAS"
        body = self.stmts()
        if not body:
            self.err("statement expected")
        self.ex("}")
        return body

    def stmts(self):
        out = []
        while self.cur.k not in ("}", "case", "default", "EOF"):
            out.append(self.stmt())
        return out

    def block(self):
        self.ex("{")
        b = self.stmts()
        self.ex("}")
        return b

    def stmt(self):
        k, t0 = self.cur.k, self.cur
        if k == "with":
            self.p += 1
            self.ex("(")
            ck = self.ex("ID").t
            tgt = self.integer_like()
            self.ex(")")
            self.ex("{")
            s = self.simple()
            self.ex("}")
            return self.mk("with", t0, ck, tgt, s)
        if k == "if":
            arms = []
            self.p += 1
            arms.append(self.if_arm(t0))
            els = None
            while self.cur.k == "elseif":
                t1 = self.cur
                self.p += 1
                arms.append(self.if_arm(t1))
            if self.acc("else"):
                els = self.block()
            return self.mk("if", t0, arms, els)
        if k == "switch":
            self.p += 1
            self.ex("(")
            h = self.switch_header()
            self.ex(")")
            return self.mk("switch", t0, h, self.cases())
        if k in ("message_SwitchTalk", "message_SwitchMonologue"):
            self.p += 1
            self.ex("(")
            v = self.integer_like()
            self.ex(")")
            return self.mk("msgswitch", t0, k, v, self.cases())
        if k == "forever":
            self.p += 1
            return self.mk("forever", t0, self.block())
        if k == "while":
            self.p += 1
            neg = bool(self.acc("not"))
            self.ex("(")
            h = self.if_header()
            self.ex(")")
            return self.mk("while", t0, neg, h, self.block())
        if k == "for":
            self.p += 1
            self.ex("(")
            i = self.simple()
            h = self.if_header()
            self.ex(";")
            c = self.simple()
            self.ex(")")
            return self.mk("for", t0, i, h, c, self.block())
        if k == "MACRO":
            self.p += 1
            self.ex("(")
            args = self.arglist()
            self.ex(")")
            self.ex(";")
            return self.mk("macrocall", t0, t0.t[1:], args)
        return self.simple()

    def if_arm(self, t0):
        neg = bool(self.acc("not"))
        self.ex("(")
        hs = [self.if_header()]
        while self.acc("||"):
            hs.append(self.if_header())
        self.ex(")")
        return self.mk("arm", t0, neg, hs, self.block())

    def cases(self):
        self.ex("{")
        out = []
        while not self.acc("}"):
            t0 = self.cur
            if self.acc("default"):
                self.ex(":")
                h = None
            else:
                self.ex("case")
                h = self.case_header()
                self.ex(":")
            if self.cur.k in ("STR", "MSTR") or (self.cur.k == "{"):
                out.append(self.mk("case", t0, h, self.string()))
            else:
                b = self.stmts()
                out.append(self.mk("case", t0, h, b))
        return out

    def if_header(self):
        t0 = self.cur
        k = t0.k
        if k == "not":
            self.p += 1
            if self.cur.k in ("debug", "edit", "variation"):
                w = self.cur.k
                self.p += 1
                return self.mk("h_neg", t0, True, w)
            v = self.integer_like()
            self.ex("[")
            i = self.ex("INT").t
            self.ex("]")
            return self.mk("h_bit", t0, True, v, i)
        if k in ("debug", "edit", "variation"):
            self.p += 1
            return self.mk("h_neg", t0, False, k)
        if k == "scn":
            v = self.scn_var()
            o = self.cond_op()
            self.ex("[")
            a = self.ex("INT").t
            self.ex(",")
            b = self.ex("INT").t
            self.ex("]")
            return self.mk("h_scn", t0, v, o, a, b)
        if k == "ID" and self.la() in ("(", "<") and self.is_operation():
            op = self.operation()
            return self.mk("h_operation", t0, op)
        v = self.integer_like()
        if self.acc("["):
            i = self.ex("INT").t
            self.ex("]")
            return self.mk("h_bit", t0, False, v, i)
        o = self.cond_op()
        val = self.value_or_int()
        return self.mk("h_op", t0, v, o, val)

    def is_operation(self):
        # ID '(' or ID '<' ID integer_like '>' '('
        if self.la() == "(":
            return True
        return self.la(2) == "ID" and self.la(3) in ("DEC", "INT", "ID", "VAR") and self.la(4) == ">" and self.la(5) == "("

    def cond_op(self):
        if self.cur.k in COND_VAL:
            self.p += 1
            return self.ts[self.p - 1].k
        self.err("operator")

    def value_or_int(self):
        t0 = self.cur
        if self.acc("value"):
            self.ex("(")
            v = self.integer_like()
            self.ex(")")
            return self.mk("value", t0, v)
        return self.integer_like()

    def scn_var(self):
        self.ex("scn")
        self.ex("(")
        v = self.integer_like()
        self.ex(")")
        return v

    def switch_header(self):
        t0 = self.cur
        k = t0.k
        if k == "scn":
            v = self.scn_var()
            self.ex("[")
            i = self.ex("INT").t
            self.ex("]")
            return self.mk("s_scn", t0, v, i)
        if k in ("random", "dungeon_mode"):
            self.p += 1
            self.ex("(")
            v = self.integer_like()
            self.ex(")")
            return self.mk("s_" + k, t0, v)
        if k == "sector":
            self.p += 1
            self.ex("(")
            self.ex(")")
            return self.mk("s_sector", t0)
        if k == "ID" and self.is_operation():
            op = self.operation()
            return self.mk("s_operation", t0, op)
        return self.mk("s_var", t0, self.integer_like())

    def case_header(self):
        t0 = self.cur
        k = t0.k
        if k in ("menu", "menu2"):
            self.p += 1
            self.ex("(")
            v = self.string() if k == "menu" else self.integer_like()
            self.ex(")")
            return self.mk("c_" + k, t0, v)
        if k in COND_VAL:
            o = self.cond_op()
            v = self.value_or_int()
            return self.mk("c_op", t0, o, v)
        return self.mk("c_val", t0, self.integer_like())

    def simple(self):
        t0 = self.cur
        k = t0.k
        if k in ("return", "end", "hold", "continue", "break", "break_loop"):
            self.p += 1
            s = self.mk(k, t0)
        elif k in ("jump", "call"):
            self.p += 1
            self.ex("@")
            s = self.mk(k, t0, self.ex("ID").t)
        elif k in ("@", "\u00a7"):
            self.p += 1
            s = self.mk("label", t0, self.ex("ID").t)
        elif k in ("clear", "init"):
            self.p += 1
            s = self.mk("a_" + k, t0, self.integer_like())
        elif k == "reset":
            self.p += 1
            if self.acc("dungeon_result"):
                s = self.mk("a_reset", t0, None)
            else:
                s = self.mk("a_reset", t0, self.scn_var())
        elif k == "adventure_log":
            self.p += 1
            self.ex("=")
            s = self.mk("a_advlog", t0, self.integer_like())
        elif k == "dungeon_mode":
            self.p += 1
            self.ex("(")
            v = self.integer_like()
            self.ex(")")
            self.ex("=")
            s = self.mk("a_dmode", t0, v, self.integer_like())
        elif k == "ID" and self.is_operation():
            s = self.operation()
        else:
            v = self.integer_like()
            idx = None
            if self.acc("["):
                idx = self.ex("INT").t
                self.ex("]")
            o = self.cur.k
            if o not in ASSIGN_VAL:
                self.err("assignment operator")
            self.p += 1
            if o == "=" and idx is None and self.cur.k == "scn":
                self.p += 1
                self.ex("[")
                a = self.ex("INT").t
                self.ex(",")
                b = self.ex("INT").t
                self.ex("]")
                s = self.mk("a_scn", t0, v, a, b)
            else:
                s = self.mk("assign", t0, v, idx, o, self.value_or_int())
        self.ex(";")
        return s

    def operation(self):
        t0 = self.cur
        name = self.ex("ID").t
        ctx = None
        if self.acc("<"):
            ck = self.ex("ID").t
            ctx = (ck, self.integer_like())
            self.ex(">")
        self.ex("(")
        args = self.arglist()
        self.ex(")")
        return self.mk("op", t0, name, ctx, args)

    def arglist(self):
        out = []
        while self.cur.k != ")":
            out.append(self.arg())
            if not self.acc(","):
                break
        return out

    def arg(self):
        k, t0 = self.cur.k, self.cur
        if k == "Position":
            self.p += 1
            self.ex("<")
            s = self.ex("STR").t
            self.ex(",")
            x = self.num()
            self.ex(",")
            y = self.num()
            self.ex(">")
            return self.mk("pos", t0, s, x, y)
        if k in ("STR", "MSTR", "{"):
            return self.string()
        return self.integer_like()

    def num(self):
        if self.cur.k in ("INT", "DEC"):
            self.p += 1
            return self.ts[self.p - 1].t
        self.err("number")

    def string(self):
        t0 = self.cur
        if self.acc("{"):
            langs = []
            while True:
                nm = self.ex("ID").t
                self.ex("=")
                langs.append((nm, self.string_value()))
                if not self.acc(","):
                    break
                if self.cur.k == "}":
                    break
            self.ex("}")
            return self.mk("lang", t0, langs)
        return self.string_value()

    def string_value(self):
        t0 = self.cur
        if self.cur.k in ("STR", "MSTR"):
            self.p += 1
            return self.mk("str", t0, self.cur_prev())
        self.err("string")

    def cur_prev(self):
        return self.ts[self.p - 1].t

    def integer_like(self):
        t = self.cur
        if t.k in ("DEC", "INT", "ID", "VAR"):
            self.p += 1
            return N({"DEC": "dec", "INT": "int", "ID": "const", "VAR": "var"}[t.k], t.t, t0=t, t1=t)
        self.err("integer like")


def parse(text):
    return Parser(text).program()


# ------------------------------------------------------------------------------------------------ literal values
def int_value(t):
    neg = t.startswith("-")
    b = t[1:] if neg else t
    if b[:2] in ("0x", "0X"):
        v = int(b[2:], 16)
    elif b[:2] in ("0o", "0O"):
        v = int(b[2:], 8)
    elif b[:2] in ("0b", "0B"):
        v = int(b[2:], 2)
    else:
        v = int(b, 10)
    return -v if neg else v


def dec_value(t):
    """Decimal literal -> exact value as (numerator, power of ten) reduced."""
    from fractions import Fraction
    neg = t.startswith("-")
    b = t[1:] if neg else t
    w, f = b.split(".")
    v = Fraction(int(w or "0")) + Fraction(int(f), 10 ** len(f))
    return -v if neg else v


def str_value_single(raw):
    """Escape rules of single line strings.  The spec documents \\n; quotes may be escaped (STRING_ESCAPE_SEQ).
    A backslash before any other character stands for itself (both characters are kept)."""
    q = raw[0]
    body = raw[1:-1]
    out = []
    i = 0
    while i < len(body):
        c = body[i]
        if c == "\\" and i + 1 < len(body):
            d = body[i + 1]
            if d == "n":
                out.append("\n")
                i += 2
                continue
            if d == q:
                out.append(q)
                i += 2
                continue
        out.append(c)
        i += 1
    return "".join(out)


# ------------------------------------------------------------------------------------------------ renderer
def ptokens(n):
    """AST -> list of token texts ('\\n+', '\\n-', '\\n' are layout hints)."""
    out = []
    _pt(n, out)
    return out


def _body(b, out):
    if b == "ALIAS":
        out += ["{", "alias", "previous", ";", "}"]
        return
    out += ["{", "\n+"]
    for s in b:
        _pt(s, out)
        out.append("\n")
    out += ["\n-", "}"]


def _args(args, out):
    out.append("(")
    for i, x in enumerate(args):
        if i:
            out.append(",")
        _pt(x, out)
    out.append(")")


def _pt(n, out):
    k, a = n.k, n.a
    if k == "program":
        for x in a[0]:
            out += ["import", x.a[0], ";", "\n"]
        for x in a[1]:
            _pt(x, out)
            out.append("\n")
    elif k == "macrodef":
        out += ["macro", a[0], "("]
        for i, x in enumerate(a[1]):
            if i:
                out.append(",")
            out.append(x)
        out.append(")")
        _body(a[2], out)
    elif k == "def":
        out += ["def", a[0]]
        if a[1]:
            out += ["for", a[1]]
            _pt(a[2], out)
        _body(a[3], out)
    elif k == "coro":
        out += ["coro", a[0]]
        _body(a[1], out)
    elif k == "with":
        out += ["with", "(", a[0]]
        _pt(a[1], out)
        out += [")", "{"]
        _pt(a[2], out)
        out += ["}"]
    elif k == "if":
        for i, arm in enumerate(a[0]):
            out.append("elseif" if i else "if")
            if arm.a[0]:
                out.append("not")
            out.append("(")
            for j, h in enumerate(arm.a[1]):
                if j:
                    out.append("||")
                _pt(h, out)
            out.append(")")
            _body(arm.a[2], out)
        if a[1] is not None:
            out.append("else")
            _body(a[1], out)
    elif k in ("switch", "msgswitch"):
        if k == "switch":
            out += ["switch", "("]
            _pt(a[0], out)
            cases = a[1]
        else:
            out += [a[0], "("]
            _pt(a[1], out)
            cases = a[2]
        out += [")", "{", "\n+"]
        for c in cases:
            if c.a[0] is None:
                out.append("default")
            else:
                out.append("case")
                _pt(c.a[0], out)
            out += [":", "\n+"]
            if isinstance(c.a[1], N):
                _pt(c.a[1], out)
                out.append("\n")
            else:
                for s in c.a[1]:
                    _pt(s, out)
                    out.append("\n")
            out.append("\n-")
        out += ["\n-", "}"]
    elif k == "forever":
        out.append("forever")
        _body(a[0], out)
    elif k == "while":
        out.append("while")
        if a[0]:
            out.append("not")
        out.append("(")
        _pt(a[1], out)
        out.append(")")
        _body(a[2], out)
    elif k == "for":
        out += ["for", "("]
        _pt(a[0], out)
        _pt(a[1], out)
        out.append(";")
        _pt(a[2], out)
        out.append(")")
        _body(a[3], out)
    elif k == "macrocall":
        out.append("~" + a[0])
        _args(a[1], out)
        out.append(";")
    elif k == "h_neg":
        out += (["not"] if a[0] else []) + [a[1]]
    elif k == "h_bit":
        if a[0]:
            out.append("not")
        _pt(a[1], out)
        out += ["[", a[2], "]"]
    elif k == "h_scn":
        out += ["scn", "("]
        _pt(a[0], out)
        out += [")", a[1], "[", a[2], ",", a[3], "]"]
    elif k in ("h_operation", "s_operation"):
        _pt_op(a[0], out)
    elif k == "h_op":
        _pt(a[0], out)
        out.append(a[1])
        _pt(a[2], out)
    elif k == "value":
        out += ["value", "("]
        _pt(a[0], out)
        out.append(")")
    elif k == "s_scn":
        out += ["scn", "("]
        _pt(a[0], out)
        out += [")", "[", a[1], "]"]
    elif k in ("s_random", "s_dungeon_mode"):
        out += [k[2:], "("]
        _pt(a[0], out)
        out.append(")")
    elif k == "s_sector":
        out += ["sector", "(", ")"]
    elif k in ("s_var", "c_val"):
        _pt(a[0], out)
    elif k in ("c_menu", "c_menu2"):
        out += [k[2:], "("]
        _pt(a[0], out)
        out.append(")")
    elif k == "c_op":
        out.append(a[0])
        _pt(a[1], out)
    elif k in ("return", "end", "hold", "continue", "break", "break_loop"):
        out += [k, ";"]
    elif k in ("jump", "call"):
        out += [k, "@", a[0], ";"]
    elif k == "label":
        out += ["@", a[0], ";"]
    elif k in ("a_clear", "a_init"):
        out.append(k[2:])
        _pt(a[0], out)
        out.append(";")
    elif k == "a_reset":
        if a[0] is None:
            out += ["reset", "dungeon_result", ";"]
        else:
            out += ["reset", "scn", "("]
            _pt(a[0], out)
            out += [")", ";"]
    elif k == "a_advlog":
        out += ["adventure_log", "="]
        _pt(a[0], out)
        out.append(";")
    elif k == "a_dmode":
        out += ["dungeon_mode", "("]
        _pt(a[0], out)
        out += [")", "="]
        _pt(a[1], out)
        out.append(";")
    elif k == "a_scn":
        _pt(a[0], out)
        out += ["=", "scn", "[", a[1], ",", a[2], "]", ";"]
    elif k == "assign":
        _pt(a[0], out)
        if a[1] is not None:
            out += ["[", a[1], "]"]
        out.append(a[2])
        _pt(a[3], out)
        out.append(";")
    elif k == "op":
        _pt_op(n, out)
        out.append(";")
    elif k in ("int", "dec", "const", "var", "str"):
        out.append(a[0])
    elif k == "lang":
        out.append("{")
        for i, (nm, s) in enumerate(a[0]):
            if i:
                out.append(",")
            out += [nm, "="]
            _pt(s, out)
        out.append("}")
    elif k == "pos":
        out += ["Position", "<", a[0], ",", a[1], ",", a[2], ">"]
    else:
        raise AssertionError(k)


def _pt_op(n, out):
    a = n.a
    out.append(a[0])
    if a[1] is not None:
        out += ["<", a[1][0]]
        _pt(a[1][1], out)
        out.append(">")
    _args(a[2], out)


def render(n, indent=2):
    """Readable layout."""
    ind = 0
    res = []
    line = []

    def flush():
        nonlocal line
        if line:
            res.append(" " * (indent * ind) + " ".join(line))
        line = []
    for t in ptokens(n):
        if t == "\n":
            flush()
        elif t == "\n+":
            flush()
            ind += 1
        elif t == "\n-":
            flush()
            ind -= 1
        else:
            line.append(t)
    flush()
    return "\n".join(res) + "\n"


# ------------------------------------------------------------------------------------------------ reference semantics
ENDERS = {"Return", "End", "Hold", "JumpCommon", "Destroy"}
CTX_OPS = {"actor": "lives", "object": "object", "performer": "performer"}
SCN_OPS = {"==": "BranchScenarioNow", "<=": "BranchScenarioNowBefore", "<": "BranchScenarioBefore",
           ">=": "BranchScenarioNowAfter", ">": "BranchScenarioAfter"}


class LTS:
    """nodes: list of tuples
      ('op', name, params, succ)   event, continues
      ('test', name, params, taken, nottaken)
      ('call', taken, nottaken)
      ('stop', name, params)       event, stops
      ('tau', succ)
    entries: list of (routine descriptor, entry node)"""

    def __init__(self):
        self.nodes = []
        self.entries = []

    def new(self, *n):
        self.nodes.append(n)
        return len(self.nodes) - 1


class Sem:
    """Reference semantics of an AST program.  `val` maps literal nodes to parameter values (overridable: symbolic)."""

    def __init__(self, int_val=int_value, macros=None, perf=PERF, strval=None):
        self.g = LTS()
        self.int_val = int_val
        self.perf = perf
        self.macros = macros or {}
        self.labels = {}       # global labels of routines
        self.strval = strval or default_strval

    # ---- values
    def v(self, n, env):
        k = n.k
        if k == "int":
            return ("i", self.int_val(n.a[0]))
        if k == "dec":
            return ("f", dec_value(n.a[0]))
        if k in ("const", "var"):
            name = n.a[0]
            if k == "var" and env.get("subst") is not None and name in env["subst"]:
                return env["subst"][name]
            return ("c", name)
        if k == "str":
            return ("s", self.strval(n.a[0]))
        if k == "lang":
            d = {}
            for nm, s in n.a[0]:
                d[nm] = self.strval(s.a[0])
            return ("l", tuple(sorted(d.items())))
        if k == "pos":
            x, y = pos_arg(n.a[1], self.int_val), pos_arg(n.a[2], self.int_val)
            return ("p", self.strval(n.a[0]), x[1], y[1], x[0], y[0])
        raise AssertionError(k)

    def i(self, t):
        return ("i", self.int_val(t))

    # ---- headers
    def header(self, h, env):
        k, a = h.k, h.a
        if k == "h_neg":
            return {"debug": "BranchDebug", "edit": "BranchEdit", "variation": "BranchVariation"}[a[1]], \
                (("i", 0 if a[0] else 1),)
        if k == "h_bit":
            var = self.v(a[1], env)
            if var == ("c", self.perf):
                return "BranchPerformance", (self.i(a[2]), ("i", 0 if a[0] else 1))
            if a[0]:
                raise LangError("not is only allowed for the performance progress list")
            return "BranchBit", (var, self.i(a[2]))
        if k == "h_scn":
            if a[1] not in SCN_OPS:
                raise LangError("operator for scn")
            return SCN_OPS[a[1]], (self.v(a[0], env), self.i(a[2]), self.i(a[3]))
        if k == "h_op":
            var = self.v(a[0], env)
            if a[2].k == "value":
                return "BranchVariable", (var, ("i", COND_VAL[a[1]]), self.v(a[2].a[0], env))
            if a[1] == "==":
                return "Branch", (var, self.v(a[2], env))
            return "BranchValue", (var, ("i", COND_VAL[a[1]]), self.v(a[2], env))
        if k == "h_operation":
            op = a[0]
            if op.a[1] is not None:
                raise LangError("inline context in a condition")
            return op.a[0], tuple(self.v(x, env) for x in op.a[2])
        raise AssertionError(k)

    def sheader(self, h, env):
        k, a = h.k, h.a
        if k == "s_var":
            return [("Switch", (self.v(a[0], env),))]
        if k == "s_scn":
            # field 0: SwitchScenario, field 1: SwitchScenarioLevel
            i = self.int_val(a[1])
            if i == 0:
                return [("SwitchScenario", (self.v(a[0], env),))]
            if i == 1:
                return [("SwitchScenarioLevel", (self.v(a[0], env),))]
            raise LangError("scn index")
        if k == "s_random":
            return [("SwitchRandom", (self.v(a[0], env),))]
        if k == "s_dungeon_mode":
            return [("SwitchDungeonMode", (self.v(a[0], env),))]
        if k == "s_sector":
            return [("SwitchSector", ())]
        if k == "s_operation":
            op = a[0]
            pre = []
            if op.a[1] is not None:
                pre = [(ctx_op(op.a[1][0]), (self.v(op.a[1][1], env),))]
            return pre + [(op.a[0], tuple(self.v(x, env) for x in op.a[2]))]
        raise AssertionError(k)

    def cheader(self, h, switch_op, env):
        k, a = h.k, h.a
        if k == "c_val":
            return "Case", (self.v(a[0], env),)
        if k == "c_menu":
            return "CaseMenu", (self.v(a[0], env),)
        if k == "c_menu2":
            return "CaseMenu2", (self.v(a[0], env),)
        if k == "c_op":
            if a[1].k == "value":
                return "CaseVariable", (("i", COND_VAL[a[0]]), self.v(a[1].a[0], env))
            nm = "CaseScenario" if switch_op == "SwitchScenario" else "CaseValue"
            return nm, (("i", COND_VAL[a[0]]), self.v(a[1], env))
        raise AssertionError(k)

    # ---- statements (continuation passing)
    def seq(self, body, k, env):
        for s in reversed(body):
            k = self.stmt(s, k, env)
        return k

    def op(self, name, params, k, in_ctx=False):
        if name in ENDERS and not in_ctx:
            return self.g.new("stop", name, params)
        return self.g.new("op", name, params, k)

    def stmt(self, s, k, env, in_ctx=False):
        g, kd, a = self.g, s.k, s.a
        if kd == "op":
            params = tuple(self.v(x, env) for x in a[2])
            if a[1] is not None:
                n = self.op(a[0], params, k, True)
                return g.new("op", ctx_op(a[1][0]), (self.v(a[1][1], env),), n)
            return self.op(a[0], params, k, in_ctx)
        if kd == "with":
            n = self.stmt(a[2], k, env, True)
            return g.new("op", ctx_op(a[0]), (self.v(a[1], env),), n)
        if kd == "return":
            if env.get("ret") is not None:
                return g.new("tau", env["ret"])
            return self.op("Return", (), k, in_ctx)
        if kd == "end":
            return self.op("End", (), k, in_ctx)
        if kd == "hold":
            return self.op("Hold", (), k, in_ctx)
        if kd in ("continue", "break", "break_loop"):
            t = env.get(kd)
            if t is None:
                raise LangError(kd + " outside")
            return g.new("tau", t)
        if kd == "label":
            n = self.lab(a[0], env, define=True)
            g.nodes[n] = ("tau", k)
            return n
        if kd == "jump":
            return g.new("tau", self.lab(a[0], env))
        if kd == "call":
            return g.new("call", self.lab(a[0], env), k)
        if kd == "assign":
            return self.op(*self.assign(s, env), k)
        if kd == "a_clear":
            return self.op("flag_Clear", (self.v(a[0], env),), k)
        if kd == "a_init":
            return self.op("flag_Initial", (self.v(a[0], env),), k)
        if kd == "a_reset":
            if a[0] is None:
                return self.op("flag_ResetDungeonResult", (), k)
            return self.op("flag_ResetScenario", (self.v(a[0], env),), k)
        if kd == "a_advlog":
            return self.op("flag_SetAdventureLog", (self.v(a[0], env),), k)
        if kd == "a_dmode":
            return self.op("flag_SetDungeonMode", (self.v(a[0], env), self.v(a[1], env)), k)
        if kd == "a_scn":
            return self.op("flag_SetScenario", (self.v(a[0], env), self.i(a[1]), self.i(a[2])), k)
        if kd == "if":
            nxt = self.seq(a[1], k, env) if a[1] is not None else k
            for arm in reversed(a[0]):
                neg, hs, body = arm.a
                b = self.seq(body, k, env)
                yes, no = (nxt, b) if neg else (b, nxt)
                cur = no
                for h in reversed(hs):
                    nm, ps = self.header(h, env)
                    cur = g.new("test", nm, ps, yes, cur)
                nxt = cur
            return nxt
        if kd == "switch":
            hd, cases = self.sheader(a[0], env), a[1]
            if sum(1 for c in cases if c.a[0] is None) > 1:
                raise LangError("two defaults")
            e2 = dict(env)
            e2["break"] = k
            starts = []
            nb = k
            for c in reversed(cases):
                if isinstance(c.a[1], N):
                    raise LangError("string in switch case")
                nb = self.seq(c.a[1], nb, e2)
                starts.append(nb)
            starts.reverse()
            if cases and not cases[-1].a[1]:
                raise LangError("last case without a body")
            cur = k
            for c, st in zip(cases, starts):
                if c.a[0] is None:
                    cur = st
            for c, st in reversed(list(zip(cases, starts))):
                if c.a[0] is not None:
                    nm, ps = self.cheader(c.a[0], hd[-1][0], env)
                    cur = g.new("test", nm, ps, st, cur)
            for nm, ps in reversed(hd):
                cur = g.new("op", nm, ps, cur)
            return cur
        if kd == "msgswitch":
            cases = a[2]
            if sum(1 for c in cases if c.a[0] is None) > 1:
                raise LangError("two defaults")
            evs = [(a[0], (self.v(a[1], env),))]
            for c in cases:
                if not isinstance(c.a[1], N):
                    raise LangError("message switch body")
                if c.a[0] is not None:
                    if c.a[0].k != "c_val":
                        raise LangError("message switch header")
                    evs.append(("CaseText", (self.v(c.a[0].a[0], env), self.v(c.a[1], env))))
            for c in cases:
                if c.a[0] is None:
                    evs.append(("DefaultText", (self.v(c.a[1], env),)))
            for nm, ps in reversed(evs):
                k = g.new("op", nm, ps, k)
            return k
        if kd == "forever":
            top = g.new("tau", None)
            e2 = dict(env)
            e2["continue"] = top
            e2["break_loop"] = k
            g.nodes[top] = ("tau", self.seq(a[0], top, e2))
            return top
        if kd == "while":
            top = g.new("tau", None)
            e2 = dict(env)
            e2["continue"] = top
            e2["break_loop"] = k
            b = self.seq(a[2], top, e2)
            nm, ps = self.header(a[1], env)
            t, f = (k, b) if a[0] else (b, k)
            g.nodes[top] = ("tau", g.new("test", nm, ps, t, f))
            return top
        if kd == "for":
            top = g.new("tau", None)
            inc = self.stmt(a[2], top, env)
            e2 = dict(env)
            e2["continue"] = inc
            e2["break_loop"] = k
            b = self.seq(a[3], inc, e2)
            nm, ps = self.header(a[1], env)
            g.nodes[top] = ("tau", g.new("test", nm, ps, b, k))
            return self.stmt(a[0], top, env)
        if kd == "macrocall":
            m = self.macros.get(a[0])
            if m is None:
                raise LangError("undefined macro " + a[0])
            if a[0] in env.get("stack", ()):
                raise LangError("recursive macro")
            params, body = m
            if len(a[1]) != len(params):
                raise LangError("macro arity")
            e2 = {"subst": dict(zip(params, [self.v(x, env) for x in a[1]])), "ret": k, "labels": {},
                  "stack": tuple(env.get("stack", ())) + (a[0],)}
            n = self.seq(body, k, e2)
            self.check_labels(e2["labels"])
            return n
        raise AssertionError(kd)

    def assign(self, s, env):
        v, idx, o, val = s.a
        if idx is not None:
            var = self.v(v, env)
            if o != "=" or val.k == "value":
                raise LangError("bit assignment")
            if var == ("c", self.perf):
                return "flag_SetPerformance", (self.i(idx), self.v(val, env))
            return "flag_CalcBit", (var, self.i(idx), self.v(val, env))
        if val.k == "value":
            return "flag_CalcVariable", (self.v(v, env), ("i", ASSIGN_VAL[o]), self.v(val.a[0], env))
        if o != "=":
            return "flag_CalcValue", (self.v(v, env), ("i", ASSIGN_VAL[o]), self.v(val, env))
        return "flag_Set", (self.v(v, env), self.v(val, env))

    def lab(self, name, env, define=False):
        t = env["labels"] if env.get("labels") is not None else self.labels
        if name not in t:
            t[name] = [self.g.new("undef", name), False]
        e = t[name]
        if define:
            if e[1]:
                raise LangError("label defined twice")
            e[1] = True
        return e[0]

    def check_labels(self, t):
        for nm, (n, d) in t.items():
            if not d:
                raise LangError("undefined label " + nm)

    # ---- program
    def program(self, prog):
        for it in prog.a[1]:
            if it.k == "macrodef":
                self.macros[it.a[0]] = (it.a[1], it.a[2])
        halt = self.g.new("stop", "Return", ())
        for it in prog.a[1]:
            if it.k == "def":
                kind = {None: "GENERIC", "actor": "ACTOR", "object": "OBJECT", "performer": "PERFORMER"}.get(it.a[1])
                if kind is None:
                    raise LangError("target kind")
                tgt = self.v(it.a[2], {}) if it.a[2] is not None else None
                d = ("def", self.int_val(it.a[0]), kind, tgt)
                body = it.a[3]
            elif it.k == "coro":
                d = ("coro", it.a[0], "COROUTINE", None)
                body = it.a[1]
            else:
                continue
            e = None if body == "ALIAS" else self.seq(body, halt, {})
            self.g.entries.append((d, e))
        self.check_labels(self.labels)
        return self.g


def ctx_op(k):
    if k not in CTX_OPS:
        raise LangError("context kind " + k)
    return CTX_OPS[k]


def default_strval(raw):
    if raw.startswith("'''") or raw.startswith('"""'):
        return multi_value(raw)
    return str_value_single(raw)


def multi_value(raw):
    """docs/language_spec.rst: dedent rules of multi line strings."""
    q = raw[:3]
    body = raw[3:-3]
    lines = body.split("\n")
    lines = [l[:-1] if l.endswith("\r") and False else l for l in lines]
    if len(lines) == 1:
        return lines[0]
    first, rest = lines[0], lines[1:]

    def ind(l):
        return len(l) - len(l.lstrip(" \t"))
    last_blank = rest[-1].strip(" \t") == ""
    others = rest[:-1] if last_blank else rest
    m = min([ind(l) for l in others if l.strip(" \t") != ""] or [0])
    out = [l[min(m, ind(l)):] for l in others]
    res = [first] + out + ([""] if last_blank else [])
    if res and res[-1] == "":
        res.pop()
    if res and res[0] == "":
        res.pop(0)
    return "\n".join(res)


def pos_arg(t, int_val=int_value):
    """-> (tile, offset)"""
    if "." in t:
        w, f = t.split(".")
        if f.rstrip("0") not in ("5", ""):
            raise LangError("position argument")
        neg = w.startswith("-")
        return (-int(w[1:] or "0") if neg else int(w or "0")), (2 if f.rstrip("0") == "5" else 0)
    return int_val(t), 0
