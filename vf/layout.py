"""Symbolic layout: every visible token of a program text stands at a symbolic line and column.

The compiler never needs to know where a token stands to decide what the program means; it only copies positions around.  So each token
the (real) lexer creates gets z3 variables for its line and column, constrained only by "in this order, without overlap", and the
positions in the results are terms over them.  A counterexample layout can be printed: text with line breaks and indentation as chosen
by the solver.
"""
from __future__ import annotations
import z3
from . import lang, sym

TABLE = None         # text -> {character index -> (line, column)} of the current path
MAXLINE, MAXCOL = 400, 900
_hooked = False


def hook():
    global _hooked
    if _hooked:
        return
    _hooked = True
    from antlr4.CommonTokenFactory import CommonTokenFactory
    orig = CommonTokenFactory.create

    def create(self, source, type, text, channel, start, stop, line, column):
        t = orig(self, source, type, text, channel, start, stop, line, column)
        if TABLE is not None:
            d = TABLE.get(source[1].strdata)
            if d is not None:
                p = d.get(start)
                if p is not None:
                    t.line, t.column = p
        return t
    CommonTokenFactory.create = create


def shape_of(tok):
    """-> (line breaks inside, length of the last line)"""
    nl = tok.t.count("\n")
    n = len(tok.t) - (tok.t.rfind("\n") + 1)
    if tok.k == "INT":
        n = max(n, 12)       # the literal may be another number in the counterexample
    return nl, n


_CACHE = {}


def _token(n, i, prev):
    """variables and constraints of token i of file n behind a token of the given shape"""
    nL, nC = f"L{n}.{i}", f"C{n}.{i}"
    L, C = z3.Int(nL), z3.Int(nC)
    cons = [L >= 1, L <= MAXLINE, C >= 0, C <= MAXCOL]
    if prev is not None:
        pL, pC = z3.Int(f"L{n}.{i - 1}"), z3.Int(f"C{n}.{i - 1}")
        nl, ln = prev
        end = pL + nl
        cons.append(z3.Or(L > end, z3.And(L == end, C >= ((pC + ln + 1) if nl == 0 else ln + 1))))
    return nL, nC, L, C, z3.And(cons)


class Layout:
    """texts: name -> text"""

    def __init__(self, cx, texts, lexer=lang.lex, first=None):
        """first: a comment that stays the first line of every text"""
        self.cx, self.texts, self.first = cx, texts, first
        self.toks = {f: lexer(t) for f, t in texts.items()}
        self.pos = {}           # file -> {character index -> (line, col)}; line from 1
        for n, (f, ts) in enumerate(self.toks.items()):
            d = self.pos[f] = {}
            sh = None
            for i, t in enumerate(ts):
                c = _CACHE.get((n, i, sh))
                if c is None:
                    c = _CACHE[(n, i, sh)] = _token(n, i, sh)
                nL, nC, L, C, cons = c
                vL, vC = cx.assign.get(nL, t.line + 1), cx.assign.get(nC, t.col)
                cx.ints[nL], cx.ints[nC] = (L, False), (C, False)
                cx.vals[nL], cx.vals[nC] = vL, vC
                cx.add(cons)
                d[t.i] = (sym.SymInt(vL, L), sym.SymInt(vC, C))
                sh = shape_of(t)
            if first is not None:
                cx.add(self.pos[f][ts[0].i][0].e >= 2)

    def __enter__(self):
        global TABLE
        TABLE = {self.texts[f]: d for f, d in self.pos.items()}
        return self

    def also(self, text, f):
        """the real text differs from the one laid out (placeholders): same tokens, other character positions"""
        ts = lang.lex(text)
        TABLE[text] = {b.i: self.pos[f][a.i] for a, b in zip(self.toks[f], ts)}

    def __exit__(self, *a):
        global TABLE
        TABLE = None

    def at(self, f, tok):
        """zero-based line and column"""
        L, C = self.pos[f][tok.i]
        return L - 1, C

    def render(self, m, lit=None):
        """the texts in the layout of model m"""
        out = {}
        for f, ts in self.toks.items():
            line, col, s = 1, 0, []
            if self.first is not None:
                s, line = [self.first + "\n"], 2
            for t in ts:
                L, C = self.pos[f][t.i]
                l = m.eval(L.e, model_completion=True).as_long()
                c = m.eval(C.e, model_completion=True).as_long()
                if t.k == "EOF":
                    break
                while line < l:
                    s.append("\n")
                    line, col = line + 1, 0
                s.append(" " * (c - col))
                x = lit(t) if lit else t.t
                s.append(x)
                nl = x.count("\n")
                line += nl
                col = len(x) - (x.rfind("\n") + 1) if nl else c + len(x)
            out[f] = "".join(s)
        return out


class Plain:
    """the layout the text has"""

    def __init__(self, texts, lexer=lang.lex):
        self.toks = {f: lexer(t) for f, t in texts.items()}

    def at(self, f, tok):
        return tok.line, tok.col
