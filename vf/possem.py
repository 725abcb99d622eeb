"""Reference semantics that remembers which statement, header and macro expansion every node of the system comes from."""
from __future__ import annotations
from . import lang, machine


class Exp:
    """One expansion of a macro."""

    def __init__(self, name, file, call, parent):
        self.name, self.file, self.call, self.parent = name, file, call, parent

    def chain(self):
        e, out = self, []
        while e is not None:
            out.append(e)
            e = e.parent
        return out


class _L(lang.LTS):
    sem = None
    owner = None

    def new(self, *n):
        self.owner.append((self.sem.cur, self.sem.hdr if n and n[0] == "test" else None, self.sem.exp))
        return lang.LTS.new(self, *n)


class PosSem(lang.Sem):
    def __init__(self, *a, where=None, **k):
        super().__init__(*a, **k)
        self.g = _L()
        self.g.sem, self.g.owner = self, []
        self.cur = self.hdr = self.exp = None
        self.where = where or {}

    def header(self, h, env):
        r = super().header(h, env)
        self.hdr = h
        return r

    def cheader(self, h, *a):
        r = super().cheader(h, *a)
        self.hdr = h
        return r

    def stmt(self, s, k, env, in_ctx=False):
        old = self.cur, self.exp
        self.cur, self.exp = s, env.get("exp")
        try:
            if s.k != "macrocall":
                return super().stmt(s, k, env, in_ctx)
            m = self.macros.get(s.a[0])
            if m is None:
                raise lang.LangError("undefined macro")
            if s.a[0] in env.get("stack", ()):
                raise lang.LangError("recursive macro")
            params, body = m
            if len(s.a[1]) != len(params):
                raise lang.LangError("macro arity")
            e = Exp(s.a[0], self.where.get(s.a[0]), s, env.get("exp"))
            e2 = {"subst": dict(zip(params, [self.v(x, env) for x in s.a[1]])), "ret": k, "labels": {},
                  "stack": tuple(env.get("stack", ())) + (s.a[0],), "exp": e}
            n = self.seq(body, k, e2)
            self.check_labels(e2["labels"])
            return n
        finally:
            self.cur, self.exp = old


CONTROL = ("jump", "continue", "break", "break_loop", "return")


def walk(body, f, nxt):
    """f(node) for every statement, arm, case and header of a body; nxt: id(statement) -> the statement after it"""
    if isinstance(body, lang.N):
        f(body)
        return
    for i, s in enumerate(body):
        f(s)
        if i + 1 < len(body):
            nxt[id(s)] = body[i + 1]
        k, a = s.k, s.a
        if k == "with":
            walk([a[2]], f, nxt)
        elif k == "if":
            for arm in a[0]:
                f(arm)
                for h in arm.a[1]:
                    f(h)
                walk(arm.a[2], f, nxt)
            if a[1] is not None:
                walk(a[1], f, nxt)
        elif k in ("switch", "msgswitch"):
            if k == "switch":
                f(a[0])
            for c in a[1] if k == "switch" else a[2]:
                f(c)
                if c.a[0] is not None:
                    f(c.a[0])
                walk(c.a[1], f, nxt)
        elif k == "forever":
            walk(a[0], f, nxt)
        elif k == "while":
            f(a[1])
            walk(a[2], f, nxt)
        elif k == "for":
            walk([a[0]], f, nxt)
            f(a[1])
            walk([a[2]], f, nxt)
            walk(a[3], f, nxt)


def bodies(prog):
    """-> list of (macro name or None, body)"""
    out = []
    for it in prog.a[1]:
        if it.k == "macrodef":
            out.append((it.a[0], it.a[2]))
        else:
            b = it.a[3] if it.k == "def" else it.a[1]
            if b != "ALIAS":
                out.append((None, b))
    return out
