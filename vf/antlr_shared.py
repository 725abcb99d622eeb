"""The prediction caches that all parsers and lexers of the ANTLR runtime share, with every access recorded as an event (vf/sched.py).
To be installed in a process of its own."""
from __future__ import annotations
from . import sched
from .sched import T, LOC, Event, MISSING


def event(name, key, get, op, write, val=None):
    me = LOC.tid
    if me is None or not T.on:
        return op()
    T.sched.point()
    loc = (name, "key", key)
    v = digest(get())
    T.initial.setdefault(loc, v)
    r = op()
    if write:
        T.events.append(Event(me, {}, {loc: digest(get())}))
    else:
        T.events.append(Event(me, {loc: v}, {}))
    return r


NAMES = {}
COUNT = {}


def name(o):
    n = NAMES.get(id(o))
    if n is None:
        t = LOC.tid
        COUNT[t] = COUNT.get(t, 0) + 1
        n = NAMES[id(o)] = (o, "a%s.%d" % (t, COUNT[t]))
    return n[1]


DIG = {}


def digest(v):
    if v is None or isinstance(v, (int, str, bool)):
        return v
    if isinstance(v, list):
        return "list"
    d = DIG.get(id(v))
    if d is None:
        n = type(v).__name__
        if n == "DFAState":
            s = ("D", str(v.configs), v.isAcceptState, v.prediction, v.requiresFullContext)
        else:
            s = (n, str(v))
        d = DIG[id(v)] = (v, hash(s))
    return d[1]


class TList(list):
    def __getitem__(self, i):
        return event(name(self), i, lambda: list.__getitem__(self, i), lambda: list.__getitem__(self, i), False) if not isinstance(i, slice) else list.__getitem__(self, i)

    def __setitem__(self, i, v):
        return event(name(self), i, lambda: list.__getitem__(self, i), lambda: list.__setitem__(self, i, v), True)


class TDict(dict):
    def get(self, k, d=None):
        return event(name(self), digest(k), lambda: dict.get(self, k), lambda: dict.get(self, k, d), False)

    def __setitem__(self, k, v):
        return event(name(self), digest(k), lambda: dict.get(self, k), lambda: dict.__setitem__(self, k, v), True)


ORIG = {}


def install(modules):
    """fresh caches for the given generated modules, recorded"""
    from antlr4.dfa.DFA import DFA
    from antlr4.dfa.DFAState import DFAState
    from antlr4.PredictionContext import PredictionContextCache
    edges, s0 = ORIG.setdefault("edges", DFAState.edges), ORIG.setdefault("s0", DFA.s0)
    NAMES.clear()
    COUNT.clear()
    DIG.clear()

    def ge(self):
        return event(name(self), "edges", lambda: edges.__get__(self, type(self)), lambda: edges.__get__(self, type(self)), False)

    def se(self, v):
        if isinstance(v, list):
            v = TList(v)
        return event(name(self), "edges", lambda: getd(edges, self), lambda: edges.__set__(self, v), True)

    def g0(self):
        return event(name(self), "s0", lambda: s0.__get__(self, type(self)), lambda: s0.__get__(self, type(self)), False)

    def set0(self, v):
        return event(name(self), "s0", lambda: getd(s0, self), lambda: s0.__set__(self, v), True)

    def getd(d, o):
        try:
            return d.__get__(o, type(o))
        except AttributeError:
            return MISSING
    DFAState.edges = property(ge, se)
    DFA.s0 = property(g0, set0)
    for m in modules:
        for c in vars(m).values():
            if isinstance(c, type) and "decisionsToDFA" in vars(c):
                c.decisionsToDFA = [DFA(ds, i) for i, ds in enumerate(c.atn.decisionToState)]
                for d in c.decisionsToDFA:
                    d._states = TDict()
                    name(d)
                    name(d._states)
            if isinstance(c, type) and hasattr(c, "sharedContextCache") and "atn" in vars(c):
                pass
        for k in ("sharedContextCache",):
            for c in vars(m).values():
                if isinstance(c, type) and k in vars(c):
                    c.sharedContextCache = PredictionContextCache()
                    c.sharedContextCache.cache = TDict()
                    name(c.sharedContextCache.cache)
