"""Symbolic integers.

A SymInt is a real int (its value in the model the current path is executed under) that carries a z3 term.  Every comparison and
truth test on it is decided through the engine (both feasible outcomes are explored, with the solver giving the values for the other
one); arithmetic builds terms.  Operations Python does in C use the value of the model; the path then says so (stats "concretised")
unless the value flows back unchanged, because the values of the free variables of a path are pairwise distinct and unusual, so that
int("1000017") can be recognised as the variable whose value is 1000017.
"""
from __future__ import annotations
import sys
import z3
from . import engine

_int = int
WRAP = False      # int() gives symbolic constants for unknown literals, too (checks that change the hash of SymInt)


def lift(v):
    return v.e if type(v) is SymInt else z3.IntVal(_int.__int__(v))


def _cmp(name, zop):
    base = getattr(_int, name)

    def f(self, o):
        if type(o) is SymInt or (isinstance(o, _int) and not isinstance(o, bool)):
            cx = engine.CUR
            r = base(self, o)
            if cx is None or r is NotImplemented:
                return r
            if z3.is_int_value(self.e) and (type(o) is not SymInt or z3.is_int_value(o.e)):
                return r
            return cx.fork(zop(self.e, lift(o)), r)
        return base(self, o)
    f.__name__ = name
    return f


def _arith(name, zop, swap=False):
    base = getattr(_int, name)

    def f(self, o):
        r = base(self, o)
        if r is NotImplemented or not isinstance(o, _int):
            return r
        if engine.CUR is None:
            return r
        a, b = lift(self), lift(o)
        return SymInt(r, zop(b, a) if swap else zop(a, b))
    f.__name__ = name
    return f


class SymInt(_int):

    def __new__(cls, v, e):
        s = _int.__new__(cls, v)
        s.e = e
        return s

    __eq__ = _cmp("__eq__", lambda a, b: a == b)
    __ne__ = _cmp("__ne__", lambda a, b: a != b)
    __lt__ = _cmp("__lt__", lambda a, b: a < b)
    __le__ = _cmp("__le__", lambda a, b: a <= b)
    __gt__ = _cmp("__gt__", lambda a, b: a > b)
    __ge__ = _cmp("__ge__", lambda a, b: a >= b)
    __add__ = _arith("__add__", lambda a, b: a + b)
    __radd__ = _arith("__radd__", lambda a, b: a + b, True)
    __sub__ = _arith("__sub__", lambda a, b: a - b)
    __rsub__ = _arith("__rsub__", lambda a, b: a - b, True)
    __mul__ = _arith("__mul__", lambda a, b: a * b)
    __rmul__ = _arith("__rmul__", lambda a, b: a * b, True)
    __hash__ = _int.__hash__

    def __neg__(self):
        return SymInt(-_int.__int__(self), -self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __bool__(self):
        if engine.CUR is None:
            return _int.__bool__(self)
        return engine.CUR.fork(self.e != 0, _int.__bool__(self))

    def __repr__(self):
        if engine.CUR is not None:
            engine.CUR.printed(self)
        return _int.__repr__(self)

    def __str__(self):
        return self.__repr__()

    def __format__(self, spec):
        if engine.CUR is not None:
            engine.CUR.printed(self)
        return _int.__format__(_int.__int__(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (_int, (_int.__int__(self),))


def concrete(x):
    """Plain value of a structure containing SymInts."""
    if type(x) is SymInt:
        return _int.__int__(x)
    if isinstance(x, dict):
        return {concrete(k): concrete(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(concrete(v) for v in x)
    return x


class _HookMeta(type):
    def __call__(cls, *a, **k):
        if a and type(a[0]) is SymInt:
            return a[0]
        v = _int(*a, **k)
        cx = engine.CUR
        if cx is not None and cx.reg:
            s = cx.reg.get(v)
            if s is not None:
                return s
        if WRAP and cx is not None:
            return SymInt(v, z3.IntVal(v))
        return v

    def __instancecheck__(cls, o):
        return isinstance(o, _int)

    def __subclasscheck__(cls, c):
        return issubclass(c, _int)

    def __getattr__(cls, n):
        return getattr(_int, n)

    def __eq__(cls, o):
        return o is cls or o is _int or o is SymInt

    def __hash__(cls):
        return hash(_int)


class HookInt(metaclass=_HookMeta):
    pass


def hook(prefix="explorerscript"):
    """Route int() of every loaded module of the package through the registry of symbolic literals."""
    n = 0
    for name, mod in list(sys.modules.items()):
        if (name == prefix or name.startswith(prefix + ".")) and mod is not None and ".antlr." not in name:
            if mod.__dict__.get("int") is not HookInt:
                mod.__dict__["int"] = HookInt
                n += 1
    return n
