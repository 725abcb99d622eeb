"""Threads under a schedule chosen by the solver.

The package is imported with an AST transformation that routes every access to state that outlives a call (objects reachable from module
globals, class attributes, default arguments and closures before the threads start, and everything stored into them later) through this
module.  Such an access is an event; threads are switched only there (other code of a thread cannot influence other threads).  From the
events of one execution z3 derives schedules in which some access reads another value (`Explorer`), until there are none left: what a
thread returns is a function of the values it read."""
from __future__ import annotations
import ast
import builtins
import collections
import enum
import functools
import itertools
import operator
import os
import sys
import threading
import time
import types
import z3
from . import engine, loader
from .sym import SymInt

MISSING = "<none>"
PKG = "explorerscript"
BUILTIN = (types.BuiltinFunctionType, types.MethodWrapperType)
LRU = type(functools.lru_cache(lambda: 0))
ATOMS = (int, float, complex, bool, str, bytes, type(None), range, slice, types.FunctionType, types.BuiltinFunctionType, types.ModuleType,
         types.CodeType, types.MethodType, types.MethodWrapperType, types.GenericAlias, enum.Enum, property, staticmethod, classmethod, threading.local)
REAL_LOCKS = (threading.Lock, threading.RLock)
DREAD = {"get", "__getitem__", "__contains__"}
DWRITE = {"__setitem__", "pop", "setdefault", "__delitem__"}
SREAD, SWRITE = {"__contains__"}, {"add", "discard", "remove"}
PURE = {"keys", "values", "items", "copy", "__len__", "__iter__", "index", "count", "__getitem__", "__contains__", "__eq__", "__ne__", "__reversed__",
        "union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "__or__", "__and__", "__sub__", "__repr__", "__str__", "__hash__", "__add__"}
CONT = (dict, list, set, bytearray, collections.deque)


class Local(threading.local):
    tid = None


LOC = Local()


class T:
    """the recorder"""
    on = False
    sched = None
    sh = {}
    events = []
    count = {}
    views = {}
    clsattr = set()
    initial = {}
    versions = {}

    @classmethod
    def reset(cls):
        cls.on, cls.sched, cls.events, cls.count, cls.views, cls.initial, cls.versions = False, None, [], {}, {}, {}, {}
        cls.sh = dict(BASE)


BASE = {}


# ------------------------------------------------------------------------------------------- which objects are shared
def opaque(o):
    t = type(o)
    m = getattr(t, "__module__", "") or ""
    return m.split(".")[0] in ("logging", "typing", "re", "weakref", "abc", "_abc", "gettext", "z3", "pathlib", "vf", "ctypes", "importlib", "_frozen_importlib", "_frozen_importlib_external",
                               "_thread", "threading", "functools" if t is not LRU else "", "antlr4")


def share(o, name, out, depth=0):
    """o and everything reachable from it that can change"""
    todo = [(o, name)]
    while todo:
        o, name = todo.pop()
        if isinstance(o, (tuple, frozenset)):
            todo += [(x, "%s[%d]" % (name, i)) for i, x in enumerate(o)]
            continue
        if isinstance(o, types.FunctionType):
            if o.__module__ and o.__module__.split(".")[0] == PKG and id(o) not in out and len(name) < 400:
                out[id(o)] = (o, name)
                todo += [(x, "%s.default%d" % (name, i)) for i, x in enumerate(o.__defaults__ or ())]
                todo += [(x, "%s.default-%s" % (name, k)) for k, x in (o.__kwdefaults__ or {}).items()]
                for i, c in enumerate(o.__closure__ or ()):
                    try:
                        todo.append((c.cell_contents, "%s.cell%d" % (name, i)))
                    except ValueError:
                        pass
                todo += [(x, "%s.%s" % (name, k)) for k, x in o.__dict__.items()]
            continue
        if isinstance(o, (staticmethod, classmethod)):
            todo.append((o.__func__, name))
            continue
        if isinstance(o, property):
            todo += [(f, name + "." + k) for k, f in (("fget", o.fget), ("fset", o.fset)) if f]
            continue
        if type(o) is LRU:
            if id(o) not in out:
                out[id(o)] = (o, name)
                todo.append((o.__wrapped__, name + ".wrapped"))
            continue
        if isinstance(o, type):
            if (o.__module__ or "").split(".")[0] == PKG and ".antlr" not in o.__module__ and id(o) not in out and not issubclass(o, enum.Enum):
                out[id(o)] = (o, name)
                todo += [(x, "%s.%s" % (name, k)) for k, x in vars(o).items() if not (k.startswith("__") and k.endswith("__"))]
            continue
        if isinstance(o, ATOMS) or isinstance(o, type) or type(o) is SymInt or id(o) in out or opaque(o) or type(o) is VLock:
            continue
        out[id(o)] = (o, name)
        if isinstance(o, dict):
            todo += [(x, "%s[%r]" % (name, k if isinstance(k, (str, int)) else type(k).__name__)) for k, x in dict.items(o)] + [(k, name + ".key") for k in dict.keys(o)]
        elif isinstance(o, (list, set, collections.deque)):
            todo += [(x, "%s[%d]" % (name, i)) for i, x in enumerate(list(raw_iter(o)))]
        d = getattr(o, "__dict__", None)
        if isinstance(d, dict):
            todo += [(x, "%s.%s" % (name, k)) for k, x in d.items()]
        for c in type(o).__mro__:
            for k in getattr(c, "__slots__", ()) if not isinstance(getattr(c, "__slots__", ()), str) else ():
                if hasattr(o, k):
                    todo.append((getattr(o, k), "%s.%s" % (name, k)))


def raw_iter(o):
    if isinstance(o, set):
        return set.__iter__(o)
    if isinstance(o, list):
        return list.__iter__(o)
    return iter(o)


def snapshot(extra=()):
    """the shared objects of this process"""
    BASE.clear()
    for n, m in sorted(sys.modules.items()):
        if (n == PKG or n.startswith(PKG + ".")) and ".antlr" not in n and m is not None:
            for k, v in list(vars(m).items()):
                if k.startswith("__") or k.startswith("_vf_"):
                    continue
                if isinstance(v, (type, types.FunctionType)) and v.__module__ != n:
                    if (v.__module__ or "").split(".")[0] == PKG:
                        continue
                share(v, n + "." + k, BASE)
    for k, v in extra:
        share(v, k, BASE)
    share(os.environ, "os.environ", BASE)


def escape(o):
    """o was stored into shared state"""
    if isinstance(o, ATOMS) and not isinstance(o, types.FunctionType) or id(o) in T.sh:
        return
    t = LOC.tid
    T.count[t] = n = T.count.get(t, 0) + 1
    share(o, "t%s.%d" % (t, n), T.sh)


def inpkg(m):
    """code of the package that is instrumented"""
    return bool(m) and m.split(".")[0] == PKG and ".antlr" not in m


def dig(v, depth=0):
    if isinstance(v, SymInt):
        return ("sym", str(v.e))
    if isinstance(v, (int, float, complex, str, bytes, type(None), range)):
        return (type(v).__name__, v) if isinstance(v, (bool, float)) else v
    if isinstance(v, enum.Enum):
        return str(v)
    if isinstance(v, (tuple, frozenset)):
        return tuple(dig(x, depth + 1) for x in v) if depth < 6 else "..."
    s = T.sh.get(id(v))
    if s is not None:
        return ("obj", s[1])
    if isinstance(v, (type, types.FunctionType, types.ModuleType)):
        return getattr(v, "__qualname__", None) or v.__name__
    return ("?", type(v).__name__)


def keyname(k):
    return repr(dig(k))[:200]


def value(o, key):
    """current value of a location of o"""
    kind, k = key
    try:
        if kind == "attr":
            if isinstance(o, type):
                return dig(vars(o).get(k, MISSING))
            d = getattr(o, "__dict__", None)
            if d is not None and k in d:
                return dig(d[k])
            return dig(getattr(o, k, MISSING)) if not isinstance(getattr(type(o), k, None), property) else MISSING
        if kind == "key":
            if isinstance(o, dict):
                return dig(dict.get(o, k[0], MISSING))
            return set.__contains__(o, k[0])
        if isinstance(o, dict):
            return hash(tuple((dig(a), dig(b)) for a, b in dict.items(o)))
        if isinstance(o, set):
            return hash(tuple(sorted(map(repr, map(dig, set.__iter__(o))))))
        if isinstance(o, (list, collections.deque)):
            return hash(tuple(dig(x) for x in raw_iter(o)))
        return T.versions.get(id(o), 0)
    except TypeError:
        return "<odd>"


def access(o, reads, writes, op, stored=()):
    """the event: reads and writes are location keys of o"""
    me = LOC.tid
    if me is None:
        return op()
    T.sched.point()
    name = T.sh[id(o)][1] if id(o) in T.sh else o.__name__
    ln = lambda k: (name, k[0], k[1] if k[0] == "attr" else keyname(k[1][0]) if k[0] == "key" else "")
    upd = [("*", None)] if any(k[0] == "key" for k in writes) else []
    for k in set_of(writes):
        T.initial.setdefault(ln(k), value(o, k))
    for k in upd + list(reads):
        T.initial.setdefault(ln(k), value(o, k))
    rv = {ln(k): value(o, k) for k in reads}
    uv = {ln(k): value(o, k) for k in upd}
    try:
        r = op()
        return r
    finally:
        for x in stored:
            escape(x)
        if not isinstance(o, CONT) and any(k[0] == "*" for k in writes):
            T.versions[id(o)] = T.versions.get(id(o), 0) + 1
        if writes and any(k[0] == "key" for k in writes) and "r" in locals():
            escape(locals()["r"])
        wv = {ln(k): value(o, k) for k in list(writes) + upd}
        T.events.append(Event(me, rv, wv, uv))


def set_of(ks):
    return ks


class Event:
    __slots__ = ("t", "r", "w", "u", "lock", "pos")

    def __init__(self, t, r, w, u=(), lock=None):
        self.t, self.r, self.w, self.u, self.lock = t, r, w, dict(u), lock
        self.pos = len(T.events)

    def data(self):
        return (self.t, self.r, self.w, self.u, self.lock)


# ------------------------------------------------------------------------------------------- hooks
def shared(o):
    return T.on and id(o) in T.sh and LOC.tid is not None


def known_attr(o, n):
    """the attribute is stored in o itself (or is a rebindable class attribute)"""
    if isinstance(o, types.ModuleType):
        return n in T.clsattr and o.__name__.split(".")[0] == PKG
    return True


def const(v):
    return isinstance(v, (type, types.FunctionType, types.MethodType, types.BuiltinFunctionType, types.ModuleType, types.MethodWrapperType))


def ga(o, n):
    if not T.on or LOC.tid is None:
        return getattr(o, n)
    if id(o) in T.sh:
        if isinstance(o, CONT) or isinstance(o, types.FunctionType):
            return getattr(o, n)
        v = getattr(o, n)
        if const(v):
            return v
        if isinstance(o, type) and n not in vars(o):
            for c in o.__mro__:
                if n in vars(c):
                    if id(c) not in T.sh:
                        return v
                    o2 = c
                    return access(o2, [("attr", n)], [], lambda: getattr(o, n))
            return v
        return access(o, [("attr", n)], [], lambda: getattr(o, n))
    if n in T.clsattr:
        if isinstance(o, types.ModuleType):
            if o.__name__.split(".")[0] == PKG:
                return access(o, [("attr", n)], [], lambda: getattr(o, n))
        elif n not in (getattr(o, "__dict__", None) or ()):
            for c in type(o).__mro__:
                if n in vars(c):
                    if id(c) in T.sh and not const(vars(c)[n]) and not isinstance(vars(c)[n], property):
                        return access(c, [("attr", n)], [], lambda: getattr(o, n))
                    break
    return getattr(o, n)


def sa(o, n, v):
    if T.on and LOC.tid is not None and (id(o) in T.sh or isinstance(o, types.ModuleType) and o.__name__.split(".")[0] == PKG):
        return access(o, [], [("attr", n)], lambda: setattr(o, n, v), [v])
    setattr(o, n, v)


def aug_attr(o, n, op, v):
    sa(o, n, iop(op, ga(o, n), v))


def key_of(o, k):
    """a key under which o is accessed alone"""
    try:
        hash(k)
    except TypeError:
        return None
    return ("key", (k,))


def gi(o, k):
    if shared(o):
        if isinstance(o, dict):
            kk = key_of(o, k)
            if kk:
                w = isinstance(o, collections.defaultdict) and not dict.__contains__(o, k)
                return access(o, [kk], [kk] if w else [], lambda: o[k])
        elif isinstance(o, CONT):
            return access(o, [("*", None)], [], lambda: o[k])
        else:
            return access(o, [("*", None)], [("*", None)], lambda: o[k])
    return o[k]


def si(o, k, v):
    def op():
        o[k] = v
    if shared(o):
        if isinstance(o, dict) and key_of(o, k):
            return access(o, [], [key_of(o, k)], op, [v, k])
        return access(o, [("*", None)], [("*", None)], op, [v])
    op()


def di(o, k):
    def op():
        del o[k]
    if shared(o):
        if isinstance(o, dict) and key_of(o, k):
            return access(o, [key_of(o, k)], [key_of(o, k)], op)
        return access(o, [("*", None)], [("*", None)], op)
    op()


def aug_item(o, k, op, v):
    si(o, k, iop(op, gi(o, k), v))


def iop(op, x, v):
    f = getattr(operator, op)
    if shared(x):
        return access(x, [("*", None)], [("*", None)], lambda: f(x, v), [v])
    if T.on and shared(v):
        return access(v, [("*", None)], [], lambda: f(x, v))
    return f(x, v)


def isin(a, b):
    if shared(b):
        if isinstance(b, (dict, set)):
            k = key_of(b, a)
            if k:
                return access(b, [k], [], lambda: a in b)
        return access(b, [("*", None)], [] if isinstance(b, CONT) else [("*", None)], lambda: a in b)
    v = T.views.get(id(b)) if T.on else None
    if v is not None and shared(v[1]):
        return access(v[1], [("*", None)], [], lambda: a in b)
    return a in b


def it(o):
    if T.on and LOC.tid is not None:
        v = T.views.get(id(o))
        s = v[1] if v is not None else o if id(o) in T.sh else None
        if s is not None and not isinstance(o, (type, types.FunctionType)):
            return it_gen(o, s)
    return o


def it_gen(o, s):
    i = iter(o)
    end = object()
    w = [] if isinstance(s, CONT) else [("*", None)]
    while True:
        x = access(s, [("*", None)], w, lambda: next(i, end))
        if x is end:
            return
        yield x


def b(o):
    if shared(o) and isinstance(o, CONT):
        return access(o, [("*", None)], [], lambda: o)
    return o


def gn(mod, n, get):
    """a module global that functions rebind"""
    if T.on and LOC.tid is not None:
        m = sys.modules[mod]
        return access(m, [("attr", n)], [], get)
    return get()


def sn(mod, n, v):
    """the store follows immediately"""
    if T.on and LOC.tid is not None:
        m = sys.modules[mod]
        return access(m, [], [("attr", n)], lambda: (setattr(m, n, v), v)[1], [v])
    return v


SKIPARGS = (isinstance, id, type, getattr, hasattr, issubclass, callable)


def call(f, *a, **k):
    if f is REAL_LOCKS[0] or f is REAL_LOCKS[1]:
        return VLock(f is REAL_LOCKS[1])
    if f is builtins.id:
        return loader.IDS(a[0])
    if not T.on or LOC.tid is None:
        return f(*a, **k)
    t = type(f)
    if t in BUILTIN:
        s = f.__self__
        n = f.__name__
        if s is not None and id(s) in T.sh:
            return method(s, n, f, a, k)
        if f in SKIPARGS:
            return f(*a, **k)
    elif t is types.MethodType:
        s = f.__self__
        if id(s) in T.sh and not inpkg(getattr(f.__func__, "__module__", "")) and not isinstance(s, type):
            return method(s, f.__name__, f, a, k)
        if isinstance(s, type) or inpkg(getattr(f.__func__, "__module__", "")):
            return f(*a, **k)
    elif t is LRU and id(f) in T.sh:
        return cached(f, a, k)
    elif t is types.FunctionType:
        if inpkg(f.__module__):
            return f(*a, **k)
    elif isinstance(f, type):
        if inpkg(f.__module__):
            return f(*a, **k)
    # a foreign function that gets shared containers or opaque shared objects reads them
    for x in a:
        if id(x) in T.sh and not isinstance(x, (type, types.FunctionType)):
            if isinstance(x, CONT):
                return access(x, [("*", None)], [], lambda: f(*a, **k))
            if f is next:
                return access(x, [("*", None)], [("*", None)], lambda: f(*a, **k))
    return f(*a, **k)


class Cwd:
    path = ""


def proc(f, write, relative):
    """a function of the operating system that changes or uses the working directory"""
    def g(*a, **k):
        if not T.on or LOC.tid is None or relative and (not a or isinstance(a[0], int) or os.fspath(a[0])[:1] in ("/", b"/")):
            return f(*a, **k)
        T.sh.setdefault(id(Cwd), (Cwd, "os cwd"))

        def op():
            r = f(*a, **k)
            if write:
                Cwd.path = GETCWD()
            return r
        return access(Cwd, [] if write else [("attr", "path")], [("attr", "path")] if write else [], op)
    return functools.wraps(f)(g)


GETCWD = os.getcwd


def watch_cwd():
    for n in ("chdir", "fchdir"):
        setattr(os, n, proc(getattr(os, n), True, False))
    os.getcwd = proc(os.getcwd, False, False)
    for n in ("stat", "lstat", "listdir", "scandir", "readlink", "open"):
        setattr(os, n, proc(getattr(os, n), False, True))
    for n in ("exists", "isfile", "isdir"):
        setattr(os.path, n, proc(getattr(os.path, n), False, True))
    builtins.open = proc(builtins.open, False, True)


def cached(f, a, k):
    """functools.lru_cache: the same (shared) result object again"""
    h = T.versions.setdefault(("lru", id(f)), {})
    if id(h) not in T.sh:
        T.sh[id(h)] = (h, T.sh[id(f)][1] + ".cache")
    key = (repr(a), repr(sorted(k.items())))
    if dict.__contains__(h, key):
        return access(h, [("key", (key,))], [], lambda: f(*a, **k))
    # the function runs outside any lock, then the result is stored
    access(h, [("key", (key,))], [], lambda: None)
    r = f(*a, **k)

    def op():
        h[key] = r
    access(h, [], [("key", (key,))], op, [r])
    return r


def method(s, n, f, a, k):
    go = lambda: f(*a, **k)
    if isinstance(s, dict) and a:
        kk = key_of(s, a[0]) if n in DREAD | DWRITE else None
        if kk:
            if n in DREAD:
                return access(s, [kk], [], go)
            if n == "__setitem__":
                return access(s, [], [kk], go, a)
            if n == "setdefault" and dict.__contains__(s, a[0]):
                return access(s, [kk], [], go)
            return access(s, [kk], [kk], go, a[1:])
    if isinstance(s, set) and a and n in SREAD | SWRITE:
        kk = key_of(s, a[0])
        if kk:
            return access(s, [kk] if n != "add" else [], [kk] if n != "__contains__" else [], go, a)
    if isinstance(s, CONT):
        if n in PURE:
            r = access(s, [("*", None)], [], go)
            if n in ("keys", "values", "items") and isinstance(s, dict):
                T.views[id(r)] = (r, s)
            return r
        return access(s, [("*", None)], [("*", None)], go, a)
    if isinstance(s, type) or isinstance(s, types.FunctionType):
        return go()
    if n.startswith("__") and n in ("__init__", "__new__", "__class__", "__init_subclass__", "__hash__"):
        return go()
    return access(s, [("*", None)], [("*", None)], go, a)


# ------------------------------------------------------------------------------------------- locks and the scheduler
class VLock:
    def __init__(self, re=False):
        self.re, self.owner, self.depth = re, None, 0
        self.serial = next(SERIAL)

    def acquire(self, blocking=True, timeout=-1):
        me = LOC.tid
        if T.sched is None or me is None:
            self.owner, self.depth = "main", self.depth + 1
            return True
        if self.re and self.owner == me:
            self.depth += 1
            return True
        T.sched.point()
        while self.owner is not None:
            if not blocking or timeout == 0:
                T.events.append(Event(me, {("lock", self.serial, "free"): False}, {}))
                return False
            T.sched.block(self)
        self.owner, self.depth = me, 1
        T.events.append(Event(me, {}, {}, lock=(self.serial, "L")))
        return True

    def release(self):
        self.depth -= 1
        if self.depth > 0:
            return
        me = LOC.tid
        if T.sched is None or me is None:
            self.owner = None
            return
        T.sched.point()
        self.owner = None
        T.events.append(Event(me, {}, {}, lock=(self.serial, "U")))
        T.sched.unblock(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    __hash__ = object.__hash__


SERIAL = itertools.count()


class Deadlock(Exception):
    pass


class Stop(BaseException):
    pass


class Sched:
    def __init__(self, fns, prefix):
        self.fns, self.prefix = fns, list(prefix)
        self.pos = 0
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.alive = set(range(len(fns)))
        self.waiting = {}
        self.done = threading.Event()
        self.results = [None] * len(fns)
        self.exc = None
        self.diverged = False

    def runnable(self, t):
        return t in self.alive and t not in self.waiting

    def choose(self, t):
        if not self.diverged and self.pos < len(self.prefix):
            p = self.prefix[self.pos]
            if self.runnable(p):
                return p
            self.diverged = True
        if t is not None and self.runnable(t):
            return t
        c = [x for x in sorted(self.alive) if x not in self.waiting]
        return c[0] if c else None

    def point(self):
        t = LOC.tid
        n = self.choose(t)
        if n != t:
            self.sem[n].release()
            self.sem[t].acquire()
        if self.exc is not None:
            raise Stop
        self.pos += 1

    def block(self, lock):
        t = LOC.tid
        self.waiting[t] = lock
        n = self.choose(None)
        if n is None:
            self.exc = Deadlock("all threads wait for locks")
            self.stop()
            raise Stop
        self.sem[n].release()
        self.sem[t].acquire()
        if self.exc is not None:
            raise Stop

    def unblock(self, lock):
        for t in [t for t, l in self.waiting.items() if l is lock]:
            del self.waiting[t]

    def stop(self):
        self.done.set()

    def body(self, t):
        LOC.tid = t
        self.sem[t].acquire()
        try:
            if self.exc is None:
                self.results[t] = self.fns[t]()
        except Stop:
            pass
        except BaseException as e:
            if self.exc is None:
                self.exc = e
        self.alive.discard(t)
        if self.exc is not None:
            self.stop()
            return
        n = self.choose(None)
        if n is None:
            if self.alive:
                self.exc = Deadlock("the other threads wait for locks")
            self.stop()
        else:
            self.sem[n].release()

    def run(self):
        threading.stack_size(64 * 1024 * 1024)
        ths = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in self.alive]
        for th in ths:
            th.start()
        T.sched = self
        T.on = True
        n = self.choose(None)
        self.sem[n].release()
        self.done.wait()
        T.on = False
        T.sched = None
        if self.exc is not None:
            raise self.exc
        return self.results


def run(fns, prefix=()):
    """-> results of the threads, events"""
    T.reset()
    s = Sched(fns, prefix)
    r = s.run()
    return r, T.events


# ------------------------------------------------------------------------------------------- AST
class Shared(ast.NodeTransformer):
    SKIP = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "currentframe", "_getframe", "stack"}

    def __init__(self, modname):
        self.mod = modname
        self.cls = []
        self.glob = []      # names declared global, per function
        self.allglob = set()

    def module(self, tree):
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                self.allglob |= set(n.names)
                T.clsattr |= set(n.names)
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Attribute) and not (isinstance(t.value, ast.Name) and t.value.id == "self"):
                        T.clsattr.add(t.attr)
        return self.visit(tree)

    def mangle(self, n):
        if n.startswith("__") and not n.endswith("__") and self.cls:
            return "_" + self.cls[-1].lstrip("_") + n
        return n

    def c(self, name, *args):
        return ast.Call(ast.Name("_vf_" + name, ast.Load()), [a if isinstance(a, ast.AST) else ast.Constant(a) for a in args], [])

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        n.body = [self.visit(x) for x in n.body]
        n.body = [y for x in n.body for y in (x if isinstance(x, list) else [x])]
        self.cls.pop()
        return n

    def func(self, n):
        a = n.args
        a.defaults = [self.visit(x) for x in a.defaults]
        a.kw_defaults = [self.visit(x) if x else x for x in a.kw_defaults]
        g = set()
        stack = list(n.body) if isinstance(n.body, list) else []
        while stack:
            x = stack.pop()
            if isinstance(x, ast.Global):
                g |= set(x.names)
            if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                stack += list(ast.iter_child_nodes(x))
        self.glob.append(g)
        if isinstance(n.body, list):
            b = []
            for x in n.body:
                y = self.visit(x)
                b += y if isinstance(y, list) else [y]
            n.body = b
        else:
            n.body = self.visit(n.body)
        self.glob.pop()
        return n

    def visit_FunctionDef(self, n):
        return self.func(n)

    def visit_AsyncFunctionDef(self, n):
        return self.func(n)

    def visit_Lambda(self, n):
        return self.func(n)

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return self.c("ga", n.value, self.mangle(n.attr))
        return n

    def visit_MatchValue(self, n):
        return n

    def visit_MatchClass(self, n):
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            s = self.index(n.slice)
            if s is not None:
                return self.c("gi", n.value, s)
        return n

    def index(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(ast.Name("slice", ast.Load()), [x or ast.Constant(None) for x in (s.lower, s.upper, s.step)], [])
        if isinstance(s, (ast.Tuple,)) and any(isinstance(x, (ast.Slice, ast.Starred)) for x in s.elts):
            return None
        return s

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id in self.SKIP:
            n.args = [self.visit(x) for x in n.args]
            return n
        if isinstance(f, ast.Attribute) and f.attr in ("currentframe", "_getframe", "stack"):
            return n
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("logger", "logging", "warnings"):
            return n
        self.generic_visit(n)
        return ast.Call(ast.Name("_vf_call", ast.Load()), [n.func] + n.args, n.keywords)

    def visit_Compare(self, n):
        isid = lambda x: isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "id"
        if isid(n.left) and all(isid(c) for c in n.comparators):
            return n
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            e = self.c("in", n.left, n.comparators[0])
            return ast.UnaryOp(ast.Not(), e) if isinstance(n.ops[0], ast.NotIn) else e
        return n

    def test(self, x):
        return self.c("b", x) if isinstance(x, (ast.Name, ast.Call)) else x

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.test(n.test)
        return n

    visit_While = visit_If
    visit_IfExp = visit_If

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        n.values = [self.test(x) for x in n.values]
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            n.operand = self.test(n.operand)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = self.c("it", n.iter)
        return n

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.iter = self.c("it", n.iter)
        return n

    def store(self, t, v):
        """statement t = v"""
        if isinstance(t, ast.Attribute):
            return ast.Expr(self.c("sa", self.visit(t.value), self.mangle(t.attr), v))
        if isinstance(t, ast.Subscript):
            s = self.index(t.slice)
            if s is not None:
                return ast.Expr(self.c("si", self.visit(t.value), self.visit(s), v))
        if isinstance(t, ast.Name) and self.glob and t.id in self.glob[-1]:
            return ast.Assign([t], self.c("sn", self.mod, t.id, v))
        return None

    def visit_Assign(self, n):
        v = self.visit(n.value)
        if len(n.targets) == 1:
            s = self.store(n.targets[0], v)
            if s is not None:
                return ast.copy_location(s, n)
        n.value = v
        n.targets = [self.visit(t) for t in n.targets]
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return n
        v = self.visit(n.value)
        if isinstance(n.target, (ast.Attribute, ast.Subscript)):
            s = self.store(n.target, v)
            if s is not None:
                return ast.copy_location(s, n)
        n.value = v
        return n

    def visit_AugAssign(self, n):
        v = self.visit(n.value)
        op = {"Add": "iadd", "Sub": "isub", "Mult": "imul", "BitOr": "ior", "BitAnd": "iand", "BitXor": "ixor", "Div": "itruediv", "FloorDiv": "ifloordiv",
              "Mod": "imod", "LShift": "ilshift", "RShift": "irshift", "Pow": "ipow"}.get(type(n.op).__name__)
        t = n.target
        if op:
            if isinstance(t, ast.Attribute):
                return ast.copy_location(ast.Expr(self.c("aug_attr", self.visit(t.value), self.mangle(t.attr), op, v)), n)
            if isinstance(t, ast.Subscript) and self.index(t.slice) is not None:
                return ast.copy_location(ast.Expr(self.c("aug_item", self.visit(t.value), self.visit(self.index(t.slice)), op, v)), n)
            if isinstance(t, ast.Name):
                load = self.visit(ast.Name(t.id, ast.Load()))
                e = self.c("iop", op, load, v)
                if self.glob and t.id in self.glob[-1]:
                    e = self.c("sn", self.mod, t.id, e)
                return ast.copy_location(ast.Assign([t], e), n)
        n.value = v
        return n

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.allglob and self.glob:
            # a local variable of the same name hides it: then the value read is a local one and no event is needed
            return self.c("gn", self.mod, n.id, ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Name(n.id, ast.Load())))
        return n

    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript) and self.index(t.slice) is not None:
                out.append(ast.copy_location(ast.Expr(self.c("di", self.visit(t.value), self.visit(self.index(t.slice)))), n))
            else:
                out.append(ast.copy_location(ast.Delete([self.visit(t)]), n))
        return out


ENV = {"_vf_ga": ga, "_vf_sa": sa, "_vf_aug_attr": aug_attr, "_vf_gi": gi, "_vf_si": si, "_vf_di": di, "_vf_aug_item": aug_item, "_vf_iop": iop, "_vf_in": isin,
       "_vf_it": it, "_vf_b": b, "_vf_gn": gn, "_vf_sn": sn, "_vf_call": call}


def frame_users():
    """names of functions that look at the frame of their caller"""
    from . import real
    out = set()
    for d, ds, fs in os.walk(os.path.join(real.REPO, PKG)):
        ds[:] = [x for x in ds if x not in ("__pycache__", "antlr")]
        for f in fs:
            if f.endswith(".py"):
                try:
                    tree = ast.parse(open(os.path.join(d, f), "rb").read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(isinstance(x, ast.Attribute) and x.attr in ("_getframe", "currentframe", "f_back", "stack") for x in ast.walk(n)):
                        out.add(n.name)
    return out


def install():
    Shared.SKIP = Shared.SKIP | frame_users()
    watch_cwd()

    def tr(tree, name):
        return Shared(name).module(tree)
    return loader.install(tr, ENV, named=True)


# ------------------------------------------------------------------------------------------- what other schedules can a solver find?
class Query:
    """Schedules in which one access of an execution reads another value (all others before it read what they read)."""

    def __init__(self, events, initial, stats):
        self.ev, self.initial, self.stats = events, initial, stats
        self.nt = 1 + max((e.t for e in events), default=0)
        pure = {l for e in events for l in e.r}
        writers = {}
        for e in events:
            for l in e.w:
                writers.setdefault(l, set()).add(e.t)
        readers = {}
        for e in events:
            for l in list(e.r) + list(e.u):
                readers.setdefault(l, set()).add(e.t)
        self.hot = {l for l in pure if l in writers and any(a != b for a in writers[l] for b in readers.get(l, ()))}
        self.rel = [e for e in events if e.lock or any(l in self.hot for l in list(e.r) + list(e.w) + list(e.u))]
        self.index = {id(e): i for i, e in enumerate(self.rel)}
        self.seq = [[e for e in self.rel if e.t == t] for t in range(self.nt)]
        self.writes = {l: [e for e in self.rel if l in e.w] for l in self.hot}

    def targets(self):
        """(event, location, other value)"""
        for e in self.rel:
            for l in list(e.r) + list(e.u):
                if l not in self.hot:
                    continue
                v = e.r.get(l, e.u.get(l))
                vs = []
                for w in self.writes[l]:
                    if w.t != e.t and w.w[l] != v and w.w[l] not in vs:
                        vs.append(w.w[l])
                if self.initial.get(l) != v and self.initial.get(l) not in vs:
                    vs.append(self.initial.get(l))
                for x in vs:
                    yield e, l, x

    def build(self):
        self.O = [z3.Int("o%d" % i) for i in range(len(self.rel))]
        self.I = [z3.Bool("i%d" % i) for i in range(len(self.rel))]
        s = self.s = z3.Solver()
        s.set("timeout", 20000)
        ix = self.index
        for seq in self.seq:
            for a, b in zip(seq, seq[1:]):
                s.add(z3.Implies(self.I[ix[id(b)]], self.I[ix[id(a)]]), self.O[ix[id(a)]] < self.O[ix[id(b)]])
        self.target = z3.Int("target")
        for e in self.rel:
            cs = []
            for l in list(e.r) + list(e.u):
                if l in self.hot:
                    cs.append(self.reads(e, l, e.r.get(l, e.u.get(l))))
            if cs:
                i = ix[id(e)]
                s.add(z3.Implies(self.I[i], z3.Or(self.target == i, *([z3.And(cs)] if cs else []))))
        locks = {}
        for seq in self.seq:
            open_ = {}
            for e in seq:
                if e.lock:
                    if e.lock[1] == "L":
                        open_[e.lock[0]] = len(locks.setdefault(e.lock[0], []))
                        locks[e.lock[0]].append([e, None])
                    elif e.lock[0] in open_:
                        locks[e.lock[0]][open_.pop(e.lock[0])][1] = e
        for secs in locks.values():
            for i, (a, au) in enumerate(secs):
                for c, cu in secs[i + 1:]:
                    if a.t == c.t:
                        continue
                    before = lambda u, l: z3.And(self.I[ix[id(u)]], self.O[ix[id(u)]] < self.O[ix[id(l)]]) if u is not None else z3.BoolVal(False)
                    s.add(z3.Implies(z3.And(self.I[ix[id(a)]], self.I[ix[id(c)]]), z3.Or(before(au, c), before(cu, a))))

    def reads(self, e, l, v):
        """e finds v at l"""
        ix = self.index
        i = ix[id(e)]
        ws = [w for w in self.writes[l] if w is not e]
        alt = []
        for w in ws:
            if w.w[l] == v:
                j = ix[id(w)]
                alt.append(z3.And(self.I[j], self.O[j] < self.O[i], *[z3.Or(z3.Not(self.I[ix[id(x)]]), self.O[ix[id(x)]] < self.O[j], self.O[ix[id(x)]] > self.O[i])
                                                                   for x in ws if x is not w]))
        if self.initial.get(l) == v:
            alt.append(z3.And([z3.Or(z3.Not(self.I[ix[id(x)]]), self.O[ix[id(x)]] > self.O[i]) for x in ws]))
        return z3.Or(alt) if alt else z3.BoolVal(False)

    def solve(self, e, l, v):
        """-> list of thread numbers (a prefix of a schedule) or None"""
        if not hasattr(self, "s"):
            self.build()
        s, ix = self.s, self.index
        k = ix[id(e)]
        s.push()
        s.add(self.I[k], self.target == k, self.reads(e, l, v))
        t = time.time()
        r = s.check()
        self.stats.add("solver_s", time.time() - t)
        self.stats.add("queries")
        out = None
        if r == z3.sat:
            m = s.model()
            inc = [(m.eval(self.O[i], model_completion=True).as_long(), x.t, i) for i, x in enumerate(self.rel) if z3.is_true(m.eval(self.I[i], model_completion=True))]
            inc.sort()
            inc = inc[:[i for _, _, i in inc].index(k) + 1]
            # all events of the threads in between
            pos = [0] * self.nt
            per = [[x for x in self.ev if x.t == t] for t in range(self.nt)]
            out = []
            for _, t, i in inc:
                tgt = self.rel[i]
                while True:
                    x = per[t][pos[t]]
                    pos[t] += 1
                    out.append(t)
                    if x is tgt:
                        break
        elif r == z3.unknown:
            self.stats.add("unknown")
        s.pop()
        return out


def history(events, t):
    """keys of the read histories of thread t: one per event"""
    h = 0
    out = []
    for e in events:
        if e.t != t:
            continue
        out.append((e, h))
        h = hash((h, tuple(sorted(map(repr, e.r.items())))))
    return out


class Explorer:
    """run(prefix) -> (outcome, events, initial); bad(outcome) is called for each execution"""

    def __init__(self, run, limit, stats, part=(0, 1)):
        self.run, self.limit, self.stats, self.part = run, limit, stats, part
        self.left = 0

    def go(self, alone, initial):
        """alone: events of the threads, each run on its own"""
        self.seen = set()
        self.work = collections.deque()
        n = 0
        self.add(alone, initial, True)
        self.work.appendleft((None, []))
        while self.work:
            q, tgt = self.work.popleft()
            if q is None:
                prefix = tgt
            else:
                if n >= self.limit:
                    self.left += 1 + len(self.work)
                    break
                prefix = q.solve(*tgt)
                if prefix is None:
                    continue
            outcome, events, initial = self.run(prefix)
            n += 1
            yield prefix, outcome, events
            self.stats.add("events", len(events))
            self.add(events, initial, False)

    def add(self, events, initial, first):
        q = Query(events, initial, self.stats)
        hist = {}
        for t in range(q.nt):
            for e, h in history(events, t):
                hist[id(e)] = h
                for l, v in list(e.r.items()) + list(e.u.items()):
                    self.seen.add((t, h, l, repr(v)))
        if not q.hot:
            self.stats.add("executions without conflicting accesses")
            return
        for i, (e, l, v) in enumerate(q.targets()):
            if first and i % self.part[1] != self.part[0]:
                continue
            key = (e.t, hist[id(e)], l, repr(v))
            if key not in self.seen:
                self.seen.add(key)
                self.work.append((q, (e, l, v)))
