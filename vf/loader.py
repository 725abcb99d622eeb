"""Import the package with an AST transformation applied to every module (the code stays the one of /repo; only the operations named in
the transformation are routed through the engine)."""
from __future__ import annotations
import ast
import importlib.abc
import importlib.util
import os
import sys
from . import real


class Loader(importlib.abc.Loader):
    def __init__(self, path, transform, env, name):
        self.path, self.transform, self.env, self.name = path, transform, env, name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = ast.fix_missing_locations(self.transform(tree, self.name))
        module.__dict__.update(self.env)
        exec(compile(tree, self.path, "exec"), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, transform, env, skip=(".antlr",), also=None):
        self.transform, self.env, self.skip, self.also = transform, env, skip, also or {}
        self.loaded = []

    def find_spec(self, name, path, target=None):
        if name in self.also:
            return importlib.util.spec_from_file_location(name, self.also[name],
                                                          loader=Loader(self.also[name], self.transform, self.env, name))
        if not (name == "explorerscript" or name.startswith("explorerscript.")) or any(s in name for s in self.skip):
            return None
        base = os.path.join(real.REPO, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.isfile(base + ".py"):
            p, pkg = base + ".py", False
        else:
            return None
        self.loaded.append(name)
        return importlib.util.spec_from_file_location(name, p, loader=Loader(p, self.transform, self.env, name),
                                                      submodule_search_locations=[base] if pkg else None)


def install(transform, env, named=False, also=None):
    if not named:
        plain = transform
        transform = lambda tree, name: plain(tree)
    assert not any(n == "explorerscript" or n.startswith("explorerscript.") for n in sys.modules), "package already imported"
    f = Finder(transform, env, also=also)
    sys.meta_path.insert(0, f)
    return f


# ------------------------------------------------------------------------------- hash order and identities
class _W:
    __slots__ = ("x", "h")

    def __init__(self, x, h):
        self.x, self.h = x, h

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o


def _stable(x):
    return x is None or isinstance(x, (int, bool)) or isinstance(x, tuple) and all(_stable(y) for y in x)


class Order:
    """Where sets of things whose hash depends on addresses (igraph edges and vertices: index ^ address of the graph >> 4; other objects) or
    on the hash seed (strings) are iterated, the order is the one CPython gives for an engine-chosen address / seed."""

    def __init__(self):
        self.k = None
        self.serial = {}

    def key(self):
        if self.k is None:
            from . import engine
            cx = engine.CUR
            self.k = 0 if cx is None else cx.pick(4, "address")
            if cx is not None:
                cx.notes["address"] = self.k
        return self.k

    def hash(self, x):
        n = type(x).__name__
        if n in ("Edge", "Vertex"):
            # addresses of graph objects are 0x50 modulo 0x100 in pymalloc pools on this platform
            return x.index ^ (5 + 16 * self.key())
        if isinstance(x, str):
            import zlib
            return zlib.crc32(x.encode("utf-8", "surrogatepass"), self.key()) * (self.key() * 2 + 1)
        if isinstance(x, tuple):
            return hash(tuple(self.hash(y) for y in x))
        if _stable(x):
            return hash(x)
        i = self.serial.setdefault(id(x), (len(self.serial), x))[0]
        return (i + 1) * (1, -1, 7, 11)[self.key()]


ORDER = Order()


class HSet(set):
    def _order(self):
        n = set.__len__(self)
        xs = list(set.__iter__(self))
        if n < 2 or all(_stable(x) for x in xs):
            return xs
        if n < 5 and all(type(x).__name__ in ("Edge", "Vertex") for x in xs):
            return [w.x for w in {_W(x, x.index ^ 5) for x in sorted(xs, key=lambda x: x.index)}]
        if all(hasattr(x, "index") and not isinstance(x, (str, tuple)) for x in xs):
            xs.sort(key=lambda x: x.index)
        return [w.x for w in {_W(x, ORDER.hash(x)) for x in xs}]

    def __iter__(self):
        return iter(self._order())

    def pop(self):
        for x in self._order():
            set.remove(self, x)
            return x
        raise KeyError("pop from an empty set")

    def copy(self):
        return HSet(set.copy(self))

    def __and__(self, o):
        r = set.__and__(self, o)
        return r if r is NotImplemented else HSet(r)

    def __or__(self, o):
        r = set.__or__(self, o)
        return r if r is NotImplemented else HSet(r)

    def __sub__(self, o):
        r = set.__sub__(self, o)
        return r if r is NotImplemented else HSet(r)

    def union(self, *o):
        return HSet(set.union(self, *o))

    def difference(self, *o):
        return HSet(set.difference(self, *o))

    def intersection(self, *o):
        return HSet(set.intersection(self, *o))

    __hash__ = None


class Ids:
    """id(x): an identity that no live object has; the identity of a dead object may come back (engine choice)."""

    real = False

    def __init__(self):
        self.e = []
        self.n = 0
        self.policy = None      # 0: never, 1: always the last one, None: engine choice
        self.asked = False
        self.picks = 0

    def __call__(self, x):
        import weakref
        from . import engine
        cx = engine.CUR
        self.asked = True
        if self.real:
            return id(x)
        for r, v in self.e:
            if r() is x:
                return v
        dead = [i for i, (r, v) in enumerate(self.e) if r() is None]
        self.n += 1
        v = 0x7f0000000000 + 0x100 * self.n
        if self.policy is not None:
            if dead and self.policy == 1:
                v = self.e.pop(dead[-1])[1]
        elif dead and cx is not None and self.picks < 3:
            self.picks += 1
            k = cx.pick(2, "id reused")
            if k:
                v = self.e.pop(dead[0])[1]
        try:
            r = weakref.ref(x)
        except TypeError:
            r = lambda x=x: x
        self.e.append((r, v))
        return v


IDS = Ids()


class HashIds(ast.NodeTransformer):
    def __init__(self):
        self.log = 0

    def visit_Call(self, n):
        f = n.func
        islog = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("logger", "logging", "warnings")
        if islog:
            return n
        self.generic_visit(n)
        if isinstance(f, ast.Name) and f.id == "set" and not n.keywords:
            n.func = ast.copy_location(ast.Name("_vf_HSet", ast.Load()), f)
        elif isinstance(f, ast.Name) and f.id == "id" and len(n.args) == 1:
            n.func = ast.copy_location(ast.Name("_vf_id", ast.Load()), f)
        return n

    def visit_Compare(self, n):
        isid = lambda x: isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "id"
        if isid(n.left) and all(isid(c) for c in n.comparators):
            return n        # identities of live objects
        self.generic_visit(n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("_vf_HSet", ast.Load()), [ast.List(n.elts, ast.Load())], []), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name("_vf_HSet", ast.Load()), [ast.ListComp(n.elt, n.generators)], []), n)


def install_orders():
    return install(lambda t: HashIds().visit(t), {"_vf_HSet": HSet, "_vf_id": IDS})


def reset():
    ORDER.__init__()
    IDS.__init__()
