"""C14  source maps survive storage and offset rewriting (explorerscript/source_map.py executed on symbolic maps)."""
from __future__ import annotations
import json
import z3
from . import common as cm
from .. import engine, real, sym
from ..run import Check
from ..sym import SymInt, HookInt, lift

FILES = (None, "../lib/a.exps", 'd/"\\\u00e9\u2028\U0001f600.exps')
MACROS = ("m", "\u00fc_\"2")


# ------------------------------------------------------------------ symbolic environment
def _hash(s):
    return 0 if engine.CUR is not None else int.__hash__(s)


class SymRange:
    """range() over symbolic bounds (the iteration condition forks)"""

    def __init__(self, *a):
        self.a, self.b, self.s = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)

    def __iter__(self):
        x = self.a + 0 if isinstance(self.a, SymInt) else SymInt(self.a, z3.IntVal(self.a))
        while (x < self.b) if self.s > 0 else (x > self.b):
            yield x
            x = x + self.s


def _range(*a):
    if engine.CUR is not None and any(type(x) is SymInt for x in a):
        return SymRange(*a)
    return range(*a)


def plain(x):
    """For the text: a symbolic integer becomes its literal, which parse_int recognises again."""
    if type(x) is SymInt:
        engine.CUR.printed(x)
        return int.__int__(x)
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


_dumps, _loads = json.dumps, json.loads


def dumps(o, *a, **k):
    if engine.CUR is not None:
        o = plain(o)
    return _dumps(o, *a, **k)


def loads(s, *a, **k):
    if engine.CUR is not None and "parse_int" not in k:
        k["parse_int"] = HookInt
    return _loads(s, *a, **k)


# ------------------------------------------------------------------ reading a map through its public interface
MISSING = "<missing>"


def entry(e):
    return (e.line, e.column)


def mentry(e):
    pm = e.parameter_mapping
    ci = e.called_in
    return (e.relpath_included_file, e.macro_name, e.line, e.column, ("T",) + tuple(ci) if type(ci) is tuple else ci,
            e.return_addr, tuple(sorted(pm.items())) if isinstance(pm, dict) else pm)


POS = ("line_number", "column_number", "end_line_number", "end_column_number", "name", "x_offset", "y_offset", "x_relative", "y_relative")


def pos(p):
    return tuple(getattr(p, f) for f in POS)


def read(m):
    ops, mac = [], []
    M = real.m.smap.MacroSourceMapping
    for k, e in m:
        if isinstance(e, M):
            mac.append((k, mentry(e)))
        else:
            ops.append((k, entry(e)))
    return (ops, mac, [pos(p) for p in m.get_position_marks__direct()],
            [("T" if type(t) is tuple else "?", t[0], t[1], pos(t[2])) for t in m.get_position_marks__macros()])


def eqf(a, b):
    """equality of nested values as a z3 formula / bool"""
    if type(a) is SymInt or type(b) is SymInt:
        if isinstance(a, bool) or isinstance(b, bool) or not (isinstance(a, int) and isinstance(b, int)):
            return z3.BoolVal(False)
        return lift(a) == lift(b)
    if isinstance(a, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([z3.BoolVal(True)] + [eqf(x, y) for x, y in zip(a, b)])
    return z3.BoolVal(type(a) is type(b) and a == b)


def same_maps(a, b):
    """formula: the two readings contain the same entries"""
    out = []
    for x, y in ((a[0], b[0]), (a[1], b[1])):
        if len(x) != len(y):
            return z3.BoolVal(False)
        for k, e in x:
            out.append(z3.Or([z3.And(eqf(k, k2), eqf(e, e2)) for k2, e2 in y] + [z3.BoolVal(False)]))
    out.append(eqf(a[2], b[2]))
    out.append(eqf(a[3], b[3]))
    return z3.And(out)


# ------------------------------------------------------------------ building maps
def build(d):
    """d: description (symbolic or concrete) -> SourceMap.  Through the constructor or through the builder."""
    sm = real.m.smap
    if d["via"] == "builder":
        b = sm.SourceMapBuilder()
        for k, l, c in d["map"]:
            b.add_opcode(k, l, c)
        for k, f, n, l, c, ci, ra, pm in d["macros"]:
            b.macro_context__push(ra, dict(pm))
            if ci is not None:
                b.next_macro_opcode_called_in(*ci)
            b.add_macro_opcode(k, f, n, l, c)
            b.macro_context__pop()
        for p in d["pos"]:
            b.add_position_mark(sm.SourceMapPositionMark(*p))
        for f, n, p in d["mpos"]:
            b.add_macro_position_mark(f, n, sm.SourceMapPositionMark(*p))
        return b.build()
    return sm.SourceMap(
        {k: sm.SourceMapping(l, c) for k, l, c in d["map"]},
        [sm.SourceMapPositionMark(*p) for p in d["pos"]],
        {k: sm.MacroSourceMapping(f, n, l, c, None if ci is None else tuple(ci), ra, dict(pm)) for k, f, n, l, c, ci, ra, pm in d["macros"]},
        [(f, n, sm.SourceMapPositionMark(*p)) for f, n, p in d["mpos"]])


def expected(d):
    """what read() of the map described by d must give"""
    return ([(k, (l, c)) for k, l, c in d["map"]],
            [(k, (f, n, l, c, None if ci is None else ("T",) + tuple(ci), ra, tuple(sorted((a, b) for a, b in pm)))) for k, f, n, l, c, ci, ra, pm in d["macros"]],
            [tuple(p) for p in d["pos"]], [("T", f, n, tuple(p)) for f, n, p in d["mpos"]])


def conc(x, m, cx):
    """description under model m"""
    if type(x) is SymInt:
        return m.eval(x.e, model_completion=True).as_long() if m is not None else int.__int__(x)
    if isinstance(x, dict):
        return {k: conc(v, m, cx) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [conc(v, m, cx) for v in x]
    return x


def macro_entry(cx, k, fld, B, small=False):
    f = FILES[1] if small else cx.choose(FILES, "file")
    n = MACROS[0] if small else cx.choose(MACROS, "name")
    c = cx.pick(3, "called")
    ci = None if c == 0 else (None, fld("cl", 0), fld("cc", 0)) if c == 1 else (FILES[1], fld("cl", 0), fld("cc", 0))
    ra = fld("ret", 0) if cx.flag("hasret") else None
    p = 0 if small else cx.pick(3, "params")
    pm = [] if p == 0 else [["$a", fld("pv", None)]] if p == 1 else [["$a", fld("pv", None)], ["$b", 'x"\u00e9']]
    return [k, f, n, fld("ml", 0), fld("mc", 0), ci, ra, pm]


def f_roundtrip(nm, nk, np, nq, via, small=True):
    def h(cx):
        def fld(l, lo):
            return cx.int(l, lo, None)

        d = {"via": via, "kind": "roundtrip"}
        d["map"] = [[cx.int("k", 0), fld("l", 0), fld("c", 0)] for _ in range(nm)]
        d["macros"] = [macro_entry(cx, cx.int("k", 0), fld, None, small and i > 0) for i in range(nk)]
        mark = lambda: [fld("p0", 0), fld("p1", 0), fld("p2", 0), fld("p3", 0), cx.choose(("", 'q"\u00fc\n'), "pn"), fld("p4", 0), fld("p5", 0),
                        fld("p6", None), fld("p7", None)]
        d["pos"] = [mark() for _ in range(np)]
        d["mpos"] = [[cx.choose(FILES, "pf"), cx.choose(MACROS, "pm"), mark()] for _ in range(nq)]
        d["pretty"] = cx.flag("pretty")
        return roundtrip(cx, d)
    return h


def roundtrip(cx, d):
    def payload(err):
        return lambda m: dict(conc(d, m, cx), err=err)
    cx.notes = {"err": "hang"}
    pretty = d["pretty"]
    try:
        m = build(d)
        t = m.serialize(pretty=pretty)
        m2 = real.m.smap.SourceMap.deserialize(t)
        t2 = m2.serialize(pretty=pretty)
        eq = bool(m == m2) and bool(m2 == m) and not bool(m != m2)
        r2 = read(m2)
        r1 = read(m)
    except Exception as e:
        cx.fail(payload("raises " + type(e).__name__))
    if not eq:
        cx.fail(payload("not equal after reading back"))
    cx.prove(same_maps(expected(d), r2), payload("entries differ"))
    cx.prove(same_maps(expected(d), r1), payload("the map changed while serialising"))
    if t != t2:
        cx.fail(payload("second serialisation differs"))
    return {"text": t[:200]}


# ------------------------------------------------------------------ rewriting
def newaddr(mp, a, exact):
    """(defined, value) of the new offset of old offset a; not exact: of the first surviving op at or after a"""
    if exact:
        dfn = z3.Or([lift(a) == lift(o) for o, _ in mp] + [z3.BoolVal(False)])
        e = z3.IntVal(-1)
        for o, n in mp:
            e = z3.If(lift(a) == lift(o), lift(n), e)
        return dfn, e
    dfn = z3.Or([lift(o) >= lift(a) for o, _ in mp] + [z3.BoolVal(False)])
    e = z3.IntVal(-1)
    for o, n in mp:
        first = z3.And(lift(o) >= lift(a), *[z3.Or(lift(o2) < lift(a), lift(o2) >= lift(o)) for o2, _ in mp])
        e = z3.If(first, lift(n), e)
    return dfn, e


def rewritten(d, r):
    """formula: reading r is the map described by d rewritten through d["mapping"]"""
    mp = d["mapping"]
    exp = expected(d)
    out = []
    for which in (0, 1):
        olds, news = exp[which], r[which]
        present, rows = [], []
        for k, e in olds:
            p, nk = newaddr(mp, k, True)
            present.append(p)

            def match(k2, e2, e=e, nk=nk):
                if which == 0:
                    return z3.And(nk == lift(k2), eqf(e, e2))
                ra = e[5]
                rest = z3.And(eqf(e[:5] + e[6:], e2[:5] + e2[6:]))
                if ra is None:
                    return z3.And(nk == lift(k2), rest, z3.BoolVal(e2[5] is None))
                dfn, na = newaddr(mp, ra, False)
                return z3.And(nk == lift(k2), rest, z3.Or(z3.Not(dfn), na == lift(e2[5]) if isinstance(e2[5], int) else z3.BoolVal(False)))
            rows.append([match(k2, e2) for k2, e2 in news])
            out.append(z3.Implies(p, z3.Or(rows[-1] + [z3.BoolVal(False)])))
        for j in range(len(news)):
            out.append(z3.Or([z3.And(present[i], rows[i][j]) for i in range(len(olds))] + [z3.BoolVal(False)]))
        out.append(z3.Sum([z3.IntVal(0)] + [z3.If(p, 1, 0) for p in present]) == len(news))
    out.append(eqf(exp[2], r[2]))
    out.append(eqf(exp[3], r[3]))
    return z3.And(out)


def f_rewrite(nm, nk, nmap, B, then, full=False):
    def h(cx):
        d = {"via": "ctor" if not then else "builder", "kind": "rewrite"}

        def off(l, lo=0):
            return cx.int(l, lo, B, distinct=False)
        ks = []

        def key():
            k = off("k")
            for o in ks:
                cx.assume(o.e != k.e)
            ks.append(k)
            return k

        def fld(l, lo):
            return cx.int(l, 1000, None)
        d["map"] = [[key(), fld("l", 0), fld("c", 0)] for _ in range(nm)]
        d["macros"] = []
        for i in range(nk):
            k = key()
            if full:
                e = macro_entry(cx, k, fld, None)
            else:
                e = [k, FILES[i % 2], "m", fld("ml", 0), fld("mc", 0), (None, 3, 4) if i else None, 0, [["$a", "v"]]]
            if full and e[6] is None:
                pass
            else:
                e[6] = off("ret")
            d["macros"].append(e)
        d["pos"] = [[1, 2, 3, 4, "n", 0, 2, 5, 6]]
        d["mpos"] = [[None, "m", [1, 2, 3, 4, "n", 0, 2, 5, 6]]]
        olds = [off("old") for _ in range(nmap)]
        news = [off("new") for _ in range(nmap)]
        for g in (olds, news):
            for i in range(len(g)):
                for j in range(i):
                    cx.assume(g[i].e != g[j].e)
        d["mapping"] = [[o, n] for o, n in zip(olds, news)]
        cx.notes = {"err": "hang"}

        def payload(err):
            return lambda m: dict(conc(d, m, cx), err=err)
        try:
            m = build(d)
            mp = dict(zip(olds, news))
            m.rewrite_offsets(mp)
            if then:
                m2 = real.m.smap.SourceMap.deserialize(m.serialize())
                if not (m2 == m):
                    cx.fail(payload("not equal after reading back"))
                m = m2
            r = read(m)
        except engine.Abandon:
            raise
        except Exception as e:
            cx.fail(payload("raises " + type(e).__name__))
        cx.prove(rewritten(d, r), payload("rewritten entries differ"))
        return {"mapping": [[repr(o.e), repr(n.e)] for o, n in d["mapping"]], "entries": nm + nk}
    return h


def K(v):
    """a constant that dictionaries find among symbolic integers (SymInt hashes by constant here)"""
    return None if v is None else v if type(v) is SymInt else SymInt(v, z3.IntVal(v))


def keyed(d):
    for e in d["map"]:
        e[0] = K(e[0])
    for e in d["macros"]:
        e[0], e[6] = K(e[0]), K(e[6])
    if "mapping" in d:
        d["mapping"] = [[K(a), K(b)] for a, b in d["mapping"]]
    return d


def f_gap(B):
    """the op at the return address and all ops up to the surviving one may be dropped, however many they are"""
    def h(cx):
        big = lambda l, lo=0, hi=None: cx.int(l, lo, hi, distinct=False)
        ret, old = big("ret", 1, B), big("old", 1, B)
        d = {"via": "ctor", "kind": "rewrite", "map": [], "pos": [], "mpos": []}
        d["macros"] = [[K(0), FILES[1], "m", 5, 6, None, ret, []]]
        n0, n1 = big("n0"), big("n1")
        cx.assume(n0.e != n1.e)
        d["mapping"] = [[K(0), n0], [old, n1]]
        cx.notes = {"err": "hang"}

        def payload(err):
            return lambda m: dict(conc(d, m, cx), err=err)
        try:
            m = build(d)
            m.rewrite_offsets({K(0): n0, old: n1})
            r = read(m)
        except engine.Abandon:
            raise
        except Exception as e:
            cx.fail(payload("raises " + type(e).__name__))
        cx.prove(rewritten(d, r), payload("rewritten entries differ"))
        return {"entries": 1}
    return h


def f_rtlong(n):
    """n entries of every kind with keys of several lengths, stored in any of some orders"""
    def h(cx):
        f = lambda l: cx.int(l, 100000, None)
        d = {"via": cx.choose(("ctor", "builder"), "via"), "kind": "roundtrip"}
        ks = [[i * 9 for i in range(n)], [2 ** i for i in range(n)], [(i * 5) % n + 95 for i in range(n)], list(range(n, 0, -1))][cx.pick(4, "ks")]
        d["map"] = [[k, f("l") if i in (0, n - 1) else i, 3] for i, k in enumerate(ks)]
        d["macros"] = [[k + 4096, FILES[i % len(FILES)], MACROS[i % len(MACROS)], i, f("c") if i == n // 2 else i, [None, (None, 3, i), (FILES[1], i, 4)][i % 3],
                        None if i % 4 == 1 else 4 * i, [["$b", i], ["$a", "t"], ["$c%d" % i, f("v") if i == n - 1 else 4]][:i % 4]] for i, k in enumerate(ks)]
        d["pos"] = [[i, 2, 3, 4, f"n{i}", 0, 2, 5, 6] for i in range(n)]
        d["mpos"] = [[FILES[i % len(FILES)], MACROS[i % len(MACROS)], [i, 2, 3, 4, "n", 0, 2, 5, 6]] for i in range(n)]
        d["pretty"] = cx.flag("pretty")
        return roundtrip(cx, keyed(d))
    return h


def f_long(n):
    """n entries, a run of ops dropped, the rest moved (in order or not) to symbolic offsets; storage in between"""
    def h(cx):
        sy = cx.int("line", 100000, None)
        rot = cx.choose((0, 1, n // 2), "rot")
        rev = cx.flag("rev")
        lo = cx.pick(n, "lo")
        hi = cx.choose((lo, lo + 1, lo + 9, n - 1, n), "hi")
        step = cx.choose((1, 3), "step")
        if hi < lo or hi > n:
            raise engine.Abandon
        d = {"via": "ctor", "kind": "rewrite"}
        d["map"] = [[2 * step * i, i if i % 5 else sy, n - i] for i in range(n)]
        d["macros"] = [[step * (2 * i + 1), FILES[i % 2], f"m{i % 3}", i, 7, (None, i, 4) if i % 4 == 0 else None, step * (2 * i + 3) if i % 5 else None, [["$a", i if i % 4 else sy]]] for i in range(n)]
        d["pos"] = [[i, 2, 3, 4, f"n{i}", 0, 2, 5, 6] for i in range(n)]
        d["mpos"] = [[None, "m", [i, 2, 3, 4, "n", 0, 2, 5, 6]] for i in range(n)]
        olds = [step * i for i in range(2 * n + 1) if not 2 * lo <= i < 2 * hi]
        m_ = len(olds)
        order = [(i + rot) % m_ if not rev else m_ - 1 - i for i in range(m_)]
        d["mapping"] = [[o, 3 + 2 * order[i]] for i, o in enumerate(olds)]
        keyed(d)
        cx.notes = {"err": "hang"}

        def payload(err):
            return lambda m: dict(conc(d, m, cx), err=err)
        try:
            m = build(d)
            m = real.m.smap.SourceMap.deserialize(m.serialize())
            m.rewrite_offsets(dict(map(tuple, d["mapping"])))
            m2 = real.m.smap.SourceMap.deserialize(m.serialize(pretty=True))
            if not (m2 == m):
                cx.fail(payload("not equal after reading back"))
            r = read(m2)
        except engine.Abandon:
            raise
        except Exception as e:
            cx.fail(payload("raises " + type(e).__name__))
        cx.prove(rewritten(d, r), payload("rewritten entries differ"))
        return {"entries": 2 * n}
    return h


def concrete_rewrite(d):
    mp = {o: n for o, n in d["mapping"]}
    exp = expected(d)
    ops = {mp[k]: e for k, e in exp[0] if k in mp}
    mac = {}
    for k, e in exp[1]:
        if k not in mp:
            continue
        e = list(e)
        if e[5] is not None:
            later = [o for o in mp if o >= e[5]]
            e[5] = mp[min(later)] if later else "any"
        mac[mp[k]] = tuple(e)
    return ops, mac, exp[2], exp[3]


class CHECK(Check):
    id = "C14"
    level = "model_checking"
    technique = ("symbolic execution of explorerscript/source_map.py on maps whose offsets, lines, columns, return addresses, parameter values and offset "
                 "mappings are z3 integers (path forking, every branch decided by the solver); the assertion on each path is a z3 query")
    level_note = ("Bounded by the number of entries per map (see bounds); every offset, line, column, return address and parameter value is an unbounded "
                  "z3 integer, every offset mapping a symbolic injective table. The JSON text layer is Python's own json module.")
    seconds = {"quick": 60, "thorough": 1500}
    assumptions = ["the rewriting map is injective (old and new offsets are op numbers)", "JSON text itself is produced and read by Python's json module",
                   "file, macro and parameter names and mark names range over fixed samples (None, plain, quotes, backslash, non-ASCII)"]

    def setup(self):
        json.dumps, json.loads = dumps, loads
        sym.WRAP = True
        SymInt.__hash__ = _hash
        cm.setup_ints()
        real.m.smap.__dict__["range"] = _range

    bounds = {
        "quick": "maps of 12 entries of each kind in 4 key sequences; a dropped return address up to 40 ops before the surviving one; runs of dropped ops in maps of 12 ops in 6 orders; maps with up to 2 op entries, 2 macro entries, 1+1 position marks with unbounded symbolic integers (round trip; written integers pairwise "
                 "different or below 1000); rewriting: up to 2 op or macro entries, up to 3 surviving ops, offsets 0..5",
        "thorough": "round trip up to 3 entries per table; rewriting up to 3 entries, 4 surviving ops, offsets 0..9",
    }

    def families(self, tier):
        T = tier == "thorough"
        out = []
        for via in ("ctor", "builder"):
            for nm, nk, np, nq in [(0, 0, 0, 0), (2, 0, 2, 0), (1, 1, 1, 1), (0, 2, 0, 0), (1, 0, 0, 2)] + ([(3, 0, 3, 0), (3, 2, 0, 0)] if T else []):
                out.append((f"rt:{via}:{nm}{nk}{np}{nq}", f_roundtrip(nm, nk, np, nq, via, not T)))
        for nm, nk, n, B in [(1, 0, 0, 5), (0, 1, 0, 5), (2, 0, 2, 5), (1, 1, 2, 4), (0, 1, 2, 5), (0, 1, 3, 5), (0, 2, 2, 4)] + \
                            ([(3, 0, 3, 6), (0, 1, 4, 9), (0, 2, 3, 6), (1, 2, 2, 5), (1, 1, 3, 6)] if T else []):
            out.append((f"rw:{nm}{nk}:{n}:{B}", f_rewrite(nm, nk, n, B, False)))
        out += [("gap", f_gap(300 if T else 40)), ("long", f_long(12 if T else 6)), ("rt:long", f_rtlong(12))]
        out.append(("rws", f_rewrite(1, 1, 2, 4, True)))
        out.append(("rwf", f_rewrite(0, 1, 1, 4, False, True)))
        return out

    def replay(self, d):
        sm = real.m.smap
        if d["err"] == "hang":
            return None
        m = build(d)
        if d["kind"] == "roundtrip":
            exp = expected(d)
            try:
                t = m.serialize(pretty=d["pretty"])
                m2 = sm.SourceMap.deserialize(t)
                t2 = m2.serialize(pretty=d["pretty"])
                eq = (m == m2) and (m2 == m) and not (m != m2)
                r2 = read(m2)
            except Exception as e:
                return f"storing {d} raises {type(e).__name__}: {e}"
            if not eq:
                return f"deserialize(serialize(map)) != map for {t}"
            if sorted(map(repr, r2[0])) != sorted(map(repr, exp[0])) or sorted(map(repr, r2[1])) != sorted(map(repr, exp[1])) or r2[2:] != exp[2:]:
                return f"entries differ after reading back: {r2} instead of {exp}"
            if t != t2:
                return f"second serialisation differs: {t2} instead of {t}"
            return None
        want = concrete_rewrite(d)
        mp = {o: n for o, n in d["mapping"]}
        try:
            m.rewrite_offsets(dict(mp))
            if d["via"] == "builder":
                m2 = sm.SourceMap.deserialize(m.serialize())
                if not m2 == m:
                    return "deserialize(serialize(map)) != map after rewriting"
                m = m2
            r = read(m)
        except Exception as e:
            return f"rewriting {d} raises {type(e).__name__}: {e}"
        ok = len(r[0]) == len(want[0]) and dict(r[0]) == want[0] and len(r[1]) == len(want[1]) and r[2:] == want[2:]
        if ok:
            for k, e in r[1]:
                w = want[1].get(k)
                if w is None or e[:5] + e[6:] != w[:5] + w[6:] or (w[5] != "any" and e[5] != w[5]):
                    ok = False
        return None if ok else f"after rewriting through {mp}: {r} instead of {want} (source: {d})"
