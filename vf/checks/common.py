"""Shared by the checks that compare behaviours."""
from __future__ import annotations
import importlib
import pkgutil
import sys
import z3
from .. import engine, lang, machine, real, sym
from ..lang import N
from ..shapes import G, I, C, S, routine, program


def load_all():
    """Import every module of the package (so that hooks reach all of them)."""
    real.setup()
    import explorerscript
    for mi in pkgutil.walk_packages(explorerscript.__path__, "explorerscript."):
        if mi.name.endswith("__main__"):
            continue
        try:
            importlib.import_module(mi.name)
        except Exception:
            pass


def setup_ints():
    load_all()
    sym.hook()


def int_val(cx):
    """literal text -> value in the reference semantics (the symbolic variable it stands for, if any)"""
    def f(t):
        v = lang.int_value(t)
        return cx.reg.get(v, v) if cx is not None else v
    return f


def symlit(cx, lo=-2**31, hi=2**31 - 1):
    def f(v):
        return N("int", str(cx.int("v", lo, hi)))
    return f


def at_values(cx, m, text):
    """the program text with the values of model m instead of those of the current path"""
    vals = cx.values(m)
    ts = lang.lex(text)
    out, last = [], 0
    cur = {}
    for n, (v, _) in cx.ints.items():
        cur[cx.vals[n]] = vals[n]
    for t in ts:
        if t.k == "INT" and lang.int_value(t.t) in cur:
            out.append(text[last:t.i])
            out.append(str(cur[lang.int_value(t.t)]))
            last = t.i + len(t.t)
    return "".join(out) + text[last:]


def has_divergence(g, entries):
    """an op-free cycle is reachable (excluded: nothing observable distinguishes such programs)"""
    seen, work = set(), []
    for e in entries:
        if e is not None:
            work.append(e)
    while work:
        n = machine.resolve(g, work.pop())
        if n == -1:
            return True
        if n in seen:
            continue
        seen.add(n)
        work.extend(machine._sig(g, n)[1])
    return False


def decide(cx, prod, payload):
    """Discharge the bisimulation query of a product.  payload: function(model or None) -> dict."""
    st = cx.w.stats
    st.add("states", len(prod.pairs))
    st.add("transitions", sum(len(d) for d in prod.delta))
    if prod.bad:
        # the construction already met a concrete mismatch: one query, so that the witness is the solver's
        f = prod.query(0, cx.pending)
        s = z3.Solver()
        s.add(f)
        st.add("queries")
        st.add("assertions")
        r = s.check()
        if r == z3.sat:
            cx.w.violation(payload(s.model()))
            raise engine.Abandon
        raise engine.Inconclusive("mismatch not confirmed by the solver")
    soft = [] if not prod.soft else cx.pending
    cx.defer(prod.query(st["paths"], soft), lambda m: payload(m))


def bad_kind(prod):
    e = prod.explain()
    return e


SINK = None
ARITY = {"Branch": 2, "BranchBit": 2, "BranchDebug": 1, "BranchEdit": 1, "BranchExecuteSub": 1, "BranchPerformance": 2, "BranchScenarioNow": 3,
         "BranchScenarioNowAfter": 3, "BranchScenarioNowBefore": 3, "BranchScenarioAfter": 3, "BranchScenarioBefore": 3, "BranchSum": 3,
         "BranchValue": 3, "BranchVariable": 3, "BranchVariation": 1}


def plain_headers(x):
    """operations in headers have no inline context; one that serves as a condition is a branch op with as many arguments as it takes
    (others are rejected)"""
    if isinstance(x, N):
        if x.k in ("h_operation", "s_operation") and x.a[0].a[1] is not None:
            return False
        if x.k == "h_operation" and ARITY.get(x.a[0].a[0]) != len(x.a[0].a[2]):
            return False
        return all(plain_headers(y) for y in x.a)
    if isinstance(x, (list, tuple)):
        return all(plain_headers(y) for y in x)
    return True


def check_source_vs_compiled(cx, prog, text, lookup=None, extra=None):
    """C01 core.  Other checks reuse the program families of C01 by installing their own SINK(cx, prog, text)."""
    if SINK is not None:
        return SINK(cx, prog, text)
    st = cx.w.stats
    st.add("programs")
    cx.notes = {"text": text, **(extra or {})}
    try:
        src = lang.Sem(int_val(cx)).program(prog)
    except lang.LangError:
        raise engine.Abandon
    if has_divergence(src, [e for _, e in src.entries]):
        raise engine.Abandon
    base = dict(cx.notes)

    def payload(err, why=None):
        def f(m):
            d = dict(base, err=err)
            if m is not None and cx.ints:
                d["text"] = at_values(cx, m, text)
            if why:
                d["why"] = why
            return d
        return f
    try:
        c = real.compile_text(text)
    except Exception as e:
        if not plain_headers(prog):
            st.add("rejected_by_compiler")
            raise engine.Abandon
        cx.fail(payload("rejected", f"{type(e).__name__}: {str(e)[:200]}"))
    check_compiled(cx, src, c, payload)
    return c


def check_compiled(cx, src, c, payload):
    try:
        rs = real.routines(c.routine_ops)
        mg = machine.machine(rs)
    except machine.Malformed as e:
        cx.fail(payload("malformed: " + str(e)[:60]))
    d = table_diff(src.entries, c)
    if d is not None:
        if d[1] is None:
            cx.fail(payload("table: " + d[0]))
        cx.prove(z3.Not(d[1]), payload("table: " + d[0]))
    pairs = [(e, f) for (_, e), (_, f) in zip(src.entries, mg.entries) if e is not None]
    p = machine.Product(src, mg, pairs)
    decide(cx, p, payload("behaviour", p.explain() if p.bad else None))


def table_diff(entries, c):
    """Routine ids, kinds, targets, coroutine names.  -> None or (description, z3 condition under which they differ / None)"""
    want = routine_table(entries)
    if not (len(c.routine_infos) == len(c.named_coroutines) == len(c.routine_ops) == len(want)):
        return ("lengths %d %d %d, expected %d" % (len(c.routine_infos), len(c.named_coroutines), len(c.routine_ops), len(want)), None)
    conds = []
    for i, (kind, tgt, name, e) in enumerate(want):
        k, t = real.info(c.routine_infos[i])
        if k != kind:
            return (f"kind of {i}: {k} != {kind}", None)
        if kind == "COROUTINE":
            if c.named_coroutines[i] != name:
                return (f"coroutine name of {i}: {c.named_coroutines[i]} != {name}", None)
        elif c.named_coroutines[i] and c.named_coroutines[i] != "n/a":
            return (f"coroutine name of {i}: {c.named_coroutines[i]}", None)
        if kind not in ("GENERIC", "COROUTINE"):
            q = machine.val_eq(t, tgt)
            if q is False:
                return (f"target of {i}: {t} != {tgt}", None)
            if q is not True:
                conds.append(q)
        if (e is None) != (len(c.routine_ops[i]) == 0):
            return (f"ops of {i}: alias {e is None}, {len(c.routine_ops[i])} ops", None)
    if conds:
        return ("target", z3.Not(z3.And(conds)))
    return None


def routine_table(entries):
    """(kind, target, coroutine name, entry) per routine id; sources define either ids 0..n-1 in order, or coroutines."""
    out = []
    for d, e in entries:
        if d[0] == "coro":
            out.append(("COROUTINE", None, d[1], e))
        else:
            out.append((d[2], d[3], None, e))
    return out


# --------------------------------------------------------------------------------------- concrete oracle for replays
def concrete_compare(src, c):
    """-> None or description"""
    try:
        rs = real.routines(c.routine_ops)
        mg = machine.machine(rs)
    except machine.Malformed as e:
        return "malformed output: " + str(e)
    d = table_diff(src.entries, c)
    if d is not None:
        return "routine table: " + d[0]
    pairs = [(e, f) for (_, e), (_, f) in zip(src.entries, mg.entries) if e is not None]
    p = machine.Product(src, mg, pairs)
    if p.bad:
        return "behaviour differs: %s\nops: %s" % (p.explain(), rs)
    return None


def with_cross(cx, g, body, size_ok=True, allow_cross=True):
    """Resolve the labels that are used but not defined: at the end of routine 0, or (from there on) in routine 1."""
    if g.defined - g.used:
        raise engine.Abandon
    for l in sorted(g.used - g.defined):
        if cx.flag("x" + l):
            body = body + [N("label", l)]
            g.defined.add(l)
        else:
            break
    if not allow_cross and g.used - g.defined:
        raise engine.Abandon
    r1 = [g.op()]
    for l in sorted(g.used - g.defined):
        r1.append(N("label", l))
    r1.append(g.op())
    return program([routine(0, body), routine(1, r1)])
