"""C12  concurrent calls give the sequential results."""
from __future__ import annotations
import json
import os
import shutil
import subprocess
import sys
import tempfile
import z3
from . import common as cm
from . import c11
from .. import antlr_shared, engine, loader, machine, oplists, real, sched, sym, world
from ..run import Check


def runs(root, threads):
    """callables: one per thread, each doing its calls in order"""
    def one(t, evs):
        w = world.World(os.path.join(root, "c" if any("common" in e for e in evs) else "t%d" % t))
        return lambda: [w.do(e) for e in evs]
    for evs in threads:
        for e in evs:
            if "common" in e:
                world.World(os.path.join(root, "c")).write(e["common"])
    if any("cold" in e for evs in threads for e in evs):
        import importlib
        antlr_shared.install([importlib.import_module("explorerscript.antlr." + n) for n in ("ExplorerScriptParser", "ExplorerScriptLexer", "SsbScriptParser", "SsbScriptLexer")])
    return [one(t, evs) for t, evs in enumerate(threads)]


def observe(cx, threads, limit, err="depends on the other threads", part=(0, 1)):
    """threads: list of lists of calls"""
    cx.w.stats.add("programs")
    root = os.path.realpath(tempfile.mkdtemp(prefix="vf-c12-", dir="/tmp"))
    try:
        inner(cx, threads, limit, err, root, part)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def inner(cx, threads, limit, err, root, part):
    cx.notes = {"threads": [[sym.concrete(e) for e in t] for t in threads], "err": "no answer", "schedule": []}
    policy = 0

    def alone(t):
        def f():
            loader.reset()
            loader.IDS.policy = policy
            r, ev = sched.run([lambda: None] * t + [runs(root, threads)[t]])
            return r[t], loader.IDS.asked, [e.data() for e in ev], {repr(k): (k, v) for k, v in sched.T.initial.items()}
        return f
    want = []
    asked = False
    first, initial = [], {}
    for t in range(len(threads)):
        c11.wipe(root)
        r, a, evs, ini = engine.isolated(cx, alone(t), 20)
        first += [sched.Event(*d) for d in evs]
        initial.update(dict(ini.values()))
        asked = asked or a
        want.append(r)
    if asked:
        policy = cx.pick(2, "ids")

    def run(prefix):
        c11.wipe(root)

        def f():
            loader.reset()
            loader.IDS.policy = policy
            try:
                r, ev = sched.run(runs(root, threads), prefix)
            except sched.Deadlock as e:
                return ["deadlock", str(e)], [], {}
            return r, [e.data() for e in ev], {repr(k): (k, v) for k, v in sched.T.initial.items()}
        cx.notes["schedule"] = list(prefix)
        r, ev, ini = engine.isolated(cx, f, 20)
        sched.T.events = []
        out = []
        for d in ev:
            e = sched.Event(d[0], d[1], d[2], d[3], d[4])
            out.append(e)
        return r, out, dict(ini.values())
    ex = sched.Explorer(run, limit, cx.w.stats, part)
    for prefix, got, events in ex.go(first, initial):
        cx.w.stats.add("schedules")

        def payload(kind, why):
            def f(m):
                return {"threads": [[c11.at(cx, m, e) for e in t] for t in threads], "schedule": list(prefix), "ids": policy, "err": kind, "why": why}
            return f
        if got and got[0] == "deadlock":
            cx.fail(payload("deadlock", got[1]))
            continue
        for t in range(len(threads)):
            for i, (a, b) in enumerate(zip(want[t], got[t])):
                where = world.differ(a, b)
                cx.prove(z3.Not(where[1]), payload(err, "thread %d, call %d: %s" % (t, i, where[0] or "values")))
    if ex.left:
        cx.w.stats.add("schedule prefixes left out", ex.left)


def ev(cx, k):
    return c11.event(cx, *k)


def f_pairs(xs, ys, limit):
    def h(cx):
        a = xs[cx.pick(len(xs), "a")]
        b = ys[cx.pick(len(ys), "b")]
        observe(cx, [[ev(cx, a)], [ev(cx, b)]], limit)
    return c11.whole(h)


def f_same(limit):
    """the same input with other numbers, or as much text with other names"""
    def h(cx):
        import re
        x = ev(cx, c11.XS[cx.pick(len(c11.XS), "x")])
        y = x
        if "text" in x:
            how = cx.pick(3, "how")
            if how == 1:
                y = dict(x, text=re.sub(r"\d{4,}", lambda m: str(cx.int("n", 1000, 2**31 - 1)), x["text"]))
            elif how == 2:
                y = dict(x, text=re.sub(r"\b([a-z])\(", lambda m: ("w" if m.group(1) != "w" else "v") + "(", x["text"]))
        observe(cx, [[x], [y]], limit)
    return c11.whole(h)


def f_three(pool, limit, seq):
    """three threads, or two of which one does two calls"""
    def h(cx):
        es = [ev(cx, pool[cx.pick(len(pool), "e%d" % i)]) for i in range(3)]
        observe(cx, [es[:2], es[2:]] if seq else [[e] for e in es], limit)
    return c11.whole(h)


COLD = ["def 0 { a(); }", "def 0 { a(1, 'x'); b($X); @l; }", "macro m($p) { a($p); } def 0 { ~m(2); }", "def 0 { if ($A == 1) { a(); } }", "//?: is-ssb-script: true\ndef 0 { a(1); }", "def 0 { a( }",
        "coro X { switch ($A) { case 1: a(); break; default: b(); } }", "def 0 for actor X { jump @l; @l; }", "def 0 { forever { if (debug || not ($A < 3)) { break_loop; } $A += 1; } }",
        "def 0 { with (actor 1) { a(); } while (edit) { p(Position<'x', 1, 2.5>, {english='x',}); } }", "import \"./x.exps\"; def 0 { }"]


def f_cold(pool, parts, limit):
    """the parsers have not been used before: their shared prediction caches are filled by both threads"""
    def h(cx):
        a, b = pool[cx.pick(len(pool), "a")], pool[cx.pick(len(pool), "b")]
        k = cx.pick(parts, "part")
        observe(cx, [[{"do": "compile", "text": a, "cold": True}], [{"do": "compile", "text": b, "cold": True}]], limit, part=(k, parts))
    return c11.whole(h)


def f_common(limit):
    """files of one project are compiled at the same time"""
    def h(cx):
        f = c11.files(cx, ["", "chain"][cx.pick(2, "project")])
        f["other.exps"] = "import \"./two.exps\"; def 0 { ~two(); other(); @l; jump @l; }"
        f["a/b/third.exps"] = "import \"../../sub/lib.exps\"; macro own($p) { ~lib($p); } def 0 { ~own(7); ~lib(8); }"
        f["broken.exps"] = "import \"./two.exps\"; def 0 { ~nothing(); }"
        names = ["main.exps", "other.exps", "a/b/third.exps", "broken.exps", "sub/lib.exps"]
        es = [{"do": "compile", "text": f[n], "name": n, "common": f} for n in (names[cx.pick(5, "e%d" % i)] for i in range(2))]
        observe(cx, [[es[0]], [es[1]]], limit)
    return c11.whole(h)


def f_small(limit):
    def h(cx):
        t = []
        for w in ("a", "b"):
            b = c11.ONE[cx.pick(len(c11.ONE), w)]
            t.append(c11.fill(cx, ["def 0 { %s n(#); end; }", "def 0 { forever { %s m(#); } }"][cx.pick(2, "f" + w)] % b))
        observe(cx, [[{"do": "roundtrip", "text": t[0]}], [{"do": "roundtrip", "text": t[1]}]], limit)
    return c11.whole(h)


class CHECK(Check):
    id = "C12"
    level = "model_checking"
    technique = ("real threads run the real code under schedules computed by z3: from the recorded accesses to state that outlives a call z3 derives every other schedule in which "
                 "an access reads a different value, until none is satisfiable; results are compared by z3 with those of the calls alone")
    level_note = ("Every access of the package's code to objects reachable from module globals, class attributes, default arguments, closures and caches (and to whatever is stored into "
                  "them) is an event; z3 decides over all interleavings of these events, respecting locks, whether any read can return another value. What a thread returns is a "
                  "function of the values it reads, so an unsatisfiable query covers all thread switches between any two bytecodes of the package. Bounded by the pools of inputs and, where "
                  "there are conflicting accesses, by the number of schedules per set of inputs.")
    seconds = {"quick": 80, "thorough": 2400}
    limit = 60
    replay_limit = 120
    assumptions = [
        "single operations of built-in containers on keys with built-in hash functions are atomic (they are under the GIL)",
        "code of igraph, the standard library and other packages called with private arguments does not share state between threads; the shared prediction caches of the ANTLR "
        "runtime are exercised separately (family cold) at its accesses to them",
        "identities of dead objects either never come back or always do (both are tried when the code uses identities)",
        "stores through tuple targets, with-statements and for-targets to shared attributes are not recorded",
    ]
    bounds = {
        "quick": "two threads with one call each (pairs of the pool of C11, the same input twice), three threads, two calls in one thread; up to 12 schedules per set of inputs",
        "thorough": "all pairs, all triples of 12 inputs; up to 60 schedules per set of inputs",
    }

    def setup(self):
        sched.install()
        cm.setup_ints()
        c11.warm()
        import importlib
        for n in real_modules():
            importlib.import_module(n)
        sched.snapshot([("vf.real.DMODE", real.DMODE)])

    def families(self, tier):
        q = tier == "quick"
        n = 12 if q else 60
        rt = [x for x in c11.XS if x[0] in ("roundtrip", "decompile", "ssdecompile")]
        co = [x for x in c11.XS if x[0] not in ("roundtrip", "decompile", "ssdecompile")]
        f = [("same", f_same(n)), ("compile", f_pairs(co, co[::3] if q else co, n)), ("decompile", f_pairs(rt, rt[::2] if q else rt, n)), ("mixed", f_pairs(rt[::2] if q else rt, co[::3] if q else co, n)),
             ("small", f_small(n)), ("common", f_common(n)), ("cold", f_cold(COLD[:4] if q else COLD, 12, 30 if q else 120)), ("three", f_three(c11.TRI[:7] if q else c11.TRI, n, False)), ("twocalls", f_three(c11.TRI[:7] if q else c11.TRI, n, True))]
        return f

    def control(self):
        """check-then-act on a shared dict must be refuted by the solver, the same under a lock must not"""
        r = []
        for lock in (False, True):
            d = {}
            sched.BASE.clear()
            sched.share(d, "d", sched.BASE)
            l = sched.VLock()

            def work(v):
                def f():
                    if lock:
                        l.acquire()
                    if not sched.isin("k", d):
                        sched.si(d, "k", v)
                    x = sched.gi(d, "k")
                    sched.di(d, "k")
                    if lock:
                        l.release()
                    return x
                return f
            bad = False

            def run(prefix):
                d.clear()
                try:
                    res, ev = sched.run([work(1), work(2)], prefix)
                except KeyError:
                    return None, sched.T.events, sched.T.initial
                return res, ev, sched.T.initial
            for p, res, ev in sched.Explorer(run, 50, engine.Stats()).go([], {}):
                bad = bad or res != [1, 2]
            r.append(bad)
        sched.snapshot([("vf.real.DMODE", real.DMODE)])
        return r == [True, False], "unprotected check-then-act refuted: %s, with a lock refuted: %s" % tuple(r)

    def extra(self, st):
        return {"schedules_executed": int(st.get("schedules", 0)), "shared_accesses_recorded": int(st.get("events", 0)),
                "executions_without_conflicting_accesses": int(st.get("executions without conflicting accesses", 0)), "schedule_prefixes_left_out": int(st.get("schedule prefixes left out", 0)),
                "shared_objects": len(sched.BASE)}

    def replay(self, payload):
        for t in payload["threads"]:
            for e in t:
                c11.fix(e)
        root = os.path.realpath(tempfile.mkdtemp(prefix="vf-c12-", dir="/tmp"))
        try:
            n = len(payload["threads"])
            want = [child_run(root, payload["threads"], [], t, 1)[0] for t in range(n)]
            got = child_run(root, payload["threads"], payload["schedule"], None, 40, want)
            if got[0] == "deadlock":
                return "the threads wait for each other for ever\ninputs: %s" % json.dumps(payload["threads"], default=repr)[:1500]
            for t in range(n):
                for a, b in zip(want[t], got[t]):
                    if a != b:
                        d = {j: (a.get(j), b.get(j)) for j in set(a) | set(b) if a.get(j) != b.get(j)}
                        return "a thread returns something else than alone\n" + "\n".join("%s alone: %s\n   with the other threads: %s" % (j, world.clip(x, y), world.clip(y, x)) for j, (x, y) in d.items()) + \
                            "\nthread: %d, inputs: %s\nschedule (thread of each access to shared state): %s" % (t, json.dumps(payload["threads"], default=repr)[:1500], payload["schedule"])
            return None
        finally:
            shutil.rmtree(root, ignore_errors=True)


def real_modules():
    """all modules of the package that a call may load"""
    out = []
    for d, ds, fs in os.walk(os.path.join(real.REPO, "explorerscript")):
        ds[:] = [x for x in ds if x not in ("__pycache__", "antlr", "cli", "pygments")]
        for f in fs:
            if f.endswith(".py"):
                out.append(os.path.relpath(os.path.join(d, f), real.REPO)[:-3].replace(os.sep, ".").replace(".__init__", ""))
    return sorted(out)


def child_run(root, threads, schedule, only, attempts, want=None):
    d = tempfile.mkdtemp(prefix="vf-c12r-", dir="/tmp")
    try:
        with open(os.path.join(d, "in"), "w") as f:
            json.dump([root, threads, schedule, only, attempts, want], f)
        p = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r); from vf.checks import c12; c12.child(%r)" % (
            os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), d)], capture_output=True, text=True,
            env=dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"), timeout=100)
        if p.returncode:
            raise RuntimeError(p.stderr[-2000:])
        return json.load(open(os.path.join(d, "out")))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def child(d):
    """the schedule on the real code, identities as they come"""
    root, threads, schedule, only, attempts, want = json.load(open(os.path.join(d, "in")))
    sched.install()
    import importlib
    for n in real_modules():
        importlib.import_module(n)
    loader.IDS.real = True
    sched.snapshot([("vf.real.DMODE", real.DMODE)])
    for t in threads:
        for e in t:
            c11.fix(e)
    try:
        for i in range(attempts):
            c11.wipe(root)
            if only is not None:
                r = [runs(root, threads)[only]()]
            else:
                r, _ = sched.run(runs(root, threads), schedule)
            r = json.loads(json.dumps(r, default=repr))
            if r != want and want is not None:
                break
    except sched.Deadlock:
        r = ["deadlock"]
    json.dump(r, open(os.path.join(d, "out"), "w"), default=repr)
    sys.stdout.flush()
    os._exit(0)
