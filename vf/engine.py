"""Path-forking symbolic execution engine (decision-prefix re-execution) on top of z3, with parallel exploration.

A *harness* is a Python function h(cx).  Everything that is not fixed is obtained from cx:
  cx.pick(n, label)       an integer 0 <= v < n (a z3 variable that is concretised: one path per feasible value)
  cx.int(label, lo, hi)   a SymInt (stays symbolic; comparisons on it fork through cx.fork)
  cx.assume(cond)         path constraint (the path is abandoned when it becomes infeasible)
  cx.prove(cond, info)    the solver must show cond for every value on this path
  cx.defer(violation, info)  violation formula (own variables) solved later in one batched query
  cx.fail(info)           a concrete mismatch on this path (the path condition is the witness)
"""
from __future__ import annotations
import multiprocessing as mp
import os
import queue
import resource
import signal
import sys
import time
import traceback
import z3

CUR = None  # current path context of this process


class Abandon(BaseException):
    """path infeasible / outside the stated bound"""


class Inconclusive(BaseException):
    pass


class Stats(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n

    def merge(self, o):
        for k, v in o.items():
            if isinstance(v, (int, float)):
                self[k] = self.get(k, 0) + v
            elif isinstance(v, set):
                self.setdefault(k, set()).update(v)


class Path:
    def __init__(self, prefix, worker, assign=None):
        self.prefix = list(prefix)
        self.assign = assign or {}      # values of the integer variables (model of the path condition of the prefix)
        self.ints = {}                  # name -> (z3 var, value)
        self.vals = {}
        self.reg = {}                   # value -> SymInt, see sym.HookInt
        self.pos = 0
        self.trace = []
        self.alts = []
        self.w = worker
        self._solver = None
        self.pending = []       # constraints not yet in a solver
        self.picks = {}
        self.nvars = 0
        self.names = {}
        self.notes = {}

    # -------------------------------------------------------------- solver
    @property
    def solver(self):
        if self._solver is None:
            self._solver = z3.Solver()
            self._solver.set("timeout", 20000)
            for c in self.pending:
                self._solver.add(c)
        return self._solver

    def add(self, c):
        self.pending.append(c)
        if self._solver is not None:
            self._solver.add(c)

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.w.stats.add("solver_s", time.time() - t)
        self.w.stats.add("queries")
        if r == z3.unknown:
            self.w.stats.add("unknown")
            raise Inconclusive("solver: unknown")
        return r == z3.sat

    def model(self):
        return self.solver.model()

    # -------------------------------------------------------------- decisions
    def fresh_name(self, label):
        n = self.names.get(label, 0)
        self.names[label] = n + 1
        return f"{label}#{n}" if n else label

    def pick(self, n, label, cons=None):
        """A choice among n alternatives.  Recorded as z3 variable == value."""
        if n <= 0:
            raise Abandon
        name = self.fresh_name(label)
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = 0
            for o in range(n - 1, 0, -1):
                self.alts.append((len(self.trace), o, None))
        self.pos += 1
        self.trace.append(v)
        self.picks[name] = v
        if cons is not None:
            self.assume(cons(v))
        return v

    def choose(self, seq, label):
        return seq[self.pick(len(seq), label)]

    def flag(self, label):
        return self.pick(2, label) == 1

    def fork(self, cond, taken):
        """A branch on symbolic integers: `taken` is the outcome under the current values.  The other outcome is explored on another
        path when the solver finds values for it."""
        cond = z3.simplify(cond)
        if z3.is_true(cond) or z3.is_false(cond):
            return taken
        c, n = (cond, z3.Not(cond)) if taken else (z3.Not(cond), cond)
        if self.pos < len(self.prefix):
            if self.prefix[self.pos] != int(taken):
                raise Inconclusive("re-execution diverged")
        elif self.check(n):
            self.alts.append((len(self.trace), int(not taken), self.telling(n)))
        self.pos += 1
        self.trace.append(int(taken))
        self.add(c)
        self.w.stats.add("forks")
        return taken

    def telling(self, n):
        """Values of the last model for a path with condition n; where nothing forces a small value the current one is kept (small values
        can not be recognised after they went through text)."""
        out = self.values(self.model())
        kept = []
        for name, (v, _) in self.ints.items():
            if abs(out[name]) < 1000 <= abs(self.vals[name]):
                if self.check(n, *kept, v == self.vals[name]):
                    kept.append(v == self.vals[name])
                    out = self.values(self.model())
        return out

    def values(self, m):
        out = {}
        for n, (v, _) in self.ints.items():
            x = m.eval(v, model_completion=True)
            out[n] = x.as_long()
        return out

    def int(self, label, lo=None, hi=None, default=None, distinct=True):
        """A symbolic integer with lo <= v <= hi.  `distinct`: all such variables of a path have different values (a bound)."""
        from . import sym
        name = self.fresh_name(label)
        v = z3.Int(name)
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        if name in self.assign:
            val = self.assign[name]
        else:
            val = default if default is not None else 1000003 + 17 * len(self.ints)
            if hi is not None and val > hi:
                val = lo if lo is not None and abs(lo) >= 1000 else hi - 17 * len(self.ints) if hi >= 2000 else lo if lo is not None else hi
            used = {abs(x) for x in self.vals.values()} if distinct else ()
            while abs(val) in used and (hi is None or val < hi):
                val += 1
            while abs(val) in used and (lo is None or val > lo):
                val -= 1
        self.vals[name] = val
        if distinct:
            for n2, (w, d2) in self.ints.items():
                if d2:
                    self.add(v != w)
        self.ints[name] = (v, distinct)
        s = sym.SymInt(val, v)
        if abs(val) >= 1000:
            self.reg[val] = s
            self.reg.setdefault(-val, -s)
        return s

    def printed(self, s):
        """A symbolic integer was turned into text."""
        v = s.__int__()
        r = self.reg.get(v)
        if r is None or not r.e.eq(s.e):
            self.pin(s)

    def pin(self, s):
        self.w.stats.add("concretised")
        self.add(s.e == s.__int__())

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Abandon
            return
        self.add(cond)
        if not self.check():
            raise Abandon

    # -------------------------------------------------------------- assertions
    def prove(self, cond, info):
        """info: dict or function(model) -> dict describing the concrete counterexample"""
        self.w.stats.add("assertions")
        if isinstance(cond, bool):
            if cond:
                return
            if not self.check():
                return
        elif not self.check(z3.Not(cond)):
            return
        m = self.model()
        self.w.violation(info(m) if callable(info) else info)
        raise Abandon

    def defer(self, formula, info):
        self.w.stats.add("assertions")
        self.w.defer(formula, info)

    def fail(self, info):
        self.w.stats.add("assertions")
        if callable(info):
            if not self.check():
                raise Abandon
            info = info(self.model())
        self.w.violation(info)
        raise Abandon


CONFIRM = None


class Worker:
    def __init__(self, batch=48):
        self.stats = Stats()
        self.viol = []
        self.batch = []
        self.bsize = batch
        self.samples = []
        self.dropped = 0

    def defer(self, f, info):
        self.batch.append((f, info))
        if len(self.batch) >= self.bsize:
            self.flush()

    def flush(self):
        b, self.batch = self.batch, []
        while b:
            t = time.time()
            s = z3.Solver()
            s.set("timeout", 60000)
            s.add(z3.Or([f for f, _ in b]))
            r = s.check()
            self.stats.add("solver_s", time.time() - t)
            self.stats.add("queries")
            if r == z3.unsat:
                return
            if r == z3.unknown:
                self.stats.add("unknown", len(b))
                self.stats.add("inconclusive", len(b))
                return
            m = s.model()
            rest = []
            hit = False
            for f, info in b:
                if z3.is_true(m.eval(f, model_completion=True)):
                    self.violation(info(m) if callable(info) else info)
                    hit = True
                else:
                    rest.append((f, info))
            if not hit:
                self.stats.add("inconclusive", len(b))
                return
            b = rest

    def profile(self, frame, event, arg):
        if event == "call":
            c = frame.f_code
            f = c.co_filename
            i = f.find("/explorerscript/")
            if i >= 0 and "/antlr/" not in f:
                self.stats.setdefault("functions", set()).add(f[i + 16:] + ":" + c.co_qualname)

    def violation(self, info):
        global CUR
        if CONFIRM is not None:
            # replay on the spot (without symbolic values): the symbolic run may have met something it does not model
            cur, CUR = CUR, None
            try:
                r = CONFIRM(info)
            except Exception:
                r = "?"
            finally:
                CUR = cur
            if r is None:
                self.stats.add("inconclusive")
                self.stats.setdefault("why", set()).add("counterexample does not reproduce")
                self.dropped += 1
                if self.dropped > 2:
                    return
        self.viol.append(info)

    def run(self, harness, prefix, assign, limit):
        """Run one path; returns the list of alternatives (prefix, assignment)."""
        global CUR
        cx = Path(prefix, self, assign)
        self.cx = cx
        CUR = cx
        self.stats.add("paths")
        signal.setitimer(signal.ITIMER_REAL, limit)
        prof = self.stats["paths"] % 61 == 1
        if prof:
            sys.setprofile(self.profile)
        try:
            r = harness(cx)
            self.stats.add("completed")
            if r is not None and (len(self.samples) < 2 or (len(self.samples) < 8 and self.stats["completed"] % 397 == 0)):
                self.samples.append(r)
        except Abandon:
            self.stats.add("abandoned")
        except Inconclusive as e:
            self.stats.add("inconclusive")
            self.stats.setdefault("why", set()).add(str(e)[:200])
        except Hang:
            info = dict(cx.notes)
            info["err"] = f"no answer after {limit} s"
            self.violation(info)
        except Exception as e:
            # the machinery could not follow this path: no verdict on it, the others go on
            self.stats.add("inconclusive")
            self.stats.add("crashed")
            cs = self.stats.setdefault("crashes", set())
            if len(cs) < 3:
                cs.add(traceback.format_exc()[-1500:])
        finally:
            sys.setprofile(None)
            signal.setitimer(signal.ITIMER_REAL, 0)
            CUR = None
        out = []
        for i, o, asg in cx.alts:
            if asg is None:
                # values already chosen for the prefix stay: they satisfy its constraints
                asg = dict(assign)
            out.append((cx.trace[:i] + [o], asg))
        return out


class Hang(BaseException):
    pass


# ------------------------------------------------------------------------------------- isolation
def _pack(x, terms):
    from .sym import SymInt
    if type(x) is SymInt:
        terms.append(x.e)
        return ("$sym", len(terms) - 1, int.__int__(x))
    if type(x) in (list, tuple):
        return type(x)(_pack(y, terms) for y in x)
    if type(x) is dict:
        return {k: _pack(v, terms) for k, v in x.items()}
    return x


def _unpack(x, terms):
    from .sym import SymInt
    if type(x) is tuple and len(x) == 3 and x[0] == "$sym":
        return SymInt(x[2], terms[x[1]])
    if type(x) in (list, tuple):
        return type(x)(_unpack(y, terms) for y in x)
    if type(x) is dict:
        return {k: _unpack(v, terms) for k, v in x.items()}
    return x


class Crash(Exception):
    pass


def isolated(cx, fn, limit):
    """Run fn() in a forked process (its effects on process-wide state stay there) and go on here with its result, its decisions and its
    path condition.  Results are made of plain data and symbolic integers."""
    global CUR
    import pickle
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, limit)
            w = cx.w
            w.stats, w.viol, w.batch, w.samples = Stats(), [], [], []
            n0 = len(cx.pending)
            status, res, terms = "ok", None, []
            try:
                res = fn()
            except Abandon:
                status = "abandon"
            except Inconclusive as e:
                status, res = "inconclusive", str(e)
            except Hang:
                status, res = "hang", dict(cx.notes)
            except MemoryError:
                status, res = "exception", "MemoryError"
            except Exception:
                status, res = "exception", traceback.format_exc()
            signal.setitimer(signal.ITIMER_REAL, 0)
            CUR = None
            w.flush()
            res = _pack(res, terms)
            s = z3.Solver()
            new = cx.pending[n0:]
            for c in new:
                s.add(c)
            for i, t in enumerate(terms):
                s.add(z3.Int("$t%d" % i) == t)
            out = dict(status=status, res=res, n=len(new), nt=len(terms), smt=s.to_smt2() if new or terms else None, trace=cx.trace, pos=cx.pos,
                       alts=cx.alts, picks=cx.picks, names=cx.names, vals=cx.vals, ints={k: d for k, (v, d) in cx.ints.items()}, notes=cx.notes,
                       stats=dict(w.stats), viol=w.viol, samples=w.samples)
            with os.fdopen(wr, "wb") as f:
                pickle.dump(out, f)
            code = 0
        except BaseException:
            try:
                os.write(wr, b"!" + traceback.format_exc().encode()[-3000:])
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(wr)
    left = signal.setitimer(signal.ITIMER_REAL, 0)[0]
    data = b""
    try:
        with os.fdopen(rd, "rb") as f:
            data = f.read()
    finally:
        os.waitpid(pid, 0)
    if left:
        signal.setitimer(signal.ITIMER_REAL, left)
    if not data or data[:1] == b"!":
        raise Crash("isolated run died: " + data[1:].decode("utf-8", "replace"))
    out = pickle.loads(data)
    w = cx.w
    for k, v in out["stats"].items():
        if isinstance(v, set):
            w.stats.setdefault(k, set()).update(v)
        else:
            w.stats.add(k, v)
    w.viol += out["viol"]
    w.samples += out["samples"][:1] if len(w.samples) < 8 else []
    cx.trace, cx.pos, cx.alts, cx.picks, cx.names, cx.vals, cx.notes = (out[k] for k in ("trace", "pos", "alts", "picks", "names", "vals", "notes"))
    terms = []
    from .sym import SymInt
    for k, d in out["ints"].items():
        if k not in cx.ints:
            v = z3.Int(k)
            cx.ints[k] = (v, d)
            s = SymInt(cx.vals[k], v)
            if abs(cx.vals[k]) >= 1000:
                cx.reg[cx.vals[k]] = s
                cx.reg.setdefault(-cx.vals[k], -s)
    if out["smt"]:
        asr = list(z3.parse_smt2_string(out["smt"]))
        assert len(asr) == out["n"] + out["nt"]
        for c in asr[:out["n"]]:
            cx.add(c)
        terms = [c.arg(1) for c in asr[out["n"]:]]
    st = out["status"]
    if st == "abandon":
        raise Abandon
    if st == "inconclusive":
        raise Inconclusive(out["res"])
    if st == "hang":
        raise Hang
    if st == "exception":
        raise Crash(out["res"])
    return _unpack(out["res"], terms)


def _alarm(*_):
    raise Hang


def _serve(harnesses, q, outq, active, nviol, deadline, nproc, maxviol, limit):
    global CUR
    w = Worker()
    dn = os.open(os.devnull, os.O_WRONLY)      # ANTLR's console error listener and logging
    os.dup2(dn, 2)
    signal.signal(signal.SIGALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        local = []
        seen = 0
        while True:
            if not local:
                w.flush()
                try:
                    local.append(q.get(timeout=0.05))
                except queue.Empty:
                    with active.get_lock():
                        if active.value == 0:
                            break
                    if time.time() > deadline or nviol.value >= maxviol:
                        break
                    continue
            if len(w.viol) > seen:
                with nviol.get_lock():
                    nviol.value += len(w.viol) - seen
                seen = len(w.viol)
            if time.time() > deadline or nviol.value >= maxviol:
                w.stats.add("unexplored", len(local))
                if time.time() > deadline:
                    w.stats.add("timed_out", 1)
                with active.get_lock():
                    active.value -= len(local)
                break
            hi, prefix, assign = local.pop()
            alts = w.run(harnesses[hi][1], prefix, assign, limit)
            w.stats.add("paths:" + harnesses[hi][0])
            with active.get_lock():
                active.value += len(alts) - 1
            for a in alts:
                local.append((hi,) + a)
            # share the oldest (largest) subtrees
            while len(local) > 1 and q.qsize() < nproc:
                q.put(local.pop(0))
        w.flush()
        outq.put(("ok", dict(w.stats), w.viol, w.samples))
    except BaseException:
        CUR = None
        outq.put(("err", traceback.format_exc(), w.viol, dict(w.stats)))
    # let the feeder threads finish
    q.cancel_join_thread()


class Result:
    def __init__(self):
        self.stats = Stats()
        self.viol = []
        self.samples = []
        self.errors = []


def explore(harnesses, seconds, nproc=None, maxviol=40, limit=20):
    """harnesses: list of (name, function).  Explores every path of every harness (or until `seconds` have passed)."""
    nproc = nproc or min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    outq = ctx.Queue()
    active = ctx.Value("i", len(harnesses))
    nviol = ctx.Value("i", 0)
    for i in range(len(harnesses)):
        q.put((i, [], {}))
    deadline = time.time() + seconds
    ps = [ctx.Process(target=_serve, args=(harnesses, q, outq, active, nviol, deadline, nproc, maxviol, limit))
          for _ in range(nproc)]
    for p in ps:
        p.start()
    res = Result()
    got = 0
    hard = deadline + 120
    while got < len(ps):
        try:
            m = outq.get(timeout=1)
        except queue.Empty:
            if time.time() > hard or (all(not p.is_alive() for p in ps) and outq.empty()):
                res.errors.append("a worker died or hung")
                break
            continue
        got += 1
        if m[0] == "ok":
            res.stats.merge(m[1])
            res.viol += m[2]
            res.samples += m[3]
        else:
            res.errors.append(m[1])
            res.viol += m[2]
            res.stats.merge(m[3])
    left = 0
    try:
        while True:
            q.get_nowait()
            left += 1
    except queue.Empty:
        pass
    if left:
        res.stats.add("unexplored", left)
    for p in ps:
        p.join(timeout=2)
        if p.is_alive():
            p.kill()
    q.close()
    return res
