"""The SSB machine: labelled transition system of compiled routines; solver-decided equivalence of two systems."""
from __future__ import annotations
import z3
from .lang import LTS, ENDERS
from .sym import SymInt, lift

JUMPS = {"Jump", "Call", "Case", "CaseMenu", "CaseMenu2", "CaseScenario", "CaseValue", "CaseVariable", "Branch", "BranchBit",
         "BranchDebug", "BranchEdit", "BranchExecuteSub", "BranchPerformance", "BranchScenarioNow", "BranchScenarioNowAfter",
         "BranchScenarioNowBefore", "BranchScenarioAfter", "BranchScenarioBefore", "BranchSum", "BranchValue",
         "BranchVariable", "BranchVariation"}
CTX = {"lives", "object", "performer"}


STOPPED = -9


class Malformed(Exception):
    pass


def machine(routines):
    """routines: list of lists of (offset, name, params tuple) ; the last param of a jump-carrying op is ('i', target)."""
    g = LTS()
    halt = g.new("stop", "Return", ())
    at = {}
    for r in routines:
        for off, nm, ps in r:
            if off in at:
                raise Malformed(f"offset {off} used twice")
            at[off] = (g.new("tau", None), g.new("tau", None))   # plain, in context
    for r in routines:
        for i, (off, nm, ps) in enumerate(r):
            nxt = at[r[i + 1][0]] if i + 1 < len(r) else (halt, halt)
            plain, inctx = at[off]
            if nm in JUMPS:
                if not ps or ps[-1][0] != "i":
                    raise Malformed(f"{nm} without target")
                t = ps[-1][1]
                if not isinstance(t, int) or t not in at:
                    raise Malformed(f"{nm} target {t} does not exist")
                tgt = at[t][0]
                if nm == "Jump":
                    n = ("tau", tgt)
                elif nm == "Call":
                    n = ("call", tgt, nxt[0])
                else:
                    n = ("test", nm, ps[:-1], tgt, nxt[0])
                g.nodes[plain] = g.nodes[inctx] = n
            elif nm in ENDERS:
                g.nodes[plain] = ("stop", nm, ps)
                g.nodes[inctx] = ("op", nm, ps, nxt[0])
            else:
                n = ("op", nm, ps, nxt[1] if nm in CTX else nxt[0])
                g.nodes[plain] = g.nodes[inctx] = n
    for r in routines:
        g.entries.append((None, at[r[0][0]][0] if r else None))
    return g


def resolve(g, n):
    """Skip internal steps.  Returns node id or -1 for an op-free cycle."""
    seen = set()
    while g.nodes[n][0] == "tau":
        if n in seen:
            return -1
        seen.add(n)
        n = g.nodes[n][1]
        if n is None:
            raise Malformed("dangling")
    return n


def _sig(g, n):
    """(label, successors): label = (kind, name, params)"""
    if n == -1:
        return ("diverge", "", ()), ()
    x = g.nodes[n]
    k = x[0]
    if k == "op":
        return (k, x[1], x[2]), (x[3],)
    if k == "stop":
        return (k, x[1], x[2]), ()
    if k == "test":
        return (k, x[1], x[2]), (x[3], x[4])
    if k == "call":
        return (k, "Call", ()), (x[1], x[2])
    if k == "undef":
        raise Malformed("undefined label " + str(x[1]))
    raise AssertionError(k)


def val_eq(a, b):
    """-> bool or z3 formula"""
    if type(a) is not tuple or type(b) is not tuple:
        if type(a) is SymInt or type(b) is SymInt:
            if not (isinstance(a, int) and isinstance(b, int)):
                return False
            r = z3.simplify(lift(a) == lift(b))
            return True if z3.is_true(r) else False if z3.is_false(r) else r
        return a == b
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        c = val_eq(x, y)
        if c is False:
            return False
        if c is not True:
            cs.append(c)
    if not cs:
        return True
    return z3.And(cs)


def label_eq(a, b):
    if a[0] != b[0] or a[1] != b[1]:
        return False
    return val_eq(a[2], b[2])


class Product:
    """Candidate bisimulation R between two systems from the given entry pairs, and its inductiveness query."""

    def __init__(self, ga, gb, pairs, limit=4000):
        self.ga, self.gb = ga, gb
        self.index = {}
        self.pairs = []
        self.parent = []
        self.bad = []        # (pair index) with a concrete label mismatch
        self.soft = []       # (pair index, z3 condition that labels are equal)
        self.delta = []      # pair index -> tuple of successor pair indices per outcome
        self.labels = []
        work = []
        for i, (a, b) in enumerate(pairs):
            self._add(resolve(ga, a), resolve(gb, b), (None, i), work)
        self.roots = list(range(len(self.pairs)))
        while work:
            i = work.pop()
            a, b = self.pairs[i]
            la, sa = _sig(ga, a)
            lb, sb = _sig(gb, b)
            self.labels[i] = (la, lb)
            c = label_eq(la, lb)
            if c is False:
                self.bad.append(i)
                continue
            if c is not True:
                self.soft.append((i, c))
            ds = []
            for o, (x, y) in enumerate(zip(sa, sb)):
                ds.append(self._add(resolve(ga, x), resolve(gb, y), (i, o), work))
            self.delta[i] = tuple(ds)
            if len(self.pairs) > limit:
                raise Malformed("state limit")

    def _add(self, a, b, par, work):
        k = (a, b)
        if k in self.index:
            return self.index[k]
        i = len(self.pairs)
        self.index[k] = i
        self.pairs.append(k)
        self.parent.append(par)
        self.delta.append(())
        self.labels.append(None)
        work.append(i)
        return i

    def query(self, uid, pc=()):
        """Formula that is satisfiable iff R is not a bisimulation: a symbolic pair of states (p, q) in R, a symbolic outcome o and
        values of the symbolic parameters such that the visible labels differ or the successor pair leaves R."""
        ga, gb = self.ga, self.gb
        # dense numbering of the states of both systems inside R
        W = max(len(self.pairs) + 2, 4).bit_length() + 1
        num_a, num_b = {}, {}
        for a, b in self.pairs:
            num_a.setdefault(a, len(num_a) + 1)
            num_b.setdefault(b, len(num_b) + 1)
        num_a[STOPPED] = num_b[STOPPED] = 0

        def K(v):
            return z3.BitVecVal(v, W)
        p, q = z3.BitVec(f"p{W}", W), z3.BitVec(f"q{W}", W)
        o = z3.Bool("o")
        inR = z3.Or([z3.And(p == K(num_a[a]), q == K(num_b[b])) for a, b in self.pairs])
        # labels: equal codes iff equal visible label; codes are assigned per distinct label
        codes = {}

        def code(l):
            return codes.setdefault((l[0], l[1], repr(l[2])), len(codes) + 1)

        def table(var, entries):
            e = K(0)
            for st, v in entries:
                e = z3.If(var == K(st), v, e)
            return e
        las, lbs, sa, sb = {}, {}, {}, {}
        for (a, b) in self.pairs:
            for g, n, ls, ss in ((ga, a, las, sa), (gb, b, lbs, sb)):
                if n in ls:
                    continue
                l, s = _sig(g, n)
                ls[n] = l
                ss[n] = tuple(resolve(g, x) for x in s)
        # labels with symbolic params: compare through explicit conditions
        soft = {}
        for i, c in self.soft:
            soft[self.pairs[i]] = c
        ca = table(p, [(num_a[n], K(code(l))) for n, l in las.items()])
        cb = table(q, [(num_b[n], K(code(l))) for n, l in lbs.items()])
        same = ca == cb
        if soft:
            same = z3.Or([same] + [z3.And(p == K(num_a[a]), q == K(num_b[b]), c) for (a, b), c in soft.items()])

        def succ(num, var, ss):
            # successors; a stopped state maps to 0, a state outside R to a number no pair has
            out = []
            for n, s in ss.items():
                if not s:
                    continue
                x, y = num.get(s[0], OUT), num.get(s[-1], OUT)
                out.append((num[n], K(x) if x == y else z3.If(o, K(x), K(y))))
            return table(var, out)
        OUT = (1 << W) - 1
        p2, q2 = z3.BitVec(f"p2{W}", W), z3.BitVec(f"q2{W}", W)
        inR2 = z3.Or([z3.And(p2 == K(0), q2 == K(0))] +
                     [z3.And(p2 == K(num_a[a]), q2 == K(num_b[b])) for a, b in self.pairs])
        return z3.And(*pc, inR, p2 == succ(num_a, p, sa), q2 == succ(num_b, q, sb), z3.Or(z3.Not(same), z3.Not(inR2)))

    def trace(self, i):
        """Human readable events to pair i."""
        out = []
        while i is not None:
            par, o = self.parent[i]
            if par is not None:
                la = self.labels[par][0]
                out.append((la[1], repr(la[2]), ["taken", "not taken"][o] if la[0] in ("test", "call") else ""))
            else:
                out.append(("entry", o, ""))
            i = par
        return list(reversed(out))

    def explain(self):
        for i in self.bad:
            return {"path": self.trace(i), "left": repr(self.labels[i][0]), "right": repr(self.labels[i][1])}
        for i, c in self.soft:
            return {"path": self.trace(i), "left": repr(self.labels[i][0]), "right": repr(self.labels[i][1])}
        return {}
