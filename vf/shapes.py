"""Symbolic program shapes: every structural decision is a cx.pick, so the engine enumerates exactly the programs within the
stated size bound.  Plain operations get unique names so that every event of a program is distinguishable."""
from __future__ import annotations
from .lang import N
from .engine import Abandon


def I(v):
    return N("int", str(v))


def C(n):
    return N("const", n)


def S(t):
    return N("str", '"' + t + '"')


class G:
    """kinds: set of statement kinds that may be generated."""

    def __init__(self, cx, kinds, labels=("A", "B"), lit=None, nest=9):
        self.cx, self.kinds = cx, kinds
        self.n_op = 0
        self.n_test = 0
        self.labels = labels
        self.used, self.defined = set(), set()
        self.lit = lit or (lambda v: I(v))
        self.uid = 0
        self.nest = nest
        self.macros = []
        self.arity = {"outer": 1}

    # ---- leaves
    def op(self, args=None):
        self.n_op += 1
        return N("op", f"op{self.n_op}", None, args if args is not None else [self.lit(100 + self.n_op)])

    def cond(self):
        """a unique condition"""
        self.n_test += 1
        return N("h_op", C("$V%d" % self.n_test), "==", self.lit(200 + self.n_test))

    def case(self):
        self.n_test += 1
        return N("c_val", self.lit(300 + self.n_test))

    # ---- sequences
    def body(self, n, env, lbl):
        """list of statements of total size exactly n"""
        out = []
        while n > 0:
            st, used = self.stmt(n, env, lbl)
            out.append(st)
            n -= used
        return out

    def avail(self, n, env):
        ks = []
        for k in self.kinds:
            if k in ("break",) and not env.get("switch"):
                continue
            if k in ("continue", "break_loop") and not env.get("loop"):
                continue
            if k == "macrocall" and not self.macros:
                continue
            if k == "label" and all(l in self.defined for l in self.labels):
                continue
            if k in ("elseif", "elseif_not") and n < 2:
                continue
            if k in ("if", "ifnot", "ifelse", "ifnotelse", "elseif", "or", "ornot", "switch", "switch2", "switch3",
                     "forever", "while", "whilenot", "for", "elifelse") and env.get("depth", 0) >= self.nest:
                continue
            ks.append(k)
        return ks

    def stmt(self, n, env, lbl):
        cx = self.cx
        k = cx.choose(self.avail(n, env), "k" + lbl)
        e2 = dict(env)
        e2["depth"] = env.get("depth", 0) + 1
        if k == "op":
            return self.op(), 1
        if k == "macrocall":
            m = cx.choose(self.macros, "mc" + lbl)
            return N("macrocall", m, [self.lit(600 + self.n_op)] * self.arity.get(m, 0)), 1
        if k in ("return", "end", "hold", "break", "continue", "break_loop"):
            return N(k), 1
        if k == "label":
            l = next(x for x in self.labels if x not in self.defined)
            self.defined.add(l)
            return N("label", l), 1
        if k in ("jump", "call"):
            l = cx.choose(self.labels, "to" + lbl)
            self.used.add(l)
            return N(k, l), 1
        if k == "with":
            return N("with", "actor", C("ACTOR_1"), self.op()), 1
        if k == "withjump":
            l = cx.choose(self.labels, "to" + lbl)
            self.used.add(l)
            return N("with", "object", C("OBJECT_1"), N("jump", l)), 1
        if k == "withend":
            return N("with", "performer", C("PERF_1"), N("end")), 1
        if k == "ctxop":
            o = self.op()
            return N("op", o.a[0], ("object", C("OBJECT_1")), o.a[2]), 1
        if k == "destroy":
            return N("op", "Destroy", None, []), 1
        if k == "ctxdestroy":
            return N("op", "Destroy", ("performer", I(3)), []), 1
        if k == "assign":
            self.n_op += 1
            return N("assign", C("$W%d" % self.n_op), None, "=", self.lit(400 + self.n_op)), 1
        if k == "msgswitch":
            self.n_op += 1
            return N("msgswitch", "message_SwitchTalk", C("$M%d" % self.n_op),
                     [N("case", N("c_val", self.lit(500 + self.n_op)), S("m%d" % self.n_op)),
                      N("case", None, S("d%d" % self.n_op))]), 1
        m = n - 1
        if k in ("if", "ifnot", "or", "ornot"):
            t = cx.pick(m + 1, "n" + lbl)
            hs = [self.cond()] + ([self.cond()] if k in ("or", "ornot") else [])
            b = self.body(t, e2, lbl + "i")
            return N("if", [N("arm", k in ("ifnot", "ornot"), hs, b)], None), 1 + t
        if k in ("ifelse", "ifnotelse"):
            t = cx.pick(m + 1, "n" + lbl)
            u = cx.pick(t + 1, "m" + lbl)
            h = [self.cond()]
            b = self.body(u, e2, lbl + "i")
            c = self.body(t - u, e2, lbl + "e")
            return N("if", [N("arm", k == "ifnotelse", h, b)], c), 1 + t
        if k in ("elseif", "elseif_not", "elifelse"):
            m = n - 1
            t = cx.pick(m + 1, "n" + lbl)
            u = cx.pick(t + 1, "m" + lbl)
            w = cx.pick(t - u + 1, "o" + lbl) if k == "elifelse" else 0
            a1 = N("arm", False, [self.cond()], self.body(u, e2, lbl + "i"))
            a2 = N("arm", k == "elseif_not", [self.cond()], self.body(t - u - w, e2, lbl + "j"))
            return N("if", [a1, a2], self.body(w, e2, lbl + "e") if k == "elifelse" else None), 1 + t
        if k == "forever":
            e2["loop"] = True
            t = cx.pick(m + 1, "n" + lbl)
            if t == 0:
                raise Abandon      # op-free cycle
            return N("forever", self.body(t, e2, lbl + "l")), 1 + t
        if k in ("while", "whilenot"):
            e2["loop"] = True
            t = cx.pick(m + 1, "n" + lbl)
            return N("while", k == "whilenot", self.cond(), self.body(t, e2, lbl + "l")), 1 + t
        if k == "for":
            e2["loop"] = True
            t = cx.pick(m + 1, "n" + lbl)
            i, h, c = self.op(), self.cond(), self.op()
            return N("for", i, h, c, self.body(t, e2, lbl + "l")), 1 + t
        if k in ("switch", "switch2", "switch3"):
            e2["switch"] = True
            nc = {"switch": 1, "switch2": 2, "switch3": 3}[k]
            d = cx.pick(nc + 2, "d" + lbl)        # position of default, nc+1: none
            cases = []
            self.n_test += 1
            hd = N("s_var", C("$S%d" % self.n_test))
            left = m
            total = 0
            cnt = nc + (1 if d <= nc else 0)
            for i in range(cnt):
                h = None if i == d else self.case()
                last = i == cnt - 1
                # body: empty / sub body of size s, then optionally break
                s = cx.pick(left + 1, "n" + lbl)
                b = self.body(s, e2, lbl + "c%d" % i)
                left -= s
                total += s
                if cx.flag("b" + lbl):
                    b = b + [N("break")]
                elif last and not b:
                    raise Abandon   # statically rejected: last case without a body
                cases.append(N("case", h, b))
            return N("switch", hd, cases), 1 + total
        raise AssertionError(k)


def routine(rid, body):
    return N("def", str(rid), None, None, body)


def program(routines):
    return N("program", [], routines)
