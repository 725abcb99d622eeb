"""Symbolic SSB routine sets: every op kind and every jump target is a choice of the engine."""
from __future__ import annotations
from . import machine, real
from .engine import Abandon

ENDERS = ("Return", "End", "Hold", "JumpCommon", "Destroy")


class Ops:
    """Description of a routine set: list of routines, each a list of [name, params]; a target is ("@", routine, index)."""

    def __init__(self, infos=None):
        self.r = []
        self.infos = infos      # list of (kind, target) ; default GENERIC
        self.coros = {}
        self.stride = 1
        self.base = 0
        self.offs = None        # explicit offsets, one list per routine (may be symbolic)

    def offsets(self):
        if self.offs is not None:
            return self.offs
        out, o = [], self.base
        for r in self.r:
            row = []
            for _, ps in r:
                row.append(o)
                o += self.stride or 1 + len(ps)      # stride 0: as many words as the op takes
            out.append(row)
        return out

    def build(self):
        """-> (infos, ops, coroutines) of the real classes"""
        dt = real.m.dt
        offs = self.offsets()
        ops = []
        for i, r in enumerate(self.r):
            row = []
            for j, (nm, ps) in enumerate(r):
                qs = []
                for p in ps:
                    if isinstance(p, tuple) and p and p[0] == "@":
                        qs.append(offs[p[1]][p[2]])
                    else:
                        qs.append(mkparam(p))
                row.append(dt.SsbOperation(offs[i][j], dt.SsbOpCode(-1, nm), qs))
            ops.append(row)
        infos = []
        for i in range(len(self.r)):
            k, t = (self.infos[i] if self.infos else ("GENERIC", None))
            ty = dt.SsbRoutineType[k]
            if k in ("GENERIC", "COROUTINE"):
                infos.append(dt.SsbRoutineInfo(ty, 0))
            elif isinstance(t, str):
                infos.append(dt.SsbRoutineInfo(ty, -1, t))
            else:
                infos.append(dt.SsbRoutineInfo(ty, t))
        coros = [dt.SsbCoroutine(i, n) for i, n in sorted(self.coros.items())]
        return infos, ops, coros

    def want(self):
        out = []
        for i, r in enumerate(self.r):
            k, t = self.infos[i] if self.infos else ("GENERIC", None)
            tv = None if k in ("GENERIC", "COROUTINE") else ("c", t) if isinstance(t, str) else ("i", t)
            out.append((k, tv, self.coros.get(i) if k == "COROUTINE" else None, True if r else None))
        return out

    def dump(self):
        return {"r": self.r, "infos": self.infos, "coros": {str(k): v for k, v in self.coros.items()}, "stride": self.stride, "base": self.base, "offs": self.offs}

    @staticmethod
    def load(d):
        o = Ops([tuple(x) for x in d["infos"]] if d["infos"] else None)
        o.r = [[[n, [tuple(p) if isinstance(p, list) else p for p in ps]] for n, ps in r] for r in d["r"]]
        o.coros = {int(k): v for k, v in d["coros"].items()}
        o.stride, o.base, o.offs = d["stride"], d["base"], d.get("offs")
        return o

    def concretise(self, f):
        """copy with every symbolic integer replaced by f(it)"""
        from .sym import SymInt

        def g(x):
            if type(x) is SymInt:
                return f(x)
            if isinstance(x, (list, tuple)):
                return type(x)(g(y) for y in x)
            return x
        o = Ops(g(self.infos) if self.infos else None)
        o.r = [[[n, [g(p) for p in ps]] for n, ps in r] for r in self.r]
        o.coros, o.stride, o.base, o.offs = self.coros, self.stride, self.base, g(self.offs)
        return o


class FromText:
    """The routine set a program compiles to."""

    def __init__(self, text, cx=None):
        self.text, self.cx = text, cx

    def build(self):
        dt = real.m.dt
        c = real.compile_text(self.text)
        coros = [dt.SsbCoroutine(i, n) for i, n in enumerate(c.named_coroutines) if c.routine_infos[i].type == dt.SsbRoutineType.COROUTINE]
        self.infos_ = [real.info(x) for x in c.routine_infos]
        return c.routine_infos, c.routine_ops, coros

    def want(self):
        """routine table according to the language"""
        from . import lang
        from .checks import common as cm
        val = cm.int_val(self.cx) if self.cx is not None else lang.int_value
        return [t[:3] + (None if t[3] is None else True,) for t in cm.routine_table(lang.Sem(val).program(lang.parse(self.text)).entries)]

    def dump(self):
        return {"text": self.text}


def load(d):
    return FromText(d["text"]) if "text" in d else Ops.load(d)


def mkparam(p):
    """description -> parameter: int | ("c", name) | ("s", text) | ("l", ((lang, text), ...)) | ("f", text) | ("p", name, xo, yo, x, y)"""
    dt = real.m.dt
    if not isinstance(p, tuple):
        return p
    k = p[0]
    if k == "c":
        return dt.SsbOpParamConstant(p[1])
    if k == "s":
        return dt.SsbOpParamConstString(p[1])
    if k == "l":
        return dt.SsbOpParamLanguageString(dict(p[1]))
    if k == "f":
        return dt.SsbOpParamFixedPoint.from_str(p[1])
    if k == "p":
        return dt.SsbOpParamPositionMarker(*p[1:])
    raise AssertionError(p)


def symbolic_offsets(cx, o, hi=2**15):
    """any increasing numbering of the ops"""
    o.offs, last = [], None
    for r in o.r:
        row = []
        for _ in r:
            x = cx.int("off", 0, hi)
            if last is not None:
                cx.assume(last.e < x.e)
            row.append(x)
            last = x
        o.offs.append(row)


def well_formed(o):
    """every path ends in a flow-ending op; no cycle of Jump ops only; context ops stand in front of an op that can have a context"""
    offs = o.offsets()
    for i, r in enumerate(o.r):
        for j, (nm, ps) in enumerate(r):
            if nm in machine.CTX and (j + 1 >= len(r) or r[j + 1][0] in machine.JUMPS or r[j + 1][0] in machine.CTX):
                return False
    reach = set()
    work = [(i, 0) for i, r in enumerate(o.r) if r]
    while work:
        i, j = work.pop()
        if (i, j) in reach:
            continue
        reach.add((i, j))
        nm, ps = o.r[i][j]
        inctx = j > 0 and o.r[i][j - 1][0] in machine.CTX and (i, j - 1) in reach
        if nm in machine.JUMPS:
            t = ps[-1]
            work.append((t[1], t[2]))
        if nm == "Jump" or (nm in ENDERS and not inctx):
            continue
        if j + 1 >= len(o.r[i]):
            return False
        work.append((i, j + 1))
    # a jumped-to op in context of a reachable context op: entered in context by fall-through only; both allowed
    for i, r in enumerate(o.r):
        for j, (nm, ps) in enumerate(r):
            seen = set()
            c = (i, j)
            while o.r[c[0]][c[1]][0] == "Jump":
                if c in seen:
                    return False
                seen.add(c)
                t = o.r[c[0]][c[1]][1][-1]
                c = (t[1], t[2])
    # the last op of a routine never falls off the end, reachable or not
    for r in o.r:
        if r and r[-1][0] not in ENDERS and r[-1][0] != "Jump":
            return False
    return True
