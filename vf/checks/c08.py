"""C08  compile-time source map."""
from __future__ import annotations
import os
import z3
from . import c01, c05
from . import common as cm
from .. import engine, lang, layout, machine, possem, proj, real, sym
from ..lang import N
from ..run import Check
from ..shapes import G, I, C, S, routine, program

V, call, macro, op, POS = c05.V, c05.call, c05.macro, c05.op, c05.POS


class Bad(Exception):
    """definitely wrong"""


def eq(a, b):
    return sym.lift(a) == sym.lift(b) if isinstance(a, int) and isinstance(b, int) else z3.BoolVal(False)


class Judge:
    """Compares a source map with the reference.  `tests` collects (z3 condition that must hold, what it says)."""

    def __init__(self, files, main, lookup, root, lay, int_val=lang.int_value):
        self.files, self.main, self.lookup, self.root, self.lay = files, main, lookup, root, lay
        self.progs = {}
        for f, t in files.items():
            if f in lay.toks:
                p = lang.Parser(t, tokens=lay.toks[f])
                self.progs[f] = p.program()
        macros, where = proj.closure(files, lookup, main, self.progs)
        self.macros, self.where = macros, where
        self.sem = possem.PosSem(int_val, macros=macros, where=where)
        self.src = self.sem.program(self.progs[main])
        self.tests = []
        self.weak, self.nxt, self.marks = {}, {}, {}
        for f, p in self.progs.items():
            for nm, b in possem.bodies(p):
                l = self.weak.setdefault((f, nm), [])
                possem.walk(b, lambda n: l.append(n.t0), self.nxt)
        for (f, nm), l in self.weak.items():
            l += [t for t in lay.toks[f] if t.k in ("else", "default")]

    # ---- helpers
    def need(self, c, what):
        if isinstance(c, bool):
            if not c:
                raise Bad(what)
            return
        if z3.is_false(z3.simplify(c)):
            raise Bad(what)
        self.tests.append((c, what))

    def here(self, entry, f, tok):
        l, c = self.lay.at(f, tok)
        return z3.And(eq(entry.line, l), eq(entry.column, c))

    def show(self, e):
        if e is None:
            return "none"
        s = f"{int.__int__(e.line)}:{int.__int__(e.column)}"
        if hasattr(e, "macro_name"):
            s += f" in macro {e.macro_name} of {e.relpath_included_file}, called in {e.called_in}, returning to {e.return_addr}"
        return s

    def rel_ok(self, rel, f):
        """rel: path in the map; f: file name of the project"""
        if f == self.main:
            return rel is None
        if rel is None or not isinstance(rel, str) or os.path.isabs(rel):
            return False
        return os.path.normpath(os.path.join(os.path.dirname(os.path.join(self.root, self.main)), rel)) == os.path.join(self.root, f)

    # ---- the comparison
    def judge(self, c):
        mg = machine.machine(real.routines(c.routine_ops))
        src, sm = self.src, c.source_map
        pairs = [(e, f) for (_, e), (_, f) in zip(src.entries, mg.entries) if e is not None and f is not None]
        pr = machine.Product(src, mg, pairs)
        if pr.bad:
            raise engine.Abandon if engine.CUR is not None else SkipReplay()
        flat = []
        for ri, r in enumerate(c.routine_ops):
            for oi, o in enumerate(r):
                flat.append((ri, oi, o))
        own = {}                              # index in flat -> owners
        for a, b in pr.pairs:
            if a < 0 or b <= 0:
                continue
            ow = src.owner[a]
            if ow[0] is not None and ow not in own.setdefault((b - 1) // 2, []):
                own[(b - 1) // 2].append(ow)
        off = [o.offset for _, _, o in flat]
        ents = [sm.get_op_line_and_col(x) for x in off]
        for (ri, oi, o), e in zip(flat, ents):
            if e is None:
                raise Bad(f"{o.op_code.name} ({o.offset}) has no entry")
        isjump = [o.op_code.name == "Jump" for _, _, o in flat]
        # ---- ops with a known origin
        for i, ows in own.items():
            ri, oi, o = flat[i]
            self.need(z3.Or([self.matches(o, ents[i], ow) for ow in ows]),
                      f"{o.op_code.name} ({o.offset}): {self.show(ents[i])}, expected " + " or ".join(self.want(ow, o) for ow in ows))
        # ---- the others: jumps and ops that can not be reached
        for i, (ri, oi, o) in enumerate(flat):
            if i not in own:
                e = ents[i]
                key = self.body_of(e)
                if key is None:
                    raise Bad(f"{o.op_code.name} ({o.offset}): {self.show(e)} names no macro of that file")
                self.need(z3.Or([self.here(e, key[0], t) for t in self.weak[key]]),
                          f"{o.op_code.name} ({o.offset}): {self.show(e)} is not the beginning of anything")
        # ---- control statements directly behind an op
        for i, ows in own.items():
            if len(ows) != 1 or i + 1 >= len(flat) or not isjump[i + 1] or flat[i + 1][0] != flat[i][0] or off[i + 1] != off[i] + 1:
                continue
            s, h, ex = ows[0]
            n = self.nxt.get(id(s))
            if h is not None or n is None or n.k not in possem.CONTROL or s.k not in ("op", "assign", "a_scn", "a_clear", "a_init") or \
                    (n.k == "return" and ex is None) or (s.k == "op" and s.a[1] is not None):
                continue
            self.need(self.matches(flat[i + 1][2], ents[i + 1], (n, None, ex)),
                      f"Jump ({off[i + 1]}) of `{n.k}`: {self.show(ents[i + 1])}, expected {self.want((n, None, ex))}")
        self.calls(flat, own, ents, off, sm)
        self.file_names(flat, own, ents)
        self.position_marks(c, sm)

    def toks_for(self, ow, o=None):
        s, h, ex = ow
        if h is not None:
            return [h.t0]
        if s.k == "switch":
            return [s.a[0].t0]
        if s.k == "msgswitch" and o is not None and o.op_code.name in ("CaseText", "DefaultText"):
            # the statement, or the case this op was made from (a text may occur in several cases)
            out = [s.t0]
            for ca in s.a[2]:
                out += [ca.t0] + ([ca.a[0].t0] if ca.a[0] is not None else [])
            return out
        return [s.t0]

    def want(self, ow, o=None):
        s, h, ex = ow
        f = ex.file if ex else self.main
        return (f"macro {ex.name} of {f} " if ex else "") + "/".join(f"{t.t} at {t.line}:{t.col} of the printed text" for t in self.toks_for(ow, o))

    def matches(self, o, e, ow):
        s, h, ex = ow
        f = ex.file if ex else self.main
        if ex is None:
            if hasattr(e, "macro_name"):
                return z3.BoolVal(False)
        else:
            if not hasattr(e, "macro_name") or e.macro_name != ex.name or not self.rel_ok(e.relpath_included_file, f):
                return z3.BoolVal(False)
        return z3.Or([self.here(e, f, t) for t in self.toks_for(ow, o)])

    def body_of(self, e):
        if not hasattr(e, "macro_name"):
            return (self.main, None)
        f = self.where.get(e.macro_name)
        if f is None or not self.rel_ok(e.relpath_included_file, f):
            return None
        return (f, e.macro_name)

    def calls(self, flat, own, ents, off, sm):
        sub, inner = {}, {}
        for i, ows in own.items():
            if len(ows) != 1:
                continue
            ex = ows[0][2]
            inner[i] = ex
            for e in ex.chain() if ex else ():
                sub.setdefault(e, []).append(off[i])
        for i, (ri, oi, o) in enumerate(flat):
            e = ents[i]
            if hasattr(e, "macro_name"):
                self.need(e.return_addr is not None and e.return_addr > off[i], f"{o.op_code.name} ({off[i]}): return address {e.return_addr}")
        order = sorted(range(len(flat)), key=lambda i: off[i])
        if any(len(x) > 1 for x in own.values()):
            return
        # return addresses
        for i, ex in inner.items():
            if ex is None:
                continue
            hi = max(sub[ex])
            after = None
            for j in order:
                if off[j] > hi and ((j in inner and (inner[j] is None or ex not in inner[j].chain())) or
                                    (j not in own and not hasattr(ents[j], "macro_name"))):
                    after = off[j]
                    break
            r = ents[i].return_addr
            self.need(r is not None and r > hi and (after is None or r <= after),
                      f"{flat[i][2].op_code.name} ({off[i]}) in an expansion of {ex.name} whose last op is {hi}, followed by {after}: return address {r}")
        # calls
        first = {}
        for ex, l in sub.items():
            first.setdefault(min(l), []).append(ex)
        for i, ex in inner.items():
            e = ents[i]
            if ex is None:
                continue
            exs = first.get(off[i])
            if exs is None:
                self.need(e.called_in is None, f"{flat[i][2].op_code.name} ({off[i]}) is not the first op of an expansion but has a call position")
                continue
            found = e.called_in
            if found is None:
                # the op the call is recorded on was dropped; it may have been the first op of a nested expansion as well
                exs = list({id(x): x for ow in self.src.owner if ow[2] is not None for x in ow[2].chain()}.values())
                lo = max([off[j] for j in inner if off[j] < off[i]] or [-1])
                for k in range(off[i] - 1, lo, -1):
                    m = sm.get_op_line_and_col__macros(k)
                    if m is not None and m.called_in is not None:
                        found = m.called_in
                        break
            if found is None:
                raise Bad(f"{flat[i][2].op_code.name} ({off[i]}), the first op of an expansion of {exs[0].name}, has no call position")
            ok = []
            for x in exs:
                cf = x.parent.file if x.parent else self.main
                if self.rel_ok(found[0], cf):
                    l, c = self.lay.at(cf, x.call.t0)
                    ok.append(z3.And(eq(found[1], l), eq(found[2], c)))
            self.need(z3.Or(ok) if ok else False, f"{flat[i][2].op_code.name} ({off[i]}): call position {found}, expected "
                      + " or ".join(f"{x.call.t0!r} in {x.parent.file if x.parent else self.main}" for x in exs))

    def file_names(self, flat, own, ents):
        from explorerscript.included_usage_map import IncludedUsageMap
        must = set()
        for i, ows in own.items():
            if len(ows) == 1 and ows[0][2] is not None:
                must.add(ows[0][2].file)
        may = {x[2].file for x in self.src.owner if x[2] is not None}
        base = os.path.join(self.root, self.main)
        got = IncludedUsageMap(self.sm_of(flat), base).included_files
        p = lambda s: {os.path.join(self.root, f) for f in s if f is not None and f != self.main}
        self.need(p(must) <= got <= p(may), f"included files {sorted(got)}, expected {sorted(p(must))}")

    def sm_of(self, flat):
        return self._sm

    def position_marks(self, c, sm):
        val = lambda m: (m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative)
        emitted = {}
        for r in c.routine_ops:
            for o in r:
                for p in o.params:
                    if isinstance(p, real.m.dt.SsbOpParamPositionMarker):
                        emitted[val(p)] = o
        rec = [val(m) for m in sm.get_position_marks__direct()] + [val(m) for _, _, m in sm.get_position_marks__macros()]
        for v in emitted:
            self.need(v in rec, f"position mark {v} of an emitted op is not recorded")
        for v in rec:
            self.need(v in emitted, f"recorded position mark {v} is in no emitted op")
        for rel, nm, m in sm.get_position_marks__macros():
            f = self.where.get(nm)
            self.need(f is not None and self.rel_ok(rel, f), f"position mark {val(m)} recorded for macro {nm} of {rel}")
            self.need(val(m) in self.marks_in(f, nm), f"position mark {val(m)} recorded for macro {nm}, where it does not occur")
        for m in sm.get_position_marks__direct():
            self.need(val(m) in self.marks_in(self.main, None), f"position mark {val(m)} recorded as written in a routine")

    def marks_in(self, f, nm):
        if (f, nm) not in self.marks:
            out = set()

            def go(n):
                if isinstance(n, N):
                    if n.k == "pos":
                        p = self.sem.v(n, {})
                        out.add(tuple(p[1:]))
                    for x in n.a:
                        go(x)
                elif isinstance(n, (list, tuple)):
                    for x in n:
                        go(x)
            for m, b in possem.bodies(self.progs[f]):
                if m == nm:
                    go(b)
            self.marks[(f, nm)] = out
        return self.marks[(f, nm)]


class SkipReplay(Exception):
    pass


def run(cx, files, main, lookup=()):
    """files: name -> text"""
    st = cx.w.stats
    st.add("programs")
    cx.notes = {"files": dict(files), "main": main, "lookup": list(lookup)}
    try:
        lay = layout.Layout(cx, files)
    except lang.LangError:
        raise engine.Abandon
    lits = {}

    def payload(err):
        def f(m):
            def lit(t):
                if t.k == "INT":
                    v = cx.reg.get(lang.int_value(t.t))
                    if v is not None:
                        return str(m.eval(v.e, model_completion=True).as_long())
                return t.t
            return {"files": lay.render(m, lit) if m is not None else dict(files), "main": main, "lookup": list(lookup), "err": err}
        return f
    with proj.Scratch(files, lookup) as sc, lay:
        for f, t in files.items():
            if proj.ROOT in t:
                lay.also(t.replace(proj.ROOT, sc.root), f)
        try:
            j = Judge(files, main, lookup, sc.root, lay, cm.int_val(cx))
        except lang.LangError:
            raise engine.Abandon
        if cm.has_divergence(j.src, [e for _, e in j.src.entries]):
            raise engine.Abandon
        try:
            c = sc.compile(main)
        except Exception:
            st.add("rejected_by_compiler")
            raise engine.Abandon
        j._sm = c.source_map
        try:
            j.judge(c)
        except Bad as e:
            cx.fail(payload(str(e)))
        except machine.Malformed:
            raise engine.Abandon
    if j.tests:
        bad = z3.Or([z3.Not(c) for c, _ in j.tests])

        def info(m):
            for c, what in j.tests:
                if z3.is_false(m.eval(c, model_completion=True)):
                    return payload(what)(m)
            return payload("?")(m)
        u = st["paths"]
        cx.defer(z3.And([bad] + cx.pending), info)
    else:
        st.add("assertions")
    return "\n".join(f"// {k}\n{v}" for k, v in files.items())


def from_c01(f):
    def h(cx):
        cm.SINK = lambda cx, prog, text: run(cx, {"main.exps": text}, "main.exps")
        try:
            return f(cx)
        finally:
            cm.SINK = None
    return h


def from_c05(f):
    def h(cx):
        c05.SINK = lambda cx, files, main, lookup: run(cx, {k: lang.render(v) for k, v in files.items()}, main, lookup)
        try:
            return f(cx)
        finally:
            c05.SINK = None
    return h


# ----------------------------------------------------------------- families of its own
def f_trans(dirs):
  def h(cx):
    """chains and diamonds of imports in different directories; every visible macro may be called from the main file directly"""
    fs = ["main.exps" if not cx.flag("maindir") else "sub/main.exps"] + [dirs[cx.pick(len(dirs), f"d{i}")] + f"f{i}.exps" for i in range(3)]
    edges = {0: [1], 1: [2] if cx.flag("e12") else [], 2: [3] if cx.flag("e23") else [], 3: []}
    for i, j in ((0, 2), (0, 3), (1, 3)):
        if cx.flag(f"e{i}{j}"):
            edges[i].append(j)
    if cx.flag("rev"):
        edges[0].reverse()
    reach = {0}
    for i in range(4):
        if i in reach:
            reach |= set(edges[i])
    below = {i: set(edges[i]) for i in range(4)}
    for i in (2, 1, 0):
        for j in list(below[i]):
            below[i] |= below[j]
    files = {}
    for i in sorted(reach):
        imports = [N("import", '"' + _rel(fs[i], fs[j]) + '"') for j in edges[i]]
        if i == 0:
            cs = [call(f"m{j}") for j in sorted(below[0]) if cx.flag(f"c{j}")]
            if not cs:
                raise engine.Abandon
            items = [routine(0, [op("before")] + cs + [op("after")])]
        else:
            items = [macro(f"m{i}", [], [op(f"f{i}")] + [call(f"m{j}") for j in sorted(below[i])[:1]] + [op(f"g{i}", N("pos", f'"p{i}"', "1", "2"))])]
        files[fs[i]] = lang.render(N("program", imports, items))
    return run(cx, files, fs[0])
  return h


def _rel(a, b):
    r = os.path.relpath(b, os.path.dirname(a) or ".")
    return r if r.startswith(".") else "./" + r


def f_marks(nm):
    """position marks in macros (which are called or not), as arguments that are used or not, in headers"""
    def h(cx):
        cnt = [0]

        def mark():
            cnt[0] += 1
            return N("pos", f"'k{cnt[0]}'", str(cnt[0]), cx.choose(["7", "7.5"], "y") if cnt[0] == 1 else "8")
        pl = [lambda: [op("a", mark())], lambda: [op("a", mark(), mark())], lambda: [op("a", V("$p"))], lambda: [op("none")],
              lambda: [N("if", [N("arm", False, [N("h_operation", op("BranchSum", I(1), mark()))], [op("t", mark())])], None)],
              lambda: [N("switch", N("s_operation", op("ProcessSpecial", mark(), I(1))), [N("case", N("c_val", I(1)), [op("t")])])],
              lambda: [N("op", "a", ("actor", I(1)), [mark()])],
              lambda: [N("with", "object", I(2), op("a", V("$p"), mark()))]]
        ms = []
        for i in range(nm):
            b = pl[cx.pick(len(pl), "pl")]()
            if i and cx.flag("nest"):
                b = b + [call(f"m{i - 1}", V("$p") if cx.flag("pass") else mark())]
            ms.append(macro(f"m{i}", ["$p"], b))
        body = []
        for i in range(nm):
            k = cx.pick(3, f"call{i}")
            if k:
                body.append(call(f"m{i}", mark() if k == 1 else I(5)))
        body += pl[cx.pick(2, "own") * 3]()
        lib = cx.flag("lib")
        main = N("program", [N("import", '"./lib.exps"')] if lib else [], ([] if lib else ms) + [routine(0, body)])
        files = {"main.exps": lang.render(main)}
        if lib:
            files["lib.exps"] = lang.render(N("program", [], ms))
        return run(cx, files, "main.exps")
    return h


DROP = "op return ifret ifretelse jumpnext forever loopret callempty callret calljump switchret label".split()


def f_drop(size):
    """macros whose first, last or only ops are dropped by the compiler, called next to each other"""
    def h(cx):
        cnt = [0]

        def one(i):
            k = cx.choose(DROP, "s")
            cnt[0] += 1
            n = cnt[0]
            cond = N("h_op", C(f"$V{n}"), "==", I(n))
            if k == "op":
                return [op(f"o{n}")]
            if k == "return":
                return [N("return")]
            if k == "ifret":
                return [N("if", [N("arm", cx.flag("neg"), [cond], [N("return")])], None)]
            if k == "ifretelse":
                return [N("if", [N("arm", False, [cond], [op(f"t{n}"), N("return")])], [N("return")])]
            if k == "jumpnext":
                return [N("jump", f"l{n}"), N("label", f"l{n}")]
            if k == "label":
                return [N("label", f"l{n}")]
            if k == "forever":
                return [N("forever", [op(f"f{n}"), N("break_loop")])]
            if k == "loopret":
                return [N("while", False, cond, [N("return")])]
            if k == "callempty":
                return [call("empty")]
            if k == "callret":
                return [call("ret")]
            if k == "calljump":
                return [call("jmp")]
            return [N("switch", N("s_var", C(f"$S{n}")), [N("case", N("c_val", I(n)), [N("return")])])]
        b = []
        for i in range(1 + cx.pick(size, "n")):
            b += one(i)
        ms = [macro("empty", [], [N("return")]), macro("ret", [], [op("r"), N("return")]),
              macro("jmp", [], [N("jump", "x"), N("label", "x"), op("j")]), macro("m", [], b)]
        k = cx.pick(5, "site")
        c = call("m")
        if k == 0:
            body = [c]
        elif k == 1:
            body = [op("b"), c, c, op("a")]
        elif k == 2:
            body = [N("forever", [c, N("break_loop")])]
        elif k == 3:
            body = [N("if", [N("arm", False, [N("h_neg", False, "debug")], [c])], [call("empty"), c])]
        else:
            ms.append(macro("o", [], [call("m"), call("ret"), call("m")]))
            body = [call("o"), call("m")]
        return run(cx, {"main.exps": lang.render(N("program", [], ms + [routine(0, body), routine(1, [op("z")])]))}, "main.exps")
    return h


# ----------------------------------------------------------------- SsbScript
ATTR = "//?: is-ssb-script: true"


def ss_ops(toks):
    """-> per routine the first tokens of its operations"""
    out, i = [], 0
    while toks[i].k != "EOF":
        while toks[i].k != "{":
            i += 1
        i += 1
        r, start, depth = [], True, 0
        while True:
            t = toks[i]
            if depth == 0 and t.k == "}":
                break
            if start and t.k not in ("@", "\u00a7", "alias", "if"):
                r.append(t)
            start = depth == 0 and t.k == ";"
            depth += (t.k in "({") - (t.k in ")}")
            i += 1
        i += 1
        out.append(r)
    return out


def ss_compile(text):
    c = real.compile_text(text) if text.startswith(ATTR) else real.m.sscomp.SsbScriptSsbCompiler()
    if not text.startswith(ATTR):
        c.compile(text)
    return c


def ss_judge(text, lay, c):
    """-> list of (condition, description)"""
    out = []
    firsts = ss_ops(lay.toks["main"])
    marks = set()
    for r, ts in zip(c.routine_ops, firsts):
        if len(r) != len(ts):
            raise engine.Abandon if engine.CUR is not None else SkipReplay()
        for o, t in zip(r, ts):
            e = c.source_map.get_op_line_and_col(o.offset)
            if e is None or hasattr(e, "macro_name"):
                raise Bad(f"{o.op_code.name} ({o.offset}) has no entry")
            l, col = lay.at("main", t)
            out.append((z3.And(eq(e.line, l), eq(e.column, col)), f"{o.op_code.name} ({o.offset}): entry {int.__int__(e.line)}:{int.__int__(e.column)}, expected {t!r}"))
            marks |= {real.param(p)[1:] for p in o.params if isinstance(p, real.m.dt.SsbOpParamPositionMarker)}
    rec = {(m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative) for m in c.source_map.get_position_marks__direct()}
    if rec != marks:
        raise Bad(f"position marks: recorded {sorted(rec)}, emitted {sorted(marks)}")
    return out


def f_ssbscript(n):
    def h(cx):
        labels, want = set(), set()
        cnt = [0]

        def one():
            cnt[0] += 1
            k = cx.choose("op label jump branch mark lang bare".split(), "s")
            i = cnt[0]
            if k == "label":
                labels.add(f"l{i}")
                return f"{'@' if i % 2 else chr(167)} l{i} ;"
            if k in ("jump", "branch"):
                want.add(k)
                return ("Jump ( @ l )" if k == "jump" else f"BranchBit ( $V , {i} , @ l )") + " ;"
            return {"op": f"o{i} ( {i} , C ) ;", "mark": f"m{i} ( Position < 'k{i}' , {i} , -2.5 > , Position < 'j{i}' , -1 , 3 > ) ;",
                    "lang": f"t{i} ( {{ english = 'x' , german = '''a\n  b''' }} , 'q' ) ;", "bare": f"_b{i} ( ) ;"}[k]
        rs = []
        for j in range(1 + cx.pick(2, "r")):
            rs.append([one() for _ in range(1 + cx.pick(n, "n"))])
        if cx.flag("lpos"):
            rs[0].insert(0, "@ l ;")
        else:
            rs[-1].insert(len(rs[-1]) - 1, "@ l ;")
        heads = cx.choose([["def 0", "def 1"], ["def 0 for actor ( 5 )", "def 1 for object X"], ["coro A", "coro B"]], "h")
        text = " ".join(f"{hd} {{ " + " ".join(r) + " }" for hd, r in zip(heads, rs))
        attr = cx.flag("attr")
        if attr:
            text = ATTR + "\n" + text
        cx.w.stats.add("programs")
        cx.notes = {"ss": text}
        try:
            lay = layout.Layout(cx, {"main": text}, first=ATTR if attr else None)
        except lang.LangError:
            raise engine.Abandon
        pl = lambda err: (lambda m: {"ss": lay.render(m)["main"] if m is not None else text, "err": err})
        with lay:
            try:
                c = ss_compile(text)
            except Exception:
                cx.w.stats.add("rejected_by_compiler")
                raise engine.Abandon
            try:
                tests = ss_judge(text, lay, c)
            except Bad as e:
                cx.fail(pl(str(e)))
        for t, w in tests:
            if z3.is_false(z3.simplify(t)):
                cx.fail(pl(w))
        cx.defer(z3.And([z3.Or([z3.Not(t) for t, _ in tests])] + cx.pending), pl("entry at another place"))
        return text
    return h


class CHECK(Check):
    id = "C08"
    level = "exploration"
    technique = ("concolic execution of the real compiler on programs whose tokens stand at symbolic lines and columns; z3 shows that every source-map entry equals "
                 "the symbolic position of the statement the op comes from, for every layout")
    level_note = ("Every program of the families (C01's and C05's, plus transitive imports, position marks, dropped ops and SsbScript) is compiled by the real compiler; "
                  "each token stands at a symbolic line and column (any order-preserving layout), so the entry of an op is a term and z3 shows it equal to the term of its "
                  "statement's first token for every layout. Which op belongs to which statement is established by the product with the reference semantics (vf/possem.py).")
    seconds = {"quick": 100, "thorough": 2400}
    limit = 30
    assumptions = [
        "programs of the stated families; tokens are separated by at least one blank or line break, lines <= 400, columns <= 900",
        "jumps and unreachable ops: the entry must be the beginning of some statement or header of the right body; exact when a control statement directly follows an op",
        "CaseText/DefaultText: the message switch or one of its cases",
        "on the common first op of nested expansions either call position is accepted; when the first op of an expansion was dropped, the dropped op may carry the call position",
        "position marks are compared as sets of values, with file and macro name for those of macros",
        "a file whose only ops were dropped may or may not be named",
    ]
    bounds = {
        "quick": "C01's long programs (11, 34) and C05's many macros (11); C01: all headers, statements, all kinds up to 2 statements, nests of depth 1; C05: parameter places, graphs up to 3 macros, call sites up to 2 statements, "
                 "1 imported file; 3 files with every import graph; 2 macros x 8 kinds of position-mark use; macros of 2 statements that get dropped; SsbScript up to 2 routines",
        "thorough": "restricted kinds up to 3 statements, nests of depth 2, bodies of 2, call sites of 3, graphs of 4, 3 macros with marks, 3 dropped statements",
    }

    def setup(self):
        cm.setup_ints()
        layout.hook()

    def families(self, tier):
        F1, F5 = from_c01, from_c05
        T = tier == "thorough"
        f = [("p-" + n, F5(x)) for n, x in [("params", c05.f_params), ("args", c05.f_args), ("many", c05.f_many((11,))), ("graph2", c05.f_graph(2, True)), ("graph3", c05.f_graph(3, T)),
             ("body1", c05.f_body(1)), ("sites1", c05.f_sites(1)), ("sites2", c05.f_sites(2)), ("files1", c05.f_files(1))]]
        f += [("ssbscript", f_ssbscript(2 if T else 1)), ("trans", f_trans(["", "sub/", "lib/x/"] if T else ["", "sub/x/"])), ("marks1", f_marks(1)), ("marks2", f_marks(2)),
              ("drop", f_drop(3 if T else 2))]
        f += [("if-headers", F1(c01.f_if_headers)), ("switch-headers", F1(c01.f_switch_headers)), ("stmts", F1(c01.f_stmts)), ("msgswitch", F1(c01.f_msgswitch(2))),
              ("full1", F1(c01.shape(c01.FULL, 1))), ("full2", F1(c01.shape(c01.FULL, 2))), ("nest1", F1(c01.f_nest(1))),
              ("big", F1(c01.f_big(c01.BIG, (11, 34))))]
        if T:
            f += [("p-files2", F5(c05.f_files(2))), ("p-body2", F5(c05.f_body(2))), ("p-graph4", F5(c05.f_graph(4))), ("p-sites3", F5(c05.f_sites(3))),
                  ("marks3", f_marks(3)), ("nest2", F1(c01.f_nest(2)))]
            f += [(n + "3", F1(c01.shape(ks, 3, labels=("A",)))) for n, ks in c01.SETS.items()]
        return f

    def replay_ss(self, text):
        lay = layout.Plain({"main": text})
        try:
            bad = [w for t, w in ss_judge(text, lay, ss_compile(text)) if not z3.is_true(z3.simplify(t))]
        except Bad as e:
            bad = [str(e)]
        except SkipReplay:
            return None
        return bad[0] + "\n" + text if bad else None

    def control(self):
        """the entry of one op moved by one column must be refuted, the real map not"""
        text = "def 0 { a ( ) ; if ( debug ) { b ( ) ; } c ( ) ; }"
        r = []
        for d in (0, 1):
            lay = layout.Plain({"main.exps": text})
            j = Judge({"main.exps": text}, "main.exps", (), "/nonexistent", lay)
            c = real.compile_text(text)
            j._sm = c.source_map
            c.source_map.get_op_line_and_col(c.routine_ops[0][0].offset).column += d
            try:
                j.judge(c)
                s = z3.Solver()
                s.add(z3.Or([z3.Not(t) for t, _ in j.tests]))
                r.append(str(s.check()))
            except Bad:
                r.append("sat")
        return r == ["unsat", "sat"], f"real map: {r[0]}, map with one column changed: {r[1]}"

    def replay(self, payload):
        if "ss" in payload:
            return self.replay_ss(payload["ss"])
        files, main, lookup = payload["files"], payload["main"], payload["lookup"]
        try:
            lay = layout.Plain(files)
            with proj.Scratch(files, lookup) as sc:
                j = Judge(files, main, lookup, sc.root, lay)
                try:
                    c = sc.compile(main)
                except Exception:
                    return None
                j._sm = c.source_map
                try:
                    j.judge(c)
                    bad = [w for t, w in j.tests if not z3.is_true(z3.simplify(t))]
                    if not bad:
                        return None
                    w = bad[0]
                except Bad as e:
                    w = str(e)
        except (lang.LangError, machine.Malformed, SkipReplay):
            return None
        return w + "\n" + "\n".join(f"--- {k}\n{v}" for k, v in files.items())
