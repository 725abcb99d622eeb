"""C03  the compiled op list is closed and uniquely addressed."""
from __future__ import annotations
import z3
from . import c01, common as cm
from .. import engine, lang, machine, real
from ..lang import N
from ..run import Check
from ..shapes import G, I, C, S, routine, program

op = c01.op


# ----------------------------------------------------------------- the property of one result
def facts(c):
    """-> (error or None, [(offset, is jump kind, target)])"""
    sops, dt = real.m.sops, real.m.dt
    if not (isinstance(c.routine_infos, list) and isinstance(c.routine_ops, list) and isinstance(c.named_coroutines, list)):
        return "tables missing", []
    if not len(c.routine_infos) == len(c.routine_ops) == len(c.named_coroutines):
        return "table lengths %d %d %d" % (len(c.routine_infos), len(c.routine_ops), len(c.named_coroutines)), []
    rows = []
    for i, r in enumerate(c.routine_ops):
        if not isinstance(c.routine_infos[i], dt.SsbRoutineInfo):
            return f"no routine info for {i}: {c.routine_infos[i]!r}", []
        if not isinstance(r, list):
            return f"no ops for {i}", []
        if c.routine_infos[i].type == dt.SsbRoutineType.COROUTINE and not isinstance(c.named_coroutines[i], str):
            return f"coroutine {i} without a name", []
        for o in r:
            if isinstance(o, (sops.SsbLabel, sops.SsbLabelJump)) or not isinstance(o, dt.SsbOperation):
                return f"pseudo operation {type(o).__name__} remains", []
            nm = o.op_code.name
            if not isinstance(nm, str) or not isinstance(o.offset, int):
                return f"malformed op {o!r}", []
            for p in o.params:
                if isinstance(p, (sops.SsbLabel, sops.SsbLabelJump)):
                    return f"label among the parameters of {nm}", []
            if nm in machine.JUMPS:
                if not o.params or not isinstance(o.params[-1], int) or isinstance(o.params[-1], bool):
                    return f"{nm} without a target as last parameter", []
                rows.append((o.offset, True, o.params[-1]))
            else:
                rows.append((o.offset, False, 0))
    return None, rows


def violated(rows):
    """formula over a symbolic pair of positions: two ops share an offset, or a target is not the offset of any op"""
    from ..sym import lift
    if not rows:
        return z3.BoolVal(False)
    i, j = z3.Int("i"), z3.Int("j")

    def sel(v, col):
        e = z3.IntVal(0)
        for n, r in enumerate(rows):
            e = z3.If(v == n, lift(col(r)), e)
        return e
    n = len(rows)
    tgt = sel(i, lambda r: r[2])
    jump = z3.Or([i == k for k, r in enumerate(rows) if r[1]])
    return z3.And(i >= 0, i < n, j >= 0, j < n,
                  z3.Or(z3.And(i != j, sel(i, lambda r: r[0]) == sel(j, lambda r: r[0])),
                        z3.And(jump, *[tgt != lift(r[0]) for r in rows])))


def concrete(c):
    e, rows = facts(c)
    if e:
        return e
    offs = [r[0] for r in rows]
    if len(set(offs)) != len(offs):
        return f"offsets are not unique: {sorted(o for o in set(offs) if offs.count(o) > 1)}"
    for o, j, t in rows:
        if j and t not in offs:
            return f"the op at {o} jumps to {t}, which is not the offset of an op"
    return None


def sink(cx, prog, text, ssb=False):
    cx.w.stats.add("programs")
    cx.notes = {"text": text}

    def payload(err):
        def f(m):
            d = {"text": text, "err": err}
            if m is not None and cx.ints:
                d["text"] = cm.at_values(cx, m, text)
            return d
        return f
    try:
        c = real.compile_text(text)
    except Exception:
        cx.w.stats.add("rejected_by_compiler")
        cx.w.stats.add("assertions")      # nothing was compiled: the property holds of this program
        return text
    e, rows = facts(c)
    if e:
        cx.fail(payload(e[:50]))
    pc = cx.pending if cx.ints else []
    f = violated(rows)
    if pc:
        f = z3.And(f, *pc)
    cx.defer(f, payload("not closed"))
    return text


# ----------------------------------------------------------------- families of its own
def f_ids(n):
    """routine ids are symbolic"""
    def h(cx):
        ssb = cx.flag("ssb")
        rs = []
        for i in range(n):
            k = cx.pick(4, "kind")
            body = [N("op", f"o{i}", None, [])]
            b = cx.pick(3, "body")
            if b == 1:
                body = "ALIAS"
            elif b == 2:
                body = body + [N("label", "L")] + [N("op", f"p{i}", None, [])] if i == 0 else [N("jump", "L")]
            if k == 0:
                rs.append(N("coro", f"CORO_{i}", body))
            else:
                rid = cx.int("id", -3, 6, default=i, distinct=False)
                rs.append(N("def", str(rid), [None, "actor", "object"][k - 1], None if k == 1 else I(3) if k == 2 else C("X"), body))
        text = lang.render(program(rs))
        if ssb:
            if "alias" in text or "jump" in text and False:
                pass
            text = "//?: is-ssb-script: true\n" + text.replace("jump @ L", "Jump(@L)")
        return sink(cx, None, text)
    return h


def f_raw(cx):
    """jump-carrying kinds written as plain operations"""
    nm = cx.choose(sorted(machine.JUMPS), "name")
    n = cx.pick(4, "n")
    l = c01.L(cx, "a")
    args = [l.int() if cx.pick(2, "k") == 0 else C("K") for _ in range(n)]
    o = N("op", nm, None, args)
    form = cx.pick(9, "form")
    dbg = N("h_neg", False, "debug")
    if form == 0:
        b = [o]
    elif form == 1:
        b = [N("with", "actor", I(3), o)]
    elif form == 2:
        b = [N("op", nm, ("object", I(4)), args)]
    elif form == 3:
        b = [N("for", o, dbg, op("x"), [op("y")])]
    elif form == 4:
        b = [N("for", op("x"), dbg, o, [op("y")])]
    elif form == 5:
        b = [N("if", [N("arm", cx.flag("neg"), [N("h_operation", o)], [op("y")])], None)]
    elif form == 6:
        b = [N("switch", N("s_operation", o), [N("case", N("c_val", I(1)), [op("y"), N("break")])])]
    elif form == 7:
        b = [N("if", [N("arm", False, [dbg], [o])], [o])]
    else:
        text = f"//?: is-ssb-script: true\ndef 0 {{ {nm}({', '.join(str(x.a[0]) for x in args)}); Foo(); }}"
        return sink(cx, None, text)
    return sink(cx, None, lang.render(program([routine(0, b + [op("z")])])))


def f_labels(n):
    """labels and jumps in any place: undefined, repeated, at the very end, in other routines"""
    def h(cx):
        used = [0]
        rs = []
        for r in range(2):
            body = []
            for i in range(n):
                k = cx.pick(6, "k")
                used[0] += 1
                if k == 0:
                    body.append(op(f"o{used[0]}"))
                elif k == 1:
                    body.append(N("label", cx.choose(["A", "B"], "l")))
                elif k == 2:
                    body.append(N("jump", cx.choose(["A", "B"], "j")))
                elif k == 3:
                    body.append(N("call", "A"))
                elif k == 4:
                    body.append(N("if", [N("arm", cx.flag("neg"), [N("h_neg", False, "edit")], [N("jump", "A")])], None))
                else:
                    break
            if not body:
                body = "ALIAS" if r else [N("return")]
            rs.append(routine(r, body))
        return sink(cx, None, lang.render(program(rs)))
    return h


def f_ssb(n):
    """SsbScript: ops, labels and jumps in any place"""
    def h(cx):
        out = ["//?: is-ssb-script: true"]
        k = 0
        for r in range(2):
            out.append(f"def {r} {{")
            for i in range(n):
                k = cx.choose([0, 1, 2, 3, 4, 5, 6] if r == 0 or n > 2 else [0, 1, 2, 6], "k")
                if k == 0:
                    out.append(f"op{r}{i}({cx.int('v')});")
                elif k == 1:
                    out.append(f"§{cx.choose(['a', 'b'], 'l')};")
                elif k == 2:
                    out.append(f"Jump(@{cx.choose(['a', 'b'], 'l')});")
                elif k == 3:
                    nm = cx.choose(["Branch", "CaseValue", "BranchSum", "BranchExecuteSub"], "nm")
                    form = cx.pick(4, "f")
                    out.append(f"{nm}({cx.int('v')}, " + ["@a", f"@a, {cx.int('w')}", "@a, @b", f"3, {cx.int('w')}"][form] + ");")
                elif k == 4:
                    out.append("End();")
                elif k == 5:
                    out.append(f"op{r}{i}(@b);")
                else:
                    break
            else:
                i = n
            if i == 0:
                out.append("alias previous;" if r else "Return();")
            out.append("}")
        return sink(cx, None, "\n".join(out))
    return h


def f_macros(size, small=False):
    """macros with labels, jumps, blocks and returns, nested and called several times"""
    def h(cx):
        kinds = ("op label jump return if macrocall" if small else "op label jump return if ifnot forever break_loop macrocall").split()
        g1 = G(cx, kinds, labels=("A",))
        g1.macros = []
        inner = g1.body(1 + cx.pick(1 if small else size, "si"), {}, "i")
        g2 = G(cx, kinds, labels=("A",))
        g2.n_op, g2.n_test = 20, 20
        g2.macros = ["inner"]
        outer = g2.body(size, {}, "o")
        if g1.used - g1.defined or g2.used - g2.defined:
            raise engine.Abandon
        g3 = G(cx, "op macrocall label jump if".split(), labels=("A",))
        g3.n_op, g3.n_test = 40, 40
        g3.macros = ["inner", "outer"]
        main = g3.body(1 if small else 2, {}, "m")
        if g3.used - g3.defined:
            raise engine.Abandon
        ms = [N("macrodef", "inner", [], inner), N("macrodef", "outer", ["$p"], outer)]
        if cx.flag("order"):
            ms.reverse()
        return sink(cx, None, lang.render(program(ms + [routine(0, main)])))
    return h


class CHECK(Check):
    id = "C03"
    level = "model_checking"
    technique = "concolic execution of the real compiler (ExplorerScript, macros, SsbScript); z3 query over a symbolic pair of result positions"
    level_note = ("For every program of the stated families, including ones with undefined or repeated labels, odd routine ids and raw jump ops, z3 shows that "
                  "no two positions of the result share an offset and every jump-kind op's last parameter is the offset of an op, for every value of the "
                  "literals. Bounded by program size; the ANTLR runtime is executed as is.")
    seconds = {"quick": 60, "thorough": 1800}
    assumptions = ["bound: programs of the stated families", "programs the compiler rejects satisfy the property trivially (rejections are counted; which are "
                   "legitimate is decided by C10, C01 and C05)"]
    bounds = {"quick": "C01's long programs (11, 34 elements); C01 families up to 2 statements of all kinds; symbolic routine ids in -3..6 for 2 routines; raw jump-kind ops with up to 3 arguments in 9 "
                       "places; 2 routines x up to 2 label/jump statements; 2 SsbScript routines x up to 2 statements; 2 macros of size <= 2",
              "thorough": "3 statements of all kinds, 3 routines, 3 label statements, macros of size 3"}

    def setup(self):
        cm.setup_ints()

    def families(self, tier):
        cm.SINK = sink
        t = tier == "thorough"
        f = [("ids1", f_ids(1)), ("ids2", f_ids(2)), ("raw", f_raw), ("labels", f_labels(3 if t else 2)), ("ssb", f_ssb(3 if t else 2)),
             ("macros1", f_macros(1)), ("macros2", f_macros(2, not t)), ("full1", c01.shape(c01.FULL, 1, cm.symlit)),
             ("full2", c01.shape(c01.FULL, 2)), ("if-headers", c01.f_if_headers), ("switch-headers", c01.f_switch_headers),
             ("msgswitch", c01.f_msgswitch(2)), ("nest1", c01.f_nest(1)),
             ("big", c01.f_big(c01.BIG, (11, 34) if not t else (11, 34, 103)))]
        if t:
            f += [("ids3", f_ids(3)), ("stmts", c01.f_stmts), ("full3", c01.shape(c01.FULL, 3)), ("nest2", c01.f_nest(2)), ("macros3", f_macros(3))]
            f += [(n + "3", c01.shape(ks, 3)) for n, ks in c01.SETS.items()]
        return f

    def control(self):
        r = []
        for rows in ([(1, True, 2), (2, False, 0)], [(1, True, 3), (2, False, 0)], [(1, False, 0), (1, False, 0)]):
            s = z3.Solver()
            s.add(violated(rows))
            r.append(str(s.check()))
        return r == ["unsat", "sat", "sat"], "closed list: %s, dangling jump: %s, repeated offset: %s" % tuple(r)

    def replay(self, payload):
        try:
            c = real.compile_text(payload["text"])
        except Exception:
            return None
        e = concrete(c)
        return None if e is None else e + "\nprogram:\n" + payload["text"]
