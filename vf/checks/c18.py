"""C18  position-mark listing."""
from __future__ import annotations
import z3
from . import c01, c05
from . import common as cm
from .. import engine, lang, layout, proj, real, sym
from ..lang import N
from ..run import Check
from ..shapes import I, C, S, routine

V, call, macro, op = c05.V, c05.call, c05.macro, c05.op


def listing(text):
    r = real.m.reader.ExplorerScriptReader(text).read()
    return real.m.posvis.PositionMarkVisitor().visit(r)


class Bad(Exception):
    pass


def literals(toks):
    """the Position literals of a text: (token `Position`, token `>`, name token, x tokens, y tokens)"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].k == "Position" and toks[i + 1].k == "<":
            out.append((toks[i], toks[i + 7], toks[i + 2], toks[i + 4], toks[i + 6]))
            assert toks[i + 7].k == ">", toks[i:i + 8]
        i += 1
    return out


def same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return sym.lift(a) == sym.lift(b)
    return z3.BoolVal(a == b)


def vals(m):
    return (m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative)


def judge_listing(text, lay, got, int_val, params):
    """-> [(condition, what)].  params: position marks of the compiled ops (all of them), or None when the program is rejected"""
    tests = []
    lits = literals(lay.toks["main"])
    if not isinstance(got, list) or len(got) != len(lits):
        raise Bad(f"{len(got) if isinstance(got, list) else got!r} entries for {len(lits)} literals")
    for i, ((t0, t1, nt, xt, yt), g) in enumerate(zip(lits, got)):
        if type(g).__name__ != "SourceMapPositionMark":
            raise Bad(f"entry {i} is {g!r}")
        for w, tok, l, c in (("start", t0, g.line_number, g.column_number), ("end", t1, g.end_line_number, g.end_column_number)):
            L, K = lay.at("main", tok)
            tests.append((z3.And(same(l, L), same(c, K)), f"{w} of literal {i}: {int.__int__(l)}:{int.__int__(c)}"))
        sx, sy = lang.pos_arg(xt.t, int_val), lang.pos_arg(yt.t, int_val)
        want = (lang.default_strval(nt.t), sx[1], sy[1], sx[0], sy[0])
        tests.append((z3.And([same(a, b) for a, b in zip(vals(g), want)]), f"literal {i}: values {vals(g)}, expected {want}"))
    if params is not None:
        for p in params:
            tests.append((z3.Or([z3.And([same(a, b) for a, b in zip(vals(g), vals(p))]) for g in got]),
                          f"compiled parameter {p!r} is none of the listed marks {[vals(g) for g in got]}"))
    return tests


def marks(c):
    return [p for r in c.routine_ops for o in r for p in o.params if isinstance(p, real.m.dt.SsbOpParamPositionMarker)]


def shape(c):
    return [[(o.offset, o.op_code.name, tuple(o.params)) for o in r] for r in c.routine_ops]


def judge_edit(c, c2, old, new, unique):
    """c2: compiled from the text with one literal (values old) replaced by the printed form of new.
    unique: no other literal has the values of the edited one"""
    tests = []
    a, b = shape(c), shape(c2)
    if [len(r) for r in a] != [len(r) for r in b]:
        raise Bad("the edit changes the number of operations")
    inf = lambda x: [(r.type, r.linked_to, r.linked_to_name) for r in x.routine_infos]
    if c.named_coroutines != c2.named_coroutines or inf(c) != inf(c2):
        raise Bad("the edit changes the routine table")
    dt = real.m.dt
    n = 0
    for ra, rb in zip(a, b):
        for (oa, na, pa), (ob, nb, pb) in zip(ra, rb):
            if oa != ob or na != nb or len(pa) != len(pb):
                raise Bad(f"the edit turns {na}({oa}) into {nb}({ob})")
            for x, y in zip(pa, pb):
                if isinstance(x, dt.SsbOpParamPositionMarker) and vals(x)[0] == old[0]:
                    if not isinstance(y, dt.SsbOpParamPositionMarker):
                        raise Bad(f"the edit turns {x!r} into {y!r}")
                    is_old = z3.And([same(p, q) for p, q in zip(vals(x), old)])
                    is_new = z3.And([same(p, q) for p, q in zip(vals(y), new)])
                    keep = z3.And([same(p, q) for p, q in zip(vals(x), vals(y))])
                    if unique:
                        n += 1
                        tests.append((z3.If(is_old, is_new, keep), f"after the edit {x!r} is {y!r}, expected {new}"))
                    else:
                        tests.append((z3.Or(keep, z3.And(is_old, is_new)), f"after the edit {x!r} is {y!r}, expected {new}"))
                else:
                    k = real.param(x), real.param(y)
                    if k[0][0] == "i" and k[1][0] == "i":
                        tests.append((same(x, y), f"the edit turns {x!r} into {y!r}"))
                    elif isinstance(x, dt.SsbOpParamPositionMarker) and isinstance(y, dt.SsbOpParamPositionMarker):
                        tests.append((z3.And([same(p, q) for p, q in zip(vals(x), vals(y))]), f"the edit turns {x!r} into {y!r}"))
                    elif k[0] != k[1]:
                        raise Bad(f"the edit turns {x!r} into {y!r}")
    return tests


def cut(text, lit, new):
    """the text with the literal replaced, from the positions of its tokens"""
    t0, t1 = lit[0], lit[1]
    return text[:t0.i] + new + text[t1.i + 1:]


def cut_lines(text, g, new):
    """what an editor does: replace from (start line, column) to (end line, column) inclusive"""
    ls = text.split("\n")
    pre = "\n".join(ls[:g.line_number] + [ls[g.line_number][:g.column_number]])
    post = "\n".join([ls[g.end_line_number][g.end_column_number + 1:]] + ls[g.end_line_number + 1:])
    return pre + new + post


NEW_NAMES = ["n", "", "it's", 'say "x"', "a\nb", "'''", "\u65e5 \u672c", " lead", "//x", "/*"]


def run(cx, text, full=False, files=None):
    st = cx.w.stats
    st.add("programs")
    try:
        lay = layout.Layout(cx, {"main": text})
    except lang.LangError:
        raise engine.Abandon
    iv = cm.int_val(cx)
    edits = []

    def payload(err, e=None):
        def f(m):
            def lit(t):
                if t.k == "INT":
                    v = cx.reg.get(lang.int_value(t.t))
                    if v is not None:
                        return str(m.eval(v.e, model_completion=True).as_long())
                return t.t
            d = {"text": lay.render(m, lit)["main"] if m is not None else text, "err": err, "files": files}
            if e is not None:
                ev = lambda x: m.eval(sym.lift(x), model_completion=True).as_long() if isinstance(x, int) and m is not None else sym.concrete(x)
                d["edit"] = [e[0]] + [ev(x) for x in e[1:]]
            return d
        return f
    with lay:
        c = None
        try:
            c = compile_with(text, files)
        except Exception:
            st.add("rejected_by_compiler")
        try:
            got = listing(text)
        except Exception as e:
            if c is None and "Position Marker" in str(e):
                raise engine.Abandon         # the literal itself is meaningless
            cx.fail(payload(f"listing raises {type(e).__name__}: {e}"))
        try:
            tests = [(t, w, None) for t, w in judge_listing(text, lay, got, iv, marks(c) if c is not None and not files else None)]
        except Bad as e:
            cx.fail(payload(str(e)))
    if c is not None and got:
        i = cx.pick(len(got), "edited") if len(got) <= 4 else 0
        lits = literals(lang.lex(text))
        # the printed form keeps no leading zeros or bases, so the values are free
        if full:
            nv = cx.choose(NEW_NAMES, "newname"), cx.choose([0, 2], "nxo"), cx.choose([0, 2], "nyo")
        else:
            nv = ("it's\n", 0, 2)
        nv += (cx.int("nx", -2**31, 2**31 - 1), cx.int("ny", -2**31, 2**31 - 1))
        old = [vals(g) for g in got]
        e = (i,) + nv
        try:
            text2 = cut(text, lits[i], str(real.m.dt.SsbOpParamPositionMarker(*nv)))
            try:
                c2 = compile_with(text2, files)
            except Exception as x:
                raise Bad(f"the edited program is rejected: {type(x).__name__}: {x}")
            uniq = [o[0] for o in old].count(old[i][0]) == 1
            tests += [(t, w, e) for t, w in judge_edit(c, c2, old[i], nv, uniq)]
        except Bad as x:
            cx.fail(payload(str(x), e))
    if not tests:
        st.add("assertions")
        return text

    def info(m):
        for t, w, e in tests:
            if z3.is_false(m.eval(t, model_completion=True)):
                return payload(w, e)(m)
        return payload("?")(m)
    cx.defer(z3.And([z3.Or([z3.Not(t) for t, _, _ in tests])] + cx.pending), info)
    return text


def compile_with(text, files):
    if not files:
        return real.compile_text(text)
    with proj.Scratch({**files, "main.exps": text}, ()) as sc:
        return sc.compile("main.exps")


# ----------------------------------------------------------------- families
def _places(cx, mark, k, t):
    """statements with a mark at place k"""
    c = lambda *a: op(f"o{t}", *a)
    h = N("h_operation", op("BranchSum", I(1), mark()))
    oc = N("h_op", C(f"$V{t}"), "==", I(t))
    arm = lambda hs, b, n=False: N("arm", n, hs, b)
    case = [N("case", N("c_val", I(1)), [c()])]
    if k == 0:
        return [c(mark())]
    if k == 1:
        return [c(I(1), mark(), S("x"), mark(), C("K"))]
    if k == 2:
        return [N("op", f"o{t}", ("actor", I(1)), [mark()])]
    if k == 3:
        return [N("with", "object", I(2), c(mark()))]
    if k == 4:
        return [N("if", [arm([h], [c()])], None)]
    if k == 5:
        return [N("if", [arm([oc, h], [c(mark())], True)], [c(mark())])]
    if k == 6:
        return [N("if", [arm([oc], [c(mark())]), arm([h], [c(mark())])], None)]
    if k == 7:
        return [N("switch", N("s_operation", op("ProcessSpecial", mark(), I(1))), [N("case", N("c_val", I(1)), [c(mark())]), N("case", None, [c(mark())])])]
    if k == 8:
        return [N("while", cx.flag("neg"), h, [c(mark())])]
    if k == 9:
        return [N("for", c(mark()), h, op(f"i{t}", mark()), [op(f"b{t}", mark())])]
    if k == 10:
        return [N("forever", [c(mark()), N("break_loop")])]
    if k == 11:
        return [call("m", mark())]
    if k == 12:
        return [call("mm", mark(), mark())]
    if k == 13:
        return [call("unused", mark())]
    if k == 14:
        return [N("msgswitch", "message_SwitchTalk", C("$M"), [N("case", N("c_val", I(1)), S("m")), N("case", None, S("d"))]), c(mark())]
    if k == 15:
        return [N("jump", "l"), c(mark())]          # not reachable
    return [c()]


NP = 17


def f_places(n, syms=True, full=False, wheres=4):
    def h(cx):
        cnt = [0]

        def mark():
            cnt[0] += 1
            x = cx.int("x", -2**31, 2**31 - 1) if syms and cnt[0] <= 2 else cnt[0]
            y = [str(cnt[0] + 20), f"{cnt[0]}.5", f"-{cnt[0]}.0"][cnt[0] % 3]
            return N("pos", f"'k{cnt[0]}'", str(x), y)
        body = []
        for j in range(1 + cx.pick(n, "n")):
            body += _places(cx, mark, cx.pick(NP, f"p{j}"), j)
        where = cx.pick(wheres, "where")
        ms = [macro("m", ["$p"], [op("a", V("$p"), mark())]), macro("unused", ["$p"], [op("u")]),
              macro("mm", ["$p", "$q"], [op("b", V("$q"), V("$p")), call("m", V("$q"))]), macro("never", [], [op("n", mark())])]
        if where == 0:
            items = ms + [routine(0, body + [N("label", "l"), op("last")])]
        elif where == 1:
            items = [routine(0, [op("first"), N("label", "l")])] + ms + [routine(1, body)]
        elif where == 2:
            items = ms + [macro("outer", ["$o"], body + [N("label", "l"), op("z")]), routine(0, [call("outer", mark()), call("outer", I(1))])]
        else:
            items = [N("coro", "CORO_A", body + [N("label", "l"), op("last")])] + ms
        return run(cx, lang.render(N("program", [], items)), full)
    return h


SPELL = ["{i}", "-{i}", "0x1F", "-0b101", "0o17", "0", "-0", "{i2}.5", "-{i2}.5", "4.0", "-0.5", ".5", "-.5", "0.50", "007.5", "00.0", "-.0", "12.500"]
NAMES = ["''", '""', "'a b'", '"it\'s"', "'it\\'s'", '"q\\"q"', "'x\\ny'", "'/*'", '"//"', "'>'", '"Position<"', "'\u65e5'", "'tab\t'", "'''", "'a\\\\'"]


def f_values(cx):
    """every spelling of the arguments"""
    def arg(l):
        s = SPELL[cx.pick(len(SPELL), l)]
        if "{i}" in s:
            return s.replace("{i}", str(cx.int(l + "v", 0, 2**31 - 1)))
        return s.replace("{i2}", "31")
    nm = NAMES[cx.pick(len(NAMES), "name")] if cx.flag("byname") else None
    if nm is not None:
        m = N("pos", nm, "1", "2.5")
    else:
        m = N("pos", "'k'", arg("x"), arg("y"))
    text = lang.render(N("program", [], [routine(0, [op("o", m, S(">")), op("e")])]))
    return run(cx, text, nm is not None)


def f_many(sizes):
    """many literals: in one argument list, in consecutive statements, blocks, routines, macros"""
    def h(cx):
        n, k = cx.choose(sizes, "n"), cx.choose(["args", "ops", "cases", "ifs", "nest", "routines", "calls", "macros"], "k")
        mark = lambda i: N("pos", f"'k{i}'", str(cx.int("x", -2**31, 2**31 - 1)) if i in (0, n // 2, n - 1) else str(i), f"{i}.5" if i % 2 else str(-i))
        ms = []
        if k == "args":
            b = [op("o", *[mark(i) for i in range(n)])]
        elif k == "ops":
            b = [op("o", mark(i)) for i in range(n)]
        elif k == "cases":
            b = [N("switch", N("s_var", C("$S")), [N("case", N("c_val", I(700 + i)), [op(f"a{i}", mark(i)), N("break")]) for i in range(n)])]
        elif k == "ifs":
            b = [N("if", [N("arm", False, [N("h_op", C("$V"), "==", I(700 + i))], [op(f"a{i}", mark(i))]) for i in range(n)], [op("e")])]
        elif k == "nest":
            b = [op("c")]
            for i in reversed(range(n)):
                b = [op("o", mark(i)), N("if", [N("arm", False, [N("h_op", C("$V"), "==", I(700 + i))], b)], None)]
        elif k == "routines":
            return run(cx, lang.render(N("program", [], [routine(i, [op("o", mark(i))]) for i in range(n)])), True)
        elif k == "calls":
            ms = [macro("m", ["$p"], [op("a", V("$p"))])]
            b = [call("m", mark(i)) for i in range(n)]
        else:
            ms = [macro(f"m{i}", ["$p"], [op("a", V("$p"), mark(i))]) for i in range(n)]
            b = [call(f"m{i}", C("K")) for i in range(n)]
        return run(cx, lang.render(N("program", [], ms + [routine(0, b)])), True)
    return h


def f_same(cx):
    """literals with equal names or equal values"""
    v = [cx.pick(2, f"n{i}") for i in range(3)]
    w = [cx.pick(2, f"x{i}") for i in range(3)]
    ms = [N("pos", "'k%d'" % a, str(1000 + b), "3") for a, b in zip(v, w)]
    b = [op("o", ms[0], ms[1]), op("p", ms[2])] if cx.flag("f") else [op("o", ms[0]), N("if", [N("arm", False, [N("h_neg", False, "debug")], [op("p", ms[1])])], [op("q", ms[2])])]
    return run(cx, lang.render(N("program", [], [routine(0, b)])))


def f_commas(cx):
    """trailing commas, comments between the tokens of a literal, meaningless but well-formed programs"""
    k = cx.pick(6, "k")
    P = "Position < 'k' , 1 , 2.5 >"
    Q = "Position < 'j' , -3 , .5 >"
    t = [f"def 0 {{ o ( {P} , ) ; p ( {Q} , 1 , ) ; }}",
         f"def 0 {{ break ; o ( {P} ) ; }} def 7 {{ continue ; p ( {Q} ) ; }}",
         f"def 0 {{ ~ unknown ( {P} , {Q} ) ; }}".replace("~ ", "~"),
         f"import 'nowhere.exps' ; macro m ( $a , $b ) {{ o ( $a , {P} ) ; }} def 0 {{ ~m ( {Q} ) ; }}",
         f"def 0 {{ switch ( $A ) {{ case 1 : o ( {P} ) ; default : p ( {Q} ) ; default : }} }}",
         f"def 0 {{ o ( {{ english = 'Position<' , german = \"x\" }} , {P} , '{Q[:9]}' ) ; }} def 1 {{ alias previous ; }} coro A {{ p ( {Q} ) ; }}"][k]
    return run(cx, t, True)


def f_import(cx):
    """only the marks of the listed file; imported macros that have marks of their own"""
    lib = "macro m ( $p ) { a ( $p , Position < 'lib' , 9 , 9 > ) ; }"
    n = 1 + cx.pick(2, "n")
    b = [call("m", N("pos", f"'k{i}'", str(i), "2.5")) for i in range(n)]
    t = lang.render(N("program", [N("import", '"./lib.exps"')], [routine(0, b)]))
    return run(cx, t, True, files={"lib.exps": lib})


class CHECK(Check):
    id = "C18"
    level = "exploration"
    technique = ("concolic execution of the real reader, listing visitor and compiler on programs whose tokens stand at symbolic lines and columns and whose coordinates are "
                 "symbolic; z3 shows every entry equal to the symbolic position and value of its literal, and an edit with symbolic new coordinates to change that parameter only")
    level_note = ("The real PositionMarkVisitor runs over the real parse tree of each program; positions of all tokens and the coordinates are z3 variables, so equality is shown "
                  "for every layout and value. Places of literals are enumerated (every syntactic position of an argument list). Edits are checked by compiling the edited program.")
    seconds = {"quick": 80, "thorough": 1800}
    limit = 30
    assumptions = [
        "tokens are separated by at least one blank or line break; lines <= 400, columns <= 900",
        "edited names contain no backslash, carriage return or form feed: single-line strings can not express those (STRING_LITERAL; `\\` is not unescaped)",
        "edited offsets are 0 or 2, the two a printed mark distinguishes",
        "literals with decimals other than .0 and .5 are rejected by compiler and listing alike (no parameter to compare with)",
    ]
    bounds = {"quick": "8 sorts of programs with 11 literals; one place out of 17 in 4 kinds of bodies, all pairs of places in routines; 18x18 spellings of arguments; 15 spellings and 10 edited names; 3 literals with equal names/values",
              "thorough": "two places in 4 kinds of bodies, all with symbolic coordinates and every edited name"}

    def setup(self):
        cm.setup_ints()
        layout.hook()

    def families(self, tier):
        T = tier == "thorough"
        f = [("places1", f_places(1, full=True)), ("values", f_values), ("same", f_same), ("many", f_many((11, 34) if T else (11,))), ("commas", f_commas), ("import", f_import), ("places2", f_places(2, wheres=4 if T else 1))]
        if T:
            f += [("places3", f_places(3, wheres=1)), ("places2full", f_places(2, full=True))]
        return f

    def control(self):
        text = "def 0 { a ( Position < 'k' , 1 , 2.5 > ) ; }"
        r = []
        for d in (0, 1):
            lay = layout.Plain({"main": text})
            got = listing(text)
            got[0].end_column_number += d
            s = z3.Solver()
            s.add(z3.Or([z3.Not(t) for t, _ in judge_listing(text, lay, got, cm.int_val(None), marks(real.compile_text(text)))]))
            r.append(str(s.check()))
        return r == ["unsat", "sat"], f"real listing: {r[0]}, listing with the end moved by one column: {r[1]}"

    def replay(self, d):
        text = d["text"]
        files = d.get("files")
        show = "\n--- program\n" + text
        lay = layout.Plain({"main": text})
        try:
            c = compile_with(text, files)
        except Exception:
            c = None
        try:
            got = listing(text)
        except Exception as e:
            if c is None and "Position Marker" in str(e):
                return None
            return f"listing raises {type(e).__name__}: {e}" + show
        try:
            for t, w in judge_listing(text, lay, got, cm.int_val(None), marks(c) if c is not None and not files else None):
                if not z3.is_true(z3.simplify(t)):
                    return w + show
            if "edit" in d and c is not None:
                i, nv = d["edit"][0], tuple(d["edit"][1:])
                g = got[i]
                text2 = cut_lines(text, g, str(real.m.dt.SsbOpParamPositionMarker(*nv)))
                show += "\n--- edited\n" + text2
                try:
                    c2 = compile_with(text2, files)
                except Exception as x:
                    return f"the edited program is rejected: {type(x).__name__}: {x}" + show
                for t, w in judge_edit(c, c2, vals(g), nv, [x.name for x in got].count(g.name) == 1):
                    if not z3.is_true(z3.simplify(t)):
                        return w + show
        except Bad as e:
            return str(e) + show
        return None
