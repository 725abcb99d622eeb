"""C05  macros and imports: compiled routines vs. reference inlining."""
from __future__ import annotations
import itertools
import z3
from . import common as cm
from .. import engine, lang, machine, proj, real
from ..lang import N
from ..run import Check
from ..shapes import G, I, C, S, routine, program

V = lambda n: N("var", n)
BODY = "op return label jump call if ifnot ifelse or elseif switch forever while for break continue break_loop with ctxop assign end".split()
POS = N("pos", '"m"', "3", "4.5")
SINK = None


def call(nm, *args):
    return N("macrocall", nm, list(args))


def macro(nm, params, body):
    return N("macrodef", nm, list(params), body)


def op(nm, *args):
    return N("op", nm, None, list(args))


def check(cx, files, main="main.exps", lookup=()):
    """files: name -> program"""
    if SINK is not None:
        return SINK(cx, files, main, lookup)
    st = cx.w.stats
    st.add("programs")
    texts = {k: lang.render(v) for k, v in files.items()}
    base = {"files": texts, "main": main, "lookup": list(lookup)}
    cx.notes = dict(base)
    try:
        macros, _ = proj.closure(texts, lookup, main, files)
        src = lang.Sem(cm.int_val(cx), macros=macros).program(files[main])
    except lang.LangError:
        raise engine.Abandon
    if cm.has_divergence(src, [e for _, e in src.entries]):
        raise engine.Abandon

    def payload(err, why=None):
        def f(m):
            d = dict(base, err=err, files=proj.files_at(cx, m, texts))
            if why:
                d["why"] = why
            return d
        return f
    with proj.Scratch(texts, lookup) as sc:
        try:
            c = sc.compile(main)
        except Exception as e:
            cx.fail(payload("rejected: " + type(e).__name__, str(e)[:300]))
    cm.check_compiled(cx, src, c, payload)
    return texts


# ----------------------------------------------------------------- call graphs x definition orders
def f_graph(n, twice=False, lits=True, labels=False):
    perms = list(itertools.permutations(range(n)))

    def h(cx):
        lit = (lambda: N("int", str(cx.int("a", -2**31, 2**31 - 1)))) if lits else (lambda: I(7))
        ms = []
        for i in range(n):
            b = [op(f"op{i}", V("$p"), C("CONST"))]
            for j in range(i + 1, n):
                k = cx.pick(3 if twice else 2, f"e{i}{j}")
                for t in range(k):
                    b.append(call(f"m{j}", V("$p") if t == 0 else C("NESTED")))
            if i == 0 and cx.flag("first"):
                b = b[1:] + b[:1]
            if labels:
                # the same label name in every macro: private to each expansion
                b = [N("label", "l")] + b + [N("if", [N("arm", False, [N("h_bit", False, V("$p"), str(i))], [N("jump", "l")])], None)]
            ms.append(macro(f"m{i}", ["$p"], b))
        order = perms[cx.pick(len(perms), "perm")]
        k = cx.pick(n, "root2")
        body = [call("m0", lit()), op("mid")] + ([call(f"m{k}", lit())] if k else [call("m0", C("K"))]) + [N("end")]
        check(cx, {"main.exps": N("program", [], [ms[i] for i in order] + [routine(0, body)])})
        return None
    return h


# ----------------------------------------------------------------- bodies
def f_body(size, kinds=BODY, nested=True):
    def h(cx):
        g = G(cx, kinds, labels=("A", "B"), lit=lambda v: V("$p") if v % 2 else V("$q"))
        b = g.body(size, {}, "")
        for l in sorted(g.used - g.defined):
            b = b + [N("label", l)]
        if g.defined - g.used:
            raise engine.Abandon
        ms = [macro("inner", ["$p", "$q"], b)]
        x = lambda: N("int", str(cx.int("a", -2**31, 2**31 - 1)))
        how = cx.pick(3 if nested else 2, "how")
        if how == 0:
            body = [call("inner", x(), x()), op("last"), call("inner", C("K1"), C("$X2"))]
        elif how == 1:
            body = [op("before"), N("label", "A"), call("inner", x(), x()), N("if", [N("arm", False, [N("h_op", C("$V"), "==", I(1))], [N("jump", "A")])], None),
                    op("last")]
        else:
            # nested, swapped parameters, used twice; the outer macro has a label of the same name
            ms.insert(cx.pick(2, "ord"), macro("outer", ["$p", "$q"], [op("o1", V("$p")), N("label", "A"), call("inner", V("$q"), V("$p")), op("o2", V("$q")),
                                               N("if", [N("arm", False, [N("h_op", V("$p"), ">", I(1))], [N("jump", "A")])], None),
                                               call("inner", C("K3"), V("$p"))]))
            body = [call("outer", x(), C("K4")), op("last"), call("outer", C("$X5"), x())]
        check(cx, {"main.exps": N("program", [], ms + [routine(0, body), routine(1, [call("inner", x(), C("K9")), op("r1")])])})
    return h


# ----------------------------------------------------------------- call sites
SITES = "op macrocall if ifnot ifelse elseif elifelse switch switch2 forever while whilenot for break continue break_loop return".split()


def f_sites(size, kinds=SITES):
    """calls anywhere a statement may stand; macros: plain, returning, looping, empty, ending"""
    def h(cx):
        g = G(cx, kinds, labels=())
        g.macros = ["plain", "ret", "condret", "lbl", "nothing", "fin"]
        b = g.body(size, {}, "")
        if "macrocall" not in repr(b):
            raise engine.Abandon
        ms = [macro("plain", [], [op("mp1"), op("mp2")]),
              macro("ret", [], [op("mr1"), N("return")]),
              macro("condret", [], [N("if", [N("arm", False, [N("h_neg", False, "debug")], [N("return")])], None), op("mc1")]),
              macro("lbl", [], [N("label", "A"), op("ml1"), N("if", [N("arm", True, [N("h_neg", False, "edit")], [N("jump", "A")])], None)]),
              macro("nothing", [], [N("return")]),
              macro("fin", [], [op("mf1"), N("end")])]
        check(cx, {"main.exps": N("program", [], ms + [routine(0, b), routine(1, [op("r1")])])})
    return h


# ----------------------------------------------------------------- parameters
def arg_kinds(cx):
    return [lambda: N("int", str(cx.int("arg", -2**31, 2**31 - 1))), lambda: C("CONST_A"), lambda: C("$GAME_VAR"), lambda: C(real.PERF),
            lambda: S("text \\\"q\\\""), lambda: N("lang", [("english", S("e")), ("german", S("g"))]), lambda: POS, lambda: N("dec", "-0.50")]


def places(p):
    """every place of a statement where a parameter may stand -> list of statements"""
    o = op("o")
    h = lambda x: N("if", [N("arm", False, [x], [o])], None)
    sw = lambda x, *cs: N("switch", x, list(cs) or [N("case", N("c_val", I(1)), [o])])
    d = {
        "oparg": [op("f", p)],
        "oparg2": [op("f", I(1), p, C("X"), p)],
        "opjumpname": [op("Other", p, C("$other"))],
        "ctx": [N("op", "f", ("actor", p), [])],
        "ctxobj": [N("op", "f", ("object", p), [p])],
        "with": [N("with", "performer", p, op("f", p))],
        "set": [N("assign", p, None, "=", I(3))],
        "setval": [N("assign", C("$W"), None, "=", p)],
        "calc": [N("assign", p, None, "+=", p)],
        "calcvar": [N("assign", p, None, "-=", N("value", p))],
        "bit": [N("assign", p, "4", "=", I(1))],
        "bitval": [N("assign", C("$W"), "4", "=", p)],
        "scn": [N("a_scn", p, "1", "2")],
        "clear": [N("a_clear", p)],
        "init": [N("a_init", p)],
        "resetscn": [N("a_reset", p)],
        "advlog": [N("a_advlog", p)],
        "dmode": [N("a_dmode", p, p)],
        "ifop": [h(N("h_op", p, "==", p))],
        "ifcmp": [h(N("h_op", p, ">=", p))],
        "ifvar": [h(N("h_op", p, "<", N("value", p)))],
        "ifbit": [h(N("h_bit", False, p, "2"))],
        "ifscn": [h(N("h_scn", p, "<=", "1", "2"))],
        "ifopr": [h(N("h_operation", op("BranchSum", p, I(4), p)))],
        "while": [N("while", False, N("h_op", p, "==", I(1)), [op("w", p)])],
        "switch": [sw(N("s_var", p))],
        "swscn": [sw(N("s_scn", p, "0"), N("case", N("c_val", p), [o]))],
        "swlvl": [sw(N("s_scn", p, "1"))],
        "swrandom": [sw(N("s_random", p))],
        "swdm": [sw(N("s_dungeon_mode", p))],
        "swsector": [sw(N("s_operation", op("ProcessSpecial", p, I(1))))],
        "case": [sw(N("s_var", C("$S")), N("case", N("c_val", p), [o]))],
        "caseop": [sw(N("s_var", C("$S")), N("case", N("c_op", ">", p), [o]))],
        "casevar": [sw(N("s_var", C("$S")), N("case", N("c_op", "!=", N("value", p)), [o]))],
        "menu2": [sw(N("s_operation", op("message_SwitchMenu", I(1), p)), N("case", N("c_menu2", p), [o]))],
        "msg": [N("msgswitch", "message_SwitchTalk", p, [N("case", N("c_val", p), S("t")), N("case", None, S("d"))])],
        "for": [N("for", N("assign", p, None, "=", I(0)), N("h_op", p, "<", p), N("assign", p, None, "+=", I(1)), [op("b", p)])],
    }
    return d


def f_params(cx):
    keys = sorted(places(V("$p")))
    k = keys[cx.pick(len(keys), "place")]
    b = places(V("$p"))[k]
    a = arg_kinds(cx)[cx.pick(8, "arg")]()
    nest = cx.pick(3, "nest")
    ms = [macro("m", ["$p"], b)]
    if nest == 1:
        ms.append(macro("o", ["$q"], [call("m", V("$q"))]))
    if nest == 2:
        ms.append(macro("o", ["$q", "$p"], [call("m", V("$q")), op("x", V("$p"))]))
    body = [call("m", a)] if nest == 0 else [call("o", a)] if nest == 1 else [call("o", a, C("UNUSED")), call("m", C("SECOND"))]
    check(cx, {"main.exps": N("program", [], ms + [routine(0, body + [op("z")])])})


def f_args(cx):
    """up to three arguments: order, pass-through, swapping, dropping, literals inside nested calls"""
    n = 1 + cx.pick(3, "n")
    ps = ["$a", "$b", "$c"][:n]
    args = [arg_kinds(cx)[cx.pick(8, "k")]() if i == 0 else (N("int", str(cx.int("b", -2**31, 2**31 - 1))) if i == 1 else C("K3")) for i in range(n)]
    names = ["$a", "$b", "$c"] if cx.flag("same") else ["$b", "$c", "$a"]
    inner_ps = names[:n]
    pick = [cx.pick(n + 1, f"pick{i}") for i in range(n)]
    inner_args = [V(ps[p]) if p < n else I(99) for p in pick]
    ms = [macro("inner", inner_ps, [op("i", *[V(x) for x in inner_ps])]),
          macro("outer", ps, [op("o", *[V(x) for x in ps]), call("inner", *inner_args)])]
    if cx.flag("ord"):
        ms.reverse()
    check(cx, {"main.exps": N("program", [], ms + [routine(0, [call("outer", *args)])])})


# ----------------------------------------------------------------- file layouts
DIRS = ["", "sub/", "sub/deep/", "lib1/", "lib2/"]


def f_files(nfiles, full=True):
    """main + files; every import edge written relative, absolute or through the lookup paths; decoys in later lookup paths"""
    def h(cx):
        dirs = DIRS if full else ["", "sub/", "lib1/", "lib2/"]
        where = ["main.exps"] if not cx.flag("maindir") else ["sub/main.exps"]
        for i in range(nfiles):
            where.append(dirs[cx.pick(len(dirs), f"d{i}")] + f"f{i}.exps")
        edges = {i: [] for i in range(nfiles + 1)}
        for i in range(nfiles + 1):
            for j in range(i + 1, nfiles + 1):
                if (j == i + 1 and i == 0) or cx.flag(f"e{i}{j}"):
                    edges[i].append(j)
        reach = set()

        def go(i):
            if i not in reach:
                reach.add(i)
                for j in edges[i]:
                    go(j)
        go(0)
        if len(reach) != nfiles + 1:
            raise engine.Abandon
        lookup = ["lib1", "lib2"] if not cx.flag("lorder") else ["lib2", "lib1"]
        decoy = cx.flag("decoy")
        files = {}
        nstyle = 0
        for i in range(nfiles + 1):
            imports = []
            for j in edges[i]:
                src = where[i].rsplit("/", 1)[0] + "/" if "/" in where[i] else ""
                rel = __import__("os").path.relpath(where[j], src or ".")
                rel = rel if rel.startswith(".") else "./" + rel
                opts = [rel, proj.ROOT + "/" + where[j]]
                d = where[j].split("/")[0]
                first = not decoy or d == lookup[0]
                if d in lookup and first:
                    opts.append(where[j].split("/", 1)[1])
                imports.append(N("import", '"' + opts[cx.pick(len(opts), f"s{i}{j}")] + '"'))
            if full and i and edges[i] and cx.flag(f"twice{i}"):
                imports.append(imports[0])
            items = []
            if i == 0:
                items.append(routine(0, [call(f"m{j}", N("int", str(cx.int("a", 0, 1000)))) for j in edges[0]] + [call("own"), N("end")]))
                items.insert(cx.pick(2, "own"), macro("own", [], [op("own")] + [call(f"m{j}", I(5)) for j in edges[0][:1]]))
            else:
                items.append(macro(f"m{i}", ["$p"], [op(f"f{i}", V("$p"))] + [call(f"m{j}", V("$p")) for j in edges[i]] + [call(f"h{i}")]))
                items.insert(cx.pick(2, f"h{i}"), macro(f"h{i}", [], [op(f"h{i}")]))
            files[where[i]] = N("program", imports, items)
        if decoy:
            used = False
            for i in range(1, nfiles + 1):
                d = where[i].split("/")[0]
                if d == lookup[0]:
                    used = True
                    files[lookup[1] + "/" + where[i].split("/", 1)[1]] = N("program", [], [macro(f"m{i}", ["$p"], [op("WRONG")])])
            if not used:
                raise engine.Abandon
        check(cx, files, where[0], lookup)
    return h


def f_many(sizes):
    """many macros, calls, parameters, labels, files"""
    def h(cx):
        n, k = cx.choose(sizes, "n"), cx.choose(["chain", "rchain", "calls", "params", "macros", "labels", "files", "filechain"], "k")
        x = lambda: N("int", str(cx.int("a", -2**31, 2**31 - 1)))
        files = {}
        fin = [op("last"), N("end")]
        if k in ("chain", "rchain"):
            ms = [macro(f"m{i}", ["$p"], [op(f"o{i}", V("$p"))] + ([call(f"m{i + 1}", V("$p"))] if i < n - 1 else []) + [op(f"q{i}")]) for i in range(n)]
            ms = ms[::-1] if k == "rchain" else ms
            body = [call("m0", x()), op("mid"), call(f"m{n // 2}", x())]
        elif k == "calls":
            ms = [macro("m", ["$p"], [N("label", "l"), op("o", V("$p")), N("if", [N("arm", False, [N("h_op", V("$p"), "==", I(1))], [N("return")]),
                                                                               N("arm", False, [N("h_neg", False, "edit")], [N("jump", "l")])], None), op("q")])]
            body = [call("m", x() if i in (0, n - 1) else I(50 + i)) for i in range(n)]
        elif k == "params":
            ps = [f"$p{i}" for i in range(n)]
            ms = [macro("m", ps, [call("k", *[V(p) for p in ps[::-1]])]), macro("k", ps, [op("o", *[V(p) for p in ps])])]
            body = [call("m", *[x() if i in (0, 1, n - 1) else C(f"K{i}") for i in range(n)])]
        elif k == "macros":
            ms = [macro(f"m{i}", ["$p"], [op(f"o{i}", V("$p"))] + ([call(f"m{i // 2}", V("$p"))] if i else [])) for i in range(n)]
            body = [call(f"m{i}", x() if i in (0, n - 1) else I(50 + i)) for i in range(n)]
        elif k == "labels":
            b = []
            for i in range(n):
                b += [N("label", f"l{i}"), op(f"o{i}"), N("if", [N("arm", False, [N("h_op", C(f"$V{i}"), "==", I(40 + i))], [N("jump", f"l{(i * 7 + 3) % n}")])], None)]
            ms = [macro("m", ["$p"], b)]
            body = [call("m", x()), N("label", "l0"), call("m", x()), N("if", [N("arm", False, [N("h_neg", False, "debug")], [N("jump", "l0")])], None)]
        else:
            chain = k == "filechain"
            n = min(n, 12)
            for i in range(n):
                files[f"f{i}.exps"] = N("program", [N("import", f'"./f{i + 1}.exps"')] if chain and i < n - 1 else [],
                                        [macro(f"m{i}", ["$p"], [op(f"o{i}", V("$p"))] + ([call(f"m{i + 1}", V("$p"))] if chain and i < n - 1 else []))])
            ms = []
            body = [call(f"m{i}", x() if i in (0, n - 1) else I(50 + i)) for i in (range(n) if not chain else (0, n - 1, n // 2))]
        im = [] if not files else [N("import", f'"./f{i}.exps"') for i in (range(n) if k == "files" else (0,))]
        check(cx, {"main.exps": N("program", im, ms + [routine(0, body + fin)]), **files})
    return h


class CHECK(Check):
    id = "C05"
    level = "translation_validation"
    technique = ("concolic execution of the real compiler on multi-file programs with macros; z3 decides bisimulation of the compiled ops with an independent "
                 "reference that inlines every call")
    level_note = ("Every program of the stated families (call graphs in every definition order, macro bodies, call sites, parameter places x argument kinds, file "
                  "layouts) is written to a scratch directory and compiled by the real compiler with symbolic argument literals; z3 shows per program that the "
                  "compiled routines and the inlined source are indistinguishable. Bounded by the families; trusts vf/lang.py for inlining.")
    seconds = {"quick": 100, "thorough": 2400}
    limit = 30
    assumptions = [
        "free variables of a macro body never coincide with a parameter of a calling macro (textual inlining would be ambiguous)",
        "macro names are unique over all files, and a file only calls macros of its own import closure",
        "lookup paths are absolute; imported files live in a scratch directory without symbolic links",
        "programs with a reachable op-free cycle are excluded",
    ]
    bounds = {
        "quick": "8 sorts of many macros, calls, parameters, labels, files (11, 34 elements); all acyclic call graphs of up to 4 macros (up to 3 with repeated edges) in all definition orders; bodies up to 2 statements of 22 kinds; call sites in "
                 "routines of up to 3 statements; 37 parameter places x 8 argument kinds x 3 nestings; up to 3 imported files in 5 directories",
        "thorough": "graphs of up to 5 macros, bodies up to 3 statements, call sites up to 4, 3 imported files with all import styles",
    }

    def setup(self):
        cm.setup_ints()

    def families(self, tier):
        f = [("params", f_params), ("args", f_args), ("many", f_many((11, 34))), ("graph1", f_graph(1)), ("graph2", f_graph(2, True)), ("graph3", f_graph(3, True)), ("graph4", f_graph(4)), ("graphl", f_graph(3, False, True, True)),
             ("body1", f_body(1)), ("body2", f_body(2)), ("sites1", f_sites(1)), ("sites2", f_sites(2)),
             ("files1", f_files(1)), ("files2", f_files(2, tier != "quick"))]
        if tier == "quick":
            f.append(("sites3", f_sites(3, "macrocall op ifelse switch forever break".split())))
        else:
            f += [("graph5", f_graph(5)), ("body3", f_body(3)), ("sites3", f_sites(3)), ("graph4t", f_graph(4, True)), ("files3", f_files(3))]
        return f

    def control(self):
        """the same program with one macro body changed must be refuted"""
        mk = lambda nm: {"m.exps": N("program", [], [macro("m", ["$p"], [op(nm, V("$p"))]), routine(0, [call("m", I(1)), N("end")])])}
        r = []
        for nm in ("A", "B"):
            fs = mk(nm)
            texts = {k: lang.render(v) for k, v in mk("A").items()}
            macros, _ = proj.closure(texts, (), "m.exps", fs)
            src = lang.Sem(macros=macros).program(fs["m.exps"])
            with proj.Scratch(texts) as sc:
                c = sc.compile("m.exps")
            mg = machine.machine(real.routines(c.routine_ops))
            p = machine.Product(src, mg, [(src.entries[0][1], mg.entries[0][1])])
            s = z3.Solver()
            s.add(p.query(0))
            r.append(str(s.check()))
        return r == ["unsat", "sat"], f"same program: {r[0]}, changed macro body: {r[1]}"

    def replay(self, payload):
        files, main, lookup = payload["files"], payload["main"], payload["lookup"]
        try:
            macros, _ = proj.closure(files, lookup, main)
            src = lang.Sem(macros=macros).program(lang.parse(files[main]))
        except lang.LangError as e:
            return None
        shown = "\n".join(f"--- {k}\n{v}" for k, v in files.items()) + f"\nlookup paths: {lookup}"
        with proj.Scratch(files, lookup) as sc:
            try:
                c = sc.compile(main)
            except Exception as e:
                return f"rejected with {type(e).__name__}: {e}\n{shown}"
        r = cm.concrete_compare(src, c)
        return None if r is None else r + "\n" + shown
