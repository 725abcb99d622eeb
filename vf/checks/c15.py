"""C15  the compile CLI prints what the decompile CLI (and the docs) expect."""
from __future__ import annotations
import contextlib
import io
import json
import os
import re
import subprocess
import sys
import tempfile
import z3
from . import c01, c02
from . import common as cm
from .. import engine, lang, machine, proj, real, sym
from ..lang import N
from ..oplists import Ops, well_formed
from ..run import Check
from ..shapes import C, I, S, program, routine
from ..sym import SymInt

SETTINGS = {"performance_progress_list_var_name": real.PERF,
            "dungeon_mode_constants": {"open": real.DMODE[1], "closed": real.DMODE[0], "request": real.DMODE[2], "open_request": real.DMODE[3]}}
ALT = {"performance_progress_list_var_name": "$OTHER_LIST",
       "dungeon_mode_constants": {"open": "DM_O", "closed": "DM_C", "request": "DM_R", "open_request": "DM_OR"}}
STD = SETTINGS
CODE = {}


@contextlib.contextmanager
def settings(alt):
    """other names in the settings block (the reference semantics and the compiler API get them, too)"""
    global SETTINGS
    saved = SETTINGS, real.PERF, real.DMODE, c02.DM
    if alt:
        d = ALT["dungeon_mode_constants"]
        SETTINGS = ALT
        real.PERF = ALT["performance_progress_list_var_name"]
        real.DMODE = (d["closed"], d["open"], d["request"], d["open_request"])
        c02.DM = {n: i for i, n in enumerate(real.DMODE)}
    try:
        yield
    finally:
        SETTINGS, real.PERF, real.DMODE, c02.DM = saved


def alt(h):
    def g(cx):
        with settings(True):
            return h(cx)
    return g


def sem(val, macros=None):
    return lang.Sem(val, macros, perf=real.PERF)
_json_load, _json_loads = json.load, json.loads


# ----------------------------------------------------------------- running the commands
class Result:
    def __init__(self, status, out, err, exc=None):
        self.status, self.out, self.err, self.exc = status, out, err, exc


def code(mod):
    if mod not in CODE:
        p = os.path.join(real.REPO, "explorerscript", "cli", mod + ".py")
        CODE[mod] = compile(open(p, encoding="utf-8").read(), p, "exec")
    return CODE[mod]


def run_inproc(mod, args, cwd):
    """`python -m explorerscript.cli.<mod> args` in this process (so that symbolic integers live on)"""
    out, err = io.StringIO(), io.StringIO()
    cx = engine.CUR

    def load(f, **k):
        if cx is not None:
            k.setdefault("parse_int", sym.HookInt)
        return _json_load(f, **k)

    g = {"__name__": "__main__", "__file__": os.path.join(real.REPO, "explorerscript", "cli", mod + ".py"), "__builtins__": __builtins__,
         "__package__": "explorerscript.cli"}
    if cx is not None:
        g["int"] = sym.HookInt
    argv, stdin, old = sys.argv, sys.stdin, os.getcwd()
    status, exc = 0, None
    try:
        sys.argv = [mod] + list(args)
        sys.stdin = io.StringIO()
        json.load = load
        os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                exec(code(mod), g)
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except Exception as e:
                status, exc = 1, e
                err.write(f"{type(e).__name__}: {e}")
    finally:
        sys.argv, sys.stdin = argv, stdin
        json.load = _json_load
        os.chdir(old)
    return Result(status, out.getvalue(), err.getvalue(), exc)


def run_process(mod, args, cwd):
    env = dict(os.environ, PYTHONPATH=real.REPO + ":/opt/venv/lib/python3.12/site-packages", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore",
               PYTHONIOENCODING="utf-8")
    p = subprocess.run([sys.executable, "-m", "explorerscript.cli." + mod] + list(args), cwd=cwd, env=env, capture_output=True, text=True, encoding="utf-8")
    return Result(p.returncode, p.stdout, p.stderr)


RUN = run_inproc


def cli_compile(files, lookup=(), settings=None, opts=None, main="main.exps"):
    """files: relative name -> text; -> Result"""
    with proj.Scratch(dict(files, **{"settings.json": json.dumps({"settings": SETTINGS} if settings is None else settings)})) as p:
        a = [main, "--settings", "settings.json"]
        for l in (opts if opts is not None else [["--lookup", l] for l in lookup]):
            a += l
        r = RUN("compile", a, p.root)
        r.smap = None
        if os.path.exists(p.path("out.sm")):
            r.smap = open(p.path("out.sm"), encoding="utf-8").read()
        return r


def cli_decompile(text, opts=()):
    with proj.Scratch({"ssb.json": text}) as p:
        return RUN("decompile", ["ssb.json"] + list(opts), p.root)


# ----------------------------------------------------------------- the documented JSON structure
class Bad(Exception):
    pass


def need(c, why):
    if not c:
        raise Bad(why)


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def p_value(p):
    """documented argument -> value as in real.param"""
    if is_int(p):
        return ("i", p)
    need(isinstance(p, dict) and set(p) == {"type", "value"}, f"argument {p!r}")
    t, v = p["type"], p["value"]
    if t == "FIXED_POINT":
        need(isinstance(v, str) and re.fullmatch(r"-?\d*(\.\d+)?", v) and v not in ("", "-"), f"fixed point value {v!r}")
        return ("f", lang.dec_value(v if "." in v else v + ".0"))
    if t == "CONSTANT":
        need(isinstance(v, str), f"constant {v!r}")
        return ("c", v)
    if t == "CONST_STRING":
        need(isinstance(v, str), f"string {v!r}")
        return ("s", v)
    if t == "LANG_STRING":
        need(isinstance(v, dict) and all(isinstance(x, str) for x in v.values()), f"language string {v!r}")
        return ("l", tuple(sorted(v.items())))
    if t == "POSITION_MARK":
        need(isinstance(v, dict) and set(v) == {"name", "x", "y"} and isinstance(v["name"], str), f"position mark {v!r}")
        x, y = coord(v["x"]), coord(v["y"])
        return ("p", v["name"], x[1], y[1], x[0], y[0])
    raise Bad(f"argument type {t!r}")


def coord(x):
    """the structure section shows numbers, the example output strings holding numbers"""
    if is_int(x):
        return x, 0
    if isinstance(x, str) and re.fullmatch(r"-?\d+", x):
        return sym.HookInt(x) if engine.CUR is not None else int(x), 0
    m = re.fullmatch(r"(-?\d+)\.(0|5)", repr(x) if isinstance(x, float) else x if isinstance(x, str) else "")
    need(m, f"coordinate {x!r}")
    return (sym.HookInt(m[1]) if engine.CUR is not None else int(m[1])), 2 if m[2] == "5" else 0


def loads(text, cx):
    try:
        return _json_loads(text, parse_int=sym.HookInt) if cx is not None else _json_loads(text)
    except ValueError as e:
        raise Bad(f"not JSON: {e}")


def structure(d):
    """-> (routines as in real.routines with positions as offsets, table)"""
    need(isinstance(d, dict) and set(d) == {"settings", "routines"}, "top level")
    need(d["settings"] == SETTINGS, "settings block")
    need(isinstance(d["routines"], list), "routines")
    rs, tab, pos = [], [], 0
    for r in d["routines"]:
        need(isinstance(r, dict) and "type" in r and isinstance(r.get("ops"), list), "routine")
        t = r["type"]
        if t == "COROUTINE":
            need(set(r) == {"type", "name", "ops"} and isinstance(r["name"], str), "coroutine")
            tab.append((t, None, r["name"], True if r["ops"] else None))
        elif t == "GENERIC":
            need(set(r) == {"type", "ops"}, "generic routine")
            tab.append((t, None, None, True if r["ops"] else None))
        else:
            need(t in ("ACTOR", "OBJECT", "PERFORMER") and set(r) == {"type", "target_id", "ops"}, f"routine {t!r}")
            g = r["target_id"]
            need(is_int(g) or isinstance(g, str), f"target id {g!r}")
            tab.append((t, ("i", g) if is_int(g) else ("c", g), None, True if r["ops"] else None))
        row = []
        for o in r["ops"]:
            need(isinstance(o, dict) and set(o) == {"opcode", "params"} and isinstance(o["opcode"], str) and isinstance(o["params"], list), "operation")
            pos += 1
            row.append((pos, o["opcode"], tuple(p_value(p) for p in o["params"])))
        rs.append(row)
    for r in rs:
        for q, nm, ps in r:
            if nm in machine.JUMPS:
                need(ps and ps[-1][0] == "i" and 1 <= ps[-1][1] <= pos, f"{nm} at {q}: target is not a position")
    return rs, tab


def positions_match(rs, c):
    """every jump parameter is the position of its target op (ops of the compiler API) -> None or description"""
    at, k = {}, 0
    ops = [o for r in c.routine_ops for o in r]
    flat = [x for r in rs for x in r]
    if len(ops) != len(flat):
        return f"{len(flat)} ops printed, {len(ops)} compiled"
    for o in ops:
        k += 1
        at[o.offset] = k
    for (q, nm, ps), o in zip(flat, ops):
        if nm in machine.JUMPS and ps[-1][1] != at[o.params[-1]]:
            return f"{nm} at position {q}: target {ps[-1][1]} instead of {at[o.params[-1]]}"
    return None


# ----------------------------------------------------------------- a program through both commands
class Problem(Exception):
    def __init__(self, kind, detail="", cond=None, prod=None):
        self.kind, self.detail, self.cond, self.prod = kind, detail, cond, prod


def chain(cx, files, lookup, src, opts=None):
    """Everything the property says about one accepted program.  Yields Problem objects: unconditional, with a z3 condition, or with a product."""
    main = files["main.exps"]
    r = cli_compile(files, lookup, opts=opts)
    if r.status != 0:
        yield Problem("compile exits with %r" % r.status, r.err)
        return
    try:
        d = loads(r.out, cx)
        rs, tab = structure(d)
    except Bad as e:
        yield Problem("printed JSON: " + re.sub(r"\d+", "n", str(e))[:50], r.out)
        return
    t = c02.src_table_diff(tab, src.entries)
    if t is not None:
        yield Problem("printed routines: " + t[0], r.out, t[1] if t[1] is not None else True)
    try:
        mg = machine.machine(c02.norm_routines(rs))
    except machine.Malformed as e:
        yield Problem("printed JSON: " + str(e)[:40], r.out)
        return
    pairs = [(e, f) for (_, e), (_, f) in zip(src.entries, mg.entries) if e is not None]
    yield Problem("printed ops behave differently", r.out, prod=machine.Product(src, mg, pairs))
    with proj.Scratch(files) as p:
        c = p.compile("main.exps")
    w = positions_match(rs, c)
    if w:
        yield Problem("positions", w)
    # on to the decompile command
    q = cli_decompile(r.out)
    yield from decompiled(cx, q, c02.norm_routines(rs), tab, "of the printed JSON: ")


def decompiled(cx, q, rs, tab, what):
    if q.status != 0:
        yield Problem(what + "decompile exits with %r" % q.status, q.err)
        return
    before = machine.machine(rs)
    text = q.out
    if text.startswith(c02.MARK):
        try:
            c = real.compile_text(text)
            after = machine.machine(c02.norm_routines(real.routines(c.routine_ops)))
        except Exception as e:
            yield Problem(what + "SsbScript not accepted", text)
            return
        t = c02.table(tab, c)
        entries = after.entries
    else:
        try:
            after = c02.norm_graph(sem(cm.int_val(cx)).program(lang.parse(text)))
        except lang.LangError as e:
            yield Problem(what + "text is not in the language", text)
            return
        t = c02.src_table_diff(tab, after.entries)
        entries = after.entries
    if t is not None:
        yield Problem(what + "routines: " + t[0], text, t[1] if t[1] is not None else True)
    if len(entries) != len(before.entries):
        return
    pairs = [(e, f) for (_, e), (_, f) in zip(before.entries, entries) if e is not None]
    try:
        yield Problem(what + "text means something else", text, prod=machine.Product(before, after, pairs))
    except machine.Malformed as e:
        yield Problem(what + "undefined label", text)


def settle(cx, problems, payload):
    n = 0
    for p in problems:
        n += 1
        if p.prod is not None:
            cm.decide(cx, p.prod, payload(p.kind, p.detail))
        elif p.cond is not None and p.cond is not True:
            cx.prove(z3.Not(p.cond), payload(p.kind, p.detail))
        else:
            cx.fail(payload(p.kind, p.detail))
    return n


def first(problems):
    """concrete run: description of the first real problem, or None"""
    for p in problems:
        if p.prod is not None:
            if p.prod.bad:
                return f"{p.kind}: {p.prod.explain()}\n{p.detail}"
        elif p.cond is None or p.cond is True or z3.is_true(z3.simplify(p.cond)):
            return f"{p.kind}\n{p.detail}"
    return None


def sink(cx, prog, text):
    check_program(cx, {"main.exps": text}, (), prog)


def check_program(cx, files, lookup, prog, macros=None, opts=None):
    cx.w.stats.add("programs")

    def payload(err, detail=None):
        def f(m):
            return {"prog": proj.files_at(cx, m, files), "lookup": list(lookup), "opts": opts, "alt": SETTINGS is ALT, "err": err, "detail": str(detail)[:1500]}
        return f
    cx.notes = payload("hang")(None)
    try:
        src = sem(cm.int_val(cx), macros).program(prog)
    except lang.LangError:
        raise engine.Abandon
    if cm.has_divergence(src, [e for _, e in src.entries]):
        raise engine.Abandon
    try:
        with proj.Scratch(files, lookup) as p:
            p.compile("main.exps")
    except Exception:
        raise engine.Abandon       # not an accepted program
    c02.norm_graph(src)
    settle(cx, chain(cx, files, lookup, src, opts), payload)


def via_sink(h):
    def g(cx):
        cm.SINK = sink
        try:
            return h(cx)
        finally:
            cm.SINK = None
    return g


# ----------------------------------------------------------------- documents
def num(v):
    """the number that is written (a value that can not be recognised when it is read again is fixed for this path)"""
    if type(v) is SymInt:
        if engine.CUR is not None:
            engine.CUR.printed(v)
        return int.__int__(v)
    return v


def jparam(p, pos=None):
    """description of a parameter (oplists.mkparam) -> documented JSON"""
    if not isinstance(p, tuple):
        return num(p)
    k = p[0]
    if k == "@":
        return pos[p[1], p[2]]
    if k == "p":
        return {"type": "POSITION_MARK", "value": {"name": p[1], "x": jcoord(p[4], p[2], p[6] if len(p) > 6 else "n"),
                                                   "y": jcoord(p[5], p[3], p[6] if len(p) > 6 else "n")}}
    return {"type": {"c": "CONSTANT", "s": "CONST_STRING", "l": "LANG_STRING", "f": "FIXED_POINT"}[k], "value": dict(p[1]) if k == "l" else p[1]}


def jcoord(v, off, how):
    v = num(v)
    if how == "s":
        return f"{v}.5" if off >= 2 else str(v)
    if off >= 2:
        return float(f"{v}.5")
    return float(v) if how == "F" else v


def document(o):
    """Ops -> documented JSON"""
    pos, n = {}, 0
    for i, r in enumerate(o.r):
        for j in range(len(r)):
            n += 1
            pos[i, j] = n
    rs = []
    for i, r in enumerate(o.r):
        k, t = o.infos[i] if o.infos else ("GENERIC", None)
        d = {"type": k}
        if k == "COROUTINE":
            d["name"] = o.coros[i]
        elif k != "GENERIC":
            d["target_id"] = num(t)
        d["ops"] = [{"opcode": nm, "params": [jparam(p, pos) for p in ps]} for nm, ps in r]
        rs.append(d)
    return {"settings": SETTINGS, "routines": rs}


def expected(o):
    """values of the document, as in real.routines"""
    pos, n = {}, 0
    for i, r in enumerate(o.r):
        for j in range(len(r)):
            n += 1
            pos[i, j] = n

    def val(p):
        if not isinstance(p, tuple):
            return ("i", p)
        k = p[0]
        if k == "@":
            return ("i", pos[p[1], p[2]])
        if k == "p":
            return ("p", p[1], 2 if p[2] >= 2 else 0, 2 if p[3] >= 2 else 0, p[4], p[5])
        if k == "f":
            return ("f", lang.dec_value(p[1] if "." in p[1] else p[1] + ".0"))
        if k == "l":
            return ("l", tuple(sorted(p[1])))
        return p
    return [[(pos[i, j], nm, tuple(val(p) for p in ps)) for j, (nm, ps) in enumerate(r)] for i, r in enumerate(o.r)]


def check_document(cx, o):
    cx.w.stats.add("documents")
    o.stride, o.base, o.offs = 1, 1, None

    def payload(err, detail=None):
        def f(m):
            oc = o.concretise((lambda s: m.eval(s.e, model_completion=True).as_long()) if m is not None and cx.ints else (lambda s: int.__int__(s)))
            return {"in": oc.dump(), "alt": SETTINGS is ALT, "err": err, "detail": str(detail)[:1500]}
        return f
    cx.notes = payload("hang")(None)
    q = cli_decompile(json.dumps(document(o)))
    settle(cx, decompiled(cx, q, c02.norm_routines(expected(o)), o.want(), "document: "), payload)


def f_args(cx):
    """every argument type, every routine type"""
    o = Ops([])
    coro = cx.flag("coro")
    n = 1 + cx.pick(2, "n")
    for i in range(n):
        if coro:
            o.infos.append(("COROUTINE", None))
            o.coros[i] = f"CORO_{i}"
        else:
            k = cx.choose(["GENERIC", "ACTOR", "OBJECT", "PERFORMER"], "k")
            t = None if k == "GENERIC" else [lambda: cx.int("t", -2, 2**15 - 1), lambda: f"TARGET_{i}"][cx.pick(2, "tk")]()
            o.infos.append((k, t))
        x = lambda: cx.int("x", -2**15, 2**15 - 1)
        ps = [lambda: x(), lambda: ("c", "CONST_A"), lambda: ("s", "it's \"x\"\nyes"), lambda: ("l", (("english", "a"), ("german", "b\nc"))),
              lambda: ("f", cx.choose(["123.456", "-0.5", "7", ".25", "-3"], "f")),
              lambda: ("p", "a 'mark'", [0, 2][cx.pick(2, "xo")], [0, 2][cx.pick(2, "yo")],
                       [x() if cx.flag("sx") else 17, 0][cx.pick(2, "x0")], 300, ["n", "s", "F"][cx.pick(3, "how")])]
        if i == 0:
            a = [ps[cx.pick(len(ps), "a")]()]
            o.r.append([[cx.choose(["se_Play", "Null"], "nm"), a], ["BranchDebug", [1, ("@", n - 1, 0)]], ["E", []], ["End", []]])
        elif cx.flag("empty"):
            raise engine.Abandon
        else:
            o.r.append([[f"op{i}", []], ["BranchEdit", [1, ("@", 0, 2)]], ["Hold", []]])
    return check_document(cx, o)


def f_perf(cx):
    """bit tests and bit assignments of the variable named in the settings, and of others; dungeon modes"""
    v = C([real.PERF, STD["performance_progress_list_var_name"], ALT["performance_progress_list_var_name"], "$X"][cx.pick(4, "v")])
    n = str(cx.int("n", 0, 2**15 - 1))
    k = cx.pick(4, "k")
    if k == 0:
        b = [N("if", [N("arm", False, [N("h_bit", v.a[0] == real.PERF and cx.flag("not"), v, n)], [c01.op("A")])], None), c01.op("E")]
    elif k == 1:
        b = [N("assign", v, n, "=", I(cx.pick(2, "b"))), c01.op("E")]
    elif k == 2:
        d = C(cx.choose(list(real.DMODE) + ["OTHER"], "d")) if cx.flag("c") else I(cx.pick(5, "m"))
        b = [N("a_dmode", N("int", n), d), c01.op("E")]
    else:
        d = C(cx.choose(list(real.DMODE), "d")) if cx.flag("c") else I(cx.pick(5, "m"))
        b = [N("switch", N("s_dungeon_mode", N("int", n)), [N("case", N("c_val", d), [c01.op("A"), N("break")])]), c01.op("E")]
    prog = program([routine(0, b)])
    text = lang.render(prog)
    check_program(cx, {"main.exps": text}, (), prog)


def docs(h):
    def g(cx):
        saved = c02.examine
        c02.examine = check_document
        try:
            return h(cx)
        finally:
            c02.examine = saved
    return g


# ----------------------------------------------------------------- what has to fail, and what must not
GOOD = "def 0 {\n    a(1);\n    jump @x;\n    b();\n    @x;\n    end;\n}\n"


def good_doc():
    o = Ops([("GENERIC", None), ("ACTOR", 5)])
    o.r = [[["Null", [("s", "x")]], ["Jump", [("@", 0, 3)]], ["b", []], ["End", []]], [["c", [1]], ["Return", []]]]
    return document(o)


def cut(d, path):
    """the document without the entry at path / with another value there"""
    d = json.loads(json.dumps(d))
    x = d
    for k in path[:-1]:
        x = x[k]
    del x[path[-1]]
    return d


def put(d, path, v):
    d = json.loads(json.dumps(d))
    x = d
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = v
    return d


SKEYS = [["settings"], ["settings", "performance_progress_list_var_name"], ["settings", "dungeon_mode_constants"]] + [
    ["settings", "dungeon_mode_constants", k] for k in ("open", "closed", "request", "open_request")]

BAD_SOURCES = ["def 0 {\n    a(1)\n}\n", "def 0 {\n    jump @nowhere;\n    a();\n}\n", "def 0 {\n    ~nothing();\n}\n",
               "import \"./missing.exps\";\ndef 0 {\n    a();\n}\n", "def 0 {\n    break_loop;\n}\n", "def 0 {\n    continue;\n    a();\n}\n",
               "def 0 for actor 1.5 {\n    a();\n}\n", "def 0 {\n", "def 0 {\n    a('\n}\n", "import \"nolookup.exps\";\ndef 0 {\n    a();\n}\n",
               "def 0 {\n    switch ($X) {\n        case 1:\n    }\n}\n", "def 0 {\n    a(Position<'m', 1.25, 3>);\n}\n"]


def bad_documents():
    g = good_doc()
    out = [cut(g, p) for p in SKEYS]
    out += [cut(g, ["routines"]), cut(g, ["routines", 0, "type"]), cut(g, ["routines", 0, "ops"]), cut(g, ["routines", 1, "target_id"]),
            cut(g, ["routines", 0, "ops", 0, "opcode"]), cut(g, ["routines", 0, "ops", 0, "params"]),
            put(g, ["routines", 0, "type"], "ROUTINE"), put(g, ["routines", 0, "ops", 0, "params", 0, "type"], "STRING"),
            cut(g, ["routines", 0, "ops", 0, "params", 0, "value"]), cut(g, ["routines", 0, "ops", 0, "params", 0, "type"]),
            put(g, ["routines", 0, "ops", 0, "params", 0], None), put(g, ["routines", 0, "ops", 0, "params", 0], "text"),
            put(g, ["routines", 0, "type"], "COROUTINE"),
            put(g, ["routines", 0, "ops", 0, "params", 0], {"type": "POSITION_MARK", "value": {"name": "m", "x": "1.3", "y": 2}})]
    return out


def failing(i):
    """the i-th run that has to fail -> description or None when it does"""
    for k, (mod, run) in enumerate(runs()):
        if k == i:
            r, want = run()
            if want == "ok0":
                return None if r.status == 0 else f"run {k} ({mod}) exits with {r.status}: {r.err[-300:]}"
            if want == "ok":
                return None if r.status == 0 and r.out.strip() else f"run {k} ({mod}) exits with {r.status}: {r.err[-300:]}"
            if r.status == 0:
                return f"run {k} ({mod}) exits with 0 although it has to fail; stdout: {r.out[:300]!r}"
            if not r.err.strip():
                return f"run {k} ({mod}) fails without a message"
            if r.out.strip():
                return f"run {k} ({mod}) fails but prints {r.out[:300]!r}"
            return None
    raise IndexError(i)


def runs():
    S_ = {"settings": SETTINGS}
    comp = lambda files, want="bad", **k: ("compile", lambda: (cli_compile(files, **k), want))
    deco = lambda text, want="bad", **k: ("decompile", lambda: (cli_decompile(text, **k), want))
    out = [comp({"main.exps": b}) for b in BAD_SOURCES]
    out += [comp({"main.exps": GOOD}, settings=cut(S_, p)) for p in SKEYS]
    out += [comp({"main.exps": GOOD}, main="missing.exps"),
            ("compile", lambda: (with_files({"main.exps": GOOD}, "compile", ["main.exps", "--settings", "nosettings.json"]), "bad")),
            ("compile", lambda: (with_files({"main.exps": GOOD, "s.json": "{"}, "compile", ["main.exps", "--settings", "s.json"]), "bad")),
            ("compile", lambda: (with_files({"main.exps": GOOD}, "compile", ["main.exps"]), "bad")),
            ("decompile", lambda: (with_files({}, "decompile", ["missing.json"]), "bad")),
            ("decompile", lambda: (with_files({}, "decompile", []), "bad")),
            deco("{\"settings\": "), deco("[]"), deco("")]
    out += [deco(json.dumps(d)) for d in bad_documents()]
    m = lambda n: "macro %s($a) {\n    %s_op($a);\n}\n" % (n, n)
    two = {"main.exps": "import \"one.exps\";\nimport \"two.exps\";\ndef 0 {\n    ~one(1);\n    ~two(2);\n}\n", "l1/one.exps": m("one"), "l2/two.exps": m("two")}
    out += [comp(two, "ok", opts=[["--lookup", "l1"], ["--lookup", "l2"]]), comp(two, "ok", opts=[["--lookup", "l1", "l2"]]),
            comp(two, "bad", opts=[["--lookup", "l1"]]), comp(two, "bad", opts=[]),
            comp({"main.exps": GOOD}, "ok", opts=[["--source-map", "out.sm"]]), comp({"main.exps": GOOD}, "ok"),
            comp({"main.exps": GOOD}, "bad", opts=[["--source-map", "nodir/out.sm"]]),
            comp({"main.exps": GOOD}, "ok", settings=dict(S_, more=1)),
            deco(json.dumps(good_doc()), "ok"), deco(json.dumps(good_doc()), "ok", opts=["--source-map", "x.sm"]),
            deco(json.dumps(good_doc()), "bad", opts=["--source-map", "nodir/x.sm"]), deco(json.dumps({"settings": SETTINGS, "routines": []}), "ok0")]
    return [r for r in out]


def with_files(files, mod, args):
    with proj.Scratch(files) as p:
        return RUN(mod, args, p.root)


def f_status(cx):
    n = len(runs())
    i = cx.pick(n, "run")
    cx.notes = {"status": i, "err": "hang"}
    cx.w.stats.add("assertions")
    w = failing(i)
    if w:
        cx.fail(lambda m: {"status": i, "err": re.sub(r"\d+", "", w)[:60], "detail": w})


def f_lookup(cx):
    """macros through lookup paths, in every documented way to give the paths"""
    n = cx.int("v", -2**31, 2**31 - 1)
    files = {"main.exps": f"import \"one.exps\";\nimport \"two.exps\";\ndef 0 {{\n    ~one({n});\n    ~two(2);\n    forever {{\n        a();\n    }}\n}}\n",
             "l1/one.exps": "macro one($a) {\n    if ($a == 1) {\n        x($a);\n        return;\n    }\n    y();\n}\n",
             "l2/two.exps": "macro two($a) {\n    two_op($a);\n}\n"}
    how = cx.pick(3, "how")
    if how == 0:
        opts = [["--lookup", "l1"], ["--lookup", "l2"]]
    elif how == 1:
        opts = [["--lookup", "l1", "l2"]]
    else:
        opts = [["--lookup", "nothing", "l2"], ["--lookup", "l1"]]
    lookup = ("l1", "l2")
    macros, _ = proj.closure(files, lookup, "main.exps")
    check_project(cx, files, lookup, macros, opts)


def check_project(cx, files, lookup, macros, opts):
    def payload(err, detail=None):
        return lambda m: {"prog": proj.files_at(cx, m, files), "lookup": list(lookup), "opts": opts, "alt": SETTINGS is ALT, "err": err, "detail": str(detail)[:1500]}
    cx.notes = payload("hang")(None)
    src = c02.norm_graph(sem(cm.int_val(cx), macros).program(lang.parse(files["main.exps"])))
    settle(cx, project(cx, files, lookup, src, opts), payload)


def project(cx, files, lookup, src, opts):
    r = cli_compile(files, lookup, opts=opts)
    if r.status != 0:
        yield Problem("compile exits with %r" % r.status, r.err)
        return
    try:
        rs, tab = structure(loads(r.out, cx))
        mg = machine.machine(c02.norm_routines(rs))
    except (Bad, machine.Malformed) as e:
        yield Problem("printed JSON: " + str(e)[:40], r.out)
        return
    pairs = [(e, f) for (_, e), (_, f) in zip(src.entries, mg.entries) if e is not None]
    yield Problem("printed ops behave differently", r.out, prod=machine.Product(src, mg, pairs))
    yield from decompiled(cx, cli_decompile(r.out), c02.norm_routines(rs), tab, "of the printed JSON: ")


class CHECK(Check):
    id = "C15"
    level = "translation_validation"
    technique = ("concolic execution of the two real commands (run as __main__ in process, integers symbolic through JSON); z3 decides bisimulation of source, printed "
                 "JSON and decompiled text")
    level_note = ("Every program / document of the stated families goes through the real commands; z3 shows that the machine read from the printed JSON by position, and the text "
                  "the decompile command prints for it, are bisimilar to the source for all literal values and test outcomes. The exit-status runs that have to fail are a "
                  "finite list. Counterexamples are replayed with real processes.")
    seconds = {"quick": 75, "thorough": 1800}
    assumptions = [
        "bound: programs and documents of the stated families; coordinates and ids are integers that JSON carries exactly",
        "coordinates of position marks may be printed as numbers (structure section of the docs) or as strings holding them (example output of the docs)",
        "the compiler API (C01) says which ops a program has, the command has to print them; the commands are run in this process except for replays",
        "behaviour of ops in context and dungeon modes as in C02",
    ]
    bounds = {"quick": "C01's long programs (11, 34); families of C01 (headers, statements, tables, jumps, loops up to 2 statements) and C02 (infos, branches, switches, flows of 3 and 2+2 ops)",
              "thorough": "C01 shapes up to 3 statements, C02 flows of 4, 3+2 ops, two-branch and two-case forms"}

    def setup(self):
        cm.setup_ints()
        for m in ("compile", "decompile"):
            code(m)

    def control(self):
        o = Ops()
        o.r = [[["a", []], ["Jump", [("@", 0, 0)]]]]
        rs = expected(o)
        rs2 = [[(q, nm, (("i", 2),) if nm == "Jump" else ps) for q, nm, ps in r] for r in rs]
        a, b = machine.machine(rs), machine.machine(rs2)
        p = machine.Product(a, b, [(a.entries[0][1], b.entries[0][1])])
        s = z3.Solver()
        s.add(p.query(0))
        return s.check() == z3.sat, "a jump parameter off by one position is refuted"

    def families(self, tier):
        T = tier == "thorough"
        f = [("status", f_status), ("lookup", f_lookup), ("doc-args", f_args), ("doc-infos", docs(c02.f_infos(3 if T else 2))), ("perf", f_perf), ("alt-perf", alt(f_perf)), ("alt-stmts", alt(docs(c02.f_stmts(1)))),
             ("alt-branches", alt(docs(c02.f_branches(0)))), ("doc-branches", docs(c02.f_branches(0))),
             ("doc-stmts", docs(c02.f_stmts(1))), ("doc-msgs", docs(c02.f_msgs(1))),
             ("tables", via_sink(c01.f_tables(2))), ("if-headers", via_sink(c01.f_if_headers)), ("stmts", via_sink(c01.f_stmts)),
             ("msgswitch", via_sink(c01.f_msgswitch(2))), ("switch-headers", via_sink(c01.f_switch_headers)),
             ("full1", via_sink(c01.shape(c01.FULL, 1, cm.symlit))), ("nest1", via_sink(c01.f_nest(1))),
             ("big", via_sink(c01.f_big(c01.BIG, (11, 34))))]
        base = ("P", "J", "B", "Return")
        for lens in ([2], [3], [2, 2]):
            f.append(("doc-flow" + "".join(map(str, lens)), docs(c02.f_flow(lens, base))))
        f.append(("doc-call3", docs(c02.f_flow([3], ("P", "C", "J", "Return")))))
        for n, ks in c01.SETS.items():
            f.append((n + "2", via_sink(c01.shape(ks, 2, labels=("A",)))))
        if T:
            f += [("doc-flow4", docs(c02.f_flow([4], base))), ("doc-flow32", docs(c02.f_flow([3, 2], base))), ("doc-branches2", docs(c02.f_branches(2))),
                  ("doc-switches2", docs(c02.f_switches(2))), ("full2", via_sink(c01.shape(c01.FULL, 2, cm.symlit))), ("nest2", via_sink(c01.f_nest(2)))]
            for n, ks in c01.SETS.items():
                f.append((n + "3", via_sink(c01.shape(ks, 3, labels=("A",)))))
        return f

    def replay(self, d):
        global RUN
        RUN = run_process
        if "status" in d:
            return failing(d["status"])
        with settings(d.get("alt")):
            return self.replay1(d)

    def replay1(self, d):
        if "in" in d:
            o = Ops.load(d["in"])
            q = cli_decompile(json.dumps(document(o)))
            w = first(decompiled(None, q, c02.norm_routines(expected(o)), o.want(), "document: "))
            return w and f"{w}\n{json.dumps(document(o))}"
        files = d["prog"]
        if d["lookup"]:
            macros, _ = proj.closure(files, d["lookup"], "main.exps")
            src = c02.norm_graph(sem(lang.int_value, macros).program(lang.parse(files["main.exps"])))
            w = first(project(None, files, d["lookup"], src, d["opts"]))
        else:
            src = c02.norm_graph(sem(lang.int_value).program(lang.parse(files["main.exps"])))
            w = first(chain(None, files, (), src, d["opts"]))
        return w and f"{w}\n{files}"
