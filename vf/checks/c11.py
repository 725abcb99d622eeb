"""C11  results depend only on the input, not on what was processed before."""
from __future__ import annotations
import json
import os
import pickle
import re
import subprocess
import sys
import tempfile
import shutil
import z3
from . import common as cm
from . import c01
from .. import engine, lang, loader, machine, oplists, real, sym, world
from ..oplists import Ops
from ..run import Check

# ----------------------------------------------------------------- inputs.  # is a symbolic number
GOOD = {
    "loops": "def 0 { a(#); forever { if ($X == #) { break_loop; } @l; while (not debug) { b(#); if ($Y > #) { continue; } } for ($I = 0; $I < #; $I += 1;) { c(); } "
             "if (edit) { jump @l; } } d(); end; }",
    "ifs": "def 0 { if ($A == # || $B[3]) { a(); } elseif not ($C >= #) { b(#); } elseif (scn($S) == [#, 2]) { c(); return; } else { if ($PERFORMANCE_PROGRESS_LIST[4]) { d(#); } e(); } "
           "if not (variation) { end; } hold; }",
    "switch": "def 0 { switch ($A) { case #: a(); case < #: case 7: b(#); break; default: c(); switch (random(#)) { case 0: d(); break; case 1: e(); case 2: f(#); } break; case > value($Q): g(); } "
              "switch (dungeon_mode(#)) { case DMODE_OPEN: h(); break; case DMODE_REQUEST: i(); } z(); end; }",
    "manycases": "def 0 { switch ($A) { case 1: a(); break; case 2: b(); case 3: c(); break; case 4: if ($B == #) { d(); break; } e(); case 5: f(); break; case 6: g(); break; "
                 "case 7: h(); default: i(); } switch ($C) { case 1: a1(); case 2: b1(); case 3: c1(); case 4: d1(); case 5: e1(); case 6: f1(); } z(#); end; }",
    "texts": "def 0 { message_SwitchTalk ($M) { case #: 'one' case 2: { english='two\\nlines', german='zwei', } default: 'other' } "
             "switch (message_SwitchMenu(#, 1)) { case menu('first\\nline'): a(); break; case menu2(#): b('x\\ny', #); break; } m('mark\\nup', {english='a\\nb',}); end; }",
    "texts2": "def 0 { if ($A == #) { while ($B == #) { m('inner\\ntext', #); } } switch (message_SwitchMenu2(#, 1)) { case menu2(7): b(); break; case menu(\"q'\\nr\"): c(); break; } end; }",
    "macros": "macro inner($p, $q) { @l; i($p, $q); if ($p == $q) { jump @l; } if ($q > 3) { return; } j($q); } macro outer($a) { o($a); ~inner($a, #); ~inner(5, $a); k('a\\nb'); } "
              "def 0 { ~outer(#); @l; ~outer($X); ~inner(#, $W); if ($Z == #) { jump @l; } end; } macro pm($q) { p($q, 'c\\nd'); } def 1 { ~inner(1, $Y); ~pm(Position<'pm', 4, 5.5>); }",
    "macros2": "macro nothing() { x(); } macro inner($q) { other($q); } def 0 { ~inner(#); ~nothing(); ~inner(2); end; }",
    "coros": "coro CORO_A { a(#); return; } coro CORO_B { alias previous; } coro CORO_C { c(Position<'one', 3, 4>); jump @x; @x; d(#); hold; }",
    "coros2": "coro CORO_X { a(#); end; } coro CORO_A { b(#); end; }",
    "targets": "def 0 { a(#); jump @far; } def 1 for actor ACTOR_X { b(); @far; c(#); call @near; return; } def 2 for_object(#) { alias previous; } "
               "def 3 for performer 4 { @near; with (actor #) { d(); } e<object #>(); return; }",
    "targets2": "def 0 for_actor(#) { a(#); return; } def 1 for actor ACTOR_X { b(); with (actor #) { d(); } } def 2 for object 3 { alias previous; } def 3 { c(#); e<performer #>(); end; }",
    "marks": "def 0 { p(Position<'m', 1, 2>, #); q(Position<'n', 3.5, -4>, Position<'o', 5, 6.5>); $A += value($B); $C[#] = 1; dungeon_mode(3) = DMODE_OPEN; init $D; $E = scn[#, 4]; end; }",
    "ssbs": "//?: is-ssb-script: true\ndef 0 { a(#); @l; Branch($V, #, @l); CaseMenu2('x\\ny', @l); End(); } def 1 { Jump(@l); }",
    "ssbs2": "def 0 { @l; a(#); @k; b(); Branch($V, #, @k); Jump(@l); @m; Jump(@m); } def 1 { Jump(@k); }",
    "ssbs3": "def 0 { Jump(@k); a(#); @p; b(); @k; c(); @q; d(); Case(#, @q); Case(2, @p); @l; End(); } def 1 for_actor(3) { Jump(@l); }",
    "ssbs4": "def 0 { a({english='x', german='y'}, Position<'n', 1, 2>, #); } coro X { }",
    "jumpin": "def 0 { a(); if ($A == #) { b(); @in; c(#); } else { jump @in; } forever { @lp; d(); if ($B == 1) { jump @out; } } @out; if ($E == 4) { jump @lp; } e(); end; }",
    "empty": "// just a comment\n",
}
PROJ = {
    "main.exps": "import \"./sub/lib.exps\"; import \"./two.exps\"; macro own($p) { own($p); ~lib($p); } def 0 { ~own(#); ~two(); ~lib(3); end; }",
    "sub/lib.exps": "import \"../two.exps\"; macro lib($p) { lib($p, Position<'x', 1, 2>); ~two(); }",
    "two.exps": "macro two() { two(); @t; if ($X == 3) { jump @t; } }",
}
# the same files, but each imports one other at most
CHAIN = {
    "main.exps": "import \"./sub/lib.exps\"; def 0 { ~lib(#); end; }",
    "sub/lib.exps": "import \"../two.exps\"; macro lib($p) { lib($p); ~two(); }",
    "two.exps": "import \"./one.exps\"; macro two() { two(); ~one(); }",
    "one.exps": "macro one() { one(); }",
}
BAD = {
    "sslabel": "//?: is-ssb-script: true\ndef 0 { a(#); @l; b(); @o; Jump(@k); }",
    "syntax": "def 0 { forever { a(#); ",
    "lexer": "def 0 { a(#); \u00a4\u00a4 }",
    "break": "def 0 { forever { a(#); break; } }",
    "nolabel": "def 0 { forever { switch ($A) { case #: forever { jump @nowhere; } } } } def 1 { a(); }",
    "nomacro": "macro m($x) { a($x); } def 0 { forever { ~m(#); ~unknown(1); } }",
    "fewargs": "macro inner($p, $q) { a($p, $q); } def 0 { while (debug) { ~inner(#); } }",
    "recursive": "macro inner($p) { ~outer($p); } macro outer($a) { ~inner($a); } def 0 { ~outer(#); }",
    "noimport": "import \"./nothere.exps\"; macro inner($p) { a($p); } def 0 { ~inner(#); }",
    "badmacro": "macro inner($p) { forever { switch ($p) { case 1: a($p); continue; case 2: break_loop; } } continue; } macro lib($x) { b($x); } def 0 { ~inner(#); }",
    "defaults": "def 0 { switch ($A) { case #: a(); break; default: b(); default: c(); } }",
    "withlabel": "def 0 { forever { with (actor 1) { @label; } } }",
    "notbit": "def 0 { if not ($A[#]) { a(); } forever { } }",
}
OPS = {   # [name, params] lists; ("@", routine, index)
    "bad": [[["op", [1]], ["Branch", [5]]]],
    "irreducible": [[["BranchDebug", [1, ("@", 0, 3)]], ["a", []], ["Jump", [("@", 0, 4)]], ["b", []], ["BranchEdit", [1, ("@", 0, 1)]], ["c", []], ["BranchVariation", [1, ("@", 0, 3)]],
                     ["End", []]]],
    "foreign": [[["Jump", [("@", 1, 1)]]], [["x", [2]], ["y", [("s", "a\nb")]], ["Return", []]]],
    "menu2": [[["message_SwitchMenu", [1, 2]], ["CaseMenu2", [("s", "a\nb"), ("@", 0, 4)]], ["CaseMenu", [("s", "c\nd"), ("@", 0, 5)]], ["Jump", [("@", 0, 6)]], ["x", [("s", "e\nf")]],
               ["y", [("l", (("english", "g\nh"), ("german", "i")))]], ["End", []]]],
}


def warm():
    """fill the prediction caches of the generated parser (the family `cold` starts without them)"""
    import gc
    import igraph
    igraph.Graph(directed=True)     # imports numpy
    for t in list(GOOD.values()) + list(PROJ.values()):
        try:
            real.m.reader.ExplorerScriptReader(t.replace("#", "7")).read()
        except Exception:
            pass
    gc.collect()
    gc.freeze()


def fill(cx, text):
    while "#" in text:
        text = text.replace("#", str(cx.int("n", 1000, 2**31 - 1)), 1)
    return text


def at(cx, m, x):
    """data at the values of model m"""
    if m is None or not cx.ints:
        return sym.concrete(x)
    vals = cx.values(m)
    cur = {str(cx.vals[n]): str(vals[n]) for n in cx.ints}

    def go(x):
        if type(x) is sym.SymInt:
            return m.eval(x.e, model_completion=True).as_long()
        if isinstance(x, str):
            return re.sub(r"\d+", lambda k: cur.get(k.group(), k.group()), x)
        if isinstance(x, dict):
            return {k: go(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return type(x)(go(y) for y in x)
        return x
    return go(x)


def observe(cx, hist, x, err="depends on the history"):
    """The result of x in a pristine process against its result after hist, for all values."""
    cx.w.stats.add("programs")
    root = tempfile.mkdtemp(prefix="vf-c11-", dir="/tmp")
    try:
        os.environ["VF_SCRATCH"] = root
        observe_in(cx, hist, x, err, os.path.realpath(root))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def wipe(root):
    for n in os.listdir(root):
        p = os.path.join(root, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)


def observe_in(cx, hist, x, err, root):
    cx.notes = {"hist": [sym.concrete(e) for e in hist], "x": sym.concrete(x), "err": "no answer"}

    def base():
        loader.reset()
        loader.ORDER.k = 0
        w = world.World(root)
        return w.do(x)
    want = engine.isolated(cx, base, 20)
    wipe(root)
    key0 = 0
    loader.reset()
    w = world.World(root)
    for e in hist:
        w.do(e)
    if x["do"] in ("decompile", "ssdecompile") and not x.get("again"):
        infos, ops, coros = w.given(x, x.get("reuse"))
        obj = x.setdefault("obj", "x")
        w.ops[obj] = (infos, ops, coros)
        before = real.routines(ops)
        binfo = [(i.type.name, i.linked_to, i.linked_to_name) for i in infos]
        got = w.do(dict(x, reuse=True))
        after = [tuple((o.offset, o.op_code.name, tuple(real.param(p) for p in o.params)) for o in r) for r in ops]
        changed = machine.val_eq(tuple(after), tuple(tuple(r) for r in before))
        if binfo != [(i.type.name, i.linked_to, i.linked_to_name) for i in infos]:
            changed = False
    else:
        got, changed = w.do(x), True
    where = world.differ(want, got)

    def payload(kind, why):
        def f(m):
            return {"hist": at(cx, m, hist), "x": at(cx, m, x), "err": kind, "why": why, "address": [key0, cx.notes.get("address", 0)]}
        return f
    cx.prove(z3.Not(where[1]), payload(err, where[0] or "values"))
    if changed is not True:
        # not the same operations any more: do they still mean the same?
        try:
            p = machine.Product(machine.machine(before), machine.machine([list(r) for r in after]), None) if changed is not False or meaning(before, after) else None
        except Exception:
            p = None
        if p is None:
            cx.fail(payload("decompiling alters the routine set", "%s -> %s" % (before, after)))


def meaning(before, after):
    """the routine sets behave the same (concrete)"""
    try:
        a, b = machine.machine(before), machine.machine([list(r) for r in after])
        p = machine.Product(a, b, [(e, f) for (_, e), (_, f) in zip(a.entries, b.entries) if e is not None])
        return not p.bad
    except Exception:
        return False


# ----------------------------------------------------------------- events
def files(cx, changed=False):
    f = {k: fill(cx, v) for k, v in (CHAIN if changed == "chain" else PROJ).items()}
    if changed is True:
        f["two.exps"] = "macro two() { changed(); if ($X == 4) { return; } more(); }"
    return f


def ops_event(cx, name, kind="decompile"):
    o = Ops()
    o.r = [[[n, list(ps)] for n, ps in r] for r in OPS[name]]
    if name == "foreign":
        o.r[1][0][1][0] = cx.int("n", 1000, 2**31 - 1)
    o.stride = 1
    return {"do": kind, "ops": o.dump()}


XS = ([("compile", k) for k in GOOD if k != "empty"] + [("roundtrip", k) for k in GOOD if k not in ("empty", "ssbs3", "ssbs4")] + [("decompile", "t:" + k) for k in ("loops", "texts", "switch", "targets")] +
      [("project", ""), ("chain", "")] + [("sscompile", "ssbs"), ("sscompile", "ssbs2"), ("sscompile", "ssbs3"), ("ssdecompile", "t:texts2"), ("ssdecompile", "t:targets")] + [("decompile", k) for k in OPS if k != "bad"] + [("compile", "!" + k) for k in BAD])
HS = (XS + [("compile", "empty")] + [("decompile", "bad"), ("changed project", "")])


def event(cx, kind, k, **kw):
    if kind in ("project", "changed project", "chain"):
        f = files(cx, {"changed project": True, "chain": "chain"}.get(kind, False))
        return dict({"do": "compile", "text": f["main.exps"], "name": "main.exps", "files": f}, **kw)
    if kind in ("decompile", "ssdecompile") and not k.startswith("t:"):
        return dict(ops_event(cx, k, kind), **kw)
    if k.startswith("t:"):
        t = fill(cx, GOOD[k[2:]])
    elif k.startswith("!"):
        t = fill(cx, BAD[k[1:]])
    else:
        t = fill(cx, GOOD[k])
        if k.startswith("ssbs") and kind != "sscompile" and not t.startswith("//"):
            t = "//?: is-ssb-script: true\n" + t
    if kind in ("sscompile",):
        t = t.split("\n", 1)[1] if t.startswith("//?:") else t
    return dict({"do": kind, "text": t}, **kw)


def whole(fn):
    """run the path in a process of its own"""
    def h(cx):
        engine.isolated(cx, lambda: fn(cx), 28)
        return None
    return h


def f_pairs(xs, hs, shared):
    """any single call before any call"""
    def h(cx):
        x = xs[cx.pick(len(xs), "x")]
        hk = hs[cx.pick(len(hs), "h")]
        kw = {"shared": True} if shared else {}
        hist = [event(cx, *hk, **kw)]
        observe(cx, hist, event(cx, *x, **kw))
    return whole(h)


def f_same(cx):
    """the same call before, on the same objects or not; the same input with other numbers; repeated up to three times"""
    x = event(cx, *XS[cx.pick(len(XS), "x")])
    how = cx.pick(5, "how")
    n = 1 + cx.pick(3, "n")
    if x["do"] in ("decompile", "ssdecompile"):
        x["obj"] = "o"
        if how == 0:
            observe(cx, [dict(x) for _ in range(n)], dict(x, again=True))
        elif how == 1:
            observe(cx, [dict(x, reuse=True) for _ in range(n)], dict(x, reuse=True))
        elif how == 2:
            observe(cx, [dict(x, reuse=True, do="ssdecompile" if x["do"] == "decompile" else "decompile") for _ in range(n)], dict(x, reuse=True))
        elif how == 3 and n == 1:
            observe(cx, [dict(x, reuse=True), {"do": "compile", "text": BAD["syntax"]}], dict(x, reuse=True))
        else:
            raise engine.Abandon
        return
    if x["do"] == "roundtrip":
        if how > 1:
            raise engine.Abandon
        observe(cx, [dict(x) for _ in range(n)] if how == 0 else [event(cx, "roundtrip", "ifs") for _ in range(n)], x)
        return
    if how == 0:
        observe(cx, [dict(x, shared=True) for _ in range(n)], dict(x, shared=True))
    elif how == 1:
        observe(cx, [dict(x) for _ in range(n)], x)
    elif how == 2:
        # other numbers
        y = dict(x, text=re.sub(r"\d{4,}", lambda m: str(cx.int("n", 1000, 2**31 - 1)), x["text"]))
        observe(cx, [dict(y, shared=True) if n > 1 else y] * (1 + (n > 2)), dict(x, shared=True) if n > 1 else x)
    elif how == 3:
        # as much text, other names
        y = dict(x, text=re.sub(r"\b([a-z])\(", lambda m: ("w" if m.group(1) != "w" else "v") + "(", x["text"]))
        observe(cx, [dict(y, shared=True) if n > 1 else y] * (1 + (n > 2)), dict(x, shared=True) if n > 1 else x)
    elif n == 1:
        observe(cx, [dict(x, text=x["text"] + " }")], x)
    else:
        raise engine.Abandon


def f_disk(cx):
    """imported files change between two compilations, with one compiler object or two; lookup paths in another order"""
    f = files(cx)
    g = dict(f)
    k = cx.pick(5, "change")
    look, look2 = [], []
    if k == 0:
        g["two.exps"] = "macro two() { changed(); return; }"
    elif k == 1:
        g["sub/lib.exps"] = "macro lib($p) { changed($p); }"
    elif k == 2:
        g["two.exps"] = "macro two() { syntax error"
    elif k == 3:
        g["main.exps"] = "import \"./two.exps\"; macro lib($p) { mine($p); } def 0 { ~lib(9); ~two(); }"
    else:
        look, look2 = ["a", "b"], ["b", "a"]
        for h, t in (("a", "A"), ("b", "B")):
            f[h + "/where.exps"] = g[h + "/where.exps"] = "macro where() { in%s(); }" % t
        f["main.exps"] = g["main.exps"] = "import \"where.exps\"; def 0 { ~where(); end; }"
    e = [{"do": "compile", "text": f["main.exps"], "files": f, "lookup": look}, {"do": "compile", "text": g["main.exps"], "files": g, "lookup": look2}]
    if cx.flag("order"):
        e.reverse()
    sh = cx.flag("shared")
    mid = cx.pick(3, "mid")
    if sh:
        e = [dict(y, shared=True) for y in e]
    m = [[], [e[1]], [event(cx, "compile", "!noimport", **({"shared": True} if sh else {}))]][mid]
    observe(cx, [e[0]] + m, e[1])


TRI = [("compile", "macros"), ("roundtrip", "loops"), ("roundtrip", "texts"), ("compile", "!nolabel"), ("compile", "!badmacro"), ("decompile", "irreducible"), ("project", ""), ("roundtrip", "manycases"),
       ("compile", "coros"), ("chain", ""), ("roundtrip", "targets"), ("compile", "!fewargs"), ("compile", "!syntax")]


def f_triples(cx, n=len(TRI)):
    sh = cx.flag("shared")
    kw = lambda k: {"shared": True} if sh and k in ("compile", "project", "chain") else {}
    es = []
    for i in range(3):
        k = TRI[cx.pick(n, "e%d" % i)]
        es.append(event(cx, *k, **kw(k[0])))
    observe(cx, es[:2], es[2])


def f_shapes(size, kinds=None):
    """roundtrip of the programs of C01 after the same program with other numbers and a failing one"""
    inner = c01.shape(kinds or c01.FULL, size, cm.symlit, labels=("A",))

    def h(cx):
        def sink(cx, prog, text):
            other = re.sub(r"\d{4,}", lambda m: str(cx.int("n", 1000, 2**31 - 1)), text)
            how = cx.pick(3, "how")
            hist = [[{"do": "roundtrip", "text": other}], [{"do": "roundtrip", "text": text}, {"do": "compile", "text": fill(cx, BAD["nolabel"])}],
                    [{"do": "decompile", "text": text, "obj": "o", "reuse": True}]][how]
            observe(cx, hist, {"do": "decompile", "text": text, "obj": "o", "reuse": True} if how == 2 else {"do": "roundtrip", "text": text})
        saved, cm.SINK = cm.SINK, sink
        try:
            inner(cx)
        finally:
            cm.SINK = saved
    return whole(h)


ONE = ["if ($A == 1) { a(); }", "if ($A == 1) { a(); return; }", "if ($A == 1) { a(); } else { b(); }", "if ($A == 1) { a(); return; } else { b(); end; }",
       "switch ($A) { case 1: a(); break; case 2: b(); }", "switch ($A) { case 1: a(); return; case 2: b(); end; default: c(); hold; }", "switch ($A) { case 1: a(); case 2: b(); return; }",
       "forever { a(); if ($A == 1) { break_loop; } }", "forever { if ($A == 1) { a(); return; } b(); }", "if ($A == 1) { a(); jump @l; } b(); return; @l;", "while ($A == 1) { a(); }"]


def f_after(two):
    """one small control structure after another, alone or in front of / inside the same frame"""
    def h(cx):
        fr = cx.pick(3 if two else 2, "frame")
        t = []
        for w in ("h", "x"):
            b = ONE[cx.pick(len(ONE), w)]
            if two:
                b += " " + ONE[cx.pick(len(ONE), w + "2")].replace("$A", "$B").replace("@l", "@m")
            t.append(["def 0 { %s n(#); end; }", "def 0 { %s }", "def 0 { forever { %s m(#); } }"][fr] % b)
        observe(cx, [{"do": "roundtrip", "text": fill(cx, t[0])}], {"do": "roundtrip", "text": fill(cx, t[1])})
    return whole(h)


def f_address(ncases, nested, tier="thorough"):
    """switches with many cases: the order in which sets of edges are iterated depends on addresses"""
    def h(cx):
        body = []
        for i in range(ncases):
            k = cx.pick(3 if tier == "quick" else 4, f"b{i}")
            b = [f"o{i}(); break;", "", f"if ($A == {i}) {{ p{i}(); break; }} q{i}();", f"o{i}();"][k]
            body.append(f"case {i}: {b}")
        if tier != "quick" and cx.flag("default"):
            body.insert(cx.pick(2, "dpos") * len(body), "default: d(); break;")
        s = "switch ($S) { %s }" % " ".join(body)
        if nested:
            s = [f"if (debug) {{ {s} }} else {{ e(); }}", f"forever {{ {s} if (edit) {{ break_loop; }} }}", f"switch ($T) {{ case 1: {s} break; case 2: r(); }}"][cx.pick(3, "nest")]
        t = "def 0 { a(); %s z(); end; }" % s
        observe(cx, [], {"do": "roundtrip", "text": t}, "depends on addresses")
    return whole(h)


class CHECK(Check):
    id = "C11"
    level = "model_checking"
    technique = ("concolic execution of the real compilers and decompilers after engine-chosen histories in forked pristine processes; z3 decides that the result after the history "
                 "equals the result of a fresh process for all numbers; iteration order of address-hashed sets and reuse of object identities are engine choices")
    level_note = ("Each path runs twice in forked pristine processes: the observed call alone, and after a history of compilations, decompilations and failing calls that the "
                  "engine chooses; z3 shows that ops, texts and source maps are equal for every value of the numbers in them, and that the given operations are unchanged. "
                  "Iteration order of sets and reuse of object identities are choices too, not accidents of the run. Bounded by the pools of inputs and the length of the history.")
    seconds = {"quick": 85, "thorough": 2400}
    limit = 60
    replay_limit = 120
    assumptions = [
        "history events and observed calls are taken from the stated pools (30 kinds of inputs with symbolic numbers, C01 shapes, multi-file projects)",
        "a fresh process is a fork of a process that imported the package and did nothing else",
        "graph objects lie at 0x50 modulo 0x100 (pymalloc pools): sets of fewer than five edges have one iteration order",
        "of a rejected input, the exception type is compared, and its message with addresses blanked (not of syntax errors: their wording depends on the prediction caches of ANTLR)",
        "the reused compiler object is used with the lookup paths of the observed call",
    ]
    bounds = {
        "quick": "histories of one call: all ordered pairs of the pools (fresh or shared compiler object); the same call repeated up to 3 times before; two calls: triples over 8 inputs; projects with files changed on disk; C01 shapes of up to 2 statements",
        "thorough": "all triples; C01 shapes of up to 3 statements; switches with up to 7 cases under all set orders",
    }

    def setup(self):
        loader.install_orders()
        cm.setup_ints()
        warm()

    def families(self, tier):
        some = [x for x in XS if not (x[0] == "compile" and x[1] in GOOD)]
        comp = [x for x in XS if x[0] == "compile"] + [("project", ""), ("chain", "")]
        ssc = [("sscompile", k) for k in ("ssbs", "ssbs2", "ssbs3", "ssbs4", "!sslabel", "!syntax")]
        f = [("shared", f_pairs(comp, comp + [("changed project", ""), ("compile", "empty")], True)), ("ssshared", f_pairs(ssc, ssc, True)), ("ss", f_pairs(ssc, ssc, False))]
        if tier == "quick":
            f.append(("pairs", f_pairs(some, some + [("decompile", "bad")], False)))
        else:
            f += [("pairs%d" % i, f_pairs(XS[i::6], HS, False)) for i in range(6)]
        f += [("same", whole(f_same)), ("after", f_after(False)), ("disk", whole(f_disk)), ("shapes1", f_shapes(1)), ("address", f_address(5, False, tier)), ("triples", whole(lambda cx: f_triples(cx, 8 if tier == "quick" else len(TRI))))]
        if tier == "quick":
            f.append(("shapes2", f_shapes(2, "op ifelse switch2 forever break_loop".split())))
        else:
            f += [("after2", f_after(True)), ("shapes2", f_shapes(2)), ("address5n", f_address(5, True)), ("address6", f_address(6, False)), ("shapes3", f_shapes(3, "op ifelse switch2 forever while break break_loop".split()))]
        return f

    def control(self):
        """a result that takes one number from an earlier call must be refuted, the same result must not"""
        class W:
            stats = engine.Stats()
        cx = engine.Path([], W())
        a, b = cx.int("a", 1000, 9999), cx.int("b", 1000, 9999)
        r = []
        for y in (a, b):
            q = world.differ({"ops": ((("op", (("i", a),)),),)}, {"ops": ((("op", (("i", y),)),),)})
            r.append("sat" if cx.check(q[1]) else "unsat")
        return r == ["unsat", "sat"], f"same result: {r[0]}, a number of an earlier call: {r[1]}"

    def replay(self, payload):
        hist, x = payload["hist"], payload["x"]
        fix(x)
        for e in hist:
            fix(e)
        root = os.path.realpath(tempfile.mkdtemp(prefix="vf-c11-", dir="/tmp"))
        try:
            want = fresh(root, [], x, 0, "0")
            for k, seed, rep in [(0, "0", 0)] + [(k, "0", 0) for k in range(1, 12)] + [(0, str(s), 0) for s in range(1, 6)] + [(k, "0", 60) for k in range(4)]:
                wipe(root)
                if rep and (x.get("again") or x.get("reuse")):
                    continue
                got = fresh(root, hist, x, k, seed, rep, want)
                if "altered" in got:
                    return "decompiling altered the routine set it was given: %s\nobserved call: %s" % (got["altered"][:1500], json.dumps(x, default=repr)[:1500])
                if got != want:
                    d = {j: (want.get(j), got.get(j)) for j in set(want) | set(got) if want.get(j) != got.get(j)}
                    t = "\n".join("%s in a fresh process: %s\n   after the history: %s" % (j, world.clip(a, b), world.clip(b, a)) for j, (a, b) in d.items())
                    return "the result depends on what was processed before\nhistory: %s\nobserved call: %s\n%s" % (
                        (json.dumps(hist, default=repr)[:1500] or "none (another address / hash seed)") + (" and the observed call, %d times" % got["times"] if "times" in got else ""), json.dumps(x, default=repr)[:1500], t)
            return None
        finally:
            shutil.rmtree(root, ignore_errors=True)


def fix(e):
    if "ops" in e:
        e["ops"] = oplists.load(e["ops"]).dump()


def fresh(root, hist, x, k, seed, rep=0, want=None):
    """result of x after hist in a new process (k graphs are allocated first: other addresses)"""
    d = tempfile.mkdtemp(prefix="vf-c11r-", dir="/tmp")
    try:
        with open(os.path.join(d, "in"), "w") as f:
            json.dump([root, hist, x, k, rep, want], f)
        p = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r); from vf.checks import c11; c11.child(%r)" % (
            os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), d)], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE="1"), timeout=60)
        if p.returncode:
            raise RuntimeError(p.stderr[-2000:])
        return json.load(open(os.path.join(d, "out")))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def child(d):
    root, hist, x, k, rep, want = json.load(open(os.path.join(d, "in")))
    real.setup()
    import igraph
    keep = [igraph.Graph(directed=True) for _ in range(k)]
    fix(x)
    for e in hist:
        fix(e)
    w = world.World(root)
    # the same calls again and again: identities of dead objects come back
    for i in range(rep):
        for e in hist:
            w.do(e)
        r = json.loads(json.dumps(w.do(x), default=repr))
        if r != want:
            r["times"] = i
            json.dump(r, open(os.path.join(d, "out"), "w"), default=repr)
            return
    for e in hist:
        w.do(e)
    if x["do"] in ("decompile", "ssdecompile") and not x.get("again"):
        infos, ops, coros = w.given(x, x.get("reuse"))
        obj = x.setdefault("obj", "x")
        w.ops[obj] = (infos, ops, coros)
        before = real.routines(ops)
        r = w.do(dict(x, reuse=True))
        after = [[(o.offset, o.op_code.name, tuple(real.param(p) for p in o.params)) for o in r2] for r2 in ops]
        if before != after and not meaning(before, after):
            r["altered"] = "%s -> %s" % (before, after)
    else:
        r = w.do(x)
    json.dump(r, open(os.path.join(d, "out"), "w"), default=repr)
