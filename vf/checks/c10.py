"""C10  compilation fails only in documented ways; meaningless programs are rejected."""
from __future__ import annotations
import json
import os
import signal
import sys
import z3
from . import c15
from . import common as cm
from .. import cset, engine, lang, proj, real, sx
from ..lang import N
from ..run import Check

ROOT = proj.ROOT


# --------------------------------------------------------------------------------- what must be rejected (the list of the property)
def walk(stmts, env, out):
    """out: reasons; env: loop / case / with, labels: [defined, used], calls"""
    for s in stmts:
        k, a = s.k, s.a
        if k == "break" and not env["case"]:
            out.add("break outside a switch case")
        elif k in ("continue", "break_loop") and env["loop"] is False:
            out.add(k + " outside a loop")
        elif k == "label":
            if env.get("with"):
                out.add("label inside a with-block")
            env["defined"].add(a[0])
        elif k in ("jump", "call"):
            env["used"].add(a[0])
        elif k == "with":
            walk([a[2]], dict(env, **{"with": True}), out)
        elif k == "if":
            for arm in a[0]:
                for h in arm.a[1]:
                    header(h, env, out)
                walk(arm.a[2], env, out)
            walk(a[1] or [], env, out)
        elif k == "while":
            header(a[1], env, out)
            walk(a[2], dict(env, loop=True), out)
        elif k == "forever":
            walk(a[0], dict(env, loop=True), out)
        elif k == "for":
            header(a[1], env, out)
            walk([a[0], a[2]], dict(env, loop=env["loop"] or None), out)     # whether they are inside of the loop is left open
            walk(a[3], dict(env, loop=True), out)
        elif k == "switch":
            cs = a[1]
            if sum(1 for c in cs if c.a[0] is None) > 1:
                out.add("two defaults")
            if cs and not isinstance(cs[-1].a[1], N) and not cs[-1].a[1]:
                out.add("switch ending in an empty case")
            for c in cs:
                if not isinstance(c.a[1], N):
                    walk(c.a[1], dict(env, case=True), out)
        elif k == "msgswitch":
            cs = a[2]
            if sum(1 for c in cs if c.a[0] is None) > 1:
                out.add("two defaults")
            if cs and not isinstance(cs[-1].a[1], N) and not cs[-1].a[1]:
                out.add("switch ending in an empty case")
            for c in cs:
                if not isinstance(c.a[1], N) and c.a[1]:
                    out.add("statements inside a message switch")
        elif k == "macrocall":
            env["calls"].append((a[0], len(a[1])))


def header(h, env, out):
    if h.k == "h_bit" and h.a[0]:
        v = h.a[1]
        if not (v.k in ("const", "var") and v.a[0] == real.PERF) and not (v.k in ("const", "var") and v.a[0] in env["params"]):
            out.add("not on a bit test of an ordinary variable")


def scan(body, params=()):
    out = set()
    env = dict(loop=False, case=False, defined=set(), used=set(), calls=[], params=set(params))
    if body != "ALIAS":
        walk(body, env, out)
    return out, env


def program_reasons(prog, visible):
    """reasons for which the program (with the visible macros: name -> (params, calls)) is meaningless"""
    out = set()
    own = {}
    names = []
    defined, used, calls = set(), set(), []
    for it in prog.a[1]:
        if it.k == "macrodef":
            o, env = scan(it.a[2], it.a[1])
            out |= o
            if env["used"] - env["defined"]:
                out.add("jump to an undefined label")
            own[it.a[0]] = (it.a[1], env["calls"])
            names.append(it.a[0])
        else:
            o, env = scan(it.a[-1])
            out |= o
            defined |= env["defined"]
            used |= env["used"]
            calls += env["calls"]
    if used - defined:
        out.add("jump to an undefined label")
    if len(set(names)) < len(names) or set(names) & set(visible):
        return out, dict(visible, **own)      # two macros of one name: which of them is meant is left open
    table = dict(visible, **own)
    for params, cs in list(own.values()) + [((), calls)]:
        for n, k in cs:
            if n not in table:
                out.add("unknown macro")
            elif k < len(table[n][0]):
                out.add("too few macro arguments")
    if cyclic({n: {c for c, _ in cs} for n, (_, cs) in table.items()}):
        out.add("recursive macro")
    return out, table


def cyclic(g):
    state = {}

    def go(n):
        if state.get(n) == 1:
            return True
        if state.get(n) == 2 or n not in g:
            return False
        state[n] = 1
        r = any(go(x) for x in g[n])
        state[n] = 2
        return r
    return any(go(n) for n in sorted(g))


def special(text):
    return "is-ssb-script" in text


def reasons(text):
    """single file"""
    if special(text):
        return set()
    try:
        p = lang.parse(text)
    except (lang.LangError, RecursionError, ValueError, IndexError):
        return set()
    if p.a[0]:
        return set()
    return program_reasons(p, {})[0]


def project_reasons(files, lookup, main, alias=None):
    """files: relative name -> text"""
    alias = alias or {}
    out = set()
    done = {}

    def go(f, stack):
        f = alias.get(f, f)
        if f in stack:
            out.add("cyclic import")
            return {}
        if f in done:
            return done[f]
        try:
            p = lang.parse(files[f])
        except lang.LangError:
            out.add("syntax error")
            return {}
        vis = {}
        for im in p.a[0]:
            t = lang.str_value_single(im.a[0])
            g = proj.resolve(dict.fromkeys(list(files) + list(alias)), lookup, f, t)
            if g is None:
                out.add("missing import")
            else:
                vis.update(go(g, stack + [f]))
        o, table = program_reasons(p, vis)
        out.update(o)
        if f != alias.get(main, main) and any(it.k != "macrodef" for it in p.a[1]):
            out.add("routine in an imported file")
        done[f] = table
        return table
    go(main, [])
    return out


# --------------------------------------------------------------------------------- running the compiler
HANDLING = False        # call the compiler while the caller is handling an exception


class Handled(Exception):
    pass


def handling(f):
    def h(cx):
        global HANDLING
        HANDLING = True
        try:
            return f(cx)
        finally:
            HANDLING = False
    return h


def outcome(f):
    """-> ("ok", None) / ("rejected", exception) / ("bad", exception)"""
    try:
        if HANDLING:
            try:
                raise Handled("handled by the caller")
            except Handled:
                f()
        else:
            f()
        return "ok", None
    except real.documented_errors() as e:
        if isinstance(e, (UnicodeError,)):
            pass
        return "rejected", e
    except Exception as e:
        return "bad", e


def describe(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    at = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else "?"
    return f"{type(e).__name__} ({at}): {str(e)[:100]}"


def single(text):
    return lambda: real.compile_text(text)


def run_text(cx, text, payload, why=None):
    """compile a text (possibly with symbolic parts); payload(err) -> function of the model"""
    cx.w.stats.add("programs")
    r, e = outcome(single(text))
    if r == "bad":
        fail(cx, payload("raises " + type(e).__name__))
    return r


def fail(cx, p):
    t = getattr(cx, "sx", None)
    (t.fail if t is not None else cx.fail)(p)


# --------------------------------------------------------------------------------- families over characters
SOURCES = [
    'def 0{@l;a(1,"s");jump @l;}',
    'coro A{alias previous;}coro B{op<actor 1>();call @l;§l;hold;}',
    'def 0 for actor B{op({e="a",});}def 1 for_object(2){end;}',
    'macro m($a){op($a);return;}def 0{~m(5);}',
    'def 0{switch($V){case 1:op();break;default:end;}}',
    "def 0{message_SwitchTalk($V){case 1:'a' default:'b'}}",
    'def 0{forever{if(not debug||$A==1){continue;}elseif not($B[2]){break_loop;}else{op();}}}',
    'def 0{while(not $PERFORMANCE_PROGRESS_LIST[1]){op();}for($i=0;$i<3;$i+=1;){op();}}',
    "def 0{op(Position<'p',1.5,-2>,.5,0x1F,'''m''');with(actor A){op();}}",
    'def 0{$A[1]=2;clear $B;$C=scn[1,2];dungeon_mode(1)=X;reset scn($D);$E+=value($F);}',
    'def 0{switch(scn($S)[0]){case>value($X):op();case menu("q"):op();}}',
    '//?: is-ssb-script: true\ndef 0{a(@l);@l;b<actor 1>();}',
    'import "./x.exps";def 0{op();}',
]
SHORT = [0, 3, 4, 5, 8]


def accepted(cx, tx, text, payload):
    """an accepted text must not be one of the meaningless programs: the list is decided for the tokens of this path"""
    if tx.cs:
        tx.check() or tx.abandon()
        text = tx.concrete(text, cx.model())
    rs = reasons(text)
    if rs:
        fail(cx, payload("accepted: " + sorted(rs)[0]))


def chars(sources, n, edit, dom=sx.ALL):
    """n symbolic characters instead of (`replace`) or in front of (`insert`) the character at any position"""
    def h(cx):
        tx = sx.Text(cx)
        src = cx.choose(sources, "src")
        i = cx.pick(len(src) + (edit == "insert"), "at")
        text = src[:i] + tx.run(n, "c", dom) + src[i + (edit == "replace"):]

        def payload(err):
            return lambda m: dict(err=err, text=tx.concrete(text, m))
        r = run_text(cx, text, payload)
        if r == "ok":
            accepted(cx, tx, text, payload)
        return dict(family="chars", text=tx.plain(text), result=r)
    return h


def free(n, around=("", "")):
    def h(cx):
        tx = sx.Text(cx)
        text = around[0] + tx.run(n) + around[1]

        def payload(err):
            return lambda m: dict(err=err, text=tx.concrete(text, m))
        r = run_text(cx, text, payload)
        if r == "ok":
            accepted(cx, tx, text, payload)
        return dict(family="free", text=tx.plain(text), result=r)
    return h


# symbolic runs where the compiler interprets the text itself
HOLES = ['def 0{op("%s");}', "def 0{op('%s');}", 'def 0{op("""%s""");}', 'def 0{op(%s);}', "def 0{op(0x%s);}", "def 0{op(1.%s);}", "def 0{op(-%s);}", "def %s{op();}", "def 0{$A[%s]=1;}", "def 0{if($A[%s]){op();}}",
         "def 0{op(Position<'%s',1,2>);}", "def 0{op(Position<'p',%s,2>);}", "def 0{op(Position<'p',1.%s,2>);}", "def 0 for actor %s{op();}", "def 0 for %s A{op();}",
         "def 0{op<%s 1>();}", "def 0{with(%s 1){op();}}", "def 0{switch(scn($S)[%s]){case 1:op();}}", "def 0{if(scn($S)==[%s,1]){op();}}", "def 0{op({%s='x'});}", "def 0{op({e='%s'});}",
         "def 0{@%s;}", "def 0{jump @%s;}", "def 0{~%s();}", "def 0{$%s=1;}", "def 0{if(not $%s[1]){op();}}", "coro %s{op();}", "macro %s(){op();}def 0{op();}", "macro m($%s){op($%s);}def 0{~m(1);}",
         "def 0{$A=scn[1,%s];}", "def 0{switch(dungeon_mode(%s)){case 1:op();}}", "def 0{switch($V){case %s:op();}}", "//?: is-ssb-script: %s\ndef 0{op();}", "//?: %s\ndef 0{op();}",
         "//?:%s: true\ndef 0{op();}", "//?: is-ssb-script: true\ndef 0{op(%s);}", "//?: is-ssb-script: true\ndef 0{%s;}", "//?: is-ssb-script: true\ndef %s{op();}", "//?: is-ssb-script: true\ndef 0{op('%s');}",
         "//?: is-ssb-script: true\ndef 0{op(Position<'p',%s,2>);}", "//?: is-ssb-script: true\ndef 0 for actor %s{op();}", 'import "%s";def 0{op();}', 'import "./%s";def 0{op();}',
         "def 0{%s;}", "def 0{%s();}", "def 0{switch($V){%s}}", "def 0{switch($V){case 1:%s}}", "def 0{if(%s){op();}}", "def 0{op();}%s", "def 0{forever{%s;}}"]


def holes(n, tmpl):
    def h(cx):
        tx = sx.Text(cx)
        t = cx.choose(tmpl, "tmpl")
        text = t.replace("%s", tx.run(n))

        def payload(err):
            return lambda m: dict(err=err, text=tx.concrete(text, m))
        r = run_text(cx, text, payload)
        if r == "ok":
            accepted(cx, tx, text, payload)
        return dict(family="holes", text=tx.plain(text), result=r)
    return h


# --------------------------------------------------------------------------------- families over tokens
POOL = ["op", "$V", "5", "-1", "1.5", "'s'", "'''m'''", "@", "l", ";", ",", ":", "(", ")", "{", "}", "[", "]", "<", ">", "=", "==", "||", "not", "debug", "value", "scn", "case", "default", "break", "continue",
        "break_loop", "return", "hold", "jump", "call", "with", "switch", "message_SwitchTalk", "if", "else", "elseif", "forever", "while", "for", "for_actor", "macro", "def", "coro", "import", "alias", "previous",
        "~m", "Position", "menu", "menu2", "random", "dungeon_mode", "sector", "clear", "init", "reset", "adventure_log", "dungeon_result", "actor", "+=", "&<<", "TRUE", "break ;", "@ l ;", "jump @ q ;", "default :",
        "case 1 :", "not $A [ 1 ]", "{ }", "op ( ) ;", "~m ( ) ;", "alias previous ;"]
PROGRAMS = SOURCES[:-2] + [
    'def 0{forever{switch(random(3)){case 1:case 2:a();break;default:continue;}}}',
    'macro m(){@l;op();if(debug){jump @l;}}macro n($a,$b){~m();op($a,$b);}def 0{~n(1,2);}',
    'def 0{@l;op();}def 1{jump @l;}',
]


def tokens_of(text):
    ts = lang.lex(text)
    return [t.t for t in ts[:-1]]


def edits(kinds, sources=PROGRAMS, pool=POOL):
    """one edit of the token sequence: a token deleted, doubled, exchanged with the next, replaced or preceded by another; two edits for `+`"""
    def h(cx):
        cm_note = cx.choose(sources, "src")
        ts = tokens_of(cm_note)
        for e in kinds:
            k = cx.choose(e, "edit")
            i = cx.pick(len(ts) + (k == "insert"), "at")
            if k == "delete":
                del ts[i]
            elif k == "double":
                ts.insert(i, ts[i])
            elif k == "swap":
                j = cx.pick(len(ts), "with")
                if j <= i:
                    raise engine.Abandon
                ts[i], ts[j] = ts[j], ts[i]
            elif k == "replace":
                ts[i] = cx.choose(pool, "tok")
            elif k == "insert":
                ts.insert(i, cx.choose(pool, "tok"))
            elif k == "cut":
                ts = ts[:i]
        text = " ".join(ts)
        return plain(cx, text, "tokens")
    return h


def plain(cx, text, fam, lookup=None):
    """a text with symbolic integers at most"""
    def payload(err):
        return lambda m: dict(err=err, text=cm.at_values(cx, m, text) if m is not None and cx.ints else text, perf=real.PERF)
    r = run_text(cx, text, payload)
    if r == "ok":
        rs = reasons(text)
        if rs:
            fail(cx, payload("accepted: " + sorted(rs)[0]))
    cx.w.stats.add("result_" + r)
    return dict(family=fam, text=text[:200], result=r)


# --------------------------------------------------------------------------------- families over structures
CONTAINERS = ["%", "if (debug) { % }", "forever { % }", "switch ($V) { case #: % }", "switch ($V) { case #: a(); default: % }", "while ($A < #) { % }", "for ($i = 0; $i < #; $i += 1;) { % }",
              "if (debug) { a(); } else { % }", "if (debug) { a(); } elseif not ($A == #) { % }", "switch ($V) { default: a(); break; case 1: case 2: % break; case 3: b(); }", "with (actor 1) { % }", "return; %",
              "switch ($W) { case #: b(); } %", "forever { b(); } %", "switch ($V) { case 1: forever { b(); } % }", "forever { switch ($V) { case #: b(); } % }"]
LEAVES = ["break;", "continue;", "break_loop;", "jump @nowhere;", "call @nowhere;", "@l;", "@here; jump @l;", "switch ($X) { case 1: a(); case #: }", "switch ($X) { default: }", "switch ($X) { case #: a(); default: case 2: }",
          "switch ($X) { case 1: case 2: }", "switch ($X) { default: a(); case 1: b(); default: c(); }", "switch ($X) { default: default: a(); }", "message_SwitchTalk ($X) { case #: a(); }",
          "message_SwitchMonologue ($X) { case 1: 'a' default: a(); }", "message_SwitchTalk ($X) { default: 'a' default: 'b' }", "message_SwitchTalk ($X) { case 1: 'a' case 2: }",
          "message_SwitchTalk ($X) { case 1: break; default: 'x' }", "message_SwitchTalk ($X) { case 1: 'a' default: b(); case 2: 'b' }",
          "with (actor 1) { @w; }", "with (performer #) { @w; } jump @w;", "with (actor 1) { break; }", "with (performer #) { continue; }", "with (object A) { break_loop; }", "with (object A) { jump @nowhere; }", "if (not $A[#]) { a(); }",
          "while (not $A[#]) { a(); }", "if (debug || not $A[1]) { a(); }", "if ($A == 1) { a(); } elseif (edit || not $B[#]) { b(); }", "if not (not $A[2]) { a(); }", "while not (not $A[2]) { a(); }",
          "for (a(); not $A[1]; b();) { c(); }", "for (continue; debug; b();) { c(); }", "for (break; debug; b();) { c(); }", "for (jump @nowhere; debug; b();) { c(); }", "for (a(); debug; break;) { c(); }", "for (a(); debug; jump @nowhere;) { c(); }",
          "~unknown();", "~unknown(#);", "~m1();", "~m2(#);", "~m2();", "~m1(#); ~m2(#, 2);", "a();", "end;", "$A = #;", "if ($PERFORMANCE_PROGRESS_LIST[#]) { a(); }", "if (not $PERFORMANCE_PROGRESS_LIST[#]) { a(); }",
          "$PERFORMANCE_PROGRESS_LIST[#] = #;", "if (b(#)) { a(); }", "switch (a()) { case #: b(); case menu('x'): c(); case menu2(#): d(); }", "switch ($X) { }", "message_SwitchTalk ($X) { }", "if (debug) { }",
          "forever { }", "while (debug) { }", "switch ($X) { case 'a': b(); }", "switch ($X) { case 1: 'text' }", "message_SwitchTalk ($X) { case > 1: 'text' }", "with (thing 1) { a(); }", "a<thing 1>();",
          "with (actor 1) { ~m1(#); }", "with (actor 1) { if (debug) { a(); } }", "op(Position<'p', 1.3, #>);", "op(@l);", "switch (scn($S)[#]) { case 1: a(); }", "if (scn($S) ^ [1, #]) { a(); }", "$A[#] += 1;", "dungeon_mode(#) = #;",
          "if ($A[1] == 2) { a(); }", "op(1.5, -0x1F, 0b2, 010);"]
FRAMES = ["def 0 { % }", "macro k() { % } def 0 { ~k(); }", "coro X { % } coro Y { @l; a(); }", "macro k() { % } def 0 { a(); }", "def 0 { @l; a(); } def 1 for actor A { % }",
          "def 0 { forever { switch ($Z) { case 1: ~k(); } } } macro k() { % }", "def 0 { switch ($Z) { case 1: forever { a(); } } } def 1 { % }", "macro k($nowhere) { a(); } def 0 { ~k(%s); % }"]
COMMON = "macro m1($a) { op($a); @nowhere; } macro m2($a, $b) { ~m1($b); op($a); } "


def stray(depths, containers=CONTAINERS, leaves=LEAVES, frames=FRAMES, pads=3):
    """a statement of the list (or an innocent one) inside of `depth` constructs in each kind of routine"""
    def h(cx):
        body = cx.choose(leaves, "leaf")
        p = cx.pick(pads, "pad")
        body = ["%", "a(); %", "% a();", "a(); % end;"][p].replace("%", body)
        d = cx.choose(depths, "depth")
        for _ in range(d):
            body = cx.choose(containers[1:], "in").replace("%", body)
        fr = cx.choose(frames, "frame")
        text = COMMON + fr.replace("(%s)", "(1)").replace("%", body)
        return plain(cx, fill(cx, text), "stray")
    return h


def fill(cx, text):
    while "#" in text:
        text = text.replace("#", str(cx.int("n", 1000, 2**31 - 1)), 1)
    return text


def digits(cx, tx, text, n):
    """numbers of n symbolic digits"""
    while "#" in text:
        text = text.replace("#", tx.run(n, "d", cset.DIGIT), 1)
    return text


def symbolic(cx, tx, text, fam):
    def payload(err):
        return lambda m: dict(err=err, text=tx.concrete(text, m))
    r = run_text(cx, text, payload)
    if r == "ok":
        accepted(cx, tx, text, payload)
    cx.w.stats.add("result_" + r)
    return dict(family=fam, text=tx.plain(text), result=r)


def small(n):
    """small numbers in all statements"""
    def h(cx):
        tx = sx.Text(cx)
        t = cx.choose([COMMON + "def 0 { " + l + " }" for l in LEAVES if "#" in l] + ["macro inner($a) { i($a); $a = $a; } macro m($a) { " + u + " } def 0 { ~m(#); }" for u in USES] +
                      ["def 0 { " + u.replace("$a", "#") + " }" for u in USES if "inner" not in u] + ["def # { a(); }", "def 0 { a(); } def # { b(); }", "def # { a(); } def # { b(); } def # { c(); }", "coro X { a(); } def # { b(); }"], "text")
        return symbolic(cx, tx, digits(cx, tx, t, n), "small")
    return h


def stray_two(leaves):
    """two statements of the list next to each other, or one inside of the other's block"""
    def h(cx):
        a, b = cx.choose(leaves, "a"), cx.choose(leaves, "b")
        k = cx.pick(3, "how")
        if k == 0:
            body = a + " " + b
        elif k == 1:
            body = "forever { " + a + " } " + b
        else:
            body = "switch ($V) { case 1: " + a + " case 2: " + b + " }"
        return plain(cx, fill(cx, COMMON + "def 0 { " + body + " }"), "stray")
    return h


def scoping(cx):
    """labels of routines and macros: who sees what"""
    places = ["def 0 { % a(); }", "def 1 { b(); % }", "macro x() { % a(); }", "macro y() { b(); % }"]
    lab = cx.pick(5, "label")       # 4: nowhere
    jmp = cx.pick(4, "jump")
    kind = cx.choose(["jump @t;", "call @t;", "with (actor #) { jump @t; }", "if ($A == #) { jump @t; }", "forever { switch ($B) { case #: call @t; } }", "return; jump @t;"], "kind")
    lk = cx.choose(["@t;", "forever { b(); @t; }", "if (debug) { return; @t; }"], "lk")
    uses = cx.choose(["", "~x();", "~y();", "~x(); ~y();"], "uses")
    deep = cx.flag("deep")
    out = []
    for i, p in enumerate(places):
        b = ""
        if i == lab:
            b += lk + " "
        if i == jmp:
            b += kind + " "
        if i == 0:
            b += uses + " "
        if i == 2 and deep:
            b += "~y(); "
        out.append(p.replace("%", b))
    if cx.flag("macros first"):
        out = out[2:] + out[:2]
    return plain(cx, fill(cx, " ".join(out)), "scoping")


def macro_graph(n, ncalls, full, orders=True):
    """n macros calling each other; which calls whom with how many arguments is open"""
    def h(cx):
        ar = [0, 1, 2][:n]
        names = ["m%d" % i for i in range(n)]

        def call(lbl):
            opts = [""] + [(t, ar[t] - few) for t in range(n) for few in (0, 1) if ar[t] - few >= 0] + ["~nobody(#);"]
            o = cx.choose(opts, lbl)
            return o if isinstance(o, str) else "~%s(%s);" % (names[o[0]], ", ".join(["#"] * o[1]))
        defs = []
        for i in range(n):
            cs = [call("c%d" % i) for _ in range(ncalls)]
            body = cx.choose(["% op();", "if (debug) { % }", "forever { switch ($V) { case 1: % break; default: a(); } }"][:3 if full else 1], "wrap") if i == 0 else "op(); %"
            defs.append("macro %s(%s) { %s }" % (names[i], ", ".join("$p%d" % j for j in range(ar[i])), body.replace("%", " ".join(cs))))
        order = cx.pick(2, "order") if orders else 0
        if order:
            defs.reverse()
        main = call("main")
        defs.insert(cx.pick(2, "first") * len(defs), "def 0 { a(); %s }" % main)
        return plain(cx, fill(cx, " ".join(defs)), "macros")
    return h


def ids(n):
    """routine ids are symbolic; kinds, order and bodies are open"""
    def h(cx):
        tx = sx.Text(cx)
        out = []
        for i in range(n):
            k = cx.choose(["def #", "coro X", "def # for actor A", "def # for_object(#)"][:4 if n < 3 else 2], "kind").replace("X", "X%d" % i)
            b = cx.choose(["a();", "@l%d;" % i, "alias previous;", "jump @l0;", "@l%d; jump @l%d;" % (i, i), "if (debug) { }", "return;", "switch ($A) { }", "forever { break_loop; }"][:9 if n < 3 else 5], "body")
            out.append(k + " { " + b + " }")
        return symbolic(cx, tx, digits(cx, tx, " ".join(out), 1), "ids")
    return h


ARGS = ["#", "-1", "1.5", "CONST", "$V", "$PERFORMANCE_PROGRESS_LIST", "'s'", "'''m'''", "{e='x'}", "Position<'p', 1, 2>", "$a", "$b"]
USES = ["op($a);", "$a = 1;", "$A = $a;", "$a[1] = 2;", "$a[1] = $a;", "$A = value($a);", "$a += value($a);", "clear $a;", "init $a;", "reset scn($a);", "adventure_log = $a;", "dungeon_mode($a) = $a;", "$a = scn[1, 2];", "if ($a == 1) { b(); }",
        "if ($A > $a) { b(); }", "if ($A > value($a)) { b(); }", "if ($a[1]) { b(); }", "if (not $a[1]) { b(); }", "if (scn($a) == [1, 2]) { b(); }", "if (b($a)) { c(); }", "switch ($a) { case $a: b(); case > $a: c(); case menu2($a): d(); }",
        "switch (scn($a)[0]) { case 1: b(); }", "switch (random($a)) { case $a: b(); }", "switch (dungeon_mode($a)) { case $a: b(); }", "switch (b($a)) { case > value($a): c(); }", "message_SwitchTalk ($a) { case $a: 'x' default: 'y' }",
        "with (actor $a) { b(); }", "op<performer $a>($a);", "while ($a == $a) { b(); }", "~inner($a);", "op({x='y'}, $a, Position<'q', 1, 2>);", "for ($a = $a; $a < $a; $a += $a;) { b($a); }"]


def arguments(cx):
    """every use of a macro parameter with every kind of argument"""
    use, arg = cx.choose(USES, "use"), cx.choose(ARGS, "arg")
    k = cx.pick(4, "how")
    inner = "macro inner($a) { i($a); $a = $a; } "
    if k == 0:
        t = inner + "macro m($a) { %s } def 0 { ~m(%s); }" % (use, arg)
    elif k == 1:
        t = inner + "macro m($a) { ~n($a, 1); } macro n($b, $a) { %s } def 0 { ~m(%s); }" % (use.replace("$a", "$b"), arg)
    elif k == 2:
        t = inner + "def 0 { %s }" % use.replace("$a", arg)
    else:
        t = inner + "macro m($a, $c) { %s } def 0 { forever { switch ($Z) { case 1: ~m(%s, %s, %s); } } }" % (use, arg, arg, arg)
    return plain(cx, fill(cx, t), "arguments")


# ----- SsbScript
SSB = ["def 0 { a(1, 's', {e='x'}, Position<'p', 1.5, 2>, C, 1.5); @l; Branch($V, 1, @l); Jump(@l); End(); }", "coro X { alias previous; } coro Y { a(); @k; Case(1, @k); }", "def 0 for actor A { a(); } def 1 for_object(2) { @m; Jump(@n); } def 2 { @n; Jump(@m); }"]
SSBPOOL = ["op", "$V", "5", "1.5", "'s'", "@", "@ l", "@ nowhere", ";", ",", "(", ")", "{", "}", "<", ">", "=", "def", "coro", "for", "for_actor", "alias", "previous", "Position", "if", "end", "Jump ( )", "Jump ( @ l , @ l ) ;", "@ l ;", "alias previous ;", "X"]


def ssb_edits(kinds):
    def h(cx):
        ts = tokens_of(cx.choose(SSB, "src"))
        for e in kinds:
            k = cx.choose(e, "edit")
            i = cx.pick(len(ts) + (k == "insert"), "at")
            if k == "delete":
                del ts[i]
            elif k == "double":
                ts.insert(i, ts[i])
            elif k == "replace":
                ts[i] = cx.choose(SSBPOOL, "tok")
            elif k == "insert":
                ts.insert(i, cx.choose(SSBPOOL, "tok"))
        return plain(cx, "//?: is-ssb-script: true\n" + " ".join(ts), "ssb")
    return h


# ----- imports
DIRS = {"main": "", "a": "d/", "b": "lib/", "c": "d/e/"}


def path_of(f):
    return DIRS[f] + f + ".exps"


def spell(kind, src, dst):
    p = path_of(dst)
    rel = os.path.relpath(p, DIRS[src] or ".")
    if kind == "rel":
        return rel if rel.startswith("../") else "./" + rel
    if kind == "long":
        return "./" + "../" * DIRS[src].count("/") + "d/../" + p
    if kind == "abs":
        return ROOT + "/" + p
    if kind == "lookup":
        return dst + ".exps"
    if kind == "link":
        return "./" + "../" * DIRS[src].count("/") + "ln/" + dst + ".exps"
    raise AssertionError(kind)


SPELL = ["rel", "abs", "lookup", "link", "long"]
LOOKUP = ["lib", "d", ".", "d/e"]
LINKS = {"ln/" + f + ".exps": path_of(f) for f in DIRS}


def import_graph(names, spells=SPELL, bodies=False):
    """which file imports which (itself, the main file and missing ones, too), how imports are written, what the files hold"""
    def h(cx):
        kind = cx.choose(spells, "spell")
        edges = {s: [d for d in names if cx.flag("%s-%s" % (s, d))] for s in names}
        miss = cx.pick(len(names) + 1, "missing")
        rout = cx.pick(len(names), "routine") if bodies else 0
        name = cx.choose(["{ROOT}/main.exps", "main.exps", "./main.exps", "{ROOT}/ln/main.exps", "{ROOT}/d/../main.exps"] if bodies else ["{ROOT}/main.exps"], "name")
        files = {}
        for i, s in enumerate(names):
            t = "".join("import \"%s\";\n" % spell(kind, s, d) for d in edges[s])
            if miss == i:
                t += "import \"%s\";\n" % {"lookup": "nowhere.exps"}.get(kind, "./nowhere.exps")
            t += "macro m_%s() { op_%s(); }\n" % (s, s)
            if i == rout and i:
                t += cx.choose(["def 0 { a(); }", "coro X { a(); }", "macro z() { a(); } def 0 { alias previous; }"], "kind") + "\n"
            if s == "main":
                t += "def 0 { a(); %s }" % "".join("~m_%s(); " % d for d in edges[s])
            files[path_of(s)] = t
        if not reachable(edges, names) - {"main"} and (miss not in (0, len(names)) or rout):
            raise engine.Abandon
        return project(cx, dict(files=files, lookup=LOOKUP, links=LINKS, name=name), "imports")
    return h


def reachable(edges, names):
    seen, work = set(), ["main"]
    while work:
        f = work.pop()
        if f not in seen:
            seen.add(f)
            work += edges[f]
    return seen


def compile_project(p):
    """-> function"""
    def run(root):
        name = p["name"].replace(ROOT, root)
        old = os.getcwd()
        os.chdir(root)
        try:
            return real.compile_text(p["files"]["main.exps"].replace(ROOT, root), name, [os.path.join(root, l) for l in p.get("lookup", ())])
        finally:
            os.chdir(old)
    return run


def materialise(s, p):
    for l, t in p.get("links", {}).items():
        q = s.path(l)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        os.symlink(s.path(t) if not t.startswith("!") else t[1:], q)
    for d in p.get("dirs", ()):
        os.makedirs(s.path(d), exist_ok=True)
    for f, b in p.get("bytes", {}).items():
        q = s.path(f)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as fh:
            fh.write(bytes(b))


def run_project(p):
    with proj.Scratch(p["files"]) as s:
        materialise(s, p)
        return outcome(lambda: compile_project(p)(s.root))


def project(cx, p, fam):
    cx.w.stats.add("programs")
    r, e = run_project(p)
    cx.w.stats.add("result_" + r)
    if r == "bad":
        cx.fail(lambda m: dict(err="raises " + type(e).__name__, project=p))
    rs = p["must"] if "must" in p else sorted(project_reasons(p["files"], p["lookup"], "main.exps", p.get("links", {})))
    if r == "ok" and rs:
        cx.fail(lambda m: dict(err="accepted: " + rs[0], project=p))
    return dict(family=fam, files=p["files"], result=r, expected=rs)


# odd things an import can name: (import, set-up)
ODD = [("./dir", dict(dirs=["dir"])), ("./dir/", dict(dirs=["dir"])), (".", {}), ("./", {}), ("..", {}), ("../", {}), ("/", {}), ("", {}), ("./bin.exps", dict(bytes={"bin.exps": [255, 254, 0]})),
       ("./bin2.exps", dict(bytes={"bin2.exps": list(b"macro x() { op('") + [0xc3, 0x28] + list(b"'); }")})), ("./dangling.exps", dict(links={"dangling.exps": "!nowhere.exps"})),
       ("./loop.exps", dict(links={"loop.exps": "!loop.exps"})), ("./lnd", dict(links={"lnd": "dir"}, dirs=["dir"])), ("./main.exps/", {}), ("./main.exps/x.exps", {}), ("dir", dict(dirs=["dir", "lib/dir"])), ("lib", dict(dirs=["lib"])),
       ("x//y.exps", {}), ("a/../b.exps", {}), ("~/x.exps", {}), ("." + "x" * 300, {}), ("x" * 300, {}), ("./" + "y/" * 3000 + "z", {}), ("\\\\x.exps", {}), ("./x\\ny.exps", {}), ("C:\\\\x.exps", {}), ("./\u00e4\u20ac.exps", {}), (ROOT, {}), (ROOT + "/dir", dict(dirs=["dir"])),
       ("./dir/../nowhere.exps", dict(dirs=["dir"])), ("./m.exps", dict(bytes={"m.exps": list(b"\xef\xbb\xbfmacro m() { op(); }")})), ("./e.exps", dict(bytes={"e.exps": []})), ("./s.exps", dict(bytes={"s.exps": list(b"//?: is-ssb-script: true\ndef 0 { a(); }")})),
       ("./bad.exps", dict(bytes={"bad.exps": list(b"macro m( { }")})), ("./nul.exps", dict(bytes={"nul.exps": list(b"macro m() { op('\0'); }")})), ("./k.exps", dict(bytes={"k.exps": list(b"macro m() { break; }")})), ("x.exps", dict(bytes={"lib/x.exps": list(b"def 0 { op(); }")})),
       ("./r.exps", dict(bytes={"r.exps": list(b"import './r2.exps'; macro q() { op(); }"), "r2.exps": list(b"coro Z { op(); }")})), ("./u.exps", dict(bytes={"u.exps": list(b"macro q() { ~m_main(); }")}))]
MISSING = {"./dir", "./dir/", ".", "./", "..", "../", "/", "", "./dangling.exps", "./loop.exps", "./lnd", "./main.exps/", "./main.exps/x.exps", "dir", "lib", "x//y.exps", "~/x.exps", "." + "x" * 300, "x" * 300, "./" + "y/" * 3000 + "z", ROOT, ROOT + "/dir",
           "./dir/../nowhere.exps", "./\u00e4\u20ac.exps"} - {"./main.exps/"}


def odd_imports(cx):
    im, setup = cx.choose(ODD, "what")
    q = cx.choose(['"', "'"], "quote")
    lookup = cx.choose([["lib"], [], [""], ["nowhere", "lib"], ["main.exps", "lib"]], "lookup")
    files = {"main.exps": "import %s%s%s;\nmacro m_main() { op(); }\ndef 0 { ~m_main(); }\n" % (q, im, q), "other.exps": "macro m_other() { op(); }\n"}
    p = dict(files=files, lookup=lookup, name=cx.choose(["{ROOT}/main.exps", "main.exps"], "name"), **setup)
    must = []
    if im in MISSING:
        must = ["missing import"]
    elif im in ("./k.exps",):
        must = ["break outside a switch case"]
    elif im == "./r.exps" or im == "x.exps" and "lib" in lookup:
        must = ["routine in an imported file"]
    elif im == "./u.exps":
        must = ["unknown macro"]
    p["must"] = must
    return project(cx, p, "odd imports")


def only_macros(cx):
    """compile(..., macros_only=True) of a file with a routine"""
    text = cx.choose(["def 0 { a(); }", "macro m() { a(); } def 0 { ~m(); }", "coro X { a(); }", "def 0 { a(); } macro m() { a(); }", "def 0 for actor A { alias previous; }"], "text")
    base = cx.choose([None, "/nonexistent/base.exps"], "base")
    r, e = outcome(lambda: real.compile_text(text, macros_only=True, original_base_file=base))
    if r != "rejected":
        cx.fail(lambda m: dict(err="macros_only", macros_only=text, base=base))
    return dict(family="macros_only", text=text)


# ----- configurations
def other_names(cx):
    """another name of the performance progress list"""
    with c15.settings(True):
        v = cx.choose(["$PERFORMANCE_PROGRESS_LIST", "$OTHER_LIST", "OTHER_LIST", "$other_list"], "var")
        t = cx.choose(["if (not %s[#]) { a(); }", "while (not %s[#]) { a(); }", "if (debug || not %s[1]) { a(); }", "for (a(); not %s[2]; b();) { c(); }"], "use")
        return plain(cx, fill(cx, "def 0 { " + t % v + " }"), "names")


def stale(cx):
    """a compiler that is used again after it compiled something gives no output for a meaningless program"""
    leaf = cx.choose(LEAVES, "leaf")
    text = fill(cx, COMMON + "def 0 { " + leaf + " }")
    rs = sorted(reasons(text))
    if not rs:
        raise engine.Abandon
    d = stale_check(text)
    if d:
        cx.fail(lambda m: dict(err=d, stale=cm.at_values(cx, m, text) if m is not None and cx.ints else text))
    return dict(family="stale", text=text)


def stale_check(text):
    c = real.m.comp.ExplorerScriptSsbCompiler(real.PERF)
    c.compile("def 0 { fine(); }", "/nonexistent/main.exps")
    try:
        c.compile(text, "/nonexistent/main.exps")
    except real.documented_errors():
        if c.routine_ops is not None:
            return "output of a rejected program"
        return None
    except Exception as e:
        return "raises " + type(e).__name__
    return "accepted"


# ----- the command
CLI = ["def 0 { op(); ", "def 0 { \u00a4 }", "", "def 0 { op(1.5, 'a', $V, C, {e='x'}, Position<'p', 1, 2>); }", "import './nowhere.exps'; def 0 { op(); }", "import './main.exps'; def 0 { op(); }", "import './lib.exps'; def 0 { ~lib(); }",
       "import './rout.exps'; def 0 { op(); }", "import '.'; def 0 { op(); }", "macro a() { ~b(); } macro b() { ~a(); } def 0 { op(); }", "//?: is-ssb-script: true\ndef 0 { Jump(@a); }", "//?: is-ssb-script: true\ndef 0 { if (debug) { } }"]


def cli(cx):
    text = cx.choose(CLI + [COMMON + "def 0 { %s }" % l.replace("#", "3") for l in LEAVES], "text")
    args = cx.choose([[], [["--lookup", "lib"]], [["--source-map", "out.sm"]]], "args")
    d = cli_check(text, args)
    cx.w.stats.add("programs")
    if d:
        cx.fail(lambda m: dict(err=d[:60], cli=text, args=args))
    return dict(family="cli", text=text[:100])


def cli_check(text, args):
    files = {"main.exps": text, "lib.exps": "macro lib() { op(); }", "rout.exps": "def 0 { op(); }"}
    rs = sorted(project_reasons(files, [], "main.exps")) if not special(text) else []
    r = c15.cli_compile(files, opts=args)
    if r.exc is not None and not isinstance(r.exc, real.documented_errors()):
        return "the command ends with " + type(r.exc).__name__
    if r.status == 0:
        if rs:
            return "the command accepts: " + rs[0]
        try:
            json.loads(r.out)
        except ValueError:
            return "exit status 0 without output"
    elif r.out.strip():
        return "output of a failed compilation"
    return None


# ----- depth
NEST = [("if (debug) { ", "}"), ("forever { ", "}"), ("switch ($V) { case 1: ", "}"), ("while ($A == 1) { a(); ", "}"), ("if (debug) { a(); } else { ", "}"), ("for (a(); debug; b();) { ", "}"), ("switch ($V) { case 1: a(); default: forever { ", "} }")]


def nested(depths, limit=1000):
    def h(cx):
        a, b = cx.choose(NEST, "kind")
        n = cx.choose(depths, "depth")
        leaf = cx.choose(["op();", "jump @nowhere;"], "leaf")
        d = nested_check(a, b, n, leaf, limit)
        cx.w.stats.add("programs")
        if d:
            cx.fail(lambda m: dict(err=d[:60], nested=[a, b, n, leaf, limit]))
        return dict(family="nested", kind=a, depth=n)
    return h


def nested_check(a, b, n, leaf, limit):
    old = sys.getrecursionlimit()
    depth, f = 0, sys._getframe()
    while f is not None:
        depth, f = depth + 1, f.f_back
    sys.setrecursionlimit(limit + depth)
    try:
        r, e = outcome(single("def 0 { " + a * n + leaf + " " + b * n + " }"))
    finally:
        sys.setrecursionlimit(old)
    if r == "bad":
        return f"{n} nested blocks: " + describe(e)
    if r == "ok" and "nowhere" in leaf:
        return f"accepted: {n} nested blocks with a jump to nowhere"
    return None


class C10(Check):
    id = "C10"
    level = "exploration"
    technique = ("symbolic execution of the real reader, compiler and import resolution over symbolic characters, integers and open program, call graph and import graph structures; a validator written "
                 "from the list in the property decides which programs must be rejected")
    level_note = "all texts up to the stated lengths, all fillings of the stated holes and single edits of the stated sources, all combinations of the stated contexts, call graphs and import graphs"
    seconds = {"quick": 90, "thorough": 3600}
    limit = 60
    bounds = {
        "quick": "texts of up to 2 characters; 1 character replaced or inserted anywhere in 7 sources each; up to 2 characters in 50 places where the compiler reads text itself (1 character: all, 2: 18 of them); every single token "
                 "deleted, doubled, exchanged, replaced or preceded by one of 75 tokens and token runs in 7 to 14 sources; 70 statements inside of up to 2 of 16 constructs in 8 kinds of routine; pairs of these statements; labels and jumps in "
                 "4 places; call graphs of 3 macros with 1 call or 2 with 2 calls; routine tables of up to 3 routines with symbolic ids; 32 uses of 12 kinds of macro arguments; import graphs of 3 files in 5 spellings; 40 odd imports; the compile command "
                 "on 80 programs; up to 300 nested blocks (recursion limit 1000). Characters range over all of Unicode outside plane 16 and the surrogates, integers over 32 bits",
        "thorough": "texts of up to 4 characters; 2 characters anywhere; 3 in each hole; two token edits; statements inside of up to 3 constructs; 3 macros with 2 calls; import graphs of 4 files",
    }
    assumptions = ["whether an uncalled macro, an import or a routine is at fault makes no difference: the whole program must be rejected",
                   "two macros of the same name: which one is meant is left open; the first and last part of the header of a for loop may or may not be inside of the loop",
                   "MemoryError and errors of the operating system other than those an import can cause are outside"]

    def setup(self):
        sx.install(pygments=False)
        cm.load_all()
        cm.setup_ints()

    def control(self):
        r = reasons("def 0 { if (debug) { break; } }") == {"break outside a switch case"} and cyclic({"a": {"b"}, "b": {"a"}}) and not reasons(LEGAL)
        return r, "a stray break is meaningless, a program with all constructs is not"

    def families(self, tier):
        T = tier == "thorough"
        one = [["delete", "double", "cut"]], [["swap"]], [["replace"]], [["insert"]]
        f = [("nested", nested([20, 60, 100, 300])), ("cli", cli), ("odd", odd_imports), ("macros_only", only_macros), ("names", other_names), ("stale", stale)]
        f += [("free%d" % n, free(n)) for n in ((0, 1, 2, 3, 4) if T else (0, 1, 2))]
        f += [("replace1", chars(SOURCES if T else SOURCES[1::2] + SOURCES[:1], 1, "replace")), ("insert1", chars(SOURCES if T else SOURCES[::2], 1, "insert")), ("holes1", holes(1, HOLES)), ("holes2", holes(2, HOLES if T else HOLES[:18]))]
        f += [("tok%d" % i, edits(e, PROGRAMS if T or i < 2 else PROGRAMS[i % 2::2])) for i, e in enumerate(one)]
        f += [("ssb%d" % i, ssb_edits(e)) for i, e in enumerate([[["delete", "double"]], [["replace"]], [["insert"]]])]
        f += [("stray01", stray([0, 1])), ("stray2", stray([2], CONTAINERS[:7] if not T else CONTAINERS, LEAVES, FRAMES[:3] if not T else FRAMES, 1)), ("pairs", stray_two(LEAVES)), ("scoping", scoping), ("graph31", macro_graph(3, 1, False, T)), ("graph22", macro_graph(2, 2, True)),
              ("ids1", ids(1)), ("ids2", ids(2)), ("ids3", ids(3)), ("small1", small(1)), ("small2", small(2)), ("args", arguments), ("imports2", import_graph(["main", "a"], SPELL, True)), ("imports3", import_graph(["main", "a", "b"], SPELL if T else ["rel", "link"]))]
        f += [("h_stray", handling(stray([0, 1], CONTAINERS[:5]))), ("h_ids1", handling(ids(1))), ("h_args", handling(arguments)), ("h_graph", handling(macro_graph(2, 1, True))), ("h_free1", handling(free(1))),
              ("h_imports2", handling(import_graph(["main", "a"], SPELL, True))), ("h_ssb0", handling(ssb_edits([["delete", "double"]]))), ("h_scoping", handling(scoping))]
        if T:
            f += [("replace2", chars(SOURCES, 2, "replace")), ("insert2", chars(SOURCES, 2, "insert")), ("holes3", holes(3, HOLES)), ("toks2", edits([["delete", "double", "replace"], ["delete", "insert"]], PROGRAMS[:6])), ("stray3", stray([3], CONTAINERS[:9], LEAVES, FRAMES[:3], 1)),
                  ("graph32", macro_graph(3, 2, False)), ("imports3r", import_graph(["main", "a", "b"], SPELL, True)), ("imports4", import_graph(["main", "a", "b", "c"], ["rel"]))]
        return f

    def replay(self, p):
        c15.RUN = c15.run_process
        return judge(p)

    def confirm(self, p):
        return judge(p)

    def extra(self, st):
        return {"programs": int(st.get("programs", 0)), "accepted": int(st.get("result_ok", 0)), "rejected": int(st.get("result_rejected", 0))}


LEGAL = """macro m($a) { @l; op($a); if ($a == 1) { jump @l; } } macro n() { ~m(1); ~m(2); }
def 0 { ~n(); @l; switch ($V) { case 1: case 2: break; default: forever { if (debug) { break; } continue; } } message_SwitchTalk ($V) { case 1: 'a' default: 'b' }
 if (not $PERFORMANCE_PROGRESS_LIST[1] || $A[2]) { jump @l; } elseif not ($A[1]) { call @k; } with (actor 1) { jump @k; } while (debug) { break_loop; } } coro X { @k; alias(); }"""


def judge(p):
    global HANDLING
    d = judge1(p)
    if d is None:
        HANDLING = True
        try:
            d = judge1(p)
        finally:
            HANDLING = False
        d = d and d + " (when compile is called while an exception is being handled)"
    return d


def judge1(p):
    if "stale" in p:
        d = stale_check(p["stale"])
        return d and f"{d}: {p['stale']!r}"
    if "cli" in p:
        d = cli_check(p["cli"], p["args"])
        return d and f"{d}: {p['cli']!r}"
    if "nested" in p:
        return nested_check(*p["nested"])
    if "macros_only" in p:
        r, e = outcome(lambda: real.compile_text(p["macros_only"], macros_only=True, original_base_file=p["base"]))
        return None if r == "rejected" else f"macros_only: {p['macros_only']!r} is not rejected ({r})"
    if "project" in p:
        q = p["project"]
        r, e = run_project(q)
        rs = q["must"] if "must" in q else project_reasons(q["files"], q["lookup"], "main.exps", q.get("links", {}))
        what = repr({k: v for k, v in q.items() if k in ("files", "name", "lookup", "links", "dirs") and v})
    else:
        saved = real.PERF
        real.PERF = p.get("perf", saved)
        try:
            r, e = outcome(single(p["text"]))
            rs = reasons(p["text"])
        finally:
            real.PERF = saved
        what = repr(p["text"])
    if r == "bad":
        return f"{what} raises {describe(e)}"
    if r == "ok" and rs:
        return f"{what} is accepted: {sorted(rs)}"
    return None


CHECK = C10
