"""C17: the highlighting lexer over symbolic characters."""
from __future__ import annotations
from .. import cset, engine, real, run, sx

LIMIT_TOKENS = 4000


def tokens(text):
    """[(token type, text)] of the real lexer"""
    lx = real.m.pyg.ExplorerScriptLexer()
    out = []
    for i, (t, v) in enumerate(lx.get_tokens(text)):
        if i > LIMIT_TOKENS + 20 * len(text):
            return None
        out.append((str(t), v))
    return out


def framework(text):
    """what Pygments does to line ends and byte order marks of every text before any lexer sees it (known finding)"""
    return text.removeprefix("\ufeff").replace("\r\n", "\n").replace("\r", "\n")


def judge(text, toks, accepted):
    """concrete -> description or None"""
    if toks is None:
        return "the lexer does not terminate"
    got = "".join(v for _, v in toks)
    if got != text and got != text + "\n":
        return f"text lost or added: {text!r} -> {got!r}"
    if accepted and any(t.startswith("Token.Error") for t, _ in toks):
        return f"error token for accepted source {text!r}: " + repr([x for x in toks if x[0].startswith("Token.Error")][:3])
    return None


def is_accepted(text):
    try:
        real.compile_text(text)
        return True
    except real.documented_errors():
        return False


def sym_check(cx, tx, text, accepted=None):
    """run the lexer on a symbolic text; the concatenation must be the text for every value of its characters"""
    cx.w.stats.add("programs")

    def payload(err):
        return lambda m: dict(err=err, text=tx.concrete(text, m), accepted=bool(accepted))
    try:
        toks = tokens(text)
    except Exception as e:
        tx.fail(payload(f"lexer raises {type(e).__name__}"))
    if toks is None:
        tx.fail(payload("does not terminate"))
    got = "".join(v for _, v in toks)
    # expected, with the line ends normalised by the framework
    want = text
    if want and tx.member(want[0], cset.of("\ufeff")):
        want = want[1:]
    want = sx.s_replace(sx.s_replace(want, "\r\n", "\n"), "\r", "\n") if sx.is_sym(want) else framework(want)
    import z3
    a, b = tx.same(got, want), tx.same(got, want + "\n")
    if a is False and b is False:
        tx.fail(payload("text lost or added"))
    tx.prove(z3.Or(z3.BoolVal(a) if isinstance(a, bool) else a, z3.BoolVal(b) if isinstance(b, bool) else b), payload("text lost or added"))
    if accepted and any(t.startswith("Token.Error") for t, _ in toks):
        tx.fail(payload("error token in an accepted source"))
    return [t[6:] for t, _ in toks]


def free(n):
    def h(cx):
        tx = sx.Text(cx)
        text = tx.run(n)
        ks = sym_check(cx, tx, text)
        return dict(family="free", classes=[[(hex(a), hex(b)) for a, b in c.dom[:3]] for c in tx.cs], tokens=ks[:6])
    return h


# symbolic runs inside the states of the lexer that a short free text does not reach
PARTS = [
    ('"', '"'), ("'", "'"), ('"""', '"""'), ("'''", "'''"), ('"""', ""), ("'''", ""), ('"', ""), ("//", "\nx"), ("//", ""), ("/*", "*/"), ("/*", ""), ("0x", ""), ("0b", ""), ("$", ""),
    ("@", ""), ("§", ""), ("Position<", ">"), ("for_", " X"), ("break", ";"), ("men", "u"), (".", "5"), ("5.", ""), ("~", "()"), ("/* a\n*", "/ b"), ("\\", "\nx"), ("'\\", "' x"),
    ('"""a"', '"b"""'), ("'''a'", "'b'''"), ("\n\n", "\n\n"), ("", "\n\n"), ("\ufeff", "")]


def wrapped(n, parts=PARTS):
    def h(cx):
        tx = sx.Text(cx)
        a, b = cx.choose(parts, "part")
        text = a + tx.run(n) + b
        ks = sym_check(cx, tx, text)
        return dict(family="wrapped", around=[a, b], tokens=ks[:6])
    return h


# accepted sources with holes: (before, hole kind, after)
PROG = '''import "x.exps";
macro m($a, $b) { op($a, $b); return; }
coro C { op(); }
def 0 {
    @l; §k;
    op(1, -1, 0x1F, 0b101, 0o17, .5, -1.50, 007.10, "s", 's', """m""", \'\'\'m\'\'\', {english="a", german='b',}, Position<'p', 1.5, -2>, $V, CONST,);
    if (not scn($S) == [1, 2] || $A[3] || debug && x) { jump @l; } elseif ($B >= value(3)) { call @k; } else { end; }
}
'''
ACCEPTED = [
    'def 0 { op(1, -1, 0x1F, 0b101, 0o17, .5, -1.50, 007.10, CONST, $V,); hold; }',
    'def 0 { @l; op("s", \'t\', """m\n  n""", \'\'\'m\'\'\'); §k; jump @l; jump @k; }',
    'def 0 { op({english="a\\n", german=\'b\',}); op(Position<\'p\', 1.5, -2>); op<actor A>(1); end; }',
    'def 0 for actor A { with (actor B) { op(); } message_SwitchTalk ($V) { case 1: "a" default: {english="b",} } return; }',
    'def 0 for_actor(3) { if (debug || not edit) { $A = 3; } elseif ($B[2]) { $C += value($D); } else { clear $E; } end; }',
    'def 0 { switch (random(3)) { case 0: op(); break; case > 4: default: forever { break_loop; } } while ($A != 2) { continue; } for ($i = 0; $i < 3; $i += 1;) { op(); } }',
    'macro m($a) { op($a); } def 0 { ~m(5); m_(); $X = scn[1,2]; adventure_log = 4; dungeon_mode(2) = CLOSED; init $Y; reset dungeon_result; }',
    'coro A { alias previous; } coro B { op(); }',
]
LAYOUT = cset.of(" \t\n\r\\/")


def boundaries(text):
    from .. import lang
    return sorted({t.i for t in lang.lex(text)} | {len(text)})


def layout_holes(n, first=sx.ALL):
    """n symbolic characters at a token boundary of an accepted source; kept when the compiler accepts the result"""
    def h(cx):
        tx = sx.Text(cx)
        src = cx.choose(ACCEPTED, "src")
        bs = BOUNDS[src]
        i = bs[cx.pick(len(bs), "at")]
        text = src[:i] + tx.char("c", first) + tx.run(n - 1) + src[i:]
        if not parsed(text):
            raise engine.Abandon
        ks = sym_check(cx, tx, text, True)
        return dict(family="layout", text=tx.plain(text)[:80])
    return h


def parsed(text):
    """accepted by the compiler"""
    try:
        real.compile_text(text)
        return True
    except real.documented_errors():
        return False


BOUNDS = {}

LITS = [('"', '"'), ("'", "'"), ('"""', '"""'), ("'''", "'''"), ("0x", ""), ("0b", ""), ("0o", ""), ("", ""), ("-", ""), (".", ""), ("0.", ""), ("$", ""), ("X", ""), ("-.", "")]


def literal_holes(n, LITS=LITS):
    """an operation with a literal of n symbolic characters; kept when the compiler accepts it"""
    def h(cx):
        tx = sx.Text(cx)
        a, b = cx.choose(LITS, "lit")
        text = "def 0 { op(" + a + tx.run(n) + b + "); } "
        if not parsed(text):
            raise engine.Abandon
        sym_check(cx, tx, text, True)
        return dict(family="literal", text=tx.plain(text))
    return h


def names(n, k=99):
    """labels, macro names, coroutine names, languages and so on of n symbolic characters; comments at the end of the file"""
    T = ["def 0 { @%s; jump @%s; }", "def 0 { §%s; op(); jump @%s; }", "coro %s { op(); }", "def 0 { %s(); }", "def 0 for actor %s { op(); }",
         "macro %s() { op(); } def 0 { ~%s(); }", "def 0 { op({%s=''}); }", "def 0 { op(); } //%s", "def 0 { op(); } /*%s*/", "def 0 { op(); } /*%s",
         "def 0 { switch ($V) { case %s: op(); } }", "def 0 { $A = %s; }", "def 0 { op(); } \\%s\n", "def 0 { op(Position<'%s', 1, 2>); }",
         "def 0 { op(Position<'p', 1.%s, 2>); }", "macro m($%s) { op($%s); } def 0 { ~m(1); }", "def 0 { op<%s 1>(); }", "def %s { op(); }"]

    def h(cx):
        tx = sx.Text(cx)
        t = cx.choose(T[:k], "tmpl")
        text = t.replace("%s", tx.run(n))
        if not parsed(text):
            raise engine.Abandon
        sym_check(cx, tx, text, True)
        return dict(family="names", text=tx.plain(text))
    return h


class C17(run.Check):
    id = "C17"
    level = "exploration"
    technique = ("symbolic execution of the real Pygments lexer (its regular expressions matched over symbolic characters) and, for accepted sources, of the real ANTLR lexer, parser and "
                 "compiler; z3 decides per path that the token texts concatenate to the input")
    level_note = "all Unicode texts up to the stated lengths and all fillings of the stated holes in accepted sources; longer texts only through the holes"
    seconds = {"quick": 75, "thorough": 3600}
    limit = 20
    bounds = {
        "quick": "free texts of up to 3 characters; 2 characters inside each of 31 surroundings (string, comment, number, keyword states); accepted sources: 1 "
                 "character, and a blank, backslash or slash and another character, at each token boundary of 8 sources, literals of up to 2 (strings 3) and names of up to 2 characters. Each character ranges over all of Unicode outside plane 16 and the "
                 "surrogates",
        "thorough": "free texts of up to 5 characters; 4 characters in each surrounding; 3 characters at each token boundary; literals of up to 5 characters; names of up to 4",
    }
    assumptions = ["regular expressions are matched by our matcher over the parse tree Python's re builds for them (the texts of counterexamples are replayed with re)",
                   "line ends (CR, CR LF) and a leading byte order mark are normalised by Pygments before any lexer sees the text (known finding); texts are compared modulo that"]

    def setup(self):
        sx.install(pygments=True)
        from . import common
        common.load_all()
        for s in ACCEPTED:
            BOUNDS[s] = boundaries(s)
        real.m.pyg.ExplorerScriptLexer()
        # sources with syntax errors are of no interest here: give them up at the first one
        from explorerscript.syntax_error_listener import SyntaxErrorListener

        def syntaxError(self, *a, **k):
            if engine.CUR is not None:
                raise engine.Abandon
            self.syntax_errors.append("syntax error")
        SyntaxErrorListener.syntaxError = syntaxError

    def control(self):
        ok = judge("a b", [("Token.Name", "a"), ("Token.Text", "b\n")], False) is not None
        return ok, "a token stream with a missing blank is refuted"

    def families(self, tier):
        if tier == "quick":
            return [("free%d" % n, free(n)) for n in (0, 1, 2, 3)] + [("wrapped1", wrapped(1)), ("wrapped2", wrapped(2)), ("layout1", layout_holes(1)), ("layout2", layout_holes(2, LAYOUT)),
                    ("literal1", literal_holes(1)), ("literal2", literal_holes(2)), ("literal3", literal_holes(3, LITS[:4])), ("names1", names(1)), ("names2", names(2, 9))]
        return [("free%d" % n, free(n)) for n in (0, 1, 2, 3, 4, 5)] + [("wrapped%d" % n, wrapped(n)) for n in (1, 2, 3, 4)] + \
            [("layout%d" % n, layout_holes(n)) for n in (1, 2, 3)] + [("literal%d" % n, literal_holes(n)) for n in (1, 2, 3, 4, 5)] + [("names%d" % n, names(n)) for n in (1, 2, 3, 4)]

    def replay(self, p):
        text = p["text"]
        import signal

        class TO(Exception):
            pass

        def alarm(*_):
            raise TO
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(20)
        try:
            toks = tokens(text)
        except TO:
            return f"the lexer does not terminate on {text!r}"
        except Exception as e:
            return f"the lexer raises {type(e).__name__} on {text!r}: {e}"
        finally:
            signal.alarm(0)
        return judge(text, toks, p.get("accepted") and is_accepted(text))

    def confirm(self, p):
        try:
            toks = tokens(p["text"])
        except Exception as e:
            return f"raises {type(e).__name__}"
        try:
            acc = p.get("accepted") and is_accepted(p["text"])
        except engine.Abandon:
            acc = False
        return judge(p["text"], toks, acc)

    def finding(self, p, desc):
        # only the framework's own normalisation
        t = p["text"]
        toks = tokens(t)
        if toks is not None and judge(framework(t), toks, p.get("accepted") and is_accepted(t)) is None:
            return "newline-normalisation"


CHECK = C17
