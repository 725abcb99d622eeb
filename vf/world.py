"""Calls of the compilers and decompilers as data, and their results as data (C11, C12).

event: dict with "do":
  compile    text, [name], [shared] (use the world's compiler object), [lookup], [files] (written to the scratch directory first)
  decompile  ops (oplists dump) or text (compiled first), [again] (convert() of the decompiler object used by the last decompile)
  sscompile  text
  ssdecompile ops / text (ExplorerScript, compiled first)
  roundtrip  text: compile, decompile the result
"""
from __future__ import annotations
import os
import re
from . import oplists, real


def smap_data(s):
    return None if s is None else s.serialize()


def macros_data(c):
    out = []
    for n, m in c.macros.items():
        out.append((n, m.name, tuple(m.variables), m.included__relative_path, m.included__absolute_path,
                    tuple((type(b).__name__, getattr(getattr(b, "op_code", None), "name", None)) for b in m.blueprints)))
    return tuple(sorted(out, key=repr))


def compiled(c, ss=False):
    ops = None if c.routine_ops is None else tuple(tuple((o.offset, o.op_code.name, o.op_code.id, tuple(real.param(p) for p in o.params)) for o in r)
                                                   for r in c.routine_ops)
    infos = None if c.routine_infos is None else tuple((i.type.name, i.linked_to, i.linked_to_name) for i in c.routine_infos)
    r = {"ops": ops, "infos": infos, "coros": None if c.named_coroutines is None else tuple(c.named_coroutines), "source map": smap_data(c.source_map)}
    if not ss:
        r["imports"] = tuple(c.imports)
        r["macros"] = macros_data(c)
    return r


def err(e, root):
    s = str(e)
    if root:
        s = s.replace(root, "{ROOT}")
    if type(e).__name__ == "ParseError":
        # the wording depends on the prediction caches of the generated parser; the property speaks of ops, text and source maps
        s = ""
    return {"error": type(e).__name__, "message": re.sub(r"0x[0-9a-f]{6,}", "0x", s)[:2000]}


class World:
    """root: scratch directory; the objects a history may share with later calls"""

    def __init__(self, root=None):
        self.root = root
        self.comp = None
        self.deco = None
        self.ops = {}

    def path(self, rel):
        return os.path.join(self.root, rel) if self.root else "/nonexistent/" + rel

    def write(self, files):
        for rel, text in files.items():
            p = self.path(rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(text)

    def given(self, ev, reuse):
        """(infos, ops, coros) of an event; the same objects again when reuse is set and they were made before"""
        key = ev.get("obj")
        if reuse and key in self.ops:
            return self.ops[key]
        d = ev["ops"] if "ops" in ev else {"text": ev["text"]}
        r = oplists.load(d).build() if not isinstance(d, (oplists.Ops, oplists.FromText)) else d.build()
        if key is not None:
            self.ops[key] = r
        return r

    def do(self, ev):
        try:
            return self._do(ev)
        except Exception as e:
            return err(e, self.root)

    def _do(self, ev):
        if "files" in ev:
            self.write(ev["files"])
        k = ev["do"]
        if k == "compile":
            look = [self.path(x) for x in ev.get("lookup", ())]
            if ev.get("shared"):
                if self.comp is None:
                    self.comp = real.m.comp.ExplorerScriptSsbCompiler(real.PERF, look)
                c = self.comp
                c.lookup_paths = look
            else:
                c = real.m.comp.ExplorerScriptSsbCompiler(real.PERF, look) if look else real.m.comp.ExplorerScriptSsbCompiler(real.PERF)
            c.compile(ev["text"], self.path(ev.get("name", "main.exps")))
            return compiled(c)
        if k == "sscompile":
            if ev.get("shared"):
                if getattr(self, "sscomp", None) is None:
                    self.sscomp = real.m.sscomp.SsbScriptSsbCompiler()
                c = self.sscomp
            else:
                c = real.m.sscomp.SsbScriptSsbCompiler()
            c.compile(ev["text"])
            return compiled(c, True)
        if k == "roundtrip":
            c = real.compile_text(ev["text"])
            r = compiled(c)
            r["decompiled"], sm = real.decompile(c)
            r["decompiled map"] = smap_data(sm)
            return r
        if k in ("decompile", "ssdecompile"):
            if ev.get("again") and self.deco is not None and self.deco[0] == k:
                d = self.deco[1]
            else:
                infos, ops, coros = self.given(ev, ev.get("reuse"))
                if k == "decompile":
                    d = real.make_decompiler(infos, ops, coros)
                else:
                    d = real.m.ssdeco.SsbScriptSsbDecompiler(infos, ops, coros)
                self.deco = (k, d)
            text, sm = d.convert()
            return {"text": text, "source map": smap_data(sm)}
        raise AssertionError(k)


def leaves(a, b, out):
    """-> False when the structures differ in something that is not a symbolic integer; equations of the others in out"""
    from .sym import SymInt, lift
    if type(a) is SymInt or type(b) is SymInt:
        if not (isinstance(a, int) and isinstance(b, int)):
            return False
        out.append(lift(a) == lift(b))
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(leaves(x, y, out) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def differ(a, b):
    """-> (where or None, z3 condition under which the results differ)"""
    import z3
    if set(a) != set(b):
        return ("%s / %s" % (short(a), short(b)), z3.BoolVal(True))
    eqs = []
    for k in sorted(a):
        if not leaves(a[k], b[k], eqs):
            return ("%s: %s / %s" % (k, clip(a[k], b[k]), clip(b[k], a[k])), z3.BoolVal(True))
    return (None, z3.Not(z3.And(eqs)) if eqs else z3.BoolVal(False))


def short(r):
    return (r["error"] + ": " + r["message"][:200]) if "error" in r else "a result with " + ", ".join(sorted(r))


def clip(x, y):
    x, y = (x, y) if isinstance(x, str) and isinstance(y, str) else (repr(x), repr(y))
    i = 0
    while i < min(len(x), len(y)) and x[i] == y[i]:
        i += 1
    return "..." * (i > 60) + x[max(0, i - 60):i + 120]
