"""Access to the code under test (unpatched) and conversion of its results into oracle values."""
from __future__ import annotations
import logging
import os
import sys
import warnings

REPO = os.environ.get("VF_REPO", "/repo")
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

PERF = "$PERFORMANCE_PROGRESS_LIST"
DMODE = ("DMODE_CLOSE", "DMODE_OPEN", "DMODE_REQUEST", "DMODE_OPEN_AND_REQUEST")


def setup():
    for p in (REPO, "/opt/venv/lib/python3.12/site-packages"):
        if p not in sys.path:
            sys.path.insert(0 if p == REPO else len(sys.path), p)
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 3000))


setup()


class M:
    """Lazily imported modules of the package."""
    _c = {}

    def __getattr__(self, n):
        import importlib
        names = {
            "comp": "explorerscript.ssb_converting.ssb_compiler",
            "deco": "explorerscript.ssb_converting.ssb_decompiler",
            "dt": "explorerscript.ssb_converting.ssb_data_types",
            "sops": "explorerscript.ssb_converting.ssb_special_ops",
            "sscomp": "explorerscript.ssb_script.ssb_converting.ssb_compiler",
            "ssdeco": "explorerscript.ssb_script.ssb_converting.ssb_decompiler",
            "smap": "explorerscript.source_map",
            "err": "explorerscript.error",
            "reader": "explorerscript.explorerscript_reader",
            "clic": "explorerscript.cli.compile",
            "clid": "explorerscript.cli.decompile",
            "cli": "explorerscript.cli",
            "posvis": "explorerscript.ssb_converting.compiler.compiler_visitor.position_mark_visitor",
            "pyg": "explorerscript.pygments.expslexer",
        }
        m = importlib.import_module(names[n])
        return m


m = M()


class Rejected(Exception):
    """documented error"""


def documented_errors():
    return (m.err.ParseError, m.err.SsbCompilerError, ValueError)


def compile_text(text, fname="/nonexistent/main.exps", lookup=None, **kw):
    c = m.comp.ExplorerScriptSsbCompiler(PERF, lookup)
    c.compile(text, fname, **kw)
    return c


def param(p):
    dt = m.dt
    if isinstance(p, dt.SsbOpParamFixedPoint):
        from . import lang
        t = p.value
        return ("f", lang.dec_value(t if "." in t else t + ".0"))
    if isinstance(p, dt.SsbOpParamConstant):
        return ("c", p.name)
    if isinstance(p, dt.SsbOpParamConstString):
        return ("s", p.name)
    if isinstance(p, dt.SsbOpParamLanguageString):
        return ("l", tuple(sorted(p.strings.items())))
    if isinstance(p, dt.SsbOpParamPositionMarker):
        return ("p", p.name, p.x_offset, p.y_offset, p.x_relative, p.y_relative)
    if isinstance(p, int) or type(p).__name__ == "SymInt":
        return ("i", p)
    return ("?", type(p).__name__, repr(p))


def routines(ops):
    return [[(o.offset, o.op_code.name, tuple(param(p) for p in o.params)) for o in r] for r in ops]


def info(ri):
    """-> (kind name, target value)"""
    k = ri.type.name
    if ri.linked_to_name is not None:
        t = ("c", ri.linked_to_name)
    else:
        t = ("i", ri.linked_to)
    return k, t


def make_decompiler(infos, ops, coros):
    dt = m.dt
    return m.deco.ExplorerScriptSsbDecompiler(infos, ops, coros, PERF, dt.DungeonModeConstants(*DMODE))


def decompile(c):
    dt = m.dt
    coros = [dt.SsbCoroutine(i, n) for i, n in enumerate(c.named_coroutines) if n is not None and n != "n/a"]
    return make_decompiler(c.routine_infos, c.routine_ops, coros).convert()
