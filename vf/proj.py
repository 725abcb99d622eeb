"""Multi-file projects: written to a scratch directory, compiled with the real compiler; own import resolution for the reference."""
from __future__ import annotations
import os
import shutil
import tempfile
from . import lang, real
from .checks import common as cm

ROOT = "{ROOT}"


class Scratch:
    def __init__(self, files, lookup=()):
        self.files, self.lookup = files, list(lookup)

    def __enter__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="vf-proj-"))
        for rel, text in self.files.items():
            p = os.path.join(self.root, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(text.replace(ROOT, self.root))
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, rel):
        return os.path.join(self.root, rel)

    def compile(self, main):
        return real.compile_text(self.files[main].replace(ROOT, self.root), self.path(main), [self.path(l) for l in self.lookup])


def resolve(files, lookup, importer, imp):
    """docs/language_spec.rst, Imports -> relative file name, None when there is no such file"""
    if imp.startswith(ROOT + "/"):
        p = os.path.normpath(imp[len(ROOT) + 1:])
        return p if p in files else None
    if imp.startswith("./") or imp.startswith("../"):
        p = os.path.normpath(os.path.join(os.path.dirname(importer), imp))
        return p if p in files else None
    for l in lookup:
        p = os.path.normpath(os.path.join(l, imp))
        if p in files:
            return p
    return None


def closure(files, lookup, main, progs=None):
    """-> (name -> (params, body), name -> file) of all macros visible in main; LangError on missing or cyclic imports"""
    progs = progs if progs is not None else {k: lang.parse(v) for k, v in files.items()}
    macros, where = {}, {}
    seen = set()

    def go(f, stack):
        if f in stack:
            raise lang.LangError("cyclic import")
        if f in seen:
            return
        for im in progs[f].a[0]:
            t = lang.str_value_single(im.a[0])
            g = resolve(files, lookup, f, t)
            if g is None:
                raise lang.LangError("missing import " + t)
            go(g, stack + [f])
        seen.add(f)
        for it in progs[f].a[1]:
            if it.k == "macrodef":
                if it.a[0] in macros:
                    raise lang.LangError("macro name used twice")
                macros[it.a[0]] = (it.a[1], it.a[2])
                where[it.a[0]] = f
            elif f != main:
                raise lang.LangError("routine in an imported file")
    go(main, [])
    return macros, where


def files_at(cx, m, files):
    return {k: cm.at_values(cx, m, v) for k, v in files.items()} if m is not None and cx.ints else dict(files)
