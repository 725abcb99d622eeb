"""Sets of code points as sorted tuples of disjoint, non-adjacent intervals."""
from __future__ import annotations
import bisect
import functools
import re

TOP = 0x10FFFF


def norm(iv):
    out = []
    for a, b in sorted(iv):
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def of(s):
    return norm([(ord(c), ord(c)) for c in s])


def union(*xs):
    return norm([i for x in xs for i in x])


def inter(x, y):
    out, i, j = [], 0, 0
    while i < len(x) and j < len(y):
        a, b = max(x[i][0], y[j][0]), min(x[i][1], y[j][1])
        if a <= b:
            out.append((a, b))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


@functools.lru_cache(100000)
def neg(x):
    out, p = [], 0
    for a, b in x:
        if p < a:
            out.append((p, a - 1))
        p = b + 1
    if p <= TOP:
        out.append((p, TOP))
    return tuple(out)


def minus(x, y):
    return inter(x, neg(y))


def has(x, c):
    i = bisect.bisect_right(x, (c, TOP + 1)) - 1
    return i >= 0 and x[i][0] <= c <= x[i][1]


@functools.lru_cache(None)
def matching(pattern):
    """code points a one-character pattern matches"""
    s = "".join(map(chr, range(TOP + 1)))
    return norm([(m.start(), m.end() - 1) for m in re.finditer("(?s:" + pattern + ")+", s)])


@functools.lru_cache(None)
def pred(name):
    """code points c with getattr(chr(c), name)()"""
    return norm([(c, c) for c in range(TOP + 1) if getattr(chr(c), name)()])


@functools.lru_cache(None)
def changed_by(name):
    return norm([(c, c) for c in range(TOP + 1) if getattr(chr(c), name)() != chr(c)])


@functools.lru_cache(None)
def id_continue():
    return norm([(c, c) for c in range(TOP + 1) if ("a" + chr(c)).isidentifier()])


FULL = ((0, TOP),)
DIGIT = of("0123456789")
NL = of("\n")
# str.splitlines
BREAKS = of("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
