"""The kernel grammar: all expressions up to a depth, grouped by shape (= compiled code)."""
from __future__ import annotations

from mc.checks import _point

# leaf name -> parameter variants used inside compound expressions
SMALL = {
    "Exp": ("Exp", 1.9, 0.9),
    "M32": ("Matern32", 1.1, 0.8),
    "M52": ("Matern52", 1.6, 1.2),
    "Cos": ("Cosine", 4.1, 0.8),
    "Const": ("Constant", 0.6),
    "SHO": ("SHO", 1.7, 1.4, 0.9),
    "SHOo": ("SHO", 0.8, 0.3, 1.2),
    "ESS": ("ESS", 3.1, 0.7, 1.2, 3),
}
OPS = ("Sum", "Product")


def _other(k):
    if k[0] == "ESS":
        return ("ESS", 0.8 * k[1], 0.9 * k[2], k[3], k[4])
    return (k[0],) + tuple(0.7 * x for x in k[1:])


def pairs(leaves=None):
    lv = {n: SMALL[n] for n in (leaves or SMALL)}
    out = []
    for a, ka in lv.items():
        for b, kb in lv.items():
            kb = _other(kb) if a == b else kb
            for op in OPS:
                out.append((op, ka, kb))
    return out


def scaled(leaves=None):
    """scalings at every position of a two-leaf expression"""
    out = []
    lv = [SMALL[n] for n in (leaves or SMALL)]
    for i, ka in enumerate(lv):
        kb = lv[(i + 1) % len(lv)]
        out.append(("Scale", 2.5, ka))
        for op in OPS:
            out.append(("Scale", 0.4, (op, ka, kb)))
            out.append((op, ("Scale", 1.7, ka), kb))
            out.append((op, ka, ("Scale", 0.6, ("Scale", 3.0, kb))))
    return out


def triples(leaves=("Exp", "M32", "SHO")):
    out = []
    lv = [SMALL[n] for n in leaves]
    for x in lv:
        for y in lv:
            for z in lv:
                for o1 in OPS:
                    for o2 in OPS:
                        out.append((o2, (o1, x, y), z))
                        if o1 != o2:
                            out.append((o1, x, (o2, y, z)))
    return out


def leaves():
    return [k for v in _point.LEAVES.values() for k in v]


def size(k):
    """nodes of the expression tree"""
    return 1 + sum(size(x) for x in k[1:] if isinstance(x, tuple))


def has(k, names):
    return k[0] in names or any(has(x, names) for x in k[1:] if isinstance(x, tuple))


def tup(k):
    return tuple(tup(x) if isinstance(x, list) else x for x in k)


def base(k):
    return k
