"""C05: conditioning on exposure data for every exposure timeline and row order (sequential solver)."""
from mc.checks import _integ, c04

RULE = c04.RULE.replace("data vectors 0, e_i, e_i+e_j decide the quadratic form in y for all y",
                        "data vectors 0 and e_i decide the posterior mean, linear in y, for all y")
RULE = RULE.replace("log-likelihood rows", "posterior rows")
ASSUMPTIONS = ["the posterior mean is linear in the data vector", c04.ASSUMPTIONS[1]]
WHAT = "c"


def shards(tier, seed):
    S = []
    q = tier == "quick"

    def add(kernel, n, insts, grid, maps, noises, orders="all", w=10, eager=0, **kw):
        S.append(
            dict(kernel=kernel, n=n, insts=insts, grid=grid, maps=maps, noises=noises,
                 orders=orders, solver="iseq", weight=w, eager=eager, **kw)
        )

    M = ["irregular", "roundoff", "wide"]
    maps = {"SHO": M, "Exp": M, "Matern32": M, "Matern52": M[::2], "SHO+M32": M[:1],
            "Exp+SHO+Exp": M[:1], "c*SHO": M[1:2], "c*(M52+Exp)": M[1:2]}
    for k in maps:
        add(k, 3, 2, 5, maps[k] if q else M, ["varied"] if q else ["varied", "small"],
            w=20 + 20 * (k == "SHO"), eager=2 if k in ("SHO", "Matern32") else 0)
    add("Cosine", 2, 1, 5, M[:1], ["varied"])  # see known_findings.txt
    add("SHO", 1, 1, 5, M[:2], ["scalar"], num=3, variants=3)
    add("Exp", 2, 2, 6, M[:2], ["varied", "small"], num=3)
    add("Exp", 2, 2, 5, M[:1], ["varied"], num=5, labels=[4, 3])
    add("SHO", 2, 2, 7, M + ["unit"] if not q else M[:1], ["varied", "scalar"])
    add("SHO", 3, 3, 4 if q else 5, M[:1] if q else M, ["varied"], "one")
    add("SHO", 4, 2, 4 if q else 5, M[:1] if q else M, ["varied"], "one", variants=4)
    if not q:
        add("Matern52", 3, 3, 4, M, ["varied"], "one")
        for k in maps:
            add(k, 4, 2, 5, M + ["unit"], ["varied", "small"], "some", w=60)
            add(k, 3, 3, 5, M, ["varied", "scalar"], "all", w=40)
            add(k, 4, 3, 4, M, ["varied"], "one", w=60)
        add("SHO", 5, 2, 5, M, ["varied"], "one", w=90)
        add("Exp+SHO+Exp", 5, 2, 4, M, ["varied"], "one", w=90)
        add("Matern32", 5, 3, 4, M, ["varied"], "one", w=90)
    S += _integ.long_shards(tier, "iseq")
    return S


def run(shard):
    return _integ.run(shard, WHAT, _integ.SMOOTH_TOL)


def replay(case):
    return _integ.replay(case, _integ.SMOOTH_TOL)
