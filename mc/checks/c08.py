"""C08: the parallel solver on exposure data, every timeline and every number of data."""
from mc.checks import _integ, c04, c06

RULE = (
    "Breadth-first search of the exposure automaton; every complete timeline x row order x kernel "
    "variant x time map is replayed through the parallel solver (likelihood, conditioning, "
    "prediction) and compared with the dense answer; larger numbers of data replay regular, "
    "interleaved and nested multi-instrument schedules and are also compared with the "
    "sequential solver.  distinct_nontrivial counts distinct observed rows."
)
ASSUMPTIONS = c04.ASSUMPTIONS


def shards(tier, seed):
    S = [dict(pinned="p")]
    q = tier == "quick"

    def add(what, kernel, n, insts, grid, maps, noises, orders="one", w=10, eager=0, **kw):
        S.append(dict(kernel=kernel, n=n, insts=insts, grid=grid, maps=maps, noises=noises,
                      orders=orders, solver="ipar", weight=w, eager=eager, what=what, **kw))

    M = ["irregular", "roundoff", "wide"]
    maps = {"SHO": M, "Exp": M, "Matern32": M[:2], "Matern52": M[::2], "SHO+M32": M[:1],
            "Exp+SHO+Exp": M[:1], "c*SHO": M[1:2], "c*(M52+Exp)": M[1:2], "Cosine": M[:1]}
    for k in maps if not q else ("SHO", "Exp", "Matern32", "Matern52", "SHO+M32", "c*(M52+Exp)", "Cosine"):
        n, i = (2, 1) if k == "Cosine" else (3, 2)  # see known_findings.txt
        add("c", k, n, i, 5 if k in ("SHO", "Exp") or not q else 4, maps[k] if q else M,
            ["varied"], "all", w=40, variants=4 if q else None)
    if q:
        add("p", "SHO", 2, 2, 4, M[:1], ["small"], "all", w=45, variants=2)
        add("p", "Matern32", 2, 2, 5, M[1:2], ["varied"], "one", w=30)
        add("p", "Matern52", 2, 2, 4, M[:1], ["varied"], "one", w=40, variants=1)
        add("p", "SHO+M32", 2, 2, 4, M[2:3], ["varied"], "one", w=40)
    else:
        for k in ("SHO", "Matern32", "c*(M52+Exp)"):
            add("lcp", k, 2, 2, 5, M, ["small"], "all", w=40)
        add("lc", "SHO", 1, 2, 5, M[:1], ["varied"], "all", eager=1)
    add("lc", "SHO", 1, 2, 5, M[:1], ["varied"], "all", variants=2)
    add("lc", "Exp", 4, 2, 4, M[:1], ["varied"], "one")
    add("lc", "Exp", 2, 2, 4, M[:1], ["varied"], num=5, labels=[4, 3])
    add("lcp", "Exp", 2, 2, 4, ["even"], ["varied"], integer=True, w=20)
    add("l", "SHO", 3, 3, 4, M[:1], ["varied"], "one", variants=2)
    for n in (5, 11) if q else (5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64):
        S.append(dict(big=n, kernel="Exp" if q else "SHO", weight=30, few=q))
    for n in (131,) if q else (24, 37, 131, 260):
        S.append(dict(long=n, kernel="Exp", variants=1 if q else 2, solver="ipar", what="lc" if q else "lcp", weight=30))
    if not q:
        for k in _integ.KERNELS:
            if k == "Cosine":
                continue
            add("lcp", k, 3, 2, 5, M, ["varied", "small"], "some", w=60)
            add("lc", k, 4, 2, 5, M, ["varied"], "one", w=60)
            add("lc", k, 3, 3, 5, M, ["varied"], "one", w=60)
            S.append(dict(big=12, kernel=k, weight=20))
        add("lc", "SHO", 5, 2, 4, M, ["varied"], "one", w=60)
    return S


def run(shard):
    if "pinned" in shard:
        return _integ.run_pinned(shard, "ipar")
    if "big" in shard:
        return _integ.run_big(shard, _integ.SMOOTH_TOL)
    return _integ.run(shard, shard["what"], _integ.SMOOTH_TOL)


def replay(case):
    return _integ.replay(case, _integ.SMOOTH_TOL)
