"""C06: prediction of the latent process at every position in every exposure timeline."""
from mc.checks import _integ, c04, c05

RULE = (
    "Breadth-first search of the exposure automaton; every complete timeline x kernel variant x "
    "time map is replayed and the process predicted at a fixed unsorted list of test times: every "
    "grid point (hence every exposure edge), the middle of every grid cell (inside, between), "
    "near and far before and after, and repeats.  Data vectors 0 and e_i decide the posterior "
    "mean, linear in y, for all y.  distinct_nontrivial counts distinct predicted rows."
)
ASSUMPTIONS = c05.ASSUMPTIONS
WHAT = "p"


def shards(tier, seed, solver="iseq", what=WHAT, pinned="p"):
    S = [dict(pinned=pinned)]

    def add(kernel, n, insts, grid, maps, noises, orders="one", w=10, eager=0, **kw):
        S.append(dict(kernel=kernel, n=n, insts=insts, grid=grid, maps=maps, noises=noises,
                      orders=orders, solver=solver, weight=w, eager=eager, **kw))

    M = ["irregular", "roundoff", "wide"]
    q = tier == "quick"
    maps = {"SHO": M[::2], "Exp": M, "Matern32": M[1:], "Matern52": M[::2], "SHO+M32": M[:1],
            "Exp+SHO+Exp": M[:1], "c*SHO": M[1:2], "c*(M52+Exp)": M[1:2], "Cosine": M[:1]}
    for k in _integ.KERNELS:
        n, i = (2, 1) if k == "Cosine" else (3, 2)  # see known_findings.txt
        add(k, n, i, 4 if q else 5, maps[k] if q else M, ["varied"], "one" if q else "all",
            w=30 + 20 * (k == "SHO"), eager=1 if k == "SHO" else 0)
    add("SHO", 1, 1, 5, M[:2], ["varied"], num=2, variants=3)
    add("Exp", 2, 2, 5, M[:2], ["small"], "all", num=3)
    add("Exp", 2, 2, 4, M[:1], ["varied"], num=5, labels=[4, 3])
    add("Exp", 2, 2, 4, ["even"], ["varied"], integer=True, w=20)
    add("SHO", 3, 3, 4, M[:1], ["varied"], variants=2)
    if not q:
        add("SHO", 1, 1, 5, M, ["varied"], num=2, eager=2)
        for k in _integ.KERNELS:
            if k == "Cosine":
                continue
            add(k, 3, 3, 5, M, ["varied"], w=60)
            add(k, 4, 2, 5, M, ["varied", "small"], w=60)
        add("SHO", 4, 3, 4, M, ["varied"], w=60)
        add("Matern32", 5, 2, 5, M, ["varied"], w=60)
    S += _integ.long_shards(tier, solver, True)
    return S


def run(shard):
    if "pinned" in shard:
        return _integ.run_pinned(shard, "iseq")
    return _integ.run(shard, WHAT, _integ.SMOOTH_TOL)


def replay(case):
    return _integ.replay(case, _integ.SMOOTH_TOL)
