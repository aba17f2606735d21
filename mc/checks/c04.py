"""C04: likelihood of exposure data for every exposure timeline (sequential solver)."""
from mc.checks import _integ

RULE = (
    "Breadth-first search of the exposure automaton (end/zero/start/tick events, no instrument "
    "open twice); every complete timeline x row order x kernel variant x time map x noise "
    "pattern is replayed; data vectors 0, e_i, e_i+e_j decide the quadratic form in y for all y. "
    "distinct_nontrivial counts distinct observed log-likelihood rows."
)
ASSUMPTIONS = [
    "the log-likelihood is a quadratic polynomial of the data vector",
    "double precision; relative tolerance 1e-7 against quadrature",
]
WHAT = "l"
SOLVER = "iseq"


def shards(tier, seed, what=WHAT, solver=SOLVER, eager=3):
    S = []

    def add(kernel, n, insts, grid, maps, noises, orders="all", w=10, eager=eager, **kw):
        S.append(
            dict(kernel=kernel, n=n, insts=insts, grid=grid, maps=maps, noises=noises,
                 orders=orders, solver=solver, weight=w, eager=eager, **kw)
        )

    M = ["irregular", "roundoff", "wide"]
    for k in _integ.KERNELS:
        add(k, 3, 2, 5 if tier == "quick" else 6, M, ["varied", "small"],
            w=20 + 20 * (k == "SHO"), eager=eager if k in ("SHO", "Matern32") else 0)
    add("SHO", 1, 1, 5, M, ["scalar", "varied"], num=3)
    add("Matern32", 1, 1, 4, M, ["scalar", "varied"])
    add("Exp", 2, 2, 6, M, ["varied"], num=3)
    add("Exp", 2, 2, 5, M[:1], ["varied"], num=5, labels=[4, 3])
    add("SHO", 2, 2, 7, M + ["unit"], ["varied", "scalar"])
    add("SHO", 3, 3, 5, M, ["varied"], "one")
    add("Matern52", 3, 3, 4, M, ["varied"], "one", eager=0)
    add("SHO", 4, 2, 5, M, ["varied"], "one", eager=0)
    for k in ("SHO", "Exp") if tier == "quick" else _integ.KERNELS:
        add(k, 2, 2, 5, ["even"], ["varied"], "one", integer=True, eager=2)
    for k in ("SHO", "Exp", "Matern32") if tier == "quick" else _integ.KERNELS:
        add(k, 2, 2, 6, ["brief", "fine"], ["varied"], "one", eager=0, tol=1e-6)
    if tier == "thorough":
        for k in _integ.KERNELS:
            add(k, 4, 2, 5, M + ["unit"], ["varied", "small"], "some", w=60)
            add(k, 3, 3, 5, M, ["varied", "scalar"], "all", w=40)
            add(k, 4, 3, 4, M, ["varied"], "one", w=60)
        add("SHO", 5, 2, 5, M, ["varied"], "one", w=90)
        add("Exp+SHO+Exp", 5, 2, 4, M, ["varied"], "one", w=90)
        add("Matern32", 5, 3, 4, M, ["varied"], "one", w=90)
    S += _integ.long_shards(tier, solver)
    return S


def run(shard):
    return _integ.run(shard, WHAT)


replay = _integ.replay
