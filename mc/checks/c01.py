"""C01: likelihood of point data (sequential solver)."""
from mc.checks import _point

TOL = 1e-7
WHAT = "l"
RULE = (
    "Every word over an alphabet of gaps (zero, tiny, short, long, very long) up to the stated "
    "length is a data set; every kernel expression of the listed derivation tree x parameter regime "
    "x word x noise pattern is replayed"
    "; data vectors 0, e_i, e_i+e_j decide the quadratic form in y for all y. distinct_nontrivial counts distinct rows of log-likelihoods."
)
ASSUMPTIONS = [
    "the log-likelihood is a quadratic polynomial of the data vector",
    "double precision",
]


def shards(tier, seed):
    return _point.shards(tier, WHAT, None)


def run(shard):
    if "scan" in shard:
        return _point.run_scan(shard, TOL)
    return (_point.run_plain if "plain" in shard else _point.run)(shard, TOL)


def replay(case):
    return _point.replay(case, TOL)
