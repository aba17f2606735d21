"""C02: conditioning on point data (sequential solver)."""
from mc.checks import _point

TOL = 1e-7
WHAT = "c"
RULE = (
    "Every word over an alphabet of gaps (zero, tiny, short, long, very long) up to the stated "
    "length is a data set; every kernel expression of the listed derivation tree x parameter regime "
    "x word x noise pattern is replayed"
    "; data vectors 0 and e_i decide the posterior mean, linear in y, for all y. distinct_nontrivial counts distinct posterior rows."
)
ASSUMPTIONS = [
    "the posterior mean is linear in the data vector",
    "double precision",
]


def shards(tier, seed):
    return _point.shards(tier, WHAT, None)


def run(shard):
    if "scan" in shard:
        return _point.run_scan(shard, TOL)
    return (_point.run_plain if "plain" in shard else _point.run)(shard, TOL)


def replay(case):
    return _point.replay(case, TOL)
