"""C07: parallel solver on point data, every number of data."""
from mc.checks import _point

TOL = 1e-7
WHAT = "lcp"
RULE = (
    "Every word over an alphabet of gaps up to the stated length is a data set; every kernel "
    "expression of the listed derivation tree x word is replayed with the parallel solver and compared "
    "with the dense answer (the sequential solver is compared with the same answer by C01-C03); every "
    "number of data 1..17 and around 32, 64 and 128 is covered, so every shape of the associative scan's "
    "tree up to depth 7. distinct_nontrivial counts distinct rows of answers."
)
ASSUMPTIONS = [
    "log-likelihood quadratic, posterior mean linear in the data",
    "double precision",
]


def shards(tier, seed):
    S = _point.shards(tier, WHAT, "par", eager=1)
    sizes = list(range(2, 18)) + [31, 32, 33, 64, 65, 128]
    if tier == "quick":
        for s in S:
            if s.get("kernel") in _point.LEAVES:
                s["sizes"] = [(4, "5"), (1, "2")]
                s["noises"] = ["varied"]
            elif "sizes" in s:
                s["sizes"] = s["sizes"][:1]
    else:
        sizes += list(range(18, 31)) + list(range(34, 63)) + [63, 127, 129, 255, 256, 257]
    k = 2 if tier == "quick" else 4
    for i in range(k * 4):
        if sizes[i :: k * 4]:
            S.append(dict(scan=sizes[i :: k * 4], solver="par", what="lc" if tier == "quick" else WHAT,
                          full=tier != "quick", weight=20))
    return S


def run(shard):
    if "scan" in shard:
        return _point.run_scan(shard, TOL)
    return (_point.run_plain if "plain" in shard else _point.run)(shard, TOL)


def replay(case):
    return _point.replay(case, TOL)
