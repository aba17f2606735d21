"""C14: changes of units, time shifts and long gaps."""
from __future__ import annotations

import itertools

import numpy as np

import jax.numpy as jnp

from mc import impl, judge, models, ref
from mc.checks import _integ, _point
from mc.checks._expr import tup
from mc.harness import ImplError, Result

LEVEL = "exploration"
TOL = 1e-7
ITOL = 3e-6
RULE = (
    "All changes of the time unit, of the data unit, of both to the extremes (thorough: all pairs), all {shift} x "
    "{time unit}, and all {gap between two halves of the data} x {how the data are divided}, for every kernel "
    "expression x parameter "
    "regime x data set, replayed on the implementation with each solver.  The oracle is the dense posterior in the "
    "base units, transformed by hand; across a gap, the two dense posteriors of the halves alone. "
    "distinct_nontrivial counts distinct answers."
)
ASSUMPTIONS = [
    "shifts are claimed where the shifted times are exactly representable (dyadic times and shifts)",
    "independence across a gap is claimed for covariances that decay",
    "double precision",
]

NOISE = np.array([0.05, 0.4, 0.12, 0.7, 0.2, 0.1, 0.3, 0.6])
POINT_T = np.array([[0.0, 0.40625, 0.40625, 2.5, 2.75, 4.0, 4.0625, 9.0],
                    [0.0, 0.125, 8.0, 8.0625, 8.5, 8.53125, 20.0, 21.0],
                    [0.0, 1.5, 3.25, 60.0, 60.5, 61.0, 61.25, 90.0]])
POINT_TT = np.concatenate(
    [POINT_T[:, :1] - 1.0, POINT_T[:, 1:2], 0.5 * (POINT_T[:, 2:3] + POINT_T[:, 3:]), POINT_T[:, 3:] + 0.375,
     POINT_T[:, :1] + 0.0625, POINT_T[:, 3:]], axis=1)
INT_T = np.array([[0.5, 2.5, 1.25, 4.0], [3.0, 1.0, 5.0, 0.0], [1.0, 2.0, 3.0, 9.5]])
INT_D = np.array([[1.0, 0.75, 0.0, 2.0], [2.0, 1.0, 0.5, 0.0], [1.0, 1.0, 1.0, 12.0]])
INT_I = np.array([[0, 0, 1, 1], [0, 1, 0, 1], [0, 0, 0, 1]])
INT_TT = np.array([[-1.0, 0.75, 2.5, 3.0, 6.0, 1.25], [-1.0, 2.0, 3.5, 4.25, 9.0, 1.0], [0.0, 0.5, 2.0, 9.5, 17.0, 5.0]])
# sub-milli-period exposures, and long ones
INT_T = np.concatenate([INT_T, [[0.5, 0.53125, 8.0, 300.0]]])
INT_D = np.concatenate([INT_D, [[1 / 64, 1 / 64, 1 / 32, 64.0]]])
INT_I = np.concatenate([INT_I, [[0, 0, 1, 0]]])
INT_TT = np.concatenate([INT_TT, [[0.0, 0.5, 4.0, 290.0, 400.0, 8.0]]])


def scale_time(k, a):
    op = k[0]
    if op in ("Sum", "Product"):
        return (op, scale_time(k[1], a), scale_time(k[2], a))
    if op == "Scale":
        return (op, k[1], scale_time(k[2], a))
    if op == "SHO":
        return (op, k[1] / a) + k[2:]
    if op == "Constant":
        return k
    return (op, k[1] * a) + k[2:]


def scale_data(k, u):
    op = k[0]
    if op == "Sum":
        return (op, scale_data(k[1], u), scale_data(k[2], u))
    if op == "Product":
        return (op, scale_data(k[1], u), k[2])
    if op == "Scale":
        return (op, k[1] * u * u, k[2])
    i = dict(SHO=3, Constant=1, ESS=3).get(op, 2)
    return k[:i] + (k[i] * u,) + k[i + 1 :]


def decays(k):
    if k[0] == "Sum":
        return decays(k[1]) and decays(k[2])
    if k[0] == "Product":
        return decays(k[1]) or decays(k[2])
    if k[0] == "Scale":
        return decays(k[2])
    return k[0] not in ("Cosine", "Constant", "ESS")


TIMES = {"quick": [2.0**-40, 2.0**40] + [10.0**e for e in (-9, -6, -3, 3, 5, 9, 12)],
         "thorough": [2.0**e for e in (-60, -40, -20, 20, 40, 60)] + [10.0**e for e in range(-18, 19)]}
UNITS = {"quick": [10.0**e for e in (-9, -5, -3, 3, 5, 9)], "thorough": [10.0**e for e in range(-15, 16) if e]}
SHIFTS = {"quick": [s * 2.0**e for e in (3, 21, 40) for s in (-1, 1)],
          "thorough": [s * 2.0**e for e in range(1, 42, 3) for s in (-1, 1)]}
GAPS = {"quick": [2.0**e for e in (13, 20, 26, 32)], "thorough": [2.0**e for e in range(13, 33)]}
STIFF = [("SHO", 0.9, 0.03, 1.2)]
Q_IPAR = ("SHO", "Matern52", "Exp+SHO+Exp")
Q_PAR = ("SHO", "Exp", "Matern32", "Matern52", "Cosine", "SHO+M32", "M52+SHO", "Exp*Cos", "c*SHO")


# components of very different state scales
POINT = dict(_point.ALL)
POINT["M52+SHO"] = [("Sum", ("SHO", 1.3, 3.0, 1.0), ("Matern52", 0.3, 2.0)),
                    ("Sum", ("Matern52", 40.0, 1.0), ("SHO", 1.3, 0.5, 0.1))]


def shards(tier, seed):
    q = tier == "quick"
    S = []
    for k in POINT:
        S.append(dict(kernel=k, solver="seq", tier=tier, weight=3))
        if not q or k in Q_PAR:
            S.append(dict(kernel=k, solver="par", tier=tier, weight=5))
    for k in _integ.KERNELS:
        S.append(dict(kernel=k, solver="iseq", tier=tier, weight=10))
        if not q or k in Q_IPAR:
            S.append(dict(kernel=k, solver="ipar", tier=tier, weight=25))
    for s in ("seq", "par", "iseq", "ipar"):
        S.append(dict(plain=True, kernel="SHO" if s in ("seq", "par") else "Exp", solver=s, tier=tier, weight=12))
    return S


def variants(shard):
    return (POINT if shard["solver"] in ("seq", "par") else _integ.KERNELS)[shard["kernel"]]


def base(solver):
    if solver in ("seq", "par"):
        return (POINT_T, np.zeros_like(POINT_T), np.zeros(POINT_T.shape, int)), POINT_TT
    return (INT_T, INT_D, INT_I), INT_TT


def dense(k, T, D, tt, Y, what, cut=None):
    """dense posterior; cut = (number of data, number of tests) before a gap across which nothing correlates"""
    B, N = T.shape
    obs = [list(zip(T[b], D[b])) for b in range(B)]
    tob = [[(x, 0.0) for x in tt[b]] for b in range(B)]
    if not np.any(D):
        K = np.stack([ref.kfun(k, t[:, None] - t[None, :]) for t in T])
        Ks = np.stack([ref.kfun(k, x[:, None] - t[None, :]) for x, t in zip(tt, T)])
    else:
        K = np.stack([ref.cov_matrix(k, o) for o in obs])
        Ks = np.stack([ref.cov_matrix(k, x, o) for x, o in zip(tob, obs)])
    kss = ref.kfun(k, np.zeros(tt.shape[1]))
    if cut is not None:
        side, tside = cut
        K = K * (side[:, :, None] == side[:, None, :])
        Ks = Ks * (tside[:, :, None] == side[:, None, :])
    exp = judge.expected(K, np.broadcast_to(NOISE[:N], (B, N)), Y, Ks, kss, what)
    return exp, judge.scales(K, None, Y, kss)


def call(k, solver, X, tt, Y, diag, what, plain=False):
    """implementation's answers, batched if it can be, else one by one"""
    integ = solver in ("iseq", "ipar")
    x = X if integ else X[0]
    if not plain:
        try:
            return impl.bulk(impl.build(k, num=jnp.asarray, integrated=2 if integ else 0), x,
                             np.broadcast_to(diag, X[0].shape), Y, tt, solver=solver, what=what)
        except Exception:  # noqa: BLE001
            pass
    kj = impl.build(k, num=float, integrated=2 if integ else 0)
    outs = []
    for b in range(len(X[0])):
        xb = tuple(jnp.asarray(a[b]) for a in X) if integ else jnp.asarray(X[0][b])
        outs.append(impl.eager(kj, xb, jnp.asarray(diag), Y, tt[b], solver, what))
    return {n: np.stack([o[n] for o in outs]) for n in outs[0]}


def judge_case(r, label, k, k2, solver, X, tt, Y, u, exp, sc, what, tol, case, plain=False):
    """k: base kernel; k2 its transform; Y in base units"""
    r.states += 1
    r.transitions += 1
    r.traces += len(X[0])
    try:
        got = call(k2, solver, X, tt, Y * u, NOISE[: Y.shape[1]] * u * u, what, plain)
    except ImplError as e:
        r.violate(f"call:{label}:{shape(k)}:{solver}", f"{label} {k2} ({solver}) raised {e}", case)
        return
    n = Y.shape[1]
    back = {}
    for name, g in got.items():
        if name in ("logp", "clogp"):
            back[name] = g + n * np.log(u)
        else:
            back[name] = g / (u if name in ("loc", "pmu") else u * u)
    try:
        errs = judge.errors(back, exp, *sc)
    except judge.ShapeError as e:
        r.violate(f"shape:{label}:{shape(k)}:{solver}", f"{label} {k2} ({solver}): {e}", case)
        return
    for name, e in errs.items():
        r.evaluations += e.size
        m = float(np.max(e))
        if not m <= tol:
            i = np.unravel_index(np.argmax(e), e.shape)
            r.violate(
                f"{name}:{label.split()[0]}:{shape(k)}:{solver}",
                f"{label}: {name} of {k2} ({solver}) is {back[name][i]!r} in base units, expected {exp[name][i]!r} "
                f"(relative {m:.2g}), X={[a[i[0]].tolist() for a in X]} index {[int(v) for v in i[1:]]}", case)
        else:
            r.max_err = max(r.max_err, m)
    r.outcomes |= judge.outcome_hashes(back)


def shape(k):
    return str(impl.struct(k)).replace(" ", "").replace("'", "")


def lattice(tier):
    """(time unit, data unit, shift): products of two of them"""
    T, U, H = TIMES[tier], UNITS[tier], SHIFTS[tier]
    out = [(a, u, 0.0) for a in [1.0] + T for u in [1.0] + U]
    if tier == "quick":  # one at a time, or both to the extremes
        ends = {min(T), max(T)}, {min(U), max(U)}
        out = [(a, u, b) for a, u, b in out if a == 1.0 or u == 1.0 or (a in ends[0] and u in ends[1])]
    dy = [a for a in T if np.log2(a) % 1 == 0]
    if tier == "quick":
        return out + [(1.0, 1.0, b) for b in H] + [(2.0**40, U[0], b) for b in H[-2:]]
    out += [(a, u, b) for a in dy + ([] if 1.0 in dy else [1.0]) for b in H for u in (1.0, U[0])]
    return out


def basis(solver):
    n = base(solver)[0][0].shape[1]
    Y = models.y_basis(4)
    return Y if n == 4 else np.concatenate([Y, 0.5 * Y[:, ::-1]], axis=1)


def split_data(solver, how, G):
    """two halves, a gap G apart; -> X, tests, sides"""
    (T, D, I), tt = base(solver)
    T, tt = T.copy(), tt.copy()
    # (no gaps inside the halves)
    T[1], tt[1], T[2], tt[2] = T[1] * 0.25, tt[1] * 0.25, T[0] * 0.5, tt[0] * 0.5
    if np.any(D):
        T[3], tt[3] = T[1] * 0.5, tt[1] * 0.5
        D, I = D[[0, 1, 0, 1]] * np.array([1.0, 0.25, 0.5, 0.125])[:, None], I[[0, 1, 0, 1]]
    order = np.argsort(T, axis=1, kind="stable")
    # the last `how` data, in time, go beyond the gap
    side = np.zeros(T.shape, int)
    for b in range(len(T)):
        side[b, order[b][len(order[b]) - how :]] = 1
    T2 = T + G * side
    # tests: near the first half, the same ones near the second half, and in between
    a = tt[:, :3]
    tt2 = np.concatenate([a, a[:, ::2] + G, a[:, :1] + 0.5 * G], axis=1)
    tside = np.array([[0, 0, 0, 1, 1, 2]] * len(T))
    # base coordinates in which the halves are far apart only formally
    tb = np.concatenate([a, a[:, ::2], a[:, :1]], axis=1)
    return (T, D, I), (T2, D, I), tb, tt2, (side, tside)


def run(shard):
    r = Result()
    solver, tier = shard["solver"], shard["tier"]
    integ = solver in ("iseq", "ipar")
    tol = ITOL if integ else TOL
    # the noise-free cosine process makes smoothing of exposures singular (see known_findings.txt)
    what = "l" if integ and shard["kernel"] == "Cosine" else "lcp"
    plain = shard.get("plain", False)
    (T, D, I), tt = base(solver)
    Y = basis(solver)
    ks = variants(shard)
    lat = lattice(tier)
    if plain:
        ks, lat, Y = ks[:1], [(2.0**-40, 1.0, 0.0), (1e6, 1e5, 0.0), (1e-6, 1e-5, 0.0), (1.0, 1.0, 2.0**40)], Y[-1:]
    for vi, k in enumerate(ks):
        exp, sc = dense(k, T, D, tt, Y, what)
        for a, u, b in lat:
            k2 = scale_time(scale_data(k, u), a)
            X = (a * (T + b), a * D, I)
            case = dict(kernel=k, solver=solver, a=a, u=u, b=b, what=what)
            judge_case(r, f"units time x{a:g}, data x{u:g}, shift {b:g}:", k, k2, solver, X, a * (tt + b), Y, u, exp, sc,
                       what, tol, case, plain)
        if decays(k) and not (integ and k in STIFF):
            for how, G in itertools.product((1, 2, 3) if integ else (1, 4, 6), GAPS[tier]):
                if integ and G > 2.0**26:
                    continue  # (an idle integral's variance, growing with G, costs digits)
                if plain and (how, G) != (2 if integ else 4, 2.0**20):
                    continue
                gap_case(r, k, solver, how, G, Y, what, tol, plain)
        if len(r.violations) >= 12:
            break
    r.samples.append(dict(kernel=ks[0], solver=solver, units=lat[0], changes=len(lat)))
    return r


def gap_case(r, k, solver, how, G, Y, what, tol, plain):
    X1, X2, tb, tt2, cut = split_data(solver, how, G)
    exp, sc = dense(k, X1[0], X1[1], tb, Y, what, cut)
    case = dict(kernel=k, solver=solver, how=how, G=G, what=what)
    judge_case(r, f"gap {G:g} before the last {how}:", k, k, solver, X2, tt2, Y, 1.0, exp, sc, what, tol, case, plain)


def replay(case):
    r = Result()
    k = tup(case["kernel"])
    solver, what = case["solver"], case["what"]
    tol = ITOL if solver in ("iseq", "ipar") else TOL
    Y = basis(solver)
    if "G" in case:
        gap_case(r, k, solver, case["how"], case["G"], Y, what, tol, True)
    else:
        (T, D, I), tt = base(solver)
        exp, sc = dense(k, T, D, tt, Y, what)
        a, u, b = case["a"], case["u"], case["b"]
        judge_case(r, "units", k, scale_time(scale_data(k, u), a), solver, (a * (T + b), a * D, I), a * (tt + b), Y, u,
                   exp, sc, what, tol, case, True)
    return not r.violations, "; ".join(v["what"] for v in r.violations) or f"max error {r.max_err:.2e}"
