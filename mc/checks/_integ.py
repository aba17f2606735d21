"""Shared engine of C04, C05, C06, C08: replay every exposure timeline on the implementation."""
from __future__ import annotations

import functools

import numpy as np

import jax.numpy as jnp

from mc import impl, judge, models, ref
from mc.harness import ImplError, Result

# kernel shapes and, for each, the parameter variants that share its compiled code
KERNELS = {
    "SHO": [
        ("SHO", 1.3, 2.0, 1.1),
        ("SHO", 1.3, 0.5, 1.1),
        ("SHO", 1.3, 0.2, 0.7),
        ("SHO", 0.3, 8.0, 1.0),
        ("SHO", 6.0, 0.8, 1.6),
        ("SHO", 0.9, 0.03, 1.2),
    ],
    "Exp": [("Exp", 1.4, 1.1), ("Exp", 0.2, 0.8)],
    "Matern32": [("Matern32", 1.5, 1.2), ("Matern32", 0.3, 0.8)],
    "Matern52": [("Matern52", 1.6, 1.2), ("Matern52", 0.4, 0.8)],
    "Cosine": [("Cosine", 5.3, 1.1), ("Cosine", 1.66, 0.7)],
    "SHO+M32": [("Sum", ("SHO", 1.9, 3.0, 0.9), ("Matern32", 2.0, 0.8))],
    "Exp+SHO+Exp": [
        ("Sum", ("Sum", ("Exp", 0.5, 0.7), ("SHO", 2.2, 0.3, 0.9)), ("Exp", 4.0, 0.8))
    ],
    "c*SHO": [("Scale", 2.5, ("SHO", 1.7, 1.5, 0.8))],
    "c*(M52+Exp)": [
        ("Scale", 0.4, ("Sum", ("Matern52", 1.6, 1.2), ("Exp", 0.7, 1.5)))
    ],
}

# smoothing divides by nearly singular covariances, so is held to less than the likelihood
SMOOTH_TOL = 3e-6

# how grid points are laid out in time
MAPS = {
    "irregular": [0.0, 0.7, 1.1, 2.4, 5.0, 5.6, 7.0],
    # edges that are not representable and do not come out equal after mid -+ delta/2
    "roundoff": [1325.5 + 0.1 * i for i in range(7)],
    "wide": [-3.0, -2.9, 40.0, 40.05, 900.0, 901.0, 902.0],
    # exposures far shorter than any timescale
    "brief": [0.3, 0.3 + 1e-6, 1.7, 1.7 + 4e-6, 1.7 + 5e-6, 2.9, 2.9 + 1e-4],
    "fine": [0.3, 0.303, 0.33, 1.7, 1.72, 1.7204, 1.9],
    "even": [-4.0, 0.0, 2.0, 6.0, 8.0, 12.0, 14.0],  # edges and middles are whole numbers
    "unit": [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0],
}

NOISE = {
    "varied": lambda n: np.array([0.05, 0.4, 0.12, 1.3, 0.02, 0.7])[:n],
    "scalar": lambda n: 0.2,
    "small": lambda n: np.array([1e-4, 3e-4, 1e-4, 2e-3, 1e-4, 5e-4])[:n],
}


def intervals(grid):
    return [(a, b) for a in range(grid) for b in range(a, grid)]


@functools.lru_cache(maxsize=None)
def _tables(kern, grid, mapname, tests):
    T = MAPS[mapname]
    iv = intervals(grid)
    obs = [((T[a] + T[b]) / 2, T[b] - T[a]) for a, b in iv]
    Kt = ref.cov_matrix(kern, obs)
    if tests is None:
        return Kt, None, None
    tob = [(t, 0.0) for t in tests]
    return Kt, ref.cov_matrix(kern, tob, obs), ref.kfun(kern, np.zeros(len(tests)))


def test_points(grid, mapname):
    T = MAPS[mapname][:grid]
    mids = [(a + b) / 2 for a, b in zip(T, T[1:])]
    span = T[-1] - T[0]
    pts = [T[-1] + 0.4] + list(T) + mids + [T[0] - 0.3, T[0] - 2 * span, T[-1] + 3 * span]
    return tuple(pts + [mids[0], T[1]])  # unsorted, with repeats


def datasets(grid, insts, n, orders):
    """every timeline x every row order -> index arrays (B,N) of interval and instrument"""
    tl, states, trans = models.timelines(grid, insts, n)
    iv = {ab: i for i, ab in enumerate(intervals(grid))}
    ords = models.row_orders(n, orders == "all")
    if orders == "one":
        rows = [
            [o[j] for j in ords[m % len(ords)]] for m, o in enumerate(tl)
        ]
    else:
        rows = [[o[j] for j in p] for o in tl for p in ords]
    I = np.array([[iv[(a, b)] for (_, a, b) in r] for r in rows])
    inst = np.array([[i for (i, _, _) in r] for r in rows])
    return I, inst, states, trans


def drop_zero_length(I, inst, grid):
    """see known_findings.txt: zero-length exposures of the (noise-free) cosine kernel"""
    iv = np.array(intervals(grid))
    ok = np.all(iv[I][:, :, 0] < iv[I][:, :, 1], axis=1)
    return I[ok], inst[ok]


def xarrays(I, inst, grid, mapname):
    T = np.array(MAPS[mapname])
    iv = np.array(intervals(grid))
    a, b = T[iv[:, 0]], T[iv[:, 1]]
    return (0.5 * (a + b))[I], (b - a)[I], inst.astype(int)


def make_case(kern, insts, solver, X, diag, y, tests, name, exp, got, idx):
    return dict(
        kernel=kern,
        insts=insts,
        solver=solver,
        t=np.asarray(X[0]).tolist(),
        delta=np.asarray(X[1]).tolist(),
        inst=[int(v) for v in X[2]],
        diag=np.asarray(diag).tolist(),
        y=[float(v) for v in y],
        tests=None if tests is None else [float(v) for v in tests],
        observable=name,
        index=idx,
        expected=float(exp),
        got=float(got),
    )


def run(shard, what, tol=judge.TOL):
    """shard: kernel key, n, insts (used), num (declared instruments), grid, maps, noises,
    orders, solver, eager (number of cases also run one by one), integer (integer coordinates)"""
    r = Result()
    tol = shard.get("tol", tol)
    if "long" in shard:
        return run_long(shard, what, tol)
    n, insts, grid = shard["n"], shard["insts"], shard["grid"]
    num = shard.get("num", insts)
    solver = shard["solver"]
    Y = models.y_basis(n, quad="l" in what)
    variants = KERNELS[shard["kernel"]]
    if shard.get("variants"):
        variants = variants[: shard["variants"]]
    first = True
    for mi, mapname in enumerate(shard["maps"]):
        orders = shard["orders"] if mi == 0 else "one"
        I, inst, st, trn = datasets(grid, insts, n, orders)
        if shard["kernel"] == "Cosine" and ("c" in what or "p" in what):
            I, inst = drop_zero_length(I, inst, grid)
        if first:
            r.states, r.transitions = st, trn
            first = False
        if "labels" in shard:  # other instruments of a larger set
            inst = np.array(shard["labels"])[inst]
        X = xarrays(I, inst, grid, mapname)
        if shard.get("integer"):  # times and exposures given as integers
            X = tuple(np.rint(a).astype(int) for a in X)
        tests = test_points(grid, mapname) if "p" in what else None
        tt = None if tests is None else np.broadcast_to(np.array(tests), (len(I), len(tests)))
        for ni, noise in enumerate(shard["noises"]):
            if ni and mi:
                continue
            diag = NOISE[noise](n)
            dvec = np.broadcast_to(diag, (len(I), n)) if np.ndim(diag) else diag
            R = np.broadcast_to(diag, (len(I), n))
            for kern in variants:
                Kt, Kst, kss = _tables(kern, grid, mapname, tests)
                Kmat = Kt[I[:, :, None], I[:, None, :]]
                Ks = None if Kst is None else np.moveaxis(Kst[:, I], 0, 1)
                exp = judge.expected(Kmat, R, Y, Ks, kss, what)
                prior, ymax = judge.scales(Kmat, R, Y, kss)
                kj = impl.build(kern, num=jnp.asarray, integrated=num)
                ctx = (kern, num, solver, X, diag, Y, tests, I)
                try:
                    got = impl.bulk(kj, X, dvec, Y, tt, solver=solver, what=what)
                    _compare(r, got, exp, prior, ymax, ctx, tol)
                    r.traces += len(I)
                    r.outcomes |= judge.outcome_hashes(got)
                except Exception as e:  # tracing failed or wrong shape: fall back to plain calls
                    r.notes["bulk_fallbacks"] = r.notes.get("bulk_fallbacks", 0) + 1
                    pick = np.unique(np.linspace(0, len(I) - 1, 60).astype(int))
                    _eager(r, pick, ctx, exp, prior, ymax, what, tol)
                    if not r.violations:
                        r.samples.append(dict(bulk_error=str(e)[:300]))
        # plain calls with Python-number parameters on a spread of cases
        if mi == 0 and shard.get("eager", 0):
            for kern in variants[:3]:
                Kt, Kst, kss = _tables(kern, grid, mapname, tests)
                pick = np.unique(np.linspace(0, len(I) - 1, shard["eager"]).astype(int))
                Kmat = Kt[I[pick][:, :, None], I[pick][:, None, :]]
                Ks = None if Kst is None else np.moveaxis(Kst[:, I[pick]], 0, 1)
                diag = NOISE[shard["noises"][0]](n)
                R = np.broadcast_to(diag, (len(pick), n))
                Ye = Y[-2:]
                exp = judge.expected(Kmat, R, Ye, Ks, kss, what)
                prior, ymax = judge.scales(Kmat, R, Ye, kss)
                Xp = tuple(a[pick] for a in X)
                ctx = (kern, num, solver, Xp, diag, Ye, tests, I[pick])
                _eager(r, np.arange(len(pick)), ctx, exp, prior, ymax, what, tol)
    if not variants or not len(I):
        return r
    k = variants[0]
    j = len(I) // 2
    r.samples.append(
        dict(kernel=k, solver=solver, rows=[
            dict(t=float(X[0][j][a]), delta=float(X[1][j][a]), inst=int(X[2][j][a]))
            for a in range(n)], timelines_times_orders=len(I))
    )
    return r


def _compare(r, got, exp, prior, ymax, ctx, tol):
    kern, num, solver, X, diag, Y, tests, I = ctx
    errs = judge.errors(got, exp, prior, ymax)
    for name, e in errs.items():
        r.evaluations += e.size
        m = float(np.max(e))
        if np.isfinite(m):
            r.max_err = max(r.max_err, m)
        if not m <= tol:
            idx = np.unravel_index(np.argmax(e), e.shape)
            b, yi = idx[0], idx[1]
            case = make_case(
                kern, num, solver, [a[b] for a in X], diag, Y[yi],
                tests[b] if np.ndim(tests) == 2 else tests, name,
                exp[name][idx], np.asarray(got[name])[idx], [int(v) for v in idx[2:]],
            )
            r.violate(
                f"{name}:{kern[0]}:{solver}",
                f"{name} of {kern} ({solver}) got {case['got']!r} expected {case['expected']!r} "
                f"rows t={case['t']} delta={case['delta']} inst={case['inst']}",
                case,
            )


def _eager(r, pick, ctx, exp, prior, ymax, what, tol):
    kern, num, solver, X, diag, Y, tests, I = ctx
    kj = impl.build(kern, num=float, integrated=num)
    for b in pick:
        Xb = tuple(jnp.asarray(a[b]) for a in X)
        try:
            g = impl.eager(kj, Xb, jnp.asarray(diag) if np.ndim(diag) else float(diag), Y, tests, solver, what)
            e1 = {k: v[b : b + 1] for k, v in exp.items()}
            c1 = (kern, num, solver, tuple(a[b : b + 1] for a in X), diag, Y, tests, I[b : b + 1])
            _compare(r, {k: v[None] for k, v in g.items()}, e1, prior[b : b + 1], ymax, c1, tol)
            r.traces += 1
        except (ImplError, judge.ShapeError) as e:
            case = make_case(kern, num, solver, [a[b] for a in X], diag, Y[0], tests, "call", 0, 0, [])
            r.violate(f"call:{kern[0]}:{solver}", f"{kern} ({solver}) raised {e}", case)
            return


def replay(case, tol=judge.TOL):
    kern = _tup(case["kernel"])
    obs = list(zip(case["t"], case["delta"]))
    Kmat = ref.cov_matrix(kern, obs)[None]
    n = len(obs)
    R = np.broadcast_to(np.array(case["diag"]), (1, n))
    tests = case["tests"]
    Ks = kss = None
    what = "lc" + ("p" if tests else "")
    if tests:
        Ks = ref.cov_matrix(kern, [(t, 0.0) for t in tests], obs)[None]
        kss = ref.kfun(kern, np.zeros(len(tests)))
    Y = np.array([case["y"]])
    exp = judge.expected(Kmat, R, Y, Ks, kss, what)
    prior, ymax = judge.scales(Kmat, R, Y, kss)
    X = tuple(jnp.asarray(case[k]) for k in ("t", "delta", "inst"))
    d = case["diag"]
    try:
        got = impl.eager(
            impl.build(kern, integrated=case["insts"]), X,
            jnp.asarray(d) if np.ndim(d) else d, Y, tests, case["solver"], what)
        errs = judge.errors({k: v[None] for k, v in got.items()}, exp, prior, ymax)
    except (ImplError, judge.ShapeError) as e:
        return False, str(e)
    worst = {k: float(v.max()) for k, v in errs.items()}
    return max(worst.values()) <= tol, str(worst)


def _tup(k):
    return tuple(_tup(x) if isinstance(x, list) else x for x in k)


# --------------------------------------------------------------- known findings
# The cosine process has no driving noise, so several instruments' (or zero-length) exposures
# leave the predicted covariance exactly singular and round-off decides the smoothing gain.
PINNED = {
    "p": dict(kernel=("Cosine", 1.7, 0.7), t=[2.4, 1.55, 0.7], delta=[0.0, 1.7, 0.0],
              inst=[0, 0, 1], diag=[0.05, 0.4, 0.12], y=[0.6, 1.2, -1.6],
              tests=[0.9, 0.7, 2.0, 3.0]),
}


def run_pinned(shard, solver):
    r = Result()
    case = dict(PINNED[shard["pinned"]], insts=2, solver=solver)
    try:
        ok, text = replay(case, SMOOTH_TOL)
    except Exception as e:
        ok, text = False, f"{type(e).__name__}: {e}"
    r.traces += 1
    if not ok:
        r.violate(f"pinned-cosine-{shard['pinned']}", f"{case}: {text}", case)
    return r


# --------------------------------------------------------------- long schedules
def schedules(n):
    """A few structured schedules of n exposures: (t, delta, inst) arrays, 3 instruments"""
    i = np.arange(n)
    out = {}
    out["back-to-back"] = (0.1 * i + 0.05, np.full(n, 0.1), np.zeros(n, int))
    out["gaps"] = (1.0 * i, np.full(n, 0.6), np.zeros(n, int))
    k = i // 2
    out["two-simultaneous"] = (1.0 * k, np.where(i % 2, 0.9, 0.5), i % 2)
    out["nested"] = (
        np.where(i % 2, 2.0 * k, 2.0 * k), np.where(i % 2, 0.2, 1.8), i % 2)
    k3 = i // 3
    out["three-staggered"] = (1.5 * k3 + 0.4 * (i % 3), 0.3 + 0.35 * (i % 3), i % 3)
    out["with-zero-length"] = (0.8 * i, np.where(i % 3 == 0, 0.0, 0.5), i % 2)
    return {
        name: tuple(a[np.argsort((i * 7 + 3) % max(n, 1), kind="stable")] for a in v)
        for name, v in out.items()
    } | {"back-to-back in order": out["back-to-back"]}


def long_shards(tier, solver, cheap=False):
    q = tier == "quick"
    plan = [("Exp", 260, 1), ("Matern32", 40, 1)] if cheap else [("SHO", 40, 3), ("Matern52", 23, 1), ("Exp", 260, 2)]
    if not q:
        plan = [(k, n, 2) for k in KERNELS if k != "Cosine" for n in (23, 40, 131, 260)]
    return [dict(long=n, kernel=k, variants=v, solver=solver, weight=20) for k, n, v in plan]


def run_long(shard, what, tol=judge.TOL):
    """larger data sets of up to six instruments, all schedules in one compiled replay"""
    r = Result()
    n, solver = shard["long"], shard["solver"]
    i = np.arange(n)
    k6 = i // 6
    more = {  # six exposures open at once: nested, staggered, all starting or ending together
        "six-nested": (10.0 * k6, 0.5 + 1.1 * (i % 6), i % 6),
        "six-staggered": (6.5 * k6 + 0.6 * (i % 6) + 2.0, np.full(n, 3.9), i % 6),
        "six-starts": (5.0 * k6 + 0.3 * (1 + i % 6), 0.6 * (1 + i % 6), i % 6),
        "six-ends": (5.0 * k6 - 0.3 * (1 + (5 - i) % 6), 0.6 * (1 + (5 - i) % 6), i % 6),
    }
    sched = list(schedules(n).values()) + [
        tuple(a[np.argsort((i * 5 + 2) % max(n, 1), kind="stable")] for a in v) for v in more.values()]
    X = tuple(np.stack([s[j] for s in sched]) for j in range(3))
    Y = models.y_basis(n)[-3:]
    diag = 0.05 + 0.2 * (i % 4)
    R = np.broadcast_to(diag, X[0].shape)
    T = None
    if "p" in what:
        t, d, _ = X
        T = np.concatenate([t.max(1, keepdims=True) + 9, t[:, :9], (t + d / 2)[:, :9], (t - d / 2)[:, :9],
                            t.min(1, keepdims=True) - 9], axis=1)
    for kern in KERNELS[shard["kernel"]][: shard.get("variants", 1)]:
        Ks = kss = None
        obs = [list(zip(*[list(map(float, a[b])) for a in X[:2]])) for b in range(len(sched))]
        Kmat = np.stack([ref.cov_matrix(kern, o) for o in obs])
        if T is not None:
            Ks = np.stack([ref.cov_matrix(kern, [(float(v), 0.0) for v in T[b]], obs[b]) for b in range(len(sched))])
            kss = ref.kfun(kern, np.zeros(T.shape[1]))
        exp = judge.expected(Kmat, R, Y, Ks, kss, what)
        prior, ymax = judge.scales(Kmat, R, Y, kss)
        ctx = (kern, 6, solver, X, diag, Y, None if T is None else T, None)
        r.states += 2 * n * len(sched)
        r.transitions += 2 * n * len(sched)
        try:
            got = impl.bulk(impl.build(kern, num=jnp.asarray, integrated=6), X, R, Y, T, solver=solver, what=what)
            _compare(r, got, exp, prior, ymax, ctx, tol)
            r.traces += len(sched)
            r.outcomes |= judge.outcome_hashes(got)
        except Exception as e:
            r.notes["bulk_fallbacks"] = r.notes.get("bulk_fallbacks", 0) + 1
            for b in (0, len(sched) - 1):
                cut = lambda d: {k: v[b : b + 1] for k, v in d.items()}
                c = (kern, 6, solver, tuple(a[b : b + 1] for a in X), diag, Y, None if T is None else T[b], None)
                _eager(r, [0], c, cut(exp), prior[b : b + 1], ymax, what, tol)
    r.samples.append(dict(long=n, kernel=shard["kernel"], schedules=len(sched)))
    return r


def run_big(shard, tol=judge.TOL):
    r = Result()
    n = shard["big"]
    few = shard.get("few")
    for kern in KERNELS[shard["kernel"]][: 1 if few else 3]:
        for name, X in schedules(n).items():
            Xj = tuple(jnp.asarray(a) for a in X)
            obs = list(zip(*[list(map(float, a)) for a in X[:2]]))
            Kmat = ref.cov_matrix(kern, obs)[None]
            diag = 0.05 + 0.2 * (np.arange(n) % 4)
            tests = np.array([X[0].max() + 1.0, X[0].min() - 1.0, X[0][0], 0.21, 0.37])
            Ks = ref.cov_matrix(kern, [(t, 0.0) for t in tests], obs)[None]
            kss = ref.kfun(kern, np.zeros(len(tests)))
            Y = models.y_basis(n)[-2:]
            R = diag[None]
            exp = judge.expected(Kmat, R, Y, Ks, kss, "lcp")
            prior, ymax = judge.scales(Kmat, R, Y, kss)
            kj = impl.build(kern, integrated=3)
            ctx = (kern, 3, None, [a[None] for a in X], diag, Y, list(tests), None)
            for solver in ("ipar",) if few else ("iseq", "ipar"):
                ctx = (kern, 3, solver, [a[None] for a in X], diag, Y, list(tests), None)
                try:
                    got = impl.eager(kj, Xj, jnp.asarray(diag), Y, tests, solver, "lcp")
                    got = {k: v[None] for k, v in got.items()}
                    _compare(r, got, exp, prior, ymax, ctx, tol)
                    r.outcomes |= judge.outcome_hashes(got)
                except (ImplError, judge.ShapeError) as e:
                    case = make_case(kern, 3, solver, X, diag, Y[0], tests, "call", 0, 0, [])
                    r.violate(f"call:{kern[0]}:{solver}", f"{kern} ({solver}) {name} raised {e}", case)
                r.traces += 1
                r.states += 2 * n
                r.transitions += 2 * n
    r.samples.append(dict(schedules=list(schedules(n)), n=n, kernel=kern))
    return r
