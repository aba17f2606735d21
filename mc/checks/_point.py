"""Shared engine of C01, C02, C03, C07: replay every gap word on the implementation."""
from __future__ import annotations

import numpy as np

import jax.numpy as jnp

from mc import impl, judge, models, ref
from mc.checks._integ import NOISE
from mc.harness import ImplError, Result

SHO = [
    ("SHO", 1.3, 2.0, 1.1),
    ("SHO", 1.3, 0.5, 1.1),
    ("SHO", 1.3, 0.2, 0.7),
    ("SHO", 0.3, 9.0, 1.0),
    ("SHO", 6.0, 0.8, 1.6),
    ("SHO", 0.9, 0.03, 1.2),
    ("SHO", 2.0, 0.501, 0.9),
    ("SHO", 2.0, 0.499, 0.9),
]
LEAVES = {
    "SHO": SHO,
    "Exp": [("Exp", 1.4, 1.1), ("Exp", 0.2, 0.8), ("Exp", 25.0, 2.0)],
    "Matern32": [("Matern32", 1.5, 1.2), ("Matern32", 0.3, 0.8), ("Matern32", 20.0, 1.5)],
    "Matern52": [("Matern52", 1.6, 1.2), ("Matern52", 0.4, 0.8), ("Matern52", 12.0, 1.5)],
    "Cosine": [("Cosine", 5.3, 1.1), ("Cosine", 0.9, 0.7)],
    "Constant": [("Constant", 1.3), ("Constant", 0.4)],
    "ESS3": [("ESS", 3.1, 0.7, 1.2, 3)],
    "ESS": [("ESS", 3.1, 1.6, 1.2, 4)],
}
E_, M3, M5 = ("Exp", 1.9, 0.9), ("Matern32", 1.1, 0.8), ("Matern52", 1.6, 1.2)
C_, K_, S_ = ("Cosine", 4.1, 0.8), ("Constant", 0.6), ("SHO", 1.7, 1.4, 0.9)
S2 = ("SHO", 0.8, 0.3, 1.2)
TREES = {
    "Exp+Exp": [("Sum", E_, ("Exp", 0.4, 0.6))],
    "SHO+M32": [("Sum", S_, M3), ("Sum", S2, M3)],
    "Cos+M52": [("Sum", C_, M5)],
    "Const+SHO": [("Sum", K_, S_)],
    "Exp*Cos": [("Product", E_, C_)],
    "SHO*M32": [("Product", S_, M3), ("Product", S2, M3)],
    "M52*Exp": [("Product", M5, E_)],
    "Const*Exp": [("Product", K_, E_)],
    "ESS3*M32": [("Product", ("ESS", 3.1, 0.7, 1.2, 3), M3)],
    "c*SHO": [("Scale", 2.5, S_), ("Scale", 0.3, S2)],
    "c*(Exp+M32)": [("Scale", 0.4, ("Sum", E_, M3))],
    "(c*Exp)*SHO": [("Product", ("Scale", 1.7, E_), S_)],
    "c*(c*M52)": [("Scale", 3.0, ("Scale", 0.5, M5))],
    "(SHO+Exp)*M32": [("Product", ("Sum", S_, E_), M3)],
    "(Exp+SHO)+Exp": [("Sum", ("Sum", E_, S_), ("Exp", 0.5, 0.7))],
    "Exp*Cos+c*(M32+Const)": [
        ("Sum", ("Product", E_, C_), ("Scale", 2.2, ("Sum", M3, K_)))
    ],
}
ALL = {**LEAVES, **TREES}


def all_pairs():
    """every ordered pair of leaf shapes under every operator (thorough tier)"""
    lv = {"Exp": E_, "M32": M3, "M52": M5, "Cos": C_, "Const": K_, "SHO": S_, "SHOo": S2}
    out = {}
    for a, ka in lv.items():
        for b, kb in lv.items():
            if a == b:
                kb = (kb[0],) + tuple(0.7 * x for x in kb[1:])
            out[f"{a} {b} sum"] = [("Sum", ka, kb)]
            out[f"{a} {b} prod"] = [("Product", ka, kb)]
    return out


def all_triples():
    lv = {"Exp": ("Exp", 1.9, 0.9), "M32": M3, "SHO": S_}
    out = {}
    ops = ("Sum", "Product")
    for a in lv:
        for b in lv:
            for c in lv:
                for o1 in ops:
                    for o2 in ops:
                        x, y, z = lv[a], lv[b], lv[c]
                        out[f"({a} {o1} {b}) {o2} {c}"] = [(o2, (o1, x, y), z)]
                        out[f"{a} {o1} ({b} {o2} {c})"] = [(o1, x, (o2, y, z))]
    return out


GAPS = {
    "5": [0.0, 0.15, 1.3, 30.0, 1e-6],
    "4": [0.0, 0.15, 1.3, 30.0],
    "3": [0.0, 0.4, 2.3],
    "2": [0.3, 1.7],
    "far": [0.7, 1e4],
    "fine": [1e-4, 1e-3, 0.01, 0.04, 0.4, 4.0, 150.0],
}


def tests_for(t):
    """(B,N) times -> (B,M) unsorted test times with repeats, everywhere"""
    mid = 0.5 * (t[:, 1:] + t[:, :-1])
    f, l = t[:, :1], t[:, -1:]
    near = mid + 0.2 * (t[:, 1:] - t[:, :-1])
    return np.concatenate(
        [l + 0.4, f - 0.3, t, mid[:, ::-1], l + 80.0, near, f - 50.0, f, l, mid[:, :1]], axis=1
    )


def kernel_key(k):
    return k[0] if not isinstance(k[1], tuple) else f"{k[0]}({kernel_key(k[1])}..)"


def make_case(kern, solver, t, diag, y, tests, name, exp, got, idx, num="float"):
    return dict(
        kernel=kern, solver=solver, t=[float(v) for v in t], diag=np.asarray(diag).tolist(),
        y=[float(v) for v in y], tests=None if tests is None else [float(v) for v in tests],
        observable=name, expected=float(exp), got=float(got), index=idx, num=num,
    )


def reference(kern, t, R, Y, tests, what):
    Kmat = ref.kfun(kern, t[:, :, None] - t[:, None, :])
    Ks = kss = None
    if tests is not None:
        Ks = ref.kfun(kern, tests[:, :, None] - t[:, None, :])
        kss = ref.kfun(kern, np.zeros(tests.shape[1]))
    exp = judge.expected(Kmat, R, Y, Ks, kss, what)
    prior, ymax = judge.scales(Kmat, R, Y, kss)
    return exp, prior, ymax


def compare(r, got, exp, prior, ymax, ctx, tol):
    kern, solver, t, diag, Y, tests, num = ctx
    errs = judge.errors(got, exp, prior, ymax)
    for name, e in errs.items():
        r.evaluations += e.size
        m = float(np.max(e))
        if np.isfinite(m):
            r.max_err = max(r.max_err, m)
        if not m <= tol:
            i = np.unravel_index(np.argmax(e), e.shape)
            d = diag[i[0]] if np.ndim(diag) == 2 else diag
            case = make_case(
                kern, solver, t[i[0]], d, Y[i[1]], None if tests is None else tests[i[0]],
                name, exp[name][i], np.asarray(got[name])[i], [int(v) for v in i[2:]], num)
            r.violate(
                f"{name}:{kernel_key(kern)}:{solver}",
                f"{name} of {kern} ({solver}) got {case['got']!r} expected {case['expected']!r} "
                f"at t={case['t']}" + ("" if tests is None else f" test index {case['index']}"),
                case)


def eager_cases(r, kern, solver, t, diag, Y, tests, what, tol, num="float"):
    """plain calls, one data set at a time; diag (B,N) or scalar"""
    conv = dict(float=float, int=int, jnp=jnp.asarray)[num]
    kj = impl.build(kern, num=conv)
    R = np.broadcast_to(diag, t.shape)
    exp, prior, ymax = reference(kern, t, R, Y, tests, what)
    for b in range(len(t)):
        tb = jnp.asarray(t[b].astype(int) if num == "int" else t[b])
        tt = None if tests is None else tests[b]
        d = jnp.asarray(diag[b]) if np.ndim(diag) == 2 else diag
        ctx = (kern, solver, t[b : b + 1], diag[b : b + 1] if np.ndim(diag) == 2 else diag, Y,
               None if tests is None else tests[b : b + 1], num)
        try:
            g = impl.eager(kj, tb, d, Y, tt, solver, what)
            compare(r, {k: v[None] for k, v in g.items()}, {k: v[b : b + 1] for k, v in exp.items()},
                    prior[b : b + 1], ymax, ctx, tol)
            r.traces += 1
        except (ImplError, judge.ShapeError) as e:
            case = make_case(kern, solver, t[b], ctx[3][0] if np.ndim(diag) == 2 else diag, Y[0],
                             tt, "call", 0, 0, [], num)
            r.violate(f"call:{kernel_key(kern)}:{solver}", f"{kern} ({solver}) N={t.shape[1]} raised {e}", case)
            return


def run(shard, tol=judge.TOL):
    """shard: kernel key, sizes=[(n, gaps key)], noises, solver, what, eager, t0"""
    r = Result()
    variants = {**ALL, **(all_pairs() if shard.get("pairs") else {}),
                **(all_triples() if shard.get("triples") else {})}[shard["kernel"]]
    what, solver = shard["what"], shard["solver"]
    for si, (n, gk) in enumerate(shard["sizes"]):
        ws, st, trn = models.words(GAPS[gk], n - 1)
        r.states += st
        r.transitions += trn
        t = models.times_from_words(ws, GAPS[gk], shard.get("t0", 0.0))
        tests = tests_for(t) if "p" in what else None
        Y = models.y_basis(n, quad="l" in what)
        for ni, noise in enumerate(shard["noises"]):
            if ni and si:
                continue
            diag = NOISE[noise](n) if n <= 6 or noise == "scalar" else np.resize(NOISE[noise](6), n)
            dvec = np.broadcast_to(diag, t.shape) if np.ndim(diag) else diag
            R = np.broadcast_to(diag, t.shape)
            for kern in variants:
                exp, prior, ymax = reference(kern, t, R, Y, tests, what)
                kj = impl.build(kern, num=jnp.asarray)
                ctx = (kern, solver, t, dvec, Y, tests, "float")
                try:
                    got = impl.bulk(kj, t, dvec, Y, tests, solver=solver, what=what)
                    compare(r, got, exp, prior, ymax, ctx, tol)
                    r.traces += len(t)
                    r.outcomes |= judge.outcome_hashes(got)
                except Exception as e:  # tracing failed or wrong shape: plain calls instead
                    r.notes["bulk_fallbacks"] = r.notes.get("bulk_fallbacks", 0) + 1
                    pick = np.unique(np.linspace(0, len(t) - 1, 25).astype(int))
                    v0 = len(r.violations)
                    eager_cases(r, kern, solver, t[pick], dvec[pick] if np.ndim(dvec) == 2 else dvec,
                                Y[-3:], None if tests is None else tests[pick], what, tol)
                    if len(r.violations) == v0:
                        r.samples.append(dict(bulk_error=str(e)[:300]))
        if shard.get("eager") and si == 0:
            pick = np.unique(np.linspace(0, len(t) - 1, shard["eager"]).astype(int))
            eager_cases(r, variants[0], solver, t[pick], 0.2, Y[-2:],
                        None if tests is None else tests[pick], what, tol)
    r.samples.append(dict(kernel=variants[-1], solver=solver, t=[float(x) for x in t[len(t) // 2]],
                          words=len(t)))
    return r


def run_plain(shard, tol=judge.TOL):
    """plain calls: one datum, one test point, integer coordinates and parameters, many data"""
    r = Result()
    solver, what = shard["solver"], shard["what"]
    r.states = r.transitions = 0

    def go(kern, t, diag, tests, num="float"):
        t = np.asarray(t, float)[None]
        diag = np.asarray(diag, float)[None] if np.ndim(diag) else diag
        tests = None if "p" not in what else np.asarray(tests, float)[None]
        Y = models.y_basis(t.shape[1])[-2:]
        r.states += t.shape[1]
        r.transitions += t.shape[1]
        eager_cases(r, kern, solver, t, diag, Y, tests, what, tol, num)

    def pick(ks, n):  # quick tier: every third expression
        return ks if shard.get("full", True) else ks[::3][: n + 1]

    leaf = [v[0] for v in LEAVES.values()]
    if shard["plain"] == "single":
        for k in pick(leaf + [TREES["Exp*Cos"][0], TREES["(Exp+SHO)+Exp"][0]], 3):
            go(k, [1.5], 0.3, [0.2])
        go(leaf[0], [1.5], [0.3], [2.0, 1.5, -4.0])
        go(leaf[1], [0.5, 1.5], [0.3, 0.1], [1.0])
    elif shard["plain"] == "int":
        ki = [("Exp", 2, 1), ("Matern32", 3, 1), ("Matern52", 2, 2), ("SHO", 1, 2, 1),
              ("Cosine", 5, 1), ("Constant", 2), ("Sum", ("Exp", 2, 1), ("Matern32", 3, 1)),
              ("Scale", 2, ("SHO", 1, 2, 1)), ("Product", ("Exp", 2, 1), ("Cosine", 5, 1))]
        for k in pick(ki, 3):
            go(k, [0, 1, 1, 4, 9], 0.3, [0.5, 1, 3, -2, 12], num="int")
    else:
        rng_t = np.cumsum(np.array([(i * i * 31 % 17) / 9.0 for i in range(shard["plain"])]))
        d = 0.05 + 0.3 * (np.arange(len(rng_t)) % 5)
        for k in pick([leaf[0], TREES["SHO*M32"][0], leaf[1], leaf[2], leaf[3]], 1):
            tt = np.concatenate([rng_t[::3] + 0.01, rng_t[-1:] + 3, rng_t[:1] - 1, rng_t[5:6]])
            go(k, rng_t, d, tt)
    r.samples.append(dict(plain=shard["plain"], solver=solver))
    return r


def run_scan(shard, tol=judge.TOL):
    """one compiled replay per number of data: every shape of the scan tree"""
    r = Result()
    what, solver = shard["what"], shard["solver"]
    for n in shard["scan"]:
        base = np.array([(i * i * 31 % 17) / 9.0 for i in range(n)])
        t = np.stack([np.cumsum(base), np.cumsum(base[::-1]), np.cumsum(np.full(n, 0.2)),
                      np.floor(np.cumsum(base) / 2)])
        diag = np.broadcast_to(0.05 + 0.3 * (np.arange(n) % 5), t.shape)
        Y = models.y_basis(n)[-3:]
        r.states += n
        r.transitions += n - 1
        kerns = (("Matern32", 1.5, 1.2), SHO[2], ("Exp", 1.4, 1.1), TREES["SHO+M32"][0])
        for kern in kerns if shard["full"] else kerns[:1]:
            tests = None if "p" not in what else np.concatenate([t[:, -1:] + 0.4, t[:, : n // 2] + 0.03, t[:, :1] - 0.3, t[:, -1:]], axis=1)
            if tests is not None and shard.get("many"):  # more test points than data
                tests = np.concatenate([tests, t, 0.5 * (t + t[:, ::-1])], axis=1)
            exp, prior, ymax = reference(kern, t, diag, Y, tests, what)
            ctx = (kern, solver, t, diag, Y, tests, "float")
            try:
                got = impl.bulk(impl.build(kern, num=jnp.asarray), t, diag, Y, tests, solver=solver, what=what)
                compare(r, got, exp, prior, ymax, ctx, tol)
                r.traces += len(t)
                r.outcomes |= judge.outcome_hashes(got)
            except Exception as e:
                r.notes["bulk_fallbacks"] = r.notes.get("bulk_fallbacks", 0) + 1
                eager_cases(r, kern, solver, t[:2], diag[:2], Y[-1:], tests[:2], what, tol)
    r.samples.append(dict(scan=shard["scan"]))
    return r


def replay(case, tol=judge.TOL):
    kern = _tup(case["kernel"])
    t = np.array([case["t"]])
    d = np.array([case["diag"]]) if np.ndim(case["diag"]) else case["diag"]
    tests = None if case["tests"] is None else np.array([case["tests"]])
    r = Result()
    eager_cases(r, kern, case["solver"], t, d, np.array([case["y"]]), tests,
                "lc" + ("p" if tests is not None else ""), tol, case.get("num", "float"))
    return not r.violations, "; ".join(v["what"] for v in r.violations) or f"max error {r.max_err:.2e}"


def _tup(k):
    return tuple(_tup(x) if isinstance(x, list) else x for x in k)


def shards(tier, what, solver, sizes=None, eager=2):
    q = tier == "quick"
    S = []
    for k in ALL:
        sz = sizes or ([(4, "5"), (6, "3"), (1, "2"), (2, "far"), (2, "fine")] if k in LEAVES else [(4, "4"), (2, "far"), (2, "fine")])
        noises = ["varied", "small", "scalar"] if k in LEAVES else ["varied"]
        S.append(dict(kernel=k, sizes=sz, noises=noises, solver=solver, what=what,
                      eager=eager if k in ("SHO", "Exp", "Exp*Cos") else 0,
                      weight=30 if k in ("SHO", "ESS", "ESS3*M32") else 10))
    S.append(dict(kernel="SHO", sizes=[(4, "4")], noises=["varied"], solver=solver, what=what, t0=2.45e6))
    S.append(dict(kernel="Matern32", sizes=[(9, "2")], noises=["varied"], solver=solver, what=what))
    if solver is None:  # larger data sets (C07 does this for the parallel solver)
        for i, ns in enumerate(([[33, 70], [130]] if "p" in what else [[33, 130], [64, 300]]) if q else [[33, 64], [127, 130], [300], [1025]]):
            S.append(dict(scan=ns, solver=solver, what=what, full=not q or i == 0, many=True, weight=25))
    for p in ("single", "int", 40 if q else 150):
        S.append(dict(plain=p, solver=solver, what=what, full=not q, weight=40))
    if not q:
        for k in LEAVES:
            S.append(dict(kernel=k, sizes=[(5, "5"), (8, "3")], noises=["varied", "small"],
                          solver=solver, what=what, weight=30))
        for k in all_pairs():
            S.append(dict(kernel=k, sizes=[(4, "4")], noises=["varied"], solver=solver, what=what,
                          pairs=True))
        for k in all_triples():
            S.append(dict(kernel=k, sizes=[(4, "3")], noises=["varied"], solver=solver, what=what,
                          triples=True))
    return S
