"""C16: dense exposure-averaged oscillator kernel, every placement of two observations."""
from __future__ import annotations

import functools

import numpy as np

import jax.numpy as jnp

from smolgp.kernels import dense

from mc import ref
from mc.harness import Result

TOL = 2e-7
LEVEL = "exploration"
RULE = (
    "All pairs of intervals [a,b], a<=b, with end points on a grid (so separate, touching, partly "
    "overlapping, nested, sharing an edge, identical, or of zero length on either side), for several "
    "grids (regular, irregular, not representable, far apart, very short) and oscillators, are evaluated "
    "and compared with quadrature of the documented covariance; symmetry and positive semi-definiteness "
    "of the full matrix. distinct_nontrivial counts distinct matrix rows."
)
ASSUMPTIONS = ["quality factor above 1/2 (the kernel's documented form)", "double precision"]

GRIDS = {
    "unit": [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0],
    "irregular": [0.0, 0.7, 1.1, 2.4, 5.0, 5.6, 7.0, 7.1],
    "roundoff": [1325.5 + 0.1 * i for i in range(7)],
    "wide": [-3.0, -2.9, 40.0, 40.05, 300.0, 301.0, 302.0],
    "short": [0.0, 0.01, 0.02, 0.5, 0.53, 0.9],
    "tiny": [0.0, 1e-7, 1.0, 1.0 + 1e-6, 2.0, 2.0 + 1e-5, 2.5, 2.5 + 1e-4],
    "mixed": [0.0, 0.02, 3.0, 3.5, 3.52, 9.0, 25.0],
}
KERNELS = [(1.3, 2.0, 1.1), (0.3, 8.0, 2.0), (6.0, 0.8, 0.5), (1.0, 0.51, 1.0), (2.0, 60.0, 1.0), (0.9, 2**-0.5, 1.4)]


def shards(tier, seed):
    q = tier == "quick"
    S = []
    for g in GRIDS:
        for ki in (0, 1):
            S.append(dict(grid=g, kernels=[i for i in range(len(KERNELS)) if i % 2 == ki]))
    S.append(dict(forms=True))
    if not q:
        for g in range(20):
            S.append(dict(lattice=g))
    return S


def dense_kernel(cls, w, q, s, form):
    if form == "swq":
        return cls(S=s * s / (w * q), w=w, Q=q)
    return cls(rho=2 * np.pi / w, tau=2 * q / w, sig=s)


@functools.lru_cache(maxsize=None)
def quad(w, q, s, lag, d1, d2):
    return ref.cov_avg(("SHO", w, q, s), (lag, d1), (0.0, d2))


def matrix(w, q, s, obs1, obs2):
    K = np.empty((len(obs1), len(obs2)))
    for i, (t1, d1) in enumerate(obs1):
        for j, (t2, d2) in enumerate(obs2):
            K[i, j] = quad(w, q, s, round(abs(t1 - t2), 12), d1, d2)
    return K


def compare(r, K, want, var, obs1, obs2, key, case, tol=TOL):
    K = np.asarray(K, float)
    if K.shape != want.shape:
        r.violate(f"shape:{key}", f"{key}: shape {K.shape}, expected {want.shape}", case)
        return
    err = np.abs(K - want) / var
    err = np.where(np.isfinite(err), err, np.inf)
    r.evaluations += err.size
    r.traces += err.size
    m = float(np.max(err))
    r.max_err = max(r.max_err, m if np.isfinite(m) else 0)
    if not m <= tol:
        i = np.unravel_index(np.argmax(err), err.shape)
        r.violate(f"value:{key}", f"{key}: covariance of {obs1[i[0]]} and {obs2[i[1]]} (midpoint, length) is "
                  f"{K[i]!r}, expected {want[i]!r}", case)
    for row in K:
        r.outcomes.add(hash(tuple(np.round(row, 8))))


def X(obs, form="tuple3"):
    t = jnp.asarray([o[0] for o in obs])
    d = jnp.asarray([o[1] for o in obs])
    i = jnp.asarray([j % 3 for j in range(len(obs))])
    return {"tuple3": (t, d, i), "tuple2": (t, i), "bare": t}[form]


def placements(r, T, w, q, s, form, key):
    case = dict(T=T, w=w, q=q, s=s, form=form)
    n = len(T)
    obs = [((T[a] + T[b]) / 2, T[b] - T[a]) for a in range(n) for b in range(a, n)]
    want = matrix(w, q, s, obs, obs)
    k = dense_kernel(dense.IntegratedSHOKernel, w, q, s, form)
    try:
        K = np.asarray(k(X(obs), X(obs)))
        compare(r, K, want, s * s, obs, obs, f"IntegratedSHOKernel {key}", case)
        D = np.asarray(k(X(obs)))
        compare(r, D[:, None], np.diag(want)[:, None], s * s, obs, obs, f"IntegratedSHOKernel diagonal {key}", case)
        r.evaluations += 2 * K.size
        if not np.max(np.abs(K - K.T)) <= 1e-12 * s * s:
            r.violate(f"symmetric:{key}", f"IntegratedSHOKernel {key} not symmetric", case)
        lam = np.linalg.eigvalsh(0.5 * (K + K.T))
        if not lam[0] >= -1e-9 * lam[-1]:
            r.violate(f"psd:{key}", f"IntegratedSHOKernel {key} not positive semi-definite: {lam[0]}", case)
        pts = [(t, 0.0) for t in T]
        ks = dense_kernel(dense.SHOKernel, w, q, s, form)
        wp = matrix(w, q, s, pts, pts)
        for f in ("bare", "tuple2", "tuple3"):
            compare(r, ks(X(pts, f), X(pts, f)), wp, s * s, pts, pts, f"SHOKernel {f} {key}", case)
            compare(r, k(X(pts, f), X(pts, f)), wp, s * s, pts, pts, f"IntegratedSHOKernel {f} {key}", case)
    except Exception as e:
        r.violate(f"call:{key}", f"{key}: {type(e).__name__}: {str(e)[:300]}", case)
    r.states += len(obs) + len(obs) ** 2
    r.transitions += len(obs) ** 2


def run(shard):
    r = Result()
    if "grid" in shard:
        for i in shard["kernels"]:
            w, q, s = KERNELS[i]
            form = "swq" if i % 2 == 0 else "rho"
            placements(r, GRIDS[shard["grid"]], w, q, s, form, f"{shard['grid']} w={w} q={q} {form}")
    elif "forms" in shard:
        for form in ("swq", "rho"):
            placements(r, GRIDS["irregular"][:5], 1.3, 2.0, 1.1, form, f"forms {form}")
    else:
        g = shard["lattice"]
        T = sorted({0.0} | {round(((i * (7 + g)) % 23) * 0.37 + 0.11 * g, 6) for i in range(1, 10)})
        for w, q, s in KERNELS[:4]:
            placements(r, T, w, q, s, "rho", f"lattice {g} w={w}")
    r.samples.append(dict(shard))
    return r


def replay(case):
    r = Result()
    placements(r, case["T"], case["w"], case["q"], case["s"], case["form"], "replay")
    return not r.violations, "; ".join(v["what"] for v in r.violations) or f"max error {r.max_err:.2e}"
