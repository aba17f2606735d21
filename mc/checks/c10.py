"""C10: identities between the matrices of every state-space model."""
from __future__ import annotations

import functools

import numpy as np
from scipy.linalg import expm

import equinox as eqx
import jax
import jax.numpy as jnp

from smolgp import helpers
from smolgp.kernels.base import StateSpaceModel
from smolgp.kernels.integrated import IntegratedStateSpaceModel

from mc import impl, ref
from mc.checks import _expr
from mc.harness import Result

TOL = 2e-8
LEVEL = "exploration"
RULE = (
    "For every kernel expression of the grammar and every triple of times (all pairs of lags from a "
    "list with zero, tiny, short, long and very long lags, at two origins) all identities between "
    "transition, process noise, feedback, noise and stationary matrices are evaluated on the real "
    "matrices and against matrix exponentials and quadrature in NumPy/SciPy; also the augmented "
    "matrices of integrated kernels and the Van Loan helpers. distinct_nontrivial counts distinct "
    "transition matrices."
)
ASSUMPTIONS = ["scipy.linalg.expm, Gauss-Legendre quadrature", "double precision"]

LAGS = [0.0, 1e-6, 1e-3, 0.03, 0.15, 1.3, 7.0, 60.0, 3000.0]
INT = {
    "SHO": [("SHO", 1.3, 2.0, 1.1), ("SHO", 1.3, 0.5, 1.1), ("SHO", 1.3, 0.2, 0.7), ("SHO", 6.0, 0.8, 1.6),
            ("SHO", 0.02, 3.0, 5.0)],
    "Exp": [("Exp", 1.4, 1.1), ("Exp", 0.2, 0.8)],
    "Matern32": [("Matern32", 1.5, 1.2)],
    "Matern52": [("Matern52", 1.6, 1.2), ("Matern52", 0.4, 0.8)],
    "Cosine": [("Cosine", 5.3, 1.1)],
    "SHO+M32": [("Sum", ("SHO", 1.9, 3.0, 0.9), ("Matern32", 2.0, 0.8))],
    "c*SHO": [("Scale", 2.5, ("SHO", 1.7, 1.5, 0.8))],
}


def triples():
    a, b = np.meshgrid(LAGS, LAGS, indexing="ij")
    a, b = a.ravel(), b.ravel()
    T = np.stack([np.zeros_like(a), a, a + b], axis=1)
    return np.concatenate([T, T + 5.0])


@functools.lru_cache(maxsize=None)
def _fn(numerical):
    @eqx.filter_jit
    def f(k, T):
        def one(t):
            A12, A23, A13 = (k.transition_matrix(t[i], t[j]) for i, j in ((0, 1), (1, 2), (0, 2)))
            Q12, Q23, Q13 = (k.process_noise(t[i], t[j]) for i, j in ((0, 1), (1, 2), (0, 2)))
            return A12, A23, A13, Q12, Q23, Q13

        out = jax.vmap(one)(T)
        extra = {}
        if numerical == "generic":  # the generic routines every kernel inherits
            extra["Qgen"] = jax.vmap(lambda t: StateSpaceModel.process_noise(k, t[0], t[1]))(T)
            short = T[:, 1] - T[:, 0] < 2.0
            tt = jnp.where(short[:, None], T, 0.0)
            extra["Agen"] = jax.vmap(lambda t: StateSpaceModel.transition_matrix(k, t[0], t[1]))(tt)
            extra["Qvl"] = jax.vmap(
                lambda t: StateSpaceModel.process_noise(k, t[0], t[1], use_van_loan=True))(tt)
        if numerical == "integrated":
            extra["Qnum"] = jax.vmap(lambda t: k.process_noise(t[0], t[1], force_numerical=True))(T)
            extra["Phibar"] = jax.vmap(lambda t: k.integrated_transition_matrix(t[0], t[1]))(T)
        return out, extra

    return f


def ref_AQ(F, LQL, dt):
    """exp(F dt) and the process noise over dt, by doubling an accurately integrated short step"""
    d = len(F)
    if dt == 0:
        return np.eye(d), np.zeros((d, d))
    n = max(0, int(np.ceil(np.log2(max(np.max(np.sum(np.abs(F), axis=0)) * dt, 1e-30)))) + 2)
    h = dt / 2.0**n
    x, w = np.polynomial.legendre.leggauss(12)
    Q = np.zeros((d, d))
    for xi, wi in zip(x, w):
        E = expm(F * (0.5 * h * (xi + 1)))
        Q += 0.5 * h * wi * E @ LQL @ E.T
    A = expm(F * h)
    for _ in range(n):
        Q = A @ Q @ A.T + Q
        A = A @ A
    return A, Q


def shards(tier, seed):
    q = tier == "quick"
    ex = _expr.leaves()
    ex += _expr.pairs(("Exp", "M32", "Cos", "Const", "SHO", "SHOo") if q else None)
    sc = _expr.scaled()
    ex += sc[::3] if q else sc
    if not q:
        ex += _expr.triples()
    else:
        ex += _expr.triples()[::18]
    n = 24 if q else 64
    # same shapes together, so that compiled code is shared
    ex = sorted(ex, key=lambda k: str(impl.struct(k)))
    m = -(-len(ex) // n)
    S = [dict(exprs=ex[i : i + m], weight=2) for i in range(0, len(ex), m)]
    for name in INT:
        for insts in (1, 2) if q else (1, 2, 3):
            if q and insts == 2 and name not in ("SHO", "Matern52", "SHO+M32"):
                continue
            S.append(dict(integrated=name, insts=insts, weight=4))
    S.append(dict(helpers=True))
    return S


def add(r, name, key, kern, err, tol, case, text=""):
    err = np.asarray(err, float)
    err = np.where(np.isfinite(err), err, np.inf)
    r.evaluations += err.size
    m = float(np.max(err)) if err.size else 0.0
    if np.isfinite(m):
        r.max_err = max(r.max_err, m)
    if not m <= tol:
        b = int(np.unravel_index(np.argmax(err), err.shape)[0]) if err.ndim else 0
        r.violate(f"{name}:{key}", f"{kern}: {name} off by {m:.3g} (natural units) {text(b) if callable(text) else text}", case)


def identities(r, kern, T, out, k, extra, key, case, integrated=0):
    A12, A23, A13, Q12, Q23, Q13 = (np.asarray(x, float) for x in out)
    B, d = len(T), A12.shape[-1]
    where = lambda b: f"at times {T[b].tolist()}"
    F, L, Qc, P = (np.atleast_2d(np.asarray(m, float)) for m in (
        k.design_matrix(), k.noise_effect_matrix(), k.noise(), k.stationary_covariance()))
    shp = [F.shape == (d, d), P.shape == (d, d), L.shape[0] == d, Qc.shape == (L.shape[1],) * 2,
           int(k.dimension) == d, Q12.shape[1:] == (d, d)]
    if not all(shp):
        r.violate(f"shape:{key}", f"{kern}: inconsistent shapes F{F.shape} P{P.shape} L{L.shape} Qc{Qc.shape} d={d}", case)
        return
    # natural units of each state
    base = np.sqrt(np.maximum(np.diagonal(P), 0))
    base = np.where(base > 0, base, 1.0)
    D = np.broadcast_to(base, (B, d)).copy()
    if integrated is not None and integrated:
        z, sig = integrated  # indices of integral states and the std of the process they integrate
        for zi, s in zip(z, sig):
            D[:, zi] = s * np.maximum(T[:, 2] - T[:, 0], 1e-3)
    U = lambda M: M / (D[:, :, None] * D[:, None, :])  # covariances
    V = lambda M: M * D[:, None, :] / D[:, :, None]  # transitions
    I = np.eye(d)
    dt12, dt23 = T[:, 1] - T[:, 0], T[:, 2] - T[:, 1]
    add(r, "A(t,t)=I", key, kern, np.abs(V(A12) - I)[dt12 == 0], TOL, case)
    add(r, "Q(t,t)=0", key, kern, np.abs(U(Q12))[dt12 == 0], TOL, case)
    add(r, "A composes", key, kern, np.abs(V(A13) - V(A23 @ A12)), TOL, case, where)
    add(r, "Q composes", key, kern,
        np.abs(U(Q13) - U(A23 @ Q12 @ np.swapaxes(A23, 1, 2) + Q23)), TOL, case, where)
    add(r, "Q symmetric", key, kern, np.abs(U(Q13) - np.swapaxes(U(Q13), 1, 2)), TOL, case, where)
    w = np.linalg.eigvalsh(0.5 * (U(Q13) + np.swapaxes(U(Q13), 1, 2)))
    add(r, "Q psd", key, kern, np.maximum(-w, 0), TOL, case, where)
    h = B // 2
    add(r, "lag only", key, kern, np.abs(V(A13)[:h] - V(A13)[h:]), 1e-8, case, where)
    add(r, "lag only Q", key, kern, np.abs(U(Q13)[:h] - U(Q13)[h:]), 1e-8, case, where)
    # against the exponential of the feedback matrix
    Fn = F * base[None, :] / base[:, None]
    LQL = (L / base[:, None]) @ Qc @ (L / base[:, None]).T
    cache = {}
    E, G = np.zeros((h, d, d)), np.zeros((h, d, d))
    for b in range(h):
        dt = round(T[b, 2] - T[b, 0], 12)
        if dt not in cache:
            cache[dt] = ref_AQ(Fn, LQL, dt)
        E[b], G[b] = cache[dt]
    E = E * base[None, :, None] / base[None, None, :]
    G = G * base[None, :, None] * base[None, None, :]
    osc = 1e-12 * ref.rates(kern) * LAGS[-1] * 2 if isinstance(kern, tuple) else 0
    add(r, "A=exp(F dt)", key, kern, np.abs(V(A13)[:h] - V(np.concatenate([E, E]))[:h]), TOL + osc, case, where)
    add(r, "Q=integral", key, kern, np.abs(U(Q13)[:h] - U(np.concatenate([G, G]))[:h]), TOL + osc, case, where)
    if not integrated:
        nP = P / base[:, None] / base[None, :]
        lyap = Fn @ nP + nP @ Fn.T + LQL
        add(r, "Lyapunov", key, kern, np.abs(lyap) / max(1.0, np.max(np.abs(Fn))), TOL, case)
        st = P - A13 @ P @ np.swapaxes(A13, 1, 2)
        add(r, "Q=Pinf-A Pinf A'", key, kern, np.abs(U(Q13) - U(st)), TOL, case, where)
        add(r, "Pinf psd", key, kern, np.maximum(-np.linalg.eigvalsh(nP), 0), TOL, case)
        R = np.asarray(k.reset_matrix(0))
        add(r, "reset", key, kern, np.abs(R - I), 0, case)
    if "Qgen" in extra:
        x = {n: np.asarray(v, float) for n, v in extra.items()}
        add(r, "generic Q", key, kern, np.abs(U(x["Qgen"]) - U(Q12)), TOL, case, where)
        short = dt12 < 2.0
        if np.max(np.abs(Fn)) * 1.3 < 12:
            add(r, "generic A", key, kern, np.abs(V(x["Agen"]) - V(A12))[short], TOL, case)
            add(r, "Van Loan Q", key, kern, np.abs(U(x["Qvl"]) - U(Q12))[short], 1e-7, case)
    if "Qnum" in extra:
        x = {n: np.asarray(v, float) for n, v in extra.items()}
        add(r, "numerical Q", key, kern, np.abs(U(x["Qnum"]) - U(Q12)), TOL, case, where)
        nb = x["Phibar"].shape[-1]
        # ∫ exp(F s) ds from the upper right block of an exponential, small steps doubled
        Fb = Fn[:nb, :nb]
        bb = base[:nb]
        for b in range(h):
            dt = T[b, 1] - T[b, 0]
            n = max(0, int(np.ceil(np.log2(max(np.max(np.sum(np.abs(Fb), 0)) * dt, 1e-30)))) + 1)
            hh = dt / 2.0**n
            M = expm(np.block([[Fb, np.eye(nb)], [np.zeros((nb, 2 * nb))]]) * hh)
            A, S = M[:nb, :nb], M[:nb, nb:]
            for _ in range(n):
                S = S + A @ S
                A = A @ A
            got = x["Phibar"][b] * bb[None, :] / bb[:, None]
            add(r, "Phibar", key, kern, np.abs(got - S) / max(dt, 1e-3), TOL + osc, case, where(b))
    r.traces += B
    for A in A13:
        r.outcomes.add(hash(tuple(np.round(A.ravel(), 8))))


def z_states(kern, insts):
    """(index, std) of the integral states of a (sum of) integrated kernel(s)"""
    dims = {"SHO": 2, "Exp": 1, "Matern32": 2, "Matern52": 3, "Cosine": 2}
    if kern[0] == "Sum":
        i1, s1, n1 = z_states(kern[1], insts)
        i2, s2, n2 = z_states(kern[2], insts)
        return i1 + [n1 + i for i in i2], s1 + s2, n1 + n2
    if kern[0] == "Scale":
        i, s, n = z_states(kern[2], insts)
        return i, [np.sqrt(kern[1]) * x for x in s], n
    d = dims[kern[0]]
    return [d + i for i in range(insts)], [kern[-1]] * insts, d + insts


def check_helpers(r):
    """the stand-alone Van Loan helpers on every base kernel and step"""
    for kern in [("SHO", 1.3, 2.0, 1.1), ("SHO", 1.3, 0.2, 0.7), ("Exp", 1.4, 1.1), ("Matern32", 1.5, 1.2),
                 ("Matern52", 1.6, 1.2), ("Cosine", 5.3, 1.1)]:
        k = impl.build(kern)
        F, L, Qc = (np.asarray(m, float) for m in (k.design_matrix(), k.noise_effect_matrix(), k.noise()))
        b = len(F)
        for dt in (0.0, 1e-4, 0.15, 0.7, 1.9):
            case = dict(helpers=True, kernel=kern, dt=dt)
            A, Q = ref_AQ(F, L @ Qc @ L.T, dt)
            x, w = np.polynomial.legendre.leggauss(24)
            s = 0.5 * dt * (x + 1)
            Phi = sum(0.5 * dt * wi * expm(F * si) for si, wi in zip(s, w)) if dt else np.zeros((b, b))
            # double integral of the transition: ∫0^dt Q(u) exp(F'(dt-u))... built on the augmented system
            Z = np.zeros((b, b))
            Fa = np.block([[F, Z], [np.eye(b), Z]])
            La = np.vstack([L, np.zeros_like(L)])
            _, Qa = ref_AQ(Fa, La @ Qc @ La.T, dt)
            add(r, "Q_from_VanLoan", kern[0], kern,
                np.abs(np.asarray(helpers.Q_from_VanLoan(F, L, Qc, dt)) - Q), 1e-8, case)
            add(r, "Phibar_from_VanLoan", kern[0], kern,
                np.abs(np.asarray(helpers.Phibar_from_VanLoan(F, dt)) - Phi), 1e-9, case)
            v = {n: np.asarray(m) for n, m in helpers.VanLoan(F, L, Qc, dt).items()}
            F3T = v["F3"].T
            add(r, "VanLoan F3", kern[0], kern, np.abs(F3T - A), 1e-9, case)
            add(r, "VanLoan G3", kern[0], kern, np.abs(v["G3"].T - Phi), 1e-9, case)
            add(r, "VanLoan Q", kern[0], kern, np.abs(F3T @ v["G2"] - Q), 1e-8, case)
            add(r, "VanLoan F1", kern[0], kern, np.abs(v["F1"] - expm(-F * dt)), 1e-8 * np.exp(np.abs(F).sum() * dt) + 1e-9, case)
            add(r, "VanLoan M", kern[0], kern, np.abs(F3T @ v["H2"] - Qa[:b, b:]), 1e-7, case)
            K1 = F3T @ v["K1"]
            add(r, "VanLoan W", kern[0], kern, np.abs(K1 + K1.T - Qa[b:, b:]), 1e-7, case)
            r.traces += 1
            r.states += 1
            r.transitions += 1
    M = np.arange(36.0).reshape(6, 6)
    v = np.asarray(helpers.block_view(jnp.asarray(M), 2))
    add(r, "block_view", "block", "block_view",
        np.array([np.abs(v[i, j] - M[2 * i : 2 * i + 2, 2 * j : 2 * j + 2]).max() for i in range(3) for j in range(3)]),
        0, dict(helpers=True))


def go(r, kern, insts, T):
    key = (f"integrated{insts} " if insts else "") + "/".join(str(impl.struct(kern)).replace("'", "").split())
    case = dict(kernel=kern, insts=insts)
    r.states += _expr.size(kern) * len(T)
    r.transitions += 2 * len(T)
    try:
        k = impl.build(kern, num=jnp.asarray, integrated=insts)
        mode = "generic"
        if insts:
            mode = "integrated" if isinstance(k, IntegratedStateSpaceModel) else "none"
        elif kern[0] in ("Sum", "Product", "Scale", "ESS"):
            mode = "none"
        Tj = jnp.asarray(T)
        try:
            out, extra = _fn(mode)(k, Tj)
        except Exception:
            k = impl.build(kern, integrated=insts)
            g = lambda f, i, j: np.stack([np.asarray(f(t[i], t[j])) for t in T])
            out = [g(f, i, j) for f in (k.transition_matrix, k.process_noise) for i, j in ((0, 1), (1, 2), (0, 2))]
            extra = {}
            r.notes["eager_fallbacks"] = r.notes.get("eager_fallbacks", 0) + 1
        z = None
        if insts:
            zi, zs, _ = z_states(kern, insts)
            z = (zi, zs)
            for i in range(insts):
                R = np.asarray(k.reset_matrix(i))
                n = len(zi) // insts
                hit = [zi[c * insts + i] for c in range(n)]
                want = np.eye(len(R))
                for j in hit:
                    want[j, j] = 0
                add(r, "reset", key, kern, np.abs(R - want), 0, case)
        identities(r, kern, T, out, k, extra, key, case, z)
    except Exception as e:
        r.violate(f"call:{key}", f"{kern} raised {type(e).__name__}: {str(e)[:300]}", case)


def run(shard):
    r = Result()
    T = triples()
    if "exprs" in shard:
        for k in shard["exprs"]:
            go(r, _expr.tup(k), 0, T)
        r.samples.append(dict(kernel=shard["exprs"][0], times=T[20].tolist()))
    elif "integrated" in shard:
        for k in INT[shard["integrated"]]:
            go(r, k, shard["insts"], T)
        r.samples.append(dict(integrated=shard["integrated"], insts=shard["insts"]))
    else:
        check_helpers(r)
        r.samples.append(dict(helpers=True))
    return r


def replay(case):
    r = Result()
    if "helpers" in case:
        check_helpers(r)
    else:
        go(r, _expr.tup(case["kernel"]), case["insts"], triples())
    return not r.violations, "; ".join(v["what"] for v in r.violations) or f"max error {r.max_err:.2e}"
