"""C18: predicted, filtered and smoothed states are the posteriors given the past, the present and all data."""
from __future__ import annotations

import functools
import itertools

import numpy as np

import equinox as eqx
import jax
import jax.numpy as jnp

from smolgp import GaussianProcess

from mc import impl, models, ref
from mc.checks import _integ, _point
from mc.checks._expr import tup
from mc.harness import ImplError, Result

TOL = 1e-7
ITOL = 3e-6
RULE = (
    "Every word of time gaps, or every timeline of the exposure automaton, is a data set; it is conditioned on with "
    "each solver, and at every one of its state times the predicted (earlier data only), filtered (this datum "
    "too) and smoothed (all data) mean and covariance of the full state - the process, its derivatives and the "
    "running integrals of open exposures - are compared with the dense posterior given exactly those data; so is the "
    "full state predicted at test times.  Basis data vectors decide the means for every y.  distinct_nontrivial "
    "counts distinct states."
)
ASSUMPTIONS = [
    "the states of SHO and Matern kernels are the process and its derivatives, as documented",
    "state means are linear in the data vector",
    "double precision",
]

NDER = {"SHO": 2, "Exp": 1, "Matern32": 2, "Matern52": 3}


# ---------------------------------------------------------------- reference
def comps(k):
    """-> [(variance factor, leaf)] of a sum; None if the state is not made of derivatives"""
    if k[0] == "Sum":
        a, b = comps(k[1]), comps(k[2])
        return None if a is None or b is None else a + b
    if k[0] == "Scale":
        a = comps(k[2])
        return None if a is None else [(k[1] * f, x) for f, x in a]
    return [(1.0, k)] if k[0] in NDER else None


@functools.lru_cache(maxsize=None)
def _cov(k, e1, e2):
    return ref.cov_elem(k, e1, e2)


def element_cov(e1, e2):
    """Elements: (factor, leaf, weight, (order, t, delta)); independent if of different leaves"""
    if e1[4] != e2[4]:
        return 0.0
    if e1[2] == 0 or e2[2] == 0:
        return 0.0
    return e1[0] * e1[2] * e2[2] * _cov(e1[1], e1[3], e2[3])


def state_elements(cs, t, opened, num):
    """elements of the state at time t, in the implementation's order; None where it means nothing.
    opened: {instrument: start}"""
    out = []
    for c, (f, leaf) in enumerate(cs):
        for n in range(NDER[leaf[0]]):
            out.append((f, leaf, 1.0, (n, t, 0.0), c))
        for i in range(num):
            if i in opened:
                s = opened[i]
                out.append((f, leaf, t - s, (0, (t + s) / 2, t - s), c))
            else:
                out.append(None)
    return out


def posterior(cs, els, obs, R, included):
    """-> gain (n_el, N) (zero for data not included), covariance, prior sd, mask"""
    n = len(els)
    ok = np.array([e is not None for e in els])
    idx = np.flatnonzero(ok)
    dat = [[(f, leaf, 1.0, (0, t, d), c) for c, (f, leaf) in enumerate(cs)] for t, d in obs]
    P = np.zeros((n, n))
    for a, b in itertools.product(idx, idx):
        if a <= b:
            P[a, b] = P[b, a] = element_cov(els[a], els[b])
    sd = np.sqrt(np.maximum(np.diagonal(P), 0))
    G = np.zeros((n, len(obs)))
    inc = list(included)
    if inc:
        K = np.array([[sum(element_cov(x, z) for x, z in zip(dat[i], dat[j])) for j in inc] for i in inc])
        C = np.zeros((n, len(inc)))
        for a in idx:
            for b, j in enumerate(inc):
                C[a, b] = element_cov(els[a], dat[j][els[a][4]])
        g = np.linalg.solve(K + np.diag(R[inc]), C.T).T
        G[:, inc] = g
        P = P - g @ C.T
    return G, P, sd, ok


def unit_sd(cs, num):
    """a floor for the size of each element"""
    out = []
    for f, leaf in cs:
        v = f * ref.kfun(leaf, 0.0)
        out += [np.sqrt(f * float((-1) ** n * ref.kder(leaf, 2 * n, 0.0))) for n in range(NDER[leaf[0]])]
        out += [1e-2 * np.sqrt(v)] * num
    return np.array(out)


# ---------------------------------------------------------------- implementation
def outputs(gp, Y, tt):
    def one(y):
        _, g = gp.condition(y)
        s = g.states
        full = g.predict(tt, return_full_state=True)
        return dict(
            mp=s.predicted_mean, Pp=s.predicted_cov, mf=s.filtered_mean, Pf=s.filtered_cov, ms=s.smoothed_mean,
            Ps=s.smoothed_cov, t=s.t_states, obsid=s.obsid, stateid=s.stateid, mt=full.mean, Pt=full.cov,
            loc=full.loc, var=full.variance,
        )

    return one, Y


@functools.lru_cache(maxsize=None)
def _bulk(solver):
    S = impl.SOLVERS[solver]

    @eqx.filter_jit
    def f(kernel, X, diag, Y, tt):
        def one(X, diag, tt):
            gp = GaussianProcess(kernel, X, diag=diag, solver=S)
            return jax.vmap(outputs(gp, Y, tt)[0])(Y)

        return jax.vmap(one)(X, diag, tt)

    return f


def call(kern, solver, X, diag, Y, tt, plain):
    """X tuple or array with a leading batch axis"""
    integ = isinstance(X, tuple)
    if not plain:
        try:
            kj = impl.build(kern, num=jnp.asarray, integrated=2 if integ else 0)
            Xj = tuple(map(jnp.asarray, X)) if integ else jnp.asarray(X)
            return {k: np.asarray(v) for k, v in _bulk(solver)(kj, Xj, jnp.asarray(diag), jnp.asarray(Y), jnp.asarray(tt)).items()}
        except Exception:  # noqa: BLE001
            pass
    kj = impl.build(kern, num=float, integrated=2 if integ else 0)
    outs = []
    try:
        for b in range(len(tt)):
            x = tuple(jnp.asarray(a[b]) for a in X) if integ else jnp.asarray(X[b])
            gp = GaussianProcess(kj, x, diag=jnp.asarray(diag[b]), solver=impl.SOLVERS[solver])
            one, _ = outputs(gp, Y, jnp.asarray(tt[b]))
            rows = [one(jnp.asarray(y)) for y in Y]
            outs.append({k: np.stack([np.asarray(r[k]) for r in rows]) for k in rows[0]})
    except Exception as e:  # noqa: BLE001
        raise ImplError(f"{type(e).__name__}: {str(e)[:300]}") from e
    return {k: np.stack([o[k] for o in outs]) for k in outs[0]}


# ---------------------------------------------------------------- comparison
def one_dataset(kern, cs, obs, inst, R, Y, got, num, tt):
    """yields (name, error, index, got, expected)"""
    d = len(unit_sd(cs, num))
    floor = unit_sd(cs, num)
    ymax = np.maximum(np.max(np.abs(Y), axis=1), 1e-300)
    N = len(obs)

    def cmp(name, m, P, els, inc, k):
        G, Pe, sd, ok = posterior(cs, els, obs, R, inc)
        sd = np.maximum(sd, floor)
        me = Y @ G.T
        em = np.abs(m - me) / (sd[None, :] * ymax[:, None])
        eP = np.abs(P - Pe) / (sd[:, None] * sd[None, :])
        okk = ok[:, None] & ok[None, :]
        em = np.where(ok[None, :], np.where(np.isfinite(em), em, np.inf), 0)
        eP = np.where(okk, np.where(np.isfinite(eP), eP, np.inf), 0)
        i = np.unravel_index(np.argmax(em), em.shape)
        yield f"{name} mean", em[i], [k, int(i[1])], m[i], me[i], em.size
        j = np.unravel_index(np.argmax(eP), eP.shape)
        yield f"{name} covariance", eP[j], [k, int(j[-2]), int(j[-1])], P[j], np.broadcast_to(Pe, eP.shape)[j], eP.size

    t, oid, sid = got["t"][0], got["obsid"][0], got["stateid"][0]
    K = len(t)
    if num:
        starts = {int(oid[j]): j for j in range(K) if sid[j] == 0}
        ends = {int(oid[j]): j for j in range(K) if sid[j] == 1}
        if sorted(starts) != list(range(N)) or sorted(ends) != list(range(N)) or K != 2 * N:
            yield "state labels", np.inf, [], float(K), float(2 * N), 1
            return
        edges = np.array([obs[int(o)][0] + (s - 0.5) * obs[int(o)][1] for o, s in zip(oid, sid)])
    else:
        starts, ends = {}, {int(o): j for j, o in enumerate(oid)}
        edges = np.array([obs[int(o)][0] for o in oid])
    span = 1 + np.max(np.abs(edges))
    yield "state times", float(np.max(np.abs(t - edges)) / span), [], float(t[0]), float(edges[0]), K
    if np.any(np.diff(t) < 0):
        yield "state order", np.inf, [], 0.0, 0.0, 1

    for k in range(K):
        data = lambda last: [int(oid[j]) for j in range(last) if sid[j] == 1]
        begin = {i: s for i, s in starts.items() if s < ends[i]}
        edge = lambda i: obs[i][0] - obs[i][1] / 2
        op = {int(inst[i]): edge(i) for i, s in begin.items() if s < k <= ends[i]}
        of = {int(inst[i]): edge(i) for i, s in begin.items() if s <= k <= ends[i]}
        els, elf = state_elements(cs, edges[k], op, num), state_elements(cs, edges[k], of, num)
        yield from cmp("predicted", got["mp"][:, k], got["Pp"][:, k], els, data(k), k)
        yield from cmp("filtered", got["mf"][:, k], got["Pf"][:, k], elf, data(k + 1), k)
        yield from cmp("smoothed", got["ms"][:, k], got["Ps"][:, k], els, range(N), k)
    var = sum(f * ref.kfun(leaf, 0.0) for f, leaf in cs)
    H = np.zeros(d)
    p = 0
    for f, leaf in cs:
        H[p] = 1
        p += NDER[leaf[0]] + num
    for m in range(len(tt)):
        els = state_elements(cs, tt[m], {}, num)
        yield from cmp("test", got["mt"][:, m], got["Pt"][:, m], els, range(N), m)
        G, Pe, _, ok = posterior(cs, els, obs, R, range(N))
        h = H * ok
        me, ve = Y @ G.T @ h, h @ Pe @ h
        e = np.max(np.abs(got["loc"][:, m] - me) / ymax)
        yield "test loc", e if np.isfinite(e) else np.inf, [m], got["loc"][-1, m], me[-1], len(Y)
        e = np.max(np.abs(got["var"][:, m] - ve)) / var
        yield "test variance", e if np.isfinite(e) else np.inf, [m], got["var"][-1, m], ve, len(Y)


def judge_all(r, kern, solver, X, diag, Y, tt, tol, plain=False):
    integ = isinstance(X, tuple)
    num = 2 if integ else 0
    cs = comps(kern)
    shape = str(impl.struct(kern)).replace(" ", "").replace("'", "")
    T, D, I = X if integ else (X, np.zeros_like(X), np.zeros(X.shape, int))

    def case(b):
        return dict(kernel=kern, solver=solver, t=T[b].tolist(), delta=D[b].tolist(), inst=I[b].tolist(),
                    diag=diag[b].tolist(), Y=Y.tolist(), tests=tt[b].tolist())

    try:
        got = call(kern, solver, X, diag, Y, tt, plain)
    except ImplError as e:
        r.violate(f"call:{shape}:{solver}", f"{kern} ({solver}) raised {e}", case(0))
        return
    for b in range(len(tt)):
        obs = list(zip(T[b].tolist(), D[b].tolist()))
        g = {k: v[b] for k, v in got.items()}
        for name, err, idx, a, e, n in one_dataset(kern, cs, obs, I[b], diag[b], Y, g, num, tt[b].tolist()):
            r.evaluations += n
            if err <= tol:
                r.max_err = max(r.max_err, float(err))
            else:
                r.violate(
                    f"{name.replace(' ', '-')}:{shape}:{solver}",
                    f"{name} of {kern} ({solver}) at state {idx} is {float(a)!r}, expected {float(e)!r} "
                    f"(relative {err:.2g}); (t, delta)={obs} inst={I[b].tolist()}", case(b))
        r.traces += 1
        r.outcomes |= {hash(tuple(np.round(x, 7))) for x in g["ms"].reshape(-1, g["ms"].shape[-1])[:40]}
        if len(r.violations) >= 8:
            return


POINT = {
    "SHO": _point.SHO[:6] + [("SHO", 2.0, 0.501, 0.9)],
    "Exp": _point.LEAVES["Exp"][:2],
    "Matern32": _point.LEAVES["Matern32"],
    "Matern52": _point.LEAVES["Matern52"],
    "SHO+M32": _point.TREES["SHO+M32"],
    "c*SHO": _point.TREES["c*SHO"],
    "(Exp+SHO)+Exp": _point.TREES["(Exp+SHO)+Exp"],
}
INTEG = {k: v for k, v in _integ.KERNELS.items() if k != "Cosine"}


def shards(tier, seed):
    q = tier == "quick"
    S = []
    for s in ("seq", "par"):
        for k in POINT:
            if q and s == "par" and k not in ("SHO", "Exp", "SHO+M32", "Matern52"):
                continue
            sizes = [(4, "4"), (1, "2"), (2, "far"), (5, "2")]
            if not q:
                sizes = [(5, "5"), (1, "2"), (3, "far"), (7, "2")]
            S.append(dict(kernel=k, solver=s, sizes=sizes, weight=10))
    for s in ("iseq", "ipar"):
        for k in INTEG:
            if q and s == "ipar" and k not in ("SHO", "Matern32"):
                continue
            spaces = [(3, 2, 2, "irregular"), (3, 2, 1, "unit")]
            if k in ("SHO", "Matern32") or not q:
                spaces.append((3, 2, 3, "irregular"))
            if not q:
                spaces += [(4, 2, 3, "irregular"), (4, 2, 2, "wide")]
            S.append(dict(kernel=k, solver=s, spaces=spaces, weight=30, variants=2 if q else None))
    for s in ("seq", "par", "iseq", "ipar"):
        S.append(dict(kernel="SHO", solver=s, plain=True, weight=20))
    return S


def run(shard):
    r = Result()
    k, solver, plain = shard["kernel"], shard["solver"], shard.get("plain", False)
    if solver in ("seq", "par"):
        for n, gk in shard.get("sizes", [(3, "2")]):
            ws, st, trn = models.words(_point.GAPS[gk], n - 1)
            r.states += st
            r.transitions += trn
            t = models.times_from_words(ws, _point.GAPS[gk])
            t = t[:2] if plain else t
            tt = np.concatenate([t[:, -1:] + 0.4, t[:, :1] - 0.3, t[:, :1], 0.5 * (t[:, :1] + t[:, -1:])], axis=1)
            diag = np.broadcast_to(np.resize(_integ.NOISE["varied"](6), n), t.shape)
            for kern in POINT[k][: 1 if plain else None]:
                judge_all(r, kern, solver, t, diag, models.y_basis(n), tt, TOL, plain)
        return r
    for grid, insts, n, mapname in shard.get("spaces", [(3, 2, 2, "irregular")]):
        I, inst, st, trn = _integ.datasets(grid, insts, n, "one")
        r.states += st
        r.transitions += trn
        if plain:
            I, inst = I[5::40], inst[5::40]
        X = _integ.xarrays(I, inst, grid, mapname)
        M = _integ.MAPS[mapname]
        pts = [M[grid - 1] + 0.4, M[0] - 0.3, M[1], 0.5 * (M[0] + M[1])]
        tt = np.broadcast_to(np.array(pts), (len(I), len(pts)))
        diag = np.broadcast_to(_integ.NOISE["varied"](n), (len(I), n))
        for kern in INTEG[k][: 1 if plain else shard.get("variants")]:
            judge_all(r, kern, solver, X, diag, models.y_basis(n), tt, ITOL, plain)
    r.samples.append(dict(kernel=kern, solver=solver, X=[np.asarray(a[-1]).tolist() for a in X]))
    return r


def replay(case):
    r = Result()
    kern, solver = tup(case["kernel"]), case["solver"]
    t = np.array([case["t"]])
    X = (t, np.array([case["delta"]]), np.array([case["inst"]])) if solver in ("iseq", "ipar") else t
    judge_all(r, kern, solver, X, np.array([case["diag"]]), np.array(case["Y"]), np.array([case["tests"]]),
              ITOL if solver in ("iseq", "ipar") else TOL, True)
    return not r.violations, "; ".join(v["what"] for v in r.violations) or f"max error {r.max_err:.2e}"
