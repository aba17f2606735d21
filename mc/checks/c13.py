"""C13: every word of program transformations, replayed on the implementation."""
from __future__ import annotations

import functools
import itertools

import numpy as np

import equinox as eqx
import jax
import jax.numpy as jnp
from smolgp import GaussianProcess

from mc import impl, ref
from mc.harness import Result

LEVEL = "exploration"
TOL = 3e-6  # integrated smoothing limits the values; finite differences of the reference are good to ~1e-9
RULE = (
    "All words up to a length over {jit, batching over parameters / noise / data / coordinates, forward-mode and "
    "reverse-mode derivative with respect to parameters / noise / data / coordinates} (each batching at most "
    "once, at most one derivative per word), applied in that order to likelihood, conditioning and prediction of "
    "one model, with every solver; the same word applied to the dense reference (stacking, Richardson "
    "finite differences) is the oracle.  All ways of carrying the model object through transformations (as "
    "argument, as result, built inside a batch).  All kernels x data configurations (distinct, repeated, one "
    "datum, coincident, back-to-back, nested and zero-length exposures, long gaps) x solvers x both derivative modes.  "
    "distinct_nontrivial counts distinct answers."
)
ASSUMPTIONS = [
    "derivatives are claimed where they exist: not with respect to repeated coordinates for processes without a "
    "derivative, nor for a quality factor of exactly 1/2",
    "the truncation order of ExpSineSquared is given (choosing it needs a concrete gamma)",
    "derivatives of likelihoods only; values of everything",
    "double precision",
]

POINT = [
    ("SHO", 1.3, 2.0, 1.1),
    ("SHO", 1.3, 0.2, 0.7),
    ("Exp", 1.4, 1.1),
    ("Matern32", 1.5, 1.2),
    ("Matern52", 1.6, 1.2),
    ("Cosine", 5.3, 1.1),
    ("Constant", 0.7),
    ("ESS", 3.1, 0.7, 1.2, 3),
    ("Sum", ("Exp", 1.9, 0.9), ("SHO", 1.7, 1.4, 0.9)),
    ("Product", ("Matern32", 1.9, 0.9), ("SHO", 1.7, 1.4, 0.9)),
    ("Scale", 2.5, ("Matern52", 1.0, 1.0)),
]
INTEG = [
    ("SHO", 1.3, 2.0, 1.1),
    ("SHO", 1.3, 0.2, 0.7),
    ("Exp", 1.4, 1.1),
    ("Matern32", 1.5, 1.2),
    ("Matern52", 1.6, 1.2),
    ("Cosine", 5.3, 1.1),
    ("Sum", ("Exp", 1.9, 0.9), ("SHO", 1.7, 1.4, 0.9)),
    ("Scale", 2.5, ("Matern32", 1.0, 1.0)),
]
PDATA = {
    "distinct": [0.0, 0.7, 1.9],
    "equal gaps": [0.0, 0.5, 1.0],
    "repeated": [0.3, 0.3, 1.9],
    "all repeated": [0.4, 0.4, 0.4],
    "last repeated": [-1.0, 2.5, 2.5],
    "close": [0.0, 1e-3, 2.0],
    "long": [0.0, 1.0, 90.0],
    "one": [0.2],
    "one, negative": [-3.0],
}
IDATA = {
    "separate": [(0.0, 0.5, 0), (1.0, 0.7, 1), (2.2, 0.3, 0)],
    "shared end": [(0.0, 0.5, 0), (1.0, 0.7, 1), (1.2, 0.3, 0)],
    "overlap": [(1.0, 0.6, 0), (1.3, 0.8, 1), (3.0, 0.2, 0)],
    "identical": [(1.0, 0.6, 0), (1.0, 0.6, 1), (3.0, 0.2, 0)],
    "nested": [(1.0, 1.6, 0), (1.1, 0.4, 1), (3.0, 0.2, 1)],
    "back to back": [(0.5, 1.0, 0), (1.5, 1.0, 0), (2.5, 1.0, 0)],
    "reversed": [(2.5, 1.0, 0), (1.4, 0.9, 1), (0.5, 1.0, 0)],
    "zero lengths": [(0.5, 0.0, 0), (1.5, 1.0, 0), (2.5, 0.0, 1)],
    "long": [(0.5, 9.0, 0), (40.5, 1.0, 1), (41.0, 1.0, 0)],
    "one": [(0.5, 0.3, 0)],
    "one, zero length": [(0.5, 0.0, 1)],
}
RVALS = np.array([0.1, 0.3, 0.2])
YVALS = np.array([0.3, -1.0, 0.8])
TT = {0: np.array([-0.4, 0.55, 0.7, 2.6]), 1: np.array([-0.4, 0.55, 1.2, 3.6])}


def params(k):
    if k[0] in ("Sum", "Product"):
        return params(k[1]) + params(k[2])
    if k[0] == "Scale":
        return [k[1]] + params(k[2])
    if k[0] == "ESS":
        return list(k[1:4])
    return list(k[1:])


def setp(k, p):
    it = iter(p)

    def go(k):
        if k[0] in ("Sum", "Product"):
            a = go(k[1])
            return (k[0], a, go(k[2]))
        if k[0] == "Scale":
            c = next(it)
            return ("Scale", c, go(k[2]))
        if k[0] == "ESS":
            return ("ESS", next(it), next(it), next(it), k[4])
        return (k[0],) + tuple(next(it) for _ in k[1:])

    return go(k)


def smooth(k):
    """mean-square differentiable, so that the likelihood is differentiable at repeated coordinates"""
    if k[0] in ("Sum", "Product"):
        return smooth(k[1]) and smooth(k[2])
    if k[0] == "Scale":
        return smooth(k[2])
    return k[0] != "Exp"


def has_tie(obs):
    """an instantaneous observation at another one, or at the edge of another exposure"""
    for i, (a, d) in enumerate(obs):
        for j, (b, e) in enumerate(obs):
            if i != j and d == 0 and abs(abs(a - b) - e / 2) < 1e-9:
                return True
    return False


# ------------------------------------------------------------------ the two interpretations
NAMES = ("logp", "clogp", "loc", "var", "pmu", "pvar")


def reference(k, obs, tt):
    """f(p, R, y, t) -> dict of arrays, by dense linear algebra"""

    @functools.lru_cache(maxsize=None)
    def gram(p, t, what):
        kk = setp(k, p)
        o = [(a, d) for a, (_, d) in zip(t, obs)]
        if what == "K":
            return ref.cov_matrix(kk, o)
        s = [(x, 0.0) for x in tt]
        return ref.cov_matrix(kk, s, o), np.array([ref.cov_matrix(kk, [x])[0, 0] for x in s])

    def f(p, R, y, t, only_logp=False):
        p, t = tuple(map(float, p)), tuple(map(float, t))
        K = gram(p, t, "K")
        g = ref.DenseGP(K, R)
        lp = g.logp(y)
        if only_logp:
            return {"logp": np.array(lp)}
        m, v = g.post(K, np.diag(K), y)
        pm, pv = g.post(*gram(p, t, "s"), y)
        return dict(logp=np.array(lp), clogp=np.array(lp), loc=m, var=v, pmu=pm, pvar=pv)

    return f


def implementation(k, obs, tt, solver, insts, num=lambda x: x):
    d = jnp.array([o[1] for o in obs])
    ids = jnp.array([o[2] if len(o) > 2 else 0 for o in obs])
    tt = jnp.asarray(tt)

    def model(p, R, t):
        kk = impl.build(setp(k, list(p)), num=num, integrated=insts)
        return GaussianProcess(kk, (t, d, ids) if insts else t, diag=R, solver=impl.SOLVERS[solver])

    def f(p, R, y, t, only_logp=False):
        gp = model(p, R, t)
        out = {"logp": gp.log_probability(y)}
        if not only_logp:
            out["clogp"], c = gp.condition(y)
            out["loc"], out["var"] = c.loc, c.variance
            out["pmu"], out["pvar"] = gp.predict(tt, y, return_var=True)
        return out

    return f, model


ARGS = "pRyt"
NOBJ = 13  # ways of carrying a model, see objects()
# two values of each argument for the batched transformations: (base, other)
FD = {"p": 1e-4, "R": 1e-5, "y": 1e-3, "t": 1e-5}


def apply_impl(word, f):
    for a in reversed(word):
        if a == "J":
            f = jax.jit(f)
        elif a[0] == "V":
            i = ARGS.index(a[1])
            f = jax.vmap(f, in_axes=tuple(0 if j == i else None for j in range(4)))
        else:
            i = ARGS.index(a[1])
            f = (jax.jacfwd if a[0] == "F" else jax.jacrev)(f, argnums=i)
    return f


def apply_ref(word, f):
    for a in reversed(word):
        if a == "J":
            continue
        i = ARGS.index(a[1])
        f = _ref_vmap(f, i) if a[0] == "V" else _ref_jac(f, i, FD[a[1]])
    return f


def _ref_vmap(f, i):
    def g(*args):
        outs = [f(*args[:i], x, *args[i + 1 :]) for x in args[i]]
        return {n: np.stack([o[n] for o in outs]) for n in outs[0]}

    return g


def _ref_jac(f, i, h):
    def g(*args):
        x = np.asarray(args[i], float)
        cols = []
        for idx in np.ndindex(x.shape):
            s = h * max(1.0, abs(x[idx]))

            def at(z):
                xx = x.copy()
                xx[idx] += z
                return f(*args[:i], xx, *args[i + 1 :])

            a, b, c, d = at(s), at(-s), at(s / 2), at(-s / 2)
            cols.append({n: (4 * (c[n] - d[n]) / s - (a[n] - b[n]) / (2 * s)) / 3 for n in a})
        return {
            n: np.stack([c[n] for c in cols], axis=-1).reshape(cols[0][n].shape + x.shape) for n in cols[0]
        }

    return g


def arguments(word, k, obs):
    p = np.array(params(k), float)
    n = len(obs)
    base = dict(p=p, R=RVALS[:n], y=YVALS[:n], t=np.array([o[0] for o in obs], float))
    # order-preserving changes
    other = dict(p=p * (1.0 + 0.07 * np.arange(1, len(p) + 1)), R=base["R"][::-1] + 0.05, y=1.0 - base["y"] ** 2,
                 t=1.03 * base["t"] + 0.02)
    args = []
    for c in ARGS:
        args.append(np.stack([base[c], other[c]]) if "V" + c in word else base[c])
    return args


def words(depth, coords="pyt"):
    A = ["J"] + ["V" + c for c in "pyt"] + [m + c for m in "RF" for c in coords]
    out = []
    for n in range(depth + 1):
        for w in itertools.product(A, repeat=n):
            vs = [a for a in w if a[0] == "V"]
            gs = [a for a in w if a != "J" and a[0] != "V"]
            if len(set(vs)) == len(vs) and len(gs) <= 1:
                out.append(w)
    return out


# ------------------------------------------------------------------------------- shards
WK = {None: POINT[8], "par": POINT[0], "iseq": INTEG[2], "ipar": INTEG[3]}
WK2 = {None: POINT[9], "par": POINT[8], "iseq": INTEG[6], "ipar": INTEG[0]}


def _batches(x, n):
    return [x[i::n] for i in range(n)]


# the words of the quick check: one transformation, compiled, and the usual pairs
QUICK = [(), ("J",)] + [("J", a) for a in ("Vp", "Vy", "Vt", "Rp", "RR", "Ry", "Rt", "Fp")] + [
    ("J", "Vp", "Rp"),
    ("J", "Rp", "Vp"),
    ("J", "Vy", "Rp"),
    ("J", "Vp", "Vy"),
]
Q_IPAR = [(), ("J",), ("J", "Vp"), ("J", "Vy"), ("J", "Rp"), ("J", "Vp", "Rp")]
# kernels whose gradients the quick check covers (all of them in the thorough one)
Q_GRAD = {None: range(len(POINT)), "par": (0, 1, 3, 7, 8), "iseq": (0, 2, 3, 5), "ipar": (2, 3)}


def shards(tier, seed):
    q = tier == "quick"
    S = []
    if q:  # one at a time on eager calls as well
        W = {None: QUICK + [w for w in words(1, "pRyt") if w not in QUICK], "par": QUICK, "iseq": QUICK, "ipar": Q_IPAR}
    else:
        W = dict.fromkeys((None, "par", "iseq", "ipar"), words(3, "pRyt"))
    for sol in (None, "par", "iseq", "ipar"):
        for kk in ("1",) if q else ("1", "2"):
            for b in _batches(W[sol], 3 if q else 24):
                S.append(dict(kind="words", solver=sol, which=kk, words=b, weight=9 if sol == "ipar" else 5))
    for sol in (None, "par", "iseq", "ipar"):
        ks = POINT if sol in (None, "par") else INTEG
        for ki in Q_GRAD[sol] if q else range(len(ks)):
            S.append(dict(kind="grad", solver=sol, k=ki, insts=2 if ks is INTEG else 0, weight=6 if ks is INTEG else 3,
                          modes=1 if q and ki not in (0, 8) else 2, singles=not q or ki == 3))
    for sol in (None, "par", "iseq", "ipar"):
        ids = (0, 2, 4, 5, 8, 11) if q and sol == "ipar" else range(NOBJ)
        for b in _batches(list(ids), 4):
            S.append(dict(kind="object", solver=sol, ids=b, weight=8 if sol == "ipar" else 4))
    return S


def compare(r, got, exp, case, scale_of):
    bad = []
    for n, e in exp.items():
        g = np.asarray(got[n], float)
        r.evaluations += e.size
        if g.shape != e.shape:
            bad.append(f"{n}: shape {g.shape}, expected {e.shape}")
            continue
        with np.errstate(all="ignore"):
            d = np.max(np.abs(g - e)) / (1.0 + np.max(np.abs(e))) if e.size else 0.0
        d = d if np.isfinite(d) else np.inf
        if d > TOL:
            bad.append(f"{n}: {np.array2string(g.ravel()[:6], precision=8)} expected {np.array2string(e.ravel()[:6], precision=8)}")
        else:
            r.max_err = max(r.max_err, d)
        r.outcomes.add(hash((n, tuple(np.round(g.ravel()[:12], 5)))))
    return bad


def setting(solver, which):
    integ = solver in ("iseq", "ipar")
    k = (WK if which == "1" else WK2)[solver]
    obs = IDATA["overlap"] if integ else [(t, 0.0) for t in PDATA["distinct"]]
    return k, obs, TT[int(integ)], 2 if integ else 0


def run_word(word, solver, which):
    k, obs, tt, insts = setting(solver, which)
    f, _ = implementation(k, obs, tt, solver, insts)
    g = reference(k, [o[:2] for o in obs], tt)
    lp = any(a != "J" and a[0] != "V" for a in word)
    args = arguments(word, k, obs)
    fi = apply_impl(word, lambda p, R, y, t: f(p, R, y, t, only_logp=lp))
    gi = apply_ref(word, lambda p, R, y, t: g(p, R, y, t, only_logp=lp))
    exp = gi(*args)
    try:
        got = fi(*[jnp.asarray(a) for a in args])
    except Exception as e:  # noqa: BLE001
        return None, exp, f"{type(e).__name__}: {str(e)[:300]}"
    return got, exp, None


GRAD_ARGS = ("p", "R", "y", "t")


@functools.lru_cache(maxsize=None)
def _grad_fn(struct_key, k, n, solver, insts, mode):
    def f(p, R, y, t, d, ids):
        kk = impl.build(setp(k, list(p)), num=lambda x: x, integrated=insts)
        gp = GaussianProcess(kk, (t, d, ids) if insts else t, diag=R, solver=impl.SOLVERS[solver])
        return gp.log_probability(y)

    m = jax.grad if mode == "R" else jax.jacfwd
    return jax.jit(m(f, argnums=(0, 1, 2, 3)))


def run_grad(k, obs, solver, insts, modes):
    n = len(obs)
    o2 = [o[:2] for o in obs]
    p = np.array(params(k), float)
    t = np.array([o[0] for o in obs], float)
    d = np.array([o[1] for o in obs], float)
    ids = np.array([o[2] if len(o) > 2 else 0 for o in obs])
    R, y = RVALS[:n], YVALS[:n]
    g = reference(k, o2, ())
    base = [p, R, y, t]
    exp = {}
    for i, a in enumerate(GRAD_ARGS):
        if a == "t" and not smooth(k) and has_tie(o2):
            continue
        exp[a] = _ref_jac(lambda *z: g(*z, only_logp=True), i, FD[a])(*base)["logp"]
    res = {}
    for mode in "RF"[:modes]:
        try:
            out = _grad_fn(impl.struct(k), k, n, solver, insts, mode)(
                jnp.asarray(p), jnp.asarray(R), jnp.asarray(y), jnp.asarray(t), jnp.asarray(d), jnp.asarray(ids))
            res[mode] = (dict(zip(GRAD_ARGS, out)), None)
        except Exception as e:  # noqa: BLE001
            res[mode] = (None, f"{type(e).__name__}: {str(e)[:300]}")
    return res, exp


def objects(solver):
    """ways of carrying a model through transformations; each yields (name, got, expected)"""
    k, obs, tt, insts = setting(solver, "1")
    f, model = implementation(k, obs, tt, solver, insts)
    o2 = [o[:2] for o in obs]
    g = reference(k, o2, tt)
    p = np.array(params(k), float)
    t = np.array([o[0] for o in obs], float)
    ps = np.stack([p, 1.1 * p])
    ys = np.stack([YVALS, YVALS[::-1], np.ones(3)])
    J = jnp.asarray
    e0 = g(p, RVALS, YVALS, t)
    tj = J(tt)

    def everything(gp, y):
        lp, c = gp.condition(y)
        m, v = gp.predict(tj, y, return_var=True)
        return dict(logp=gp.log_probability(y), clogp=lp, loc=c.loc, var=c.variance, pmu=m, pvar=v)

    def as_argument():
        return eqx.filter_jit(everything)(model(J(p), J(RVALS), J(t)), J(YVALS)), e0

    def as_result():
        gp = eqx.filter_jit(model)(J(p), J(RVALS), J(t))
        return everything(gp, J(YVALS)), e0

    def conditioned_as_result():
        lp, c = eqx.filter_jit(lambda gp, y: tuple(gp.condition(y)))(model(J(p), J(RVALS), J(t)), J(YVALS))
        m, v = c.predict(tj, return_var=True)
        m2, v2 = c.predict(return_var=True)
        return (dict(clogp=lp, loc=c.loc, var=c.variance, pmu=m, pvar=v, mu0=m2, var0=v2),
                {**{n: e0[n] for n in ("clogp", "loc", "var", "pmu", "pvar")}, "mu0": e0["loc"], "var0": e0["var"]})

    def conditioned_as_argument():
        c = model(J(p), J(RVALS), J(t)).condition(J(YVALS)).gp
        m, v = eqx.filter_jit(lambda c, x: c.predict(x, return_var=True))(c, tj)
        return dict(pmu=m, pvar=v), {n: e0[n] for n in ("pmu", "pvar")}

    def batch_of_models():
        gps = eqx.filter_vmap(model, in_axes=(0, None, None))(J(ps), J(RVALS), J(t))
        out = eqx.filter_vmap(everything, in_axes=(0, None))(gps, J(YVALS))
        es = [g(q, RVALS, YVALS, t) for q in ps]
        return out, {n: np.stack([e[n] for e in es]) for n in NAMES}

    def batch_of_conditioned():
        gp = model(J(p), J(RVALS), J(t))
        cs = eqx.filter_vmap(lambda y: gp.condition(y).gp)(J(ys))
        m, v = eqx.filter_vmap(lambda c: c.predict(tj, return_var=True))(cs)
        es = [g(p, RVALS, y, t) for y in ys]
        return dict(pmu=m, pvar=v), {n: np.stack([e[n] for e in es]) for n in ("pmu", "pvar")}

    def map_over_data():
        gp = model(J(p), J(RVALS), J(t))
        out = jax.lax.map(lambda y: everything(gp, y), J(ys))
        es = [g(p, RVALS, y, t) for y in ys]
        return out, {n: np.stack([e[n] for e in es]) for n in NAMES}

    def scan_over_parameters():
        out = jax.lax.scan(lambda c, q: (c, f(q, J(RVALS), J(YVALS), J(t))), 0, J(ps))[1]
        es = [g(q, RVALS, YVALS, t) for q in ps]
        return out, {n: np.stack([e[n] for e in es]) for n in NAMES}

    def tree_round_trip():
        gp = model(J(p), J(RVALS), J(t))
        leaves, td = jax.tree_util.tree_flatten(gp)
        return everything(jax.tree_util.tree_unflatten(td, leaves), J(YVALS)), e0

    def gradient_of_model():
        gp = model(J(p), J(RVALS), J(t))
        dn = eqx.filter_grad(lambda gp, y: gp.log_probability(y))(gp, J(YVALS)).solver.noise.diag
        e = _ref_jac(lambda *z: g(*z, only_logp=True), 1, FD["R"])(p, RVALS, YVALS, t)["logp"]
        return dict(noise=dn), dict(noise=e)

    def value_and_grad():
        v, d = jax.jit(jax.value_and_grad(lambda q: f(q, J(RVALS), J(YVALS), J(t), only_logp=True)["logp"]))(J(p))
        e = _ref_jac(lambda *z: g(*z, only_logp=True), 0, FD["p"])(p, RVALS, YVALS, t)["logp"]
        return dict(v=v, d=d), dict(v=e0["logp"], d=e)

    def python_numbers():
        kk = impl.build(setp(k, [float(x) for x in p]), integrated=insts)
        X = (np.asarray(t), np.array([o[1] for o in obs]), np.array([o[2] for o in obs])) if insts else np.asarray(t)
        gp = GaussianProcess(kk, X, diag=RVALS, solver=impl.SOLVERS[solver])
        return everything(gp, np.asarray(YVALS)), e0

    def checkpointed():
        v, d = jax.value_and_grad(jax.checkpoint(lambda q: f(q, J(RVALS), J(YVALS), J(t), only_logp=True)["logp"]))(J(p))
        e = _ref_jac(lambda *z: g(*z, only_logp=True), 0, FD["p"])(p, RVALS, YVALS, t)["logp"]
        return dict(v=v, d=d), dict(v=e0["logp"], d=e)

    return [as_argument, as_result, conditioned_as_result, conditioned_as_argument, batch_of_models,
            batch_of_conditioned, map_over_data, scan_over_parameters, tree_round_trip, gradient_of_model,
            value_and_grad, python_numbers, checkpointed]


def run(s):
    r = Result()
    if s["kind"] == "words":
        for w in s["words"]:
            w = tuple(w)
            got, exp, err = run_word(w, s["solver"], s["which"])
            if open("/proc/self/maps").read().count("\n") > 20000:
                jax.clear_caches()  # compiled code is never freed otherwise
            r.traces += 1
            r.states += 1
            r.transitions += len(w)
            case = dict(kind="words", word=list(w), solver=s["solver"], which=s["which"])
            bad = [err] if err else compare(r, got, exp, case, None)
            if bad:
                r.violate(f"word-{s['solver']}-{'.'.join(w)}", f"{' '.join(w) or 'eager'} {s['solver']} {setting(s['solver'], s['which'])[0]}: " + "; ".join(bad), case)
            elif not r.samples:
                r.samples.append(dict(case=case, max_rel_err=r.max_err))
    elif s["kind"] == "grad":
        k = (INTEG if s["insts"] else POINT)[s["k"]]
        for name, obs in (IDATA if s["insts"] else PDATA).items():
            if len(obs) == 1 and not s["singles"]:
                continue
            grad_case(r, k, name, s["solver"], s["insts"], s["modes"])
    else:
        for i in s["ids"]:
            object_case(r, s["solver"], i)
    jax.clear_caches()
    _grad_fn.cache_clear()
    return r


def grad_case(r, k, name, solver, insts, modes):
    obs = IDATA[name] if insts else [(t, 0.0) for t in PDATA[name]]
    res, exp = run_grad(k, obs, solver, insts, modes)
    r.states += 1
    for mode, (got, err) in res.items():
        r.traces += 1
        r.transitions += 1
        case = dict(kind="grad", k=k, name=name, solver=solver, insts=insts)
        bad = [err] if err else compare(r, {a: got[a] for a in exp}, exp, case, None)
        if bad:
            r.violate(f"grad-{solver}-{k[0]}-{name}-{mode}", f"{'reverse' if mode == 'R' else 'forward'}-mode gradient, {solver} {k} data '{name}': " + "; ".join(bad), case)
        elif not r.samples:
            r.samples.append(dict(case=case, got={a: np.asarray(got[a]).tolist() for a in exp}))


def object_case(r, solver, i):
    f = objects(solver)[i]
    r.traces += 1
    r.states += 1
    r.transitions += 1
    case = dict(kind="object", solver=solver, i=i, name=f.__name__)
    try:
        got, exp = f()
        bad = compare(r, got, exp, case, None)
    except Exception as e:  # noqa: BLE001
        bad = [f"{type(e).__name__}: {str(e)[:300]}"]
    if bad:
        r.violate(f"object-{solver}-{f.__name__}", f"{f.__name__} {solver}: " + "; ".join(bad), case)


def _t(k):
    return tuple(_t(x) if isinstance(x, list) else x for x in k)


def replay(c):
    r = Result()
    if c["kind"] == "words":
        got, exp, err = run_word(tuple(c["word"]), c["solver"], c["which"])
        bad = [err] if err else compare(r, got, exp, c, None)
        return not bad, "; ".join(bad)
    if c["kind"] == "grad":
        grad_case(r, _t(c["k"]), c["name"], c["solver"], c["insts"], 2)
    else:
        object_case(r, c["solver"], c["i"])
    return not r.violations, "; ".join(v["what"] for v in r.violations)
