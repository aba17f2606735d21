"""C17: user-defined kernels, wrappers and observation models."""
from __future__ import annotations

import functools
import itertools

import numpy as np

import equinox as eqx
import jax
import jax.numpy as jnp

from smolgp import GaussianProcess
from smolgp.kernels import StateSpaceModel, Wrapper
from smolgp.kernels.integrated import IntegratedStateSpaceModel

from mc import impl, judge, models, ref
from mc.harness import Result

TOL = 1e-7
ITOL = 3e-6
RULE = (
    "Every derivation of a user-defined model in the stated grammar (derivative, gain and label-dependent "
    "observation wrappers around library kernels, wrappers of sums and of wrappers, their sums, products and "
    "scalings, and kernels defined from their basic matrices only) x solver x every word of time gaps x every "
    "assignment of labels to the data (points), or every exposure timeline (exposures); likelihood, conditioned "
    "values, predictions at every kind of place with every label, and predictions through a one-off observation "
    "model are compared with the dense Gaussian process of the same linear functionals."
)
ASSUMPTIONS = []

# ------------------------------------------------------------------- observation rows
# weights of (f, f', f'') as a function of the coordinates (time, label)
ROWS = {
    "f": lambda t, l: (1.0 + 0 * t,),
    "df": lambda t, l: (0 * t, 1.0 + 0 * t),
    "d2f": lambda t, l: (0 * t, 0 * t, 1.0 + 0 * t),
    "gain(t)": lambda t, l: (1.5 + 0.25 * t,),
    "gain(label)": lambda t, l: (0.6 + 1.9 * l + 0 * t,),
    "gain2(label)": lambda t, l: (1.3 - 0.8 * l + 0 * t,),
    "f or df by label": lambda t, l: (1.0 - l + 0 * t, l + 0 * t),
    "mix": lambda t, l: (0.7 - 0.1 * t, 0.4 + 0.3 * l + 0 * t),
}


def split(X):
    if isinstance(X, tuple):
        return X[0], X[-1]
    return X, 0.0


class Row(Wrapper):
    """observe a linear functional of the wrapped kernel's state"""

    row: str = eqx.field(static=True)

    def __init__(self, kernel, row, name="Row"):
        self.kernel, self.row, self.name = kernel, row, name

    def observation_matrix(self, X):
        t, l = split(X)
        w = ROWS[self.row](t, l)
        H = jnp.zeros((1, self.kernel.dimension))
        for i, v in enumerate(w):
            H = H.at[0, i].set(v)
        return H


class Gain(Wrapper):
    """multiply whatever the wrapped kernel observes"""

    row: str = eqx.field(static=True)

    def __init__(self, kernel, row, name="Gain"):
        self.kernel, self.row, self.name = kernel, row, name

    def observation_matrix(self, X):
        return ROWS[self.row](*split(X))[0] * self.kernel.observation_matrix(X)


class Mixed(Wrapper):
    """a different gain for each half of a sum"""

    row1: str = eqx.field(static=True)
    row2: str = eqx.field(static=True)

    def __init__(self, kernel, row1, row2, name="Mixed"):
        self.kernel, self.row1, self.row2, self.name = kernel, row1, row2, name

    def observation_matrix(self, X):
        a, b = self.kernel.kernel1, self.kernel.kernel2
        g1, g2 = ROWS[self.row1](*split(X))[0], ROWS[self.row2](*split(X))[0]
        return jnp.hstack([g1 * a.observation_matrix(X), g2 * b.observation_matrix(X)])


class UserSHO(StateSpaceModel):
    """an oscillator from its basic matrices only"""

    w: jax.Array
    q: jax.Array
    s: jax.Array

    def __init__(self, w, q, s, name="UserSHO"):
        self.w, self.q, self.s, self.name = w, q, s, name

    def design_matrix(self):
        return jnp.array([[0.0, 1.0], [-self.w**2, -self.w / self.q]])

    def stationary_covariance(self):
        return self.s**2 * jnp.diag(jnp.array([1.0, self.w**2]))

    def observation_matrix(self, X):
        return jnp.array([[1.0, 0.0]])

    def noise(self):
        return jnp.array([[2 * self.s**2 * self.w**3 / self.q]])

    def noise_effect_matrix(self):
        return jnp.array([[0.0], [1.0]])


# ------------------------------------------------------------------- the grammar
S_, O_ = ("SHO", 1.7, 1.4, 0.9), ("SHO", 0.9, 0.3, 1.1)
M3, M5, E_, C_ = ("Matern32", 1.1, 0.8), ("Matern52", 1.6, 1.2), ("Exp", 1.9, 0.9), ("Cosine", 4.1, 0.8)
K = lambda k: ("kern", k)
R = lambda k, row: ("row", row, k)
TREES = {
    "SHO'": R(S_, "df"),
    "overdamped SHO'": R(O_, "df"),
    "critical SHO mix": R(("SHO", 1.3, 0.5, 1.1), "mix"),
    "M32 by label": R(M3, "f or df by label"),
    "M52''": R(M5, "d2f"),
    "M52 mix": R(M5, "mix"),
    "gain(label) Cos": ("gain", "gain(label)", K(C_)),
    "gain(t) Exp": R(E_, "gain(t)"),
    "gain(label) of product": ("gain", "gain(label)", K(("Product", M3, E_))),
    "gain of SHO by label": ("gain", "gain(t)", R(S_, "f or df by label")),
    "M52' + Exp": ("+", R(M5, "df"), K(E_)),
    "gain(label) M32 + gain2(label) SHO": ("+", ("gain", "gain(label)", K(M3)), ("gain", "gain2(label)", K(S_))),
    "Exp + SHO by label": ("+", K(E_), R(S_, "f or df by label")),
    "label-mixed sum": ("mixed", "gain(label)", "gain(t)", K(E_), K(S_)),
    "SHO' * M32": ("*", R(S_, "df"), K(M3)),
    "gain(label) Exp * SHO by label": ("*", ("gain", "gain(label)", K(E_)), R(S_, "f or df by label")),
    "c * M32 mix": ("c", 2.5, R(M3, "mix")),
    "user SHO": ("user", S_),
    "user SHO (over)": ("user", O_),
    "user SHO + Exp": ("+", ("user", S_), K(E_)),
    "c * user SHO * M32": ("c", 0.4, ("*", ("user", S_), K(M3))),
    "user SHO mix": ("userrow", "mix", S_),
}
# exposure data: the wrapped kernels are integrated, labels are instruments
ITREES = {
    "gain(inst) iSHO": ("gain", "gain(label)", K(S_)),
    "gain(t) iM32": ("gain", "gain(t)", K(M3)),
    "gain(inst) (iExp + iM52)": ("gain", "gain(label)", K(("Sum", E_, M5))),
    "gain(inst) iExp + gain2(inst) iSHO": ("+", ("gain", "gain(label)", K(E_)), ("gain", "gain2(label)", K(S_))),
    "inst-mixed sum": ("mixed", "gain(label)", "gain(t)", K(E_), K(M3)),
    "c * gain(inst) iM32": ("c", 0.4, ("gain", "gain(label)", K(M3))),
    "user iSHO": ("user", O_),
    "user integrated product": ("user", ("Product", M3, E_)),
}


def build(t, num=jnp.asarray, integ=0):
    op = t[0]
    b = functools.partial(build, num=num, integ=integ)
    kb = lambda k: impl.build(k, num=num, integrated=integ)
    if op == "kern":
        return kb(t[1])
    if op == "row":
        return Row(kb(t[2]), t[1])
    if op == "gain":
        return Gain(b(t[2]), t[1])
    if op == "mixed":
        return Mixed(b(t[3]) + b(t[4]), t[1], t[2])
    if op == "+":
        return b(t[1]) + b(t[2])
    if op == "*":
        return b(t[1]) * b(t[2])
    if op == "c":
        return num(t[1]) * b(t[2])
    if op == "user":
        base = UserSHO(*[num(v) for v in t[1][1:]]) if t[1][0] == "SHO" else impl.build(t[1], num=num)
        if integ:
            return IntegratedStateSpaceModel(name="UserIntegrated", base_model=base, num_insts=integ)
        return base
    if op == "userrow":
        return Row(UserSHO(*[num(v) for v in t[2][1:]]), t[1])
    raise ValueError(op)


def functional(row, o):
    return [(w, (i, o[0], o[1])) for i, w in enumerate(ROWS[row](o[0], o[2])) if w != 0]


def cov(t, o1, o2):
    """covariance of two observations (time, exposure, label)"""
    op = t[0]
    if op in ("kern", "user"):
        return ref.cov_elem(t[1], (0,) + o1[:2], (0,) + o2[:2])
    if op in ("row", "userrow"):
        return sum(
            a * b * ref.cov_elem(t[2], e, f) for a, e in functional(t[1], o1) for b, f in functional(t[1], o2))
    if op == "gain":
        g = ROWS[t[1]]
        return g(o1[0], o1[2])[0] * g(o2[0], o2[2])[0] * cov(t[2], o1, o2)
    if op == "mixed":
        g1, g2 = ROWS[t[1]], ROWS[t[2]]
        return g1(o1[0], o1[2])[0] * g1(o2[0], o2[2])[0] * cov(t[3], o1, o2) + g2(o1[0], o1[2])[0] * g2(
            o2[0], o2[2])[0] * cov(t[4], o1, o2)
    if op == "+":
        return cov(t[1], o1, o2) + cov(t[2], o1, o2)
    if op == "*":
        return cov(t[1], o1, o2) * cov(t[2], o1, o2)
    if op == "c":
        return t[1] * cov(t[2], o1, o2)
    raise ValueError(op)


def matrix(t, A, B=None):
    B = A if B is None else B
    return np.array([[cov(t, a, b) for b in B] for a in A])


# a one-off observation model: any linear functional of the state of the whole kernel
def oneoff(t):
    """(row-function of the state, cross-covariance with an observation, its own variance)"""
    row = "mix"
    if t[0] in ("row", "userrow"):
        if t[2][0] not in ("SHO", "Matern32", "Matern52"):
            return None
        return row, (lambda p, o: sum(
            a * b * ref.cov_elem(t[2], e, f) for a, e in functional(row, p) for b, f in functional(t[1], o))), (
            lambda p: sum(a * b * ref.cov_elem(t[2], e, f) for a, e in functional(row, p) for b, f in functional(row, p)))
    if t[0] in ("gain", "kern", "user", "c"):
        s, u = 1.0, t
        g = lambda o: 1.0
        if u[0] == "c":
            s, u = u[1], u[2]
        if u[0] == "gain":
            gg = ROWS[u[1]]
            g, u = (lambda o: gg(o[0], o[2])[0]), u[2]
        if u[0] not in ("kern", "user") or u[1][0] not in ("SHO", "Matern32", "Matern52"):
            return None
        k = u[1]
        return row, (lambda p, o: s * g(o) * sum(a * ref.cov_elem(k, e, (0,) + o[:2]) for a, e in functional(row, p))), (
            lambda p: s * sum(a * b * ref.cov_elem(k, e, f) for a, e in functional(row, p) for b, f in functional(row, p)))
    return None


def H_oneoff(row, dim):
    def H(X):
        t, l = split(X)
        out = jnp.zeros((1, dim))
        for i, v in enumerate(ROWS[row](t, l)):
            out = out.at[0, i].set(v)
        return out

    return H


# ------------------------------------------------------------------- replaying
@functools.lru_cache(maxsize=None)
def _fn(solver, off, test_tuple, at_data):
    S = impl.SOLVERS[solver]

    def one(kernel, X, diag, Y, tt, plain=False):
        gp = GaussianProcess(kernel, X, diag=diag, solver=S)
        H = H_oneoff(off, gp.kernel.dimension) if off else None

        def query(y):
            out = dict(logp=gp.log_probability(y))
            out["clogp"], c = gp.condition(y)
            out["loc"], out["var"] = c.loc, c.variance
            out["pmu"], out["pvar"] = gp.predict(tt, y, return_var=True) if plain else c.predict(tt, return_var=True)
            if off:
                g, a = (gp, (y,)) if plain else (c, ())
                out["omu"], out["ovar"] = g.predict(tt, *a, return_var=True, observation_model=H)
                if at_data:
                    out["dmu"], out["dvar"] = g.predict(None, *a, return_var=True, observation_model=H)
                # the one-off model must not stick
                c.predict(tt, observation_model=H, return_var=True)
                out["amu"], out["avar"] = c.predict(tt, return_var=True)
                out["aloc"], out["aav"] = c.loc, c.variance
            return out

        if plain:
            outs = [query(y) for y in Y]
            return {k: np.stack([np.asarray(o[k]) for o in outs]) for k in outs[0]}
        return jax.vmap(query)(Y)

    return eqx.filter_jit(
        lambda k, X, d, Y, tt: jax.vmap(lambda x: one(k, x, d, Y, tt))(X)), one


def expected(tree, obs, R, Y, tests, at_data):
    """obs: list of data sets (lists of (t, delta, label))"""
    outs = []
    off = oneoff(tree)
    cache = {}

    def m(f, A, B, tag):
        out = np.empty((len(A), len(B)))
        for i, a in enumerate(A):
            for j, b in enumerate(B):
                key = (tag, a, b)
                if key not in cache:
                    cache[key] = f(a, b)
                out[i, j] = cache[key]
        return out

    c = functools.partial(cov, tree)
    for o in obs:
        g = ref.DenseGP(m(c, o, o, "c"), R)
        Ks = m(c, tests, o, "c")
        kss = np.array([m(c, [p], [p], "c")[0, 0] for p in tests])
        e = {k: [] for k in ("logp", "clogp", "loc", "var", "pmu", "pvar")}
        if off:
            oKs = m(off[1], tests, o, "o")
            okss = np.array([off[2](p) for p in tests])
            dKs = m(off[1], o, o, "o") if at_data else None
            dkss = np.array([off[2](p) for p in o])
        for y in Y:
            lp = g.logp(y)
            a, b = g.post(g.K, np.diag(g.K), y)
            pm, pv = g.post(Ks, kss, y)
            row = dict(logp=lp, clogp=lp, loc=a, var=b, pmu=pm, pvar=pv)
            if off:
                row["omu"], row["ovar"] = g.post(oKs, okss, y)
                if at_data:
                    row["dmu"], row["dvar"] = g.post(dKs, dkss, y)
                row.update(amu=pm, avar=pv, aloc=a, aav=b)
            for k, v in row.items():
                e.setdefault(k, []).append(v)
        outs.append({k: np.array(v) for k, v in e.items()})
    return {k: np.array([o[k] for o in outs]) for k in outs[0]}


def compare(r, got, exp, tree, Y, case_of, tol):
    for name, e in exp.items():
        g = np.asarray(got[name], float)
        r.evaluations += e.size
        if g.shape != e.shape:
            r.violate(f"shape:{name}", f"{tree}: {name} has shape {g.shape}, expected {e.shape}", case_of(0))
            continue
        if "logp" in name:
            sc = 1 + np.abs(e)
        elif name.endswith("mu") or name in ("loc", "aloc"):
            sc = np.maximum(np.max(np.abs(Y), axis=1), 1e-9)[None, :, None]
        else:
            sc = np.maximum(np.max(np.abs(e)), 1.0)
        err = np.abs(g - e) / sc
        err = np.where(np.isfinite(err), err, np.inf)
        mx = float(err.max())
        if np.isfinite(mx):
            r.max_err = max(r.max_err, mx)
        if not mx <= tol:
            i = np.unravel_index(np.argmax(err), err.shape)
            r.violate(
                f"{name}:{tree}",
                f"{tree}: {name} gives {g[i]!r}, expected {e[i]!r} for {case_of(i[0])}", case_of(i[0]))


GAPS = (0.0, 0.35, 1.9)


def point_sets(n, labels):
    ws, st, tr = models.words(GAPS, n - 1)
    T = models.times_from_words(ws, GAPS, t0=-0.6) if n > 1 else np.array([[-0.6]])
    lab = list(itertools.product((0, 1), repeat=n)) if labels else [(0,) * n]
    sets = [[(float(a), 0.0, l) for a, l in zip(t, ls)] for t in T for ls in lab]
    return sets, st * len(lab), tr * len(lab)


def point_tests(labels):
    ts = [2.0, -0.6, -0.25, 0.4, -3.0, 9.0, -0.6]
    return [(t, 0.0, l) for t in ts for l in ((0, 1) if labels else (0,))]


def uses_label(tree):
    return any("label" in str(x) for x in _flat(tree)) or "mix" in _flat(tree)


def _flat(t):
    return [y for x in t for y in (_flat(x) if isinstance(x, tuple) else [x])]


def expo_sets(n, grid):
    from mc.checks._integ import MAPS, datasets, xarrays

    I, inst, st, tr = datasets(grid, 2, n, "one")
    X = xarrays(I, inst, grid, "irregular")
    return [[(float(X[0][b][i]), float(X[1][b][i]), int(X[2][b][i])) for i in range(n)] for b in range(len(I))], st, tr


def run_case(r, tree_name, integ, solver, sets, tests, tuple_coords, eager=False, num=jnp.asarray):
    tree = (ITREES if integ else TREES)[tree_name]
    n = len(sets[0])
    Y = models.y_basis(n, quad=True)
    if eager:
        Y = Y[-2:]
    R = np.array([0.1, 0.35, 0.2, 0.6])[:n]
    off = oneoff(tree)
    at_data = not integ
    exp = expected(tree, sets, R, Y, tests, at_data)
    tol = ITOL if integ else TOL
    arr = np.array(sets)
    case_of = lambda b: dict(tree=tree_name, integ=integ, solver=solver, data=sets[b], tuple_coords=tuple_coords)
    kern = build(tree, num=num, integ=2 if integ else 0)
    X = arr[..., 0]
    tt = np.array([p[0] for p in tests])
    if integ:
        X = (arr[..., 0], arr[..., 1], arr[..., 2].astype(int))
    elif tuple_coords:
        X = (arr[..., 0], arr[..., 2].astype(int))
        tt = (tt, np.array([p[2] for p in tests]))
    f, one = _fn(solver, off[0] if off else None, tuple_coords, at_data)
    ja = lambda a: jax.tree_util.tree_map(jnp.asarray, a)
    try:
        if eager:
            outs = [one(kern, jax.tree_util.tree_map(lambda a: jnp.asarray(a[b]), X), jnp.asarray(R), ja(Y), ja(tt), True)
                    for b in range(len(sets))]
            got = {k: np.stack([np.asarray(o[k]) for o in outs]) for k in outs[0]}
        else:
            got = {k: np.asarray(v) for k, v in f(kern, ja(X), jnp.asarray(R), ja(Y), ja(tt)).items()}
    except Exception as e:
        if not eager:  # compiled replay failed: decide with plain calls
            r.notes["bulk_fallbacks"] = r.notes.get("bulk_fallbacks", 0) + 1
            pick = np.unique(np.linspace(0, len(sets) - 1, 12).astype(int))
            return run_case(r, tree_name, integ, solver, [sets[i] for i in pick], tests, tuple_coords, True, float)
        r.violate(f"call:{tree_name}:{solver}", f"{tree_name} ({solver}): {type(e).__name__}: {str(e)[:300]}", case_of(0))
        return
    compare(r, got, exp, tree_name, Y, case_of, tol)
    r.traces += len(sets)
    r.outcomes |= judge.outcome_hashes(got)
    r.samples.append(dict(tree=tree_name, solver=solver, data=sets[len(sets) // 2]))


def evaluate(r, name, tests):
    """the kernel itself, evaluated between any two (time, label) coordinates"""
    tree = TREES[name]
    lab = uses_label(tree)
    exp = matrix(tree, tests)
    t = jnp.array([p[0] for p in tests])
    l = jnp.array([p[2] for p in tests])
    for num in (jnp.asarray, float):
        k = build(tree, num=num)
        X = (t, l) if lab else t
        got = np.asarray(k(X, X))
        r.traces += 1
        r.evaluations += exp.size
        err = np.abs(got - exp) / max(1.0, np.abs(exp).max())
        if not err.max() <= TOL:
            i = np.unravel_index(np.argmax(err), err.shape)
            r.violate(f"evaluate:{name}", f"{name}({tests[i[0]]}, {tests[i[1]]}) = {got[i]!r}, expected {exp[i]!r}",
                      dict(tree=name, evaluate=True))
        r.max_err = max(r.max_err, float(err.max()))
        d = np.asarray(k(X))
        if not np.allclose(d, np.diag(exp), rtol=TOL, atol=TOL):
            r.violate(f"diagonal:{name}", f"{name}: diagonal {d}, expected {np.diag(exp)}", dict(tree=name, evaluate=True))


def shards(tier, seed):
    q = tier == "quick"
    out = []
    for name, tree in TREES.items():
        lab = uses_label(tree)
        for solver in (None, "par"):
            few = q and solver == "par" and name not in ("M32 by label", "label-mixed sum", "user SHO")
            if few:
                continue
            main = name in ("SHO'", "M32 by label", "M52''", "user SHO", "label-mixed sum", "SHO' * M32")
            ns = ((1, 3) if main else (3,)) if q else (1, 2, 3, 4)
            out.append(dict(name=name, integ=False, solver=solver, ns=ns, labels=lab, eager=not q or (solver is None and main), weight=4 * len(ns)))
    for name in ITREES:
        for solver in ("iseq", "ipar"):
            if q and solver == "ipar" and name not in ("inst-mixed sum", "user integrated product"):
                continue
            out.append(dict(name=name, integ=True, solver=solver, eager=not q or (solver == "iseq" and name in ("gain(inst) iSHO", "user integrated product")), ns=(2,) if q else (1, 2, 3), grid=4 if q else 5, weight=20))
    return out


def run(shard):
    r = Result()
    name = shard["name"]
    for n in shard["ns"]:
        if shard["integ"]:
            sets, st, tr = expo_sets(n, shard["grid"])
            from mc.checks._integ import MAPS, test_points

            tests = [(t, 0.0, 0) for t in test_points(shard["grid"], "irregular")]
            run_case(r, name, True, shard["solver"], sets, tests, False)
            if shard["eager"] and n == shard["ns"][-1]:
                run_case(r, name, True, shard["solver"], [sets[len(sets) // 3]], tests, False, eager=True, num=float)
        else:
            sets, st, tr = point_sets(n, shard["labels"])
            tests = point_tests(shard["labels"])
            run_case(r, name, False, shard["solver"], sets, tests, shard["labels"])
            if shard["eager"] and n == shard["ns"][-1]:
                run_case(r, name, False, shard["solver"], [sets[len(sets) // 3]], tests, shard["labels"], eager=True, num=float)
            if n == shard["ns"][0] and shard["solver"] is None:
                evaluate(r, name, tests)
        r.states += st
        r.transitions += tr
    return r


def replay(case):
    r = Result()
    name = case["tree"]
    if case.get("evaluate"):
        evaluate(r, name, point_tests(uses_label(TREES[name])))
    else:
        from mc.checks._integ import test_points

        sets = [[tuple(o) for o in case["data"]]]
        tests = ([(t, 0.0, 0) for t in test_points(4, "irregular")] if case["integ"] else point_tests(case["tuple_coords"]))
        run_case(r, name, case["integ"], case["solver"], sets, tests, case["tuple_coords"], True, float)
    return not r.violations, "; ".join(v["what"][:400] for v in r.violations) or f"max error {r.max_err:.2e}"
