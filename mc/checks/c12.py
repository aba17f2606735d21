"""C12: call histories.  Explicit-state exploration of every sequence of public calls up to a depth."""
from __future__ import annotations

import copy
import itertools

import numpy as np

import jax
import jax.numpy as jnp
import equinox as eqx

from smolgp import GaussianProcess
from smolgp.kernels.base import extract_leaf_kernels

from mc import impl, ref
from mc.harness import Result

TOL = 1e-7
ITOL = 3e-6
RULE = (
    "Every sequence of public calls up to the stated depth (log-likelihood, conditioning with and without "
    "test coordinates, prediction with and without earlier conditioning, two data vectors, test sets of "
    "different length or order, an array reused for other data, full states, components, jit, grad and vmap calls, re-conditioning) on a Gaussian process, on "
    "a second one sharing its kernel, and on the objects returned earlier in the sequence.  The tree of histories is "
    "explored depth first, forking the live objects; after every call the answer is compared with the "
    "history-free answer and all live objects and inputs are compared bit by bit with their snapshots. "
    "states are histories, transitions are calls."
)
ASSUMPTIONS = ["objects can be forked with copy.deepcopy; the last shard replays whole histories without forking"]

MODELS = {
    "point": ("Sum", ("Exp", 1.4, 0.9), ("Matern32", 1.1, 0.8)),
    "point par": ("Sum", ("Exp", 1.4, 0.9), ("Matern32", 1.1, 0.8)),
    "int": ("Sum", ("Exp", 1.4, 0.9), ("Matern32", 1.1, 0.8)),
    "int par": ("Exp", 1.4, 0.9),
}
SOLVER = {"point": "seq", "point par": "par", "int": None, "int par": "ipar"}


# (the second data vector and the third test set are permutations of the first ones)
Y1, Y1M = np.array([0.3, -1.0, 0.5]), np.array([-1.0, 0.3, 0.5])


class World:
    """inputs (mutable numpy arrays), live objects, expected answers"""

    def __init__(self, model):
        self.model = model
        self.kern = MODELS[model]
        self.point = model.startswith("point")
        self.tol = TOL if self.point else ITOL
        t = np.array([0.0, 0.4, 1.7])
        if self.point:
            X = t
            XB = np.array([0.0, 0.9, 1.0, 3.0])
        else:
            X = (t + 0.2, np.array([0.4, 0.9, 0.0]), np.array([0, 1, 0]))
            XB = (np.array([0.0, 0.9, 1.6, 3.0]), np.array([0.5, 0.2, 0.8, 0.0]), np.array([0, 1, 0, 1]))
        self.inp = dict(
            X=X, XB=XB, diag=np.array([0.1, 0.3, 0.2]), y1=Y1.copy(), y2=np.array([0.3, 0.5, -1.0]),
            yB=np.array([0.3, -1.0, 0.5, 1.1]), ttA=np.array([0.5, -1.0]), ttC=np.array([-1.0, 0.5]), ttB=np.array([2.5, 0.4, 0.1, 9.0, 0.4]))
        self.kernel = impl.build(self.kern, integrated=0 if self.point else 2)
        # the caller's own list of component names
        self.inp["names"] = [k.name for k in extract_leaf_kernels(self.kernel)][::-1]
        S = impl.SOLVERS[SOLVER[model]]
        self.gp = GaussianProcess(self.kernel, X, diag=self.inp["diag"], solver=S)
        self.gpB = GaussianProcess(self.kernel, XB, diag=0.25, solver=S)
        self.pool = []  # objects returned earlier: (kind, object, its data)
        self.ref = Expected(self)

    def data(self, d):
        """the name of what the array now holds"""
        return "y1m" if d == "y1" and self.inp["y1"][0] == Y1M[0] else d


class Expected:
    """dense answers"""

    def __init__(self, w):
        self.w, self.cache = w, {}

    def obs(self, X):
        return [(float(a), 0.0) for a in X] if self.w.point else [(float(a), float(b)) for a, b in zip(X[0], X[1])]

    def __call__(self, data, what, tt=None, comp=None):
        key = (data, what, tt, comp)
        if key in self.cache:
            return self.cache[key]
        i = self.w.inp
        X, R = (i["XB"], 0.25) if data == "yB" else (i["X"], i["diag"])
        y = {"y1": Y1, "y1m": Y1M}.get(data, i.get(data))
        k = self.w.kern
        part = k if comp is None else (k[1 + comp] if k[0] == "Sum" else k)
        obs = self.obs(X)
        g = ref.DenseGP(ref.cov_matrix(k, obs), R)
        if what == "l":
            out = (np.array(g.logp(y)),)
        elif what == "grad":
            out = (-g.Ci @ y,)
        else:
            tob = obs if tt is None else [(float(a), 0.0) for a in i[tt]]
            kss = np.array([ref.cov_avg(part, o, o) for o in tob])
            out = g.post(ref.cov_matrix(part, tob, obs), kss, y)
        self.cache[key] = out
        return out


# ----- the calls.  Each returns a list of (what, got, expected) and may add objects to the pool
def L(d):
    def f(w):
        gp = w.gpB if d == "yB" else w.gp
        return [("logp", (gp.log_probability(w.inp[d]),), w.ref(w.data(d), "l"))]
    return f


def C(d):
    def f(w):
        gp = w.gpB if d == "yB" else w.gp
        lp, g = gp.condition(w.inp[d])
        w.pool.append(("cond", g, w.data(d)))
        return [("condition logp", (lp,), w.ref(w.data(d), "l")), ("condition", (g.loc, g.variance), w.ref(w.data(d), "c"))]
    return f


def CX(d, tt):
    def f(w):
        lp, g = w.gp.condition(w.inp[d], w.inp[tt])
        w.pool.append(("condx" + tt, g, w.data(d)))
        return [("condition at X_test logp", (lp,), w.ref(w.data(d), "l")),
                ("condition at X_test", (g.loc, g.variance), w.ref(w.data(d), "p", tt))]
    return f


def P(d, tt):
    def f(w):
        gp = w.gpB if d == "yB" else w.gp
        x = None if tt is None else w.inp[tt]
        got = gp.predict(x, w.inp[d], return_var=True)
        return [("predict", got, w.ref(w.data(d), "c" if tt is None else "p", tt))]
    return f


def F(d, tt):
    def f(w):
        st = w.gp.predict(w.inp[tt], w.inp[d], return_full_state=True)
        w.pool.append(("full" + tt, st, w.data(d)))
        return [("full state", (st.loc, st.variance), w.ref(w.data(d), "p", tt))]
    return f


@eqx.filter_jit
def _jlogp(gp, y):
    return gp.log_probability(y)


@eqx.filter_jit
def _jpred(kernel, X, diag, y, x, S):
    return GaussianProcess(kernel, X, diag=diag, solver=S).predict(x, y, return_var=True)


@eqx.filter_jit
def _jgrad(gp, y):
    return jax.grad(lambda z: gp.log_probability(z))(y)


@eqx.filter_jit
def _jvmap(gp, x, Y):
    return jax.vmap(lambda y: gp.predict(x, y, return_var=True))(Y)


def J(d):
    def f(w):
        return [("jit logp", (_jlogp(w.gp, jnp.asarray(w.inp[d])),), w.ref(w.data(d), "l"))]
    return f


def JM(d, tt):
    def f(w):
        j = lambda a: jax.tree_util.tree_map(jnp.asarray, a)
        got = _jpred(w.kernel, j(w.inp["X"]), j(w.inp["diag"]), j(w.inp[d]), j(w.inp[tt]), impl.SOLVERS[SOLVER[w.model]])
        return [("jit predict of a rebuilt GP", got, w.ref(w.data(d), "p", tt))]
    return f


def G(d):
    def f(w):
        return [("gradient", (_jgrad(w.gp, jnp.asarray(w.inp[d])),), w.ref(w.data(d), "grad"))]
    return f


def V(w):
    Y = np.stack([w.inp["y2"], w.inp["y1"]])
    m, v = _jvmap(w.gp, jnp.asarray(w.inp["ttA"]), jnp.asarray(Y))
    return [("vmapped predict", (m[i], v[i]), w.ref(w.data(d), "p", "ttA")) for i, d in enumerate(("y2", "y1"))]


def last(w, kinds):
    for kind, o, d in reversed(w.pool):
        if any(kind.startswith(k) for k in kinds):
            return kind, o, d
    return None


def first(w, kinds):
    for kind, o, d in w.pool:
        if any(kind.startswith(k) for k in kinds):
            return kind, o, d
    return None


def pool_read(w):
    """everything the earlier objects say about themselves"""
    out = []
    for kind, o, d in w.pool:
        tt = kind[-3:] if kind[-3:] in ("ttA", "ttB") else None
        out.append((f"earlier {kind} object", (o.loc, o.variance), w.ref(d, "c" if tt is None else "p", tt)))
    return out


def PP(which, tt):
    def f(w):
        hit = which(w, ("cond",))
        if hit is None:
            return None
        kind, g, d = hit
        if tt is None:
            own = kind[-3:] if kind[-3:] in ("ttA", "ttB") else None
            return [("predict of a conditioned GP", g.predict(return_var=True), w.ref(d, "c" if own is None else "p", own))]
        return [("predict of a conditioned GP", g.predict(w.inp[tt], return_var=True), w.ref(d, "p", tt))]
    return f


def PF(w):
    hit = last(w, ("cond",))
    if hit is None:
        return None
    _, g, d = hit
    st = g.predict(w.inp["ttB"], return_full_state=True)
    out = [("full state of a conditioned GP", (st.loc, st.variance), w.ref(d, "p", "ttB"))]
    for i, (nm, mv) in enumerate(st.get_all_components(return_var=True).items()):
        out.append((f"component {nm} of full state", mv, w.ref(d, "p", "ttB", i)))
    out.append(("listed components of full state", st.get_component(w.inp["names"], return_var=True), w.ref(d, "p", "ttB")))
    return out


def AC(which):
    def f(w):
        hit = which(w, ("cond",))
        if hit is None:
            return None
        _, g, d = hit
        out = []
        for i, (nm, mv) in enumerate(g.get_all_component_means(return_var=True).items()):
            out.append((f"component {nm}", mv, w.ref(d, "c", None, i)))
        out.append(("listed components", g.get_component_mean(w.inp["names"], return_var=True), w.ref(d, "c")))
        return out
    return f


def RC(d2):
    """condition the conditioned object again: only claimed to answer the same whatever the history"""
    def f(w):
        hit = last(w, ("cond",))
        if hit is None or hit[0] != "cond" or hit[2] == "yB":
            return None
        lp, g = hit[1].condition(w.inp[d2])
        key = ("recondition", hit[2], d2)
        now = (np.asarray(lp), np.asarray(g.loc), np.asarray(g.variance))
        exp = BASE.get((w.model,) + key)
        if exp is None:
            fresh = World(w.model)
            lp0, g0 = fresh.gp.condition({"y1": Y1, "y1m": Y1M}.get(hit[2], fresh.inp["y2"]))[1].condition(fresh.inp[d2])
            exp = BASE[(w.model,) + key] = (np.asarray(lp0), np.asarray(g0.loc), np.asarray(g0.variance))
        return [("re-conditioning", now, exp)]
    return f


def M(w):
    """the caller reuses its array for other data"""
    w.inp["y1"][:] = Y1M if w.data("y1") == "y1" else Y1
    return []


def RU(w):
    """the caller changes its arrays in place between two calls"""
    out = []
    done = lambda got: tuple(np.array(v) for v in got)  # finished before the arrays change
    x, y = w.inp["ttA"].copy(), Y1.copy()
    hit = last(w, ("cond",))
    if hit is not None:
        out.append(("predict", done(hit[1].predict(x, return_var=True)), w.ref(hit[2], "p", "ttA")))
        x[:] = w.inp["ttC"]
        out.append(("predict at an array changed in place", done(hit[1].predict(x, return_var=True)), w.ref(hit[2], "p", "ttC")))
    else:
        out.append(("logp", done((w.gp.log_probability(y),)), w.ref("y1", "l")))
        y[:] = Y1M
        out.append(("logp of an array changed in place", done((w.gp.log_probability(y),)), w.ref("y1m", "l")))
        out.append(("predict", done(w.gp.predict(x, y, return_var=True)), w.ref("y1m", "p", "ttA")))
        x[:], y[:] = w.inp["ttC"], Y1
        out.append(("predict at and from arrays changed in place", done(w.gp.predict(x, y, return_var=True)), w.ref("y1", "p", "ttC")))
    return out


BASE = {}
OPS = {
    "L1": L("y1"), "L2": L("y2"), "LB": L("yB"), "C1": C("y1"), "C2": C("y2"), "CB": C("yB"),
    "PA1": P("y1", "ttA"), "PB2": P("y2", "ttB"), "PN2": P("y2", None), "FA1": F("y1", "ttA"), "FB2": F("y2", "ttB"),
    "M": M, "ru": RU, "PC1": P("y1", "ttC"),
    "J2": J("y2"), "JM1": JM("y1", "ttB"), "G1": G("y1"), "V": V,
    "pA": PP(last, "ttA"), "pB": PP(last, "ttB"), "pN": PP(last, None), "p0A": PP(first, "ttA"),
    "pF": PF, "comp": AC(last), "comp0": AC(first), "rc2": RC("y2"),
}
POINT_OPS = {"X1A": CX("y1", "ttA"), "X2B": CX("y2", "ttB")}
SHORT = ["L1", "C1", "C2", "PA1", "PB2", "PC1", "M", "ru", "J2", "pA", "pN", "p0A", "pF", "comp", "rc2", "X1A"]


def ops_for(w, short):
    ops = dict(OPS)
    if w.point:
        ops.update(POINT_OPS)
    if short:
        ops = {k: v for k, v in ops.items() if k in SHORT}
    return ops


def digest(tree):
    """bitwise snapshot of every array in a pytree, plus its structure"""
    leaves, td = jax.tree_util.tree_flatten(tree)
    out = [str(td)]
    for l in leaves:
        a = np.asarray(l)
        out.append((a.shape, str(a.dtype), a.tobytes()))
    return out


def step(r, w, name, op, path):
    """one call; compare its answers, then everything alive.  False if not enabled"""
    inputs = {} if name == "M" else w.inp
    before = [digest(inputs), digest(w.kernel), digest(w.gp), digest(w.gpB), [digest(o) for _, o, _ in w.pool]]
    n0 = len(w.pool)
    case = dict(model=w.model, path=list(path))
    try:
        ans = op(w)
        if ans is None:
            return False
        ans = ans + pool_read(w)
    except Exception as e:
        r.violate(f"call:{name}", f"{w.model}: history {path}: {type(e).__name__}: {str(e)[:300]}", case)
        return True
    r.transitions += 1
    for what, got, exp in ans:
        if len(got) != len(exp):
            r.violate(f"arity:{what}", f"{w.model}: history {path}: {what} returned {len(got)} values", case)
            continue
        for g, e in zip(got, exp):
            g = np.asarray(g, float)
            r.evaluations += g.size
            if g.shape != np.shape(e):
                r.violate(f"shape:{what}", f"{w.model}: history {path}: {what} has shape {g.shape}, expected {np.shape(e)}", case)
                continue
            err = np.abs(g - e) / (1 + np.abs(e))
            m = float(np.max(np.where(np.isfinite(err), err, np.inf)))
            r.max_err = max(r.max_err, m if np.isfinite(m) else 0)
            if not m <= w.tol:
                r.violate(f"value:{what}", f"{w.model}: after history {path}, {what} gives {g.tolist()}, expected {np.asarray(e).tolist()}", case)
        r.outcomes.add(hash((what, tuple(np.round(np.asarray(got[0], float).ravel(), 8)))))
    after = [digest(inputs), digest(w.kernel), digest(w.gp), digest(w.gpB), [digest(o) for _, o, _ in w.pool[:n0]]]
    for nm, a, b in zip(("inputs", "kernel", "GP", "second GP", "an earlier object"), before, after):
        if a != b:
            r.violate(f"mutated:{nm}", f"{w.model}: history {path}: {nm} changed by {name}", case)
    return True


def fork(w):
    v = copy.copy(w)
    v.inp, v.kernel, v.gp, v.gpB, v.pool = copy.deepcopy((w.inp, w.kernel, w.gp, w.gpB, w.pool))
    return v


def dfs(r, w, ops, depth, path):
    for name, op in ops.items():
        v = fork(w)
        if not step(r, v, name, op, path + [name]):
            continue
        r.states += 1
        r.traces += 1
        if depth > 1:
            dfs(r, v, ops, depth - 1, path + [name])
        if len(r.violations) >= 10:
            return


POOL_OPS = ("pA", "pB", "pN", "p0A", "pF", "comp", "comp0", "rc2")  # not enabled at the start


def shards(tier, seed):
    """(model, alphabet, depth) trees, split by their first call; few, large shards because
    warming up each process dominates"""
    q = tier == "quick"
    plan = {  # model: (full depth, short depth, processes)
        "point": (2, 3, 3) if q else (3, 4, 8),
        "point par": (2, 0, 2) if q else (3, 3, 8),
        "int": (0, 2, 1) if q else (3, 3, 8),
        "int par": (0, 2, 1) if q else (2, 3, 4),
    }
    out = []
    for m, (dfull, dshort, k) in plan.items():
        S = []
        names = list(OPS) + (list(POINT_OPS) if m.startswith("point") else [])
        for n in names:
            if n in POOL_OPS:
                continue
            if dfull:
                S.append(dict(model=m, first=n, depth=dfull, short=False))
            if dshort and n in SHORT:
                S.append(dict(model=m, first=n, depth=dshort, short=True))
                S.sort(key=lambda s: (s.get("depth", 0), s.get("first", "")))
        for i in range(k):
            out.append(dict(group=S[i::k], model=m, weight=10 + len(S[i::k]) * (1 if m.startswith("point") else 3)))
        out.append(dict(group=[dict(model=m, unforked="short" if q else "full")], model=m, weight=20))
    return out


def debruijn2(n):
    """shortest cyclic word over n letters containing every ordered pair once"""
    out = []
    for i in range(n):
        out.append(i)
        for j in range(i + 1, n):
            out += [i, j]
    return out + [0]


def unforked(r, m, short=False):
    """whole histories on one set of objects, no forking: every ordered pair of calls occurs"""
    w = World(m)
    ops = ops_for(w, short)
    names = list(ops)
    seq = [names[i] for i in debruijn2(len(names))]
    path = []
    for n in seq:
        if len(w.pool) > 12:
            w.pool = w.pool[:2] + w.pool[-4:]
        path = (path + [n])[-6:]
        step(r, w, n, ops[n], ["..."] + path)
        r.states += 1
        if len(r.violations) >= 10:
            return
    r.traces += 1


def run(shard):
    r = Result()
    for s in shard["group"]:
        if s.get("unforked"):
            unforked(r, s["model"], s["unforked"] == "short")
            r.samples.append(dict(model=s["model"], unforked=True))
            continue
        w = World(s["model"])
        ops = ops_for(w, s["short"])
        v = fork(w)
        if not step(r, v, s["first"], ops[s["first"]], [s["first"]]):
            continue
        r.states += 1
        if s["depth"] > 1:
            dfs(r, v, ops, s["depth"] - 1, [s["first"]])
        r.samples.append(dict(model=s["model"], history=[s["first"], "C1", "pA"][: s["depth"]]))
    return r


def replay(case):
    r = Result()
    w = World(case["model"])
    ops = ops_for(w, False)
    if case["path"][:1] == ["..."]:
        unforked(r, case["model"])
    else:
        for i, n in enumerate(case["path"]):
            step(r, w, n, ops[n], case["path"][: i + 1])
    return not r.violations, "; ".join(v["what"] for v in r.violations) or f"max error {r.max_err:.2e}"
