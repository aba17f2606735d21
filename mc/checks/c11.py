"""C11: components of summed models: names, and every route to their posteriors."""
from __future__ import annotations

import functools
import itertools

import numpy as np

import equinox as eqx
import jax
import jax.numpy as jnp

from smolgp import GaussianProcess
from smolgp import kernels as K
from smolgp.kernels.base import extract_leaf_kernels

from mc import impl, judge, models, ref
from mc.checks._expr import tup
from mc.harness import Result

TOL = 1e-7
ITOL = 3e-6
RULE = (
    "Names: every sequence of up to four component names over an alphabet with repeats and adversarial "
    "collisions, in both associations; and names of which one is part of another select exactly their component, "
    "by every ordered pair (and triple) of an alphabet. Values: every sequence of two components over an alphabet of leaf, "
    "repeated, product and scaled components (and longer sequences, both associations, nested sums), on "
    "several gap words or exposure timelines, for every public route to every component and to lists of "
    "components, by name and by kernel, at the data and at test points, with all solvers; basis data vectors "
    "decide the component mean for every y. distinct_nontrivial counts distinct component posteriors."
)
ASSUMPTIONS = ["the component mean is linear in the data vector", "double precision"]

E, S, P, C, M = (
    ("Exp", 1.9, 0.9), ("SHO", 1.7, 1.4, 0.9), ("Product", ("Exp", 3.0, 0.8), ("Cosine", 4.1, 1.1)),
    ("Scale", 2.5, ("Matern32", 1.1, 0.8)), ("Matern52", 0.7, 0.6),
)
ALPHA = {"E": E, "S": S, "P": P, "C": C, "M": M, "K": ("Constant", 0.7)}
INTA = {"E": ("Exp", 1.4, 1.1), "S": ("SHO", 1.3, 2.0, 1.1), "M": ("Matern32", 1.5, 1.2)}


def vary(k, n):
    """the n-th use of a component has different parameters (same name)"""
    f = 1.0 / (1 + 0.6 * n)
    if k[0] in ("Sum", "Product"):
        return (k[0], vary(k[1], n), vary(k[2], n))
    if k[0] == "Scale":
        return ("Scale", k[1] * f, vary(k[2], n))
    return (k[0],) + tuple(x * f for x in k[1:])


def comps(word, alpha):
    seen, out = {}, []
    for c in word:
        out.append(vary(alpha[c], seen.get(c, 0)))
        seen[c] = seen.get(c, 0) + 1
    return out


def join(cs, assoc):
    if assoc == "left":
        return functools.reduce(lambda a, b: ("Sum", a, b), cs)
    if assoc == "right":
        return functools.reduce(lambda a, b: ("Sum", b, a), cs[::-1])
    h = len(cs) // 2  # balanced
    return ("Sum", join(cs[:h], "left"), join(cs[h:], "left"))


def shards(tier, seed):
    q = tier == "quick"
    S_ = []
    for a, b in itertools.product("ESPC", repeat=2):
        if q and a != b and (a > b):
            continue
        S_.append(dict(word=a + b, assoc="left", solver=None, weight=8))
    longer = ["EEE", "SEP", "PPC", "KSE"] if q else ["".join(w) for w in itertools.product("ESPC", repeat=3)] + ["KSE", "MKP"]
    for i, w in enumerate(longer):
        for as_ in (("left", "right")[i % 2],) if q else ("left", "right"):
            S_.append(dict(word=w, assoc=as_, solver=None, weight=12))
    for w in ("ESEP",) if q else ("ESEP", "EEEE", "PCPC", "SMKE"):
        for as_ in ("balanced",) if q else ("left", "right", "balanced"):
            S_.append(dict(word=w, assoc=as_, solver=None, weight=20))
    for w in ("ES", "PP") if q else ("ES", "EE", "PC", "SEP", "EEE"):
        S_.append(dict(word=w, assoc="left", solver="par", weight=20))
    for sv in ("iseq", "ipar"):
        for w in ("ME", "EE") if q else ("SM", "EE", "ESM", "MMM", "SES"):
            if q and (sv == "ipar") == (w == "EE"):
                continue
            S_.append(dict(word=w, assoc="right" if len(w) > 2 else "left", solver=sv, weight=30))
    S_ += [dict(names=L, part=i, of=4 if L >= 4 else 1, weight=5) for L in ((2, 3, 4) if q else (2, 3, 4, 5)) for i in range(4 if L >= 4 else 1)]
    S_.append(dict(word="ESP", assoc="left", solver=None, plain=True, weight=20))
    A = list(itertools.permutations(SELECT, 2)) + [w for w in itertools.permutations(SELECT[:4], 3) if not q or w[0] < w[2]]
    S_ += [dict(select=A[i::4], solver=None, weight=12) for i in range(4)]
    S_.append(dict(select=[w for w in MANY if not q or len(w) <= 11], solver=None, weight=30))
    S_ += [dict(names=MANY, part=0, of=1, weight=5)]
    S_.append(dict(select=[w for w in A if set(w) <= set(SELECT[:3])][:None if not q else 4], solver="iseq", weight=12))
    return S_


# many components: numbers of more than one digit
MANY = [("A",) * 11, ("A", "A_1") * 6, ("A",) * 10 + ("A_10", "A_1")]


# ----------------------------------------------------------------------------- names
def names(r, L, part, of):
    X = jnp.arange(3.0)
    if isinstance(L, int):
        seqs = list(itertools.product(("A", "A_1", "A_2", "B"), repeat=L))
    else:
        seqs = [tuple(s) for s in L]
    for si, seq in enumerate(seqs):
        if si % of != part:
            continue
        L = len(seq)
        for assoc in ("left",) if L == 2 else ("left", "right"):
            case = dict(names=seq, assoc=assoc)
            r.states += L
            r.transitions += L - 1
            r.traces += 1
            try:
                ks = [K.Exp(scale=1.0 + i, name=n) if i % 2 else 2.0 * K.Exp(scale=1.0 + i) for i, n in enumerate(seq)]
                ks = [k if i % 2 else K.Scale(k.kernel, k.scale, name=n) for i, (k, n) in enumerate(zip(ks, seq))]
                k = functools.reduce(lambda a, b: a + b, ks) if assoc == "left" else functools.reduce(
                    lambda a, b: b + a, ks[::-1])
                got = extract_leaf_kernels(GaussianProcess(k, X, diag=0.1).kernel)
                gn = [g.name for g in got]
                r.outcomes.add(hash(tuple(gn)))
                r.evaluations += L
                if len(gn) != L or len(set(gn)) != L:
                    r.violate("names:distinct", f"components named {seq} ({assoc}) became {gn}", case)
                for n, g in zip(seq, gn):
                    if seq.count(n) == 1 and g != n:
                        r.violate("names:kept", f"components named {seq}: the unique name {n} became {g}", case)
                sc = [float(g.scale if i % 2 else g.kernel.scale) for i, g in enumerate(got)]
                if sc != [1.0 + i for i in range(L)]:
                    r.violate("names:order", f"components named {seq} came out as scales {sc}", case)
            except Exception as e:
                r.violate("names:call", f"names {seq}: {type(e).__name__}: {str(e)[:200]}", case)


# ------------------------------------------------------------------------- selection
# names of which one is part of, or similar to, another
SELECT = ("ab", "a", "b", "aba", "AB", "a.", "ab_1", "Sum")


def select(r, word, solver):
    """a component's name selects that component alone"""
    case = dict(select=[list(word)], solver=solver)
    point = solver is None
    cs = [("Exp", 1.4, 1.1), ("Exp", 0.5, 0.7), ("Exp", 3.0, 0.9)][: len(word)]
    cs += [("Exp", 0.3 + 0.4 * i, 0.6 + 0.1 * (i % 4)) for i in range(3, len(word))]
    y, R, tt = np.array([0.3, -1.0, 0.5]), np.array([0.1, 0.3, 0.2]), np.array([2.5, 0.2])
    if point:
        X = np.array([0.0, 0.4, 1.7])
        ks = [K.Exp(scale=c[1], sigma=c[2], name=n) for c, n in zip(cs, word)]
    else:
        X = (np.array([0.5, 1.1, 3.0]), np.array([1.0, 0.8, 0.0]), np.array([0, 1, 0]))
        ks = [K.IntegratedExp(scale=c[1], sigma=c[2], num_insts=2, name=n) for c, n in zip(cs, word)]
    r.states += len(word)
    r.transitions += len(word)
    r.traces += 1
    try:
        gp = GaussianProcess(functools.reduce(lambda a, b: a + b, ks), X, diag=jnp.asarray(R))
        _, c = gp.condition(jnp.asarray(y))
        got = []
        word = tuple(k.name for k in extract_leaf_kernels(gp.kernel))
        for i, n in enumerate(word):
            got.append((f"get_component_mean({n!r})", (i,), False) + tuple(c.get_component_mean(n, return_var=True)))
            got.append((f"predict(tt, kernel={n!r})", (i,), True) + tuple(c.predict(jnp.asarray(tt), kernel=n, return_var=True)))
        n = list(word[::-1][:2])
        got.append((f"get_component_mean({n!r})", (len(word) - 1, len(word) - 2), False)
                   + tuple(c.get_component_mean(n, return_var=True)))
    except Exception as e:
        r.violate("select:call", f"components named {word} ({solver}): {type(e).__name__}: {str(e)[:200]}", case)
        return
    for desc, sub, at_test, m, v in got:
        em, ev, prior = expected(cs, sub, X, tt, point, R, y[None], at_test)
        for what, g, e in (("mean", m, em[0]), ("var", v, ev)):
            r.evaluations += e.size
            err = float(np.max(np.abs(np.asarray(g) - e))) if np.shape(g) == e.shape else np.inf
            if err <= TOL:
                r.max_err = max(r.max_err, err)
            else:
                r.violate(f"select:{what}", f"components named {word} ({solver}): {desc} {what} is {np.asarray(g).tolist()}, expected {e.tolist()}", case)
        r.outcomes.add(hash(tuple(np.round(np.asarray(m), 8))))


# ---------------------------------------------------------------------------- values
def subsets(n):
    out = [(i,) for i in range(n)]
    out += [(0, n - 1), (n - 1, 0)]
    if n > 2:
        out += [tuple(range(n)), (1, 2)]
    return list(dict.fromkeys(out))


def routes(gp0, y, tt, point):
    """every public route: list of (description, component subset, at test?, mean, var)"""
    out = []
    leaves = extract_leaf_kernels(gp0.kernel)
    nm = [k.name for k in leaves]
    n = len(nm)
    _, gp = gp0.condition(y)
    for sub in subsets(n):
        ns = [nm[i] for i in sub]
        out.append((f"get_component_mean({ns})", sub, False) + tuple(gp.get_component_mean(ns, return_var=True)))
    m = gp.get_component_mean(nm[0])
    out.append((f"get_component_mean('{nm[0]}') bare", (0,), False, m, None))
    al, alm = gp.get_all_component_means(return_var=True), gp.get_all_component_means()
    pt = gp.predict(tt, return_full_state=True)
    pal, palm = pt.get_all_components(return_var=True), pt.get_all_components()
    for sub in subsets(n):
        ns = [nm[i] for i in sub]
        out.append((f"PredictedStates.get_component({ns})", sub, True) + tuple(pt.get_component(ns, return_var=True)))
    out.append((f"PredictedStates.get_component('{nm[-1]}') bare", (n - 1,), True, pt.get_component(nm[-1]), None))
    for i in range(n):
        out.append((f"get_all_component_means[{nm[i]}]", (i,), False) + tuple(al[nm[i]]))
        out.append((f"get_all_component_means[{nm[i]}] mean", (i,), False, alm[nm[i]], None))
        out.append((f"get_all_components[{nm[i]}]", (i,), True) + tuple(pal[nm[i]]))
        out.append((f"get_all_components[{nm[i]}] mean", (i,), True, palm[nm[i]], None))
        key = nm[i] if i % 2 else leaves[i]
        out.append((f"predict(None, kernel={nm[i]})", (i,), False) + tuple(gp.predict(kernel=key, return_var=True)))
        key = leaves[i] if i % 2 else nm[i]
        out.append((f"predict(tt, kernel={nm[i]})", (i,), True) + tuple(gp.predict(tt, kernel=key, return_var=True)))
    i = n - 1
    out.append((f"predict(tt, y, kernel={nm[i]})", (i,), True) + tuple(
        gp0.predict(tt, y, kernel=leaves[i], return_var=True)))
    out.append((f"predict(None, y, kernel={nm[i]}) mean", (i,), False, gp0.predict(None, y, kernel=nm[i]), None))
    _, g = gp0.condition(y, kernel=leaves[i])
    out.append((f"condition(y, kernel={nm[i]})", (i,), False, g.loc, g.variance))
    if point:
        _, g = gp0.condition(y, tt, kernel=leaves[0])
        out.append((f"condition(y, tt, kernel={nm[0]})", (0,), True, g.loc, g.variance))
    if isinstance(gp0.kernel, K.Sum) and isinstance(gp0.kernel.kernel1, K.Sum):
        sub = gp0.kernel.kernel1
        c = len(extract_leaf_kernels(sub))
        out.append(("predict(tt, kernel=sub-sum)", tuple(range(c)), True) + tuple(
            gp.predict(tt, kernel=sub, return_var=True)))
        out.append(("get_component_mean(sub-sum)", tuple(range(c)), False) + tuple(
            gp.get_component_mean(sub.name, return_var=True)))
    out.append(("whole", tuple(range(n)), False, gp.loc, gp.variance))
    return out


def strip(rts):
    return [(d, s, t) for d, s, t, _, _ in rts], [(m, v) for _, _, _, m, v in rts]


LABELS = {}


@functools.lru_cache(maxsize=None)
def _fn(solver, point, tag):
    @eqx.filter_jit
    def f(kernel, X, diag, Y, tt):
        def one(x, d, t):
            gp = GaussianProcess(kernel, x, diag=d, solver=impl.SOLVERS[solver])

            def oney(y):
                labels, vals = strip(routes(gp, y, t, point))
                LABELS[(solver, point, tag)] = labels
                return vals

            return jax.vmap(oney)(Y)

        return jax.vmap(one)(X, diag, tt)

    return f


def datasets(point):
    if point:
        t = np.array([[0.0, 0.4, 0.4, 2.7], [0.0, 1.3, 31.3, 31.45], [0.0, 0.0, 0.15, 0.3]])
        tt = np.concatenate([t[:, -1:] + 0.4, t[:, :2], 0.5 * (t[:, :1] + t[:, -1:]), t[:, :1] - 1.0], axis=1)
        return t, tt
    t = np.array([[0.5, 2.6, 1.2, 4.0], [3.0, 1.0, 5.0, 0.0]])
    d = np.array([[1.0, 0.8, 0.0, 2.0], [2.0, 1.0, 0.5, 0.0]])
    i = np.array([[0, 0, 1, 1], [0, 1, 0, 1]])
    tt = np.array([[0.2, 6.0, 2.6, -1.0, 1.0], [0.0, 3.5, 2.0, 4.4, 9.0]])
    return (t, d, i), tt


def expected(cs, sub, X, tt, point, diag, Y, at_test):
    """posterior of the components in `sub`, one data set"""
    full = functools.reduce(lambda a, b: ("Sum", a, b), cs)
    ks = [cs[i] for i in sub]
    part = functools.reduce(lambda a, b: ("Sum", a, b), ks)
    obs = [(float(a), 0.0) for a in X] if point else [(float(a), float(b)) for a, b in zip(X[0], X[1])]
    g = ref.DenseGP(ref.cov_matrix(full, obs), diag)
    tob = [(float(a), 0.0) for a in tt] if at_test else obs
    Ks = ref.cov_matrix(part, tob, obs)
    kss = np.array([ref.cov_avg(part, o, o) for o in tob])
    mu = np.stack([g.post(Ks, kss, y)[0] for y in Y])
    return mu, g.post(Ks, kss, Y[0])[1], float(np.max(np.diagonal(ref.cov_matrix(full, obs))))


def values(r, shard):
    point = shard["solver"] in (None, "par")
    alpha = ALPHA if point else INTA
    cs = comps(shard["word"], alpha)
    kern = join(cs, shard["assoc"])
    X, tt = datasets(point)
    diag = np.array([0.05, 0.4, 0.12, 0.3])
    Y = models.y_basis(4)
    tol = TOL if point else ITOL
    case = dict(word=shard["word"], assoc=shard["assoc"], solver=shard["solver"], plain=shard.get("plain", False))
    B = len(tt)
    tag = (str(impl.struct(kern)), shard["assoc"])
    R = np.broadcast_to(diag, (B, 4))
    Xj = jnp.asarray(X) if point else tuple(jnp.asarray(a) for a in X)
    ins = 0 if point else 2
    bulk = None
    if not shard.get("plain"):
        try:
            bulk = _fn(shard["solver"], point, tag)(
                impl.build(kern, num=jnp.asarray, integrated=ins), Xj, jnp.asarray(R), jnp.asarray(Y), jnp.asarray(tt))
            labels = LABELS[(shard["solver"], point, tag)]
            vals = [(np.asarray(m), None if v is None else np.asarray(v)) for m, v in bulk]
        except Exception:
            r.notes["bulk_fallbacks"] = r.notes.get("bulk_fallbacks", 0) + 1
            bulk = None
    if bulk is None:  # plain calls, one data set
        B, Y = 1, Y[-2:-1]
        try:
            x = Xj[0] if point else tuple(a[0] for a in Xj)
            gp = GaussianProcess(impl.build(kern, integrated=ins), x, diag=jnp.asarray(diag),
                                 solver=impl.SOLVERS[shard["solver"]])
            labels, vs = strip(routes(gp, jnp.asarray(Y[0]), jnp.asarray(tt[0]), point))
            vals = [(np.asarray(m)[None, None], None if v is None else np.asarray(v)[None, None]) for m, v in vs]
        except Exception as e:
            r.violate("call", f"components of {kern} ({shard['solver']}): {type(e).__name__}: {str(e)[:300]}", case)
            return
    ymax = np.maximum(np.max(np.abs(Y), axis=1), 1e-300)
    for (desc, sub, at_test), (m, v) in zip(labels, vals):
        r.states += 1
        r.transitions += 1
        for b in range(B):
            x = X[b] if point else tuple(a[b] for a in X)
            mu, var, prior = expected(cs, sub, x, tt[b], point, diag, Y, at_test)
            r.traces += 1
            for name, g, e, sc in (("mean", m, mu, ymax[:, None]), ("var", v, np.broadcast_to(var, mu.shape), prior)):
                if g is None:
                    continue
                if g[b].shape != e.shape:
                    r.violate(f"{name}:{desc}", f"{desc} of {kern}: shape {g[b].shape}, expected {e.shape}", case)
                    continue
                with np.errstate(all="ignore"):
                    err = np.abs(g[b] - e) / sc
                err = np.where(np.isfinite(err), err, np.inf)
                r.evaluations += err.size
                mx = float(np.max(err))
                r.max_err = max(r.max_err, mx if np.isfinite(mx) else 0)
                if not mx <= tol:
                    i = np.unravel_index(np.argmax(err), err.shape)
                    r.violate(f"{name}:{desc}", f"{desc} {name} of {kern} ({shard['solver']}) off by {mx:.3g} relative: "
                              f"got {g[b][i]!r} expected {e[i]!r} for X={np.asarray(x).tolist()} tests={tt[b].tolist()}", case)
            r.outcomes.add(hash(tuple(np.round(m[b][-1].ravel(), 8))))
    r.samples.append(dict(word=shard["word"], assoc=shard["assoc"], solver=shard["solver"], routes=[l[0] for l in labels][:6]))


def run(shard):
    r = Result()
    if "names" in shard:
        names(r, shard["names"], shard["part"], shard["of"])
        r.samples.append(dict(names_of_length=shard["names"]))
    elif "select" in shard:
        for w in shard["select"]:
            select(r, tuple(w), shard["solver"])
        r.samples.append(dict(names=shard["select"][0]))
    else:
        values(r, shard)
    return r


def replay(case):
    r = Result()
    if "names" in case:
        names(r, [case["names"]], 0, 1)
    elif "select" in case:
        select(r, tuple(case["select"][0]), case["solver"])
    else:
        values(r, case)
    return not r.violations, "; ".join(v["what"] for v in r.violations) or f"max error {r.max_err:.2e}"
