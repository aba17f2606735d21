"""C09: kernel evaluation and kernel algebra."""
from __future__ import annotations

import functools
import warnings

import numpy as np

import equinox as eqx
import jax
import jax.numpy as jnp

from smolgp import kernels as K

from mc import impl, ref
from mc.checks import _expr
from mc.harness import Result

TOL = 1e-9
LEVEL = "exploration"
RULE = (
    "All kernel expressions of the grammar (every leaf x parameter regime, every ordered pair of "
    "leaves under + and *, scalings at every position, all three-leaf trees over three leaves) are "
    "evaluated at every pair of a grid of coordinates (equal, tiny, short, long, huge lags, negative "
    "and shifted times) and compared with the documented formula; the integrated kernels, alone, summed "
    "and scaled, at bare times, with that of the underlying process. distinct_nontrivial counts "
    "distinct covariance matrices."
)
ASSUMPTIONS = ["the documented formulas as transcribed in mc/ref.py", "double precision"]

T0 = np.array([-3.2, 0.0, 0.15, 0.15 + 1e-6, 1.0, 2.7, 30.0, 4000.0])
INT = ["SHO", "Exp", "Matern32", "Matern52", "Cosine"]


@functools.lru_cache(maxsize=None)
def _fn():
    @eqx.filter_jit
    def f(k, a, b):
        return k(a, b), k(a), k(b, a)

    return f


def shards(tier, seed):
    S = []
    ex = [("leaf", k) for k in _expr.leaves()]
    ex += [("pair", k) for k in _expr.pairs()]
    ex += [("scaled", k) for k in _expr.scaled()]
    tr = _expr.triples() if tier == "quick" else _expr.triples(tuple(_expr.SMALL))
    ex += [("triple", k) for k in (tr[::4] if tier == "quick" else tr)]
    n = 24 if tier == "quick" else 64
    S += [dict(exprs=ex[i::n], weight=2) for i in range(n)]
    S += [dict(integrated=i, full=tier != "quick", weight=3) for i in range(4)]
    S.append(dict(ess=[None, 5] if tier == "quick" else [None, 2, 5, 9, 14], weight=3))
    S += [dict(plain=p, part=i, weight=4) for p, m in ((0, 5), (1, 4), (2, 2)) for i in range(m)]
    return S


def check(r, kern, got, t1, t2, key, tol=TOL, shift=0.0):
    KK, D, KT = (np.asarray(g, float) for g in got)
    exp = ref.kfun(kern, t1[:, None] - t2[None, :])
    sc = float(ref.kfun(kern, np.zeros(1))[0])
    for name, g, e in (("value", KK, exp), ("diagonal", D, np.full(len(t1), sc)), ("swapped", KT, exp.T)):
        if g.shape != e.shape:
            r.violate(f"{key}:{name}", f"{kern}: shape {g.shape}, expected {e.shape}",
                      dict(kernel=kern, shift=shift, t1=t1.tolist(), t2=t2.tolist(), mode=key))
            continue
        with np.errstate(all="ignore"):
            err = np.abs(g - e) / sc
        err = np.where(np.isfinite(err), err, np.inf)
        r.evaluations += err.size
        m = float(np.max(err))
        r.max_err = max(r.max_err, m if np.isfinite(m) else 0)
        if not m <= tol:
            i = np.unravel_index(np.argmax(err), err.shape)
            r.violate(f"{key}:{name}", f"{kern} {name} at index {i}: got {g[i]!r} expected {e[i]!r} "
                      f"(t1={t1.tolist()}, t2={t2.tolist()})",
                      dict(kernel=kern, shift=shift, t1=t1.tolist(), t2=t2.tolist(), mode=key))
    r.traces += 1
    r.outcomes.add(hash(tuple(np.round(KK.ravel(), 9))))


def one(r, kern, integrated=0, key=None):
    key = key or (f"{'integrated ' if integrated else ''}{kern[0]}")
    for shift in (0.0, 1e3):
        t1 = T0 + shift
        t2 = np.concatenate([T0[::-1], [0.9, -55.0]]) + shift
        tol = TOL if shift == 0 else 1e-8
        try:
            k = impl.build(kern, num=jnp.asarray, integrated=integrated)
            try:
                got = _fn()(k, jnp.asarray(t1), jnp.asarray(t2))
            except Exception:  # not traceable: plain call
                k = impl.build(kern, integrated=integrated)
                got = (k(jnp.asarray(t1), jnp.asarray(t2)), k(jnp.asarray(t1)), k(jnp.asarray(t2), jnp.asarray(t1)))
            check(r, kern, got, t1, t2, key, tol, shift)
        except Exception as e:
            r.violate(f"{key}:call", f"{kern} raised {type(e).__name__}: {str(e)[:300]}",
                      dict(kernel=kern, shift=shift, mode=key, integrated=integrated))
    n = _expr.size(kern)
    r.states += n
    r.transitions += n - 1


def plain(r, which, part=None):
    """plain Python use: operators in every order, sum(), ints, scalars, tuples of coordinates"""
    a, b, c = _expr.SMALL["Exp"], _expr.SMALL["SHO"], _expr.SMALL["M52"]
    t1, t2 = np.array([0.0, 1.0, 4.0]), np.array([2.0, 1.0, 0.0, 9.0])
    B = impl.build
    if which == 0:
        cases = {
            "sum()": (sum([B(a), B(b), B(c)]), ("Sum", ("Sum", a, b), c)),
            "k*c": (B(a) * 2.5, ("Scale", 2.5, a)),
            "c*k": (2.5 * B(b), ("Scale", 2.5, b)),
            "c*k int": (3 * B(b), ("Scale", 3, b)),
            "c*k array": (jnp.asarray(2.5) * B(b), ("Scale", 2.5, b)),
            "c*k np": (B(b) * np.float64(2.5), ("Scale", 2.5, b)),
            "a+(b*c)": (B(a) + B(b) * B(c), ("Sum", a, ("Product", b, c))),
            "(a+b)*c": ((B(a) + B(b)) * B(c), ("Product", ("Sum", a, b), c)),
            "c*(b+a)": (B(c) * (B(b) + B(a)), ("Product", ("Sum", a, b), c)),
            "2*a*b": (2 * B(a) * B(b), ("Scale", 2, ("Product", a, b))),
        }
    elif which == 1:
        cases = {
            "default sigma " + n: (k, e)
            for n, k, e in [
                ("SHO", K.SHO(omega=1.3, quality=2.0), ("SHO", 1.3, 2.0, 1.0)),
                ("Exp", K.Exp(scale=1.3), ("Exp", 1.3, 1.0)),
                ("Matern32", K.Matern32(scale=1.3), ("Matern32", 1.3, 1.0)),
                ("Matern52", K.Matern52(1.3), ("Matern52", 1.3, 1.0)),
                ("Cosine", K.Cosine(1.3), ("Cosine", 1.3, 1.0)),
                ("Constant", K.Constant(), ("Constant", 1.0)),
                ("ESS", K.ExpSineSquared(period=2.1, order=5), ("ESS", 2.1, 1.0, 1.0, 5)),
                ("names", K.SHO(1.3, 0.4, 1.1, name="a") + K.Exp(0.7, 0.6, name="b"),
                 ("Sum", ("SHO", 1.3, 0.4, 1.1), ("Exp", 0.7, 0.6))),
            ]
        }
    else:
        cases = {}
        for n in ("Exp", "SHO", "M32", "Cos"):
            k = _expr.SMALL[n]
            cases["int parameters " + n] = (
                B((k[0],) + tuple(int(np.ceil(x)) for x in k[1:]), num=int),
                (k[0],) + tuple(int(np.ceil(x)) for x in k[1:]))
    parts = (5, 4, 2)[which]
    for ci, (name, (k, e)) in enumerate(cases.items()):
        if part is not None and ci % parts != part:
            continue
        try:
            got = (k(jnp.asarray(t1), jnp.asarray(t2)), k(jnp.asarray(t1)), k(jnp.asarray(t2), jnp.asarray(t1)))
            check(r, e, got, t1, t2, f"plain {name}")
            g = np.array([[float(k.evaluate(x, y)) for y in (2.0, 1.0)] for x in (1.0, 3.5)])
            check(r, e, (g, k(jnp.asarray([1.0, 3.5])), g.T), np.array([1.0, 3.5]), np.array([2.0, 1.0]),
                  f"scalar {name}")
            r.states += 1
            r.transitions += 1
            if which == 0 and ci % 3:
                continue
            ti1, ti2 = jnp.asarray(t1.astype(int)), jnp.asarray(t2.astype(int))
            check(r, e, (k(ti1, ti2), k(ti1), k(ti2, ti1)), t1, t2, f"integer coordinates {name}")
            x1 = (jnp.asarray(t1), jnp.arange(3))
            x2 = (jnp.asarray(t2), jnp.arange(4))
            check(r, e, (k(x1, x2), k(x1), k(x2, x1)), t1, t2, f"tuple coordinates {name}")
        except Exception as ex:
            r.violate(f"plain {name}:call", f"{name}: {type(ex).__name__}: {str(ex)[:300]}",
                      dict(plain=which, kernel=None))


def ess(r, orders=(None, 2, 5, 9)):
    """default truncation order, and its reported error bound"""
    tau = np.linspace(0, 3.1, 23)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for g in (0.05, 0.3, 1.0, 1.9, 2.0, 2.2, 4.0, 7.9, 8.1, 16.0, 31.0):
            for order in orders:
                for s in (1.2,):
                    k = impl.build(("ESS", 3.1, g, s, order))
                    n = int(k.order)
                    K_ = np.asarray(k(jnp.zeros(1), jnp.asarray(tau)))[0]
                    case = dict(ess=[3.1, g, s, order])
                    e = ref.kfun(("ESS", 3.1, g, s, n), tau)
                    doc = ref.kfun(("ESS", 3.1, g, s, None), tau)
                    err = float(np.max(np.abs(K_ - e))) / s**2
                    r.max_err = max(r.max_err, err)
                    r.evaluations += 2 * len(tau)
                    if not err <= TOL:
                        r.violate("ess:series", f"gamma={g} order={order}: off the {n}-term series by {err}", case)
                    off = float(np.max(np.abs(K_ - doc)))
                    bound = float(k.error_bound())
                    if not off <= bound * (1 + 1e-9) + 1e-12:
                        r.violate("ess:bound", f"gamma={g} order={n}: covariance is off by {off}, more than "
                                  f"error_bound()={bound}", case)
                    if order is None and not off <= 0.06 * s**2:
                        r.violate("ess:default", f"gamma={g}: default order {n} is off by {off}", case)
                    r.traces += 1
                    r.states += n
                    r.transitions += n - 1
                    r.outcomes.add(hash(tuple(np.round(K_, 9))))


def run(shard):
    r = Result()
    if "exprs" in shard:
        for kind, k in shard["exprs"]:
            one(r, _expr.tup(k))
        r.samples.append(dict(kernel=shard["exprs"][-1][1], coordinates=T0.tolist()))
    elif "integrated" in shard:
        lv = [("SHO", 1.3, 2.0, 1.1), ("SHO", 0.8, 0.3, 1.2), ("SHO", 1.1, 0.5, 1.2), ("Exp", 1.4, 1.1),
              ("Matern32", 1.5, 1.2), ("Matern52", 1.6, 1.2), ("Cosine", 5.3, 1.1)]
        full = shard["full"]
        ex = [(k, 1) for k in lv] + [(k, 2) for k in (lv if full else lv[3:5])]
        ex += [(k, 3) for k in (lv if full else [])]
        for i, a in enumerate(lv[::2]):
            comp = [(("Sum", a, lv[4]), 2), (("Scale", 2.5, a), 2), (("Product", a, lv[3]), 1),
                    (("Scale", 0.4, ("Sum", lv[5], a)), 1)]
            ex += comp if full else [comp[(i + 1) % 4]]
        for k, n in ex[shard["integrated"] :: 4]:
            one(r, k, n)
        r.samples.append(dict(integrated=lv[0]))
    elif "ess" in shard:
        ess(r, shard["ess"])
        r.samples.append(dict(ess="default and explicit orders"))
    else:
        plain(r, shard["plain"], shard["part"])
        r.samples.append(dict(plain=shard["plain"]))
    return r


def replay(case):
    r = Result()
    if "ess" in case:
        ess(r)
    elif "plain" in case:
        plain(r, case["plain"])
    elif str(case.get("mode", "")).split()[0] in ("plain", "scalar", "integer", "tuple"):
        for i in range(3):
            plain(r, i)
    else:
        integ = case.get("integrated", 1 if str(case["mode"]).startswith("integrated") else 0)
        one(r, _expr.tup(case["kernel"]), integ, case["mode"])
    return not r.violations, "; ".join(v["what"] for v in r.violations) or f"max error {r.max_err:.2e}"
