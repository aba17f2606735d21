"""Adapters: build smolgp objects from reference tuples, run them one at a time (eager)
or in bulk (one compiled function replays a whole batch of enumerated cases)."""
from __future__ import annotations

import functools
import warnings

import numpy as np

import jax
import jax.numpy as jnp
import equinox as eqx

import smolgp
from smolgp import GaussianProcess
from smolgp import kernels as K
from smolgp.kernels import integrated as KI
from smolgp.solvers import StateSpaceSolver, ParallelStateSpaceSolver
from smolgp.solvers.integrated import (
    IntegratedStateSpaceSolver,
    ParallelIntegratedStateSpaceSolver,
)

from mc import ref
from mc.harness import ImplError

warnings.filterwarnings("ignore")

SOLVERS = {
    None: None,
    "default": None,
    "seq": StateSpaceSolver,
    "par": ParallelStateSpaceSolver,
    "iseq": IntegratedStateSpaceSolver,
    "ipar": ParallelIntegratedStateSpaceSolver,
}


def build(k, num=float, integrated=0):
    """Reference tuple -> smolgp kernel.  `num` converts the parameters (float, int,
    jnp.asarray, ...).  integrated = number of instruments, or 0 for point data."""
    op = k[0]
    b = functools.partial(build, num=num, integrated=integrated)
    if op == "Sum":
        return b(k[1]) + b(k[2])
    if op == "Product":
        return b(k[1]) * b(k[2])
    if op == "Scale":
        return num(k[1]) * b(k[2])
    p = [num(x) for x in k[1:] if x is not None]
    if integrated:
        cls = {
            "SHO": KI.IntegratedSHO,
            "Exp": KI.IntegratedExp,
            "Matern32": KI.IntegratedMatern32,
            "Matern52": KI.IntegratedMatern52,
            "Cosine": KI.IntegratedCosine,
        }[op]
        if op == "SHO":
            return cls(omega=p[0], quality=p[1], sigma=p[2], num_insts=integrated)
        return cls(scale=p[0], sigma=p[1], num_insts=integrated)
    if op == "SHO":
        return K.SHO(omega=p[0], quality=p[1], sigma=p[2])
    if op == "Constant":
        return K.Constant(p[0])
    if op == "ESS":
        kw = {} if k[4] is None else {"order": k[4]}
        return K.ExpSineSquared(period=num(k[1]), gamma=num(k[2]), sigma=num(k[3]), **kw)
    return {
        "Exp": K.Exp,
        "Matern32": K.Matern32,
        "Matern52": K.Matern52,
        "Cosine": K.Cosine,
    }[op](scale=p[0], sigma=p[1])


def struct(k):
    """The shape of a kernel expression: same shape -> same compiled code"""
    if k[0] in ("Sum", "Product"):
        return (k[0], struct(k[1]), struct(k[2]))
    if k[0] == "Scale":
        return ("Scale", struct(k[2]))
    if k[0] == "ESS":
        return (k[0], k[4])
    return (k[0],)


def gp_outputs(gp, Y, tt, what):
    out = {}
    if "l" in what:
        out["logp"] = jax.vmap(gp.log_probability)(Y)
    if "c" in what:

        def cond(y):
            lp, g = gp.condition(y)
            return lp, g.loc, g.variance

        out["clogp"], out["loc"], out["var"] = jax.vmap(cond)(Y)
    if "p" in what:
        out["pmu"], out["pvar"] = jax.vmap(
            lambda y: gp.predict(tt, y, return_var=True)
        )(Y)
    return out


@functools.lru_cache(maxsize=None)
def _bulk(solver, what, integ, has_diag_vec):
    S = SOLVERS[solver]

    def one(kernel, X, diag, Y, tt):
        gp = GaussianProcess(kernel, X, diag=diag, solver=S)
        return gp_outputs(gp, Y, tt, what)

    @eqx.filter_jit
    def f(kernel, X, diag, Y, tt):
        axes = (None, 0, 0 if has_diag_vec else None, None, 0 if "p" in what else None)
        return jax.vmap(lambda k, x, d, y, t: one(k, x, d, y, t), in_axes=axes)(
            kernel, X, diag, Y, tt
        )

    return f


def bulk(kernel, X, diag, Y, tt=None, solver=None, what="l", chunk=2048):
    """X: array (B,N) or tuple of arrays (B,N); diag (B,N) or scalar; Y (nY,N); tt (B,M).
    Returns dict of numpy arrays with leading axis B."""
    integ = isinstance(X, tuple)
    B = (X[0] if integ else X).shape[0]
    c = min(chunk, B)
    vec = np.ndim(diag) == 2
    f = _bulk(solver, what, integ, vec)
    outs = []
    Yj = jnp.asarray(Y)
    for i in range(0, B, c):
        idx = np.arange(i, min(i + c, B))
        n = len(idx)
        if n < c:
            idx = np.concatenate([idx, np.full(c - n, idx[-1])])
        x = tuple(jnp.asarray(a[idx]) for a in X) if integ else jnp.asarray(X[idx])
        d = jnp.asarray(diag[idx]) if vec else jnp.asarray(diag)
        t = None if tt is None else jnp.asarray(tt[idx])
        r = f(kernel, x, d, Yj, t)
        outs.append({k: np.asarray(v)[:n] for k, v in r.items()})
    return {k: np.concatenate([o[k] for o in outs]) for k in outs[0]}


def eager(kernel, X, diag, Y, tt=None, solver=None, what="l"):
    """One data set, plain calls, no transformations."""
    try:
        gp = GaussianProcess(kernel, X, diag=diag, solver=SOLVERS[solver])
        o = {k: [] for k in ("logp", "clogp", "loc", "var", "pmu", "pvar")}
        for y in Y:
            y = jnp.asarray(y)
            if "l" in what:
                o["logp"].append(gp.log_probability(y))
            if "c" in what:
                lp, g = gp.condition(y)
                o["clogp"].append(lp)
                o["loc"].append(g.loc)
                o["var"].append(g.variance)
            if "p" in what:
                m, v = gp.predict(jnp.asarray(tt), y, return_var=True)
                o["pmu"].append(m)
                o["pvar"].append(v)
        return {k: np.stack([np.asarray(x) for x in v]) for k, v in o.items() if v}
    except Exception as e:  # noqa: BLE001
        raise ImplError(f"{type(e).__name__}: {str(e)[:300]}") from e
