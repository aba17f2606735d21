"""C15: power spectral densities."""
from __future__ import annotations

from math import factorial

import functools

import numpy as np
from scipy.special import ive

import equinox as eqx
import jax.numpy as jnp

from mc import impl, ref
from mc.checks import _expr
from mc.harness import Result

TOL = 1e-8
LEVEL = "exploration"
RULE = (
    "All kernel expressions of the grammar that have a continuous spectrum (leaf x parameter regime, "
    "ordered pairs under + and *, scalings at every position, three-leaf trees) are evaluated on a grid of "
    "frequencies (zero, low, resonant, high, negative) and compared with the exact Fourier transform of "
    "the documented covariance, written as a sum of exponential polynomials. distinct_nontrivial counts "
    "distinct spectra."
)
ASSUMPTIONS = ["the documented covariance functions as exponential polynomials (checked against mc/ref.py)"]

OM = np.array([0.0, 0.01, 0.2, 0.7, 1.0, 1.3, 1.7, 2.9, 5.0, 12.0, 60.0])
OM = np.concatenate([OM, -OM[1:], [400.0]])


def terms(k):
    """the covariance for tau >= 0 as a list of (c, m, lam): sum of c tau^m exp(-lam tau)"""
    op = k[0]
    if op == "Sum":
        return terms(k[1]) + terms(k[2])
    if op == "Scale":
        return [(k[1] * c, m, l) for c, m, l in terms(k[2])]
    if op == "Product":
        return [(c1 * c2, m1 + m2, l1 + l2) for c1, m1, l1 in terms(k[1]) for c2, m2, l2 in terms(k[2])]
    s2 = k[3] ** 2 if op in ("SHO", "ESS") else (k[1] ** 2 if op == "Constant" else k[2] ** 2)
    if op == "Constant":
        return [(s2, 0, 0.0)]
    if op == "Exp":
        return [(s2, 0, 1 / k[1])]
    if op == "Matern32":
        f = np.sqrt(3) / k[1]
        return [(s2, 0, f), (s2 * f, 1, f)]
    if op == "Matern52":
        f = np.sqrt(5) / k[1]
        return [(s2, 0, f), (s2 * f, 1, f), (s2 * f * f / 3, 2, f)]
    if op == "Cosine":
        w = 2 * np.pi / k[1]
        return [(s2 / 2, 0, 1j * w), (s2 / 2, 0, -1j * w)]
    if op == "ESS":
        out = []
        for j in range(k[4]):
            c = s2 * ive(j, k[2] / 2)
            w = 2 * np.pi * j / k[1]
            out += [(c, 0, 1j * w), (c, 0, -1j * w)] if j else [(c, 0, 0.0)]
        return out
    if op == "SHO":
        w, q = k[1], k[2]
        if q == 0.5:
            return [(s2, 0, w), (s2 * w, 1, w)]
        e = np.sqrt(complex(1 / (4 * q * q) - 1))  # imaginary if underdamped
        l1, l2 = w * (1 / (2 * q) - e), w * (1 / (2 * q) + e)
        f = 1 / (2 * q * e)
        return [(s2 * (1 + f) / 2, 0, l1), (s2 * (1 - f) / 2, 0, l2)]
    raise ValueError(op)


def spectrum(k, om):
    tot = np.zeros(len(om))
    for c, m, l in terms(k):
        tot += np.real(c * factorial(m) * (1 / (l + 1j * om) ** (m + 1) + 1 / (l - 1j * om) ** (m + 1)))
    return tot / (2 * np.pi)


def continuous(k):
    return all(np.real(l) > 1e-12 for c, m, l in terms(k))


@functools.lru_cache(maxsize=None)
def _fn():
    return eqx.filter_jit(lambda k, om: k.psd(om))


def shards(tier, seed):
    q = tier == "quick"
    ex = _expr.leaves() + _expr.pairs() + _expr.scaled()
    tr = _expr.triples() if q else _expr.triples(("Exp", "M32", "SHO", "Cos", "M52"))
    ex += tr[::4] if q else tr
    ex = [k for k in ex if continuous(k)]
    ex = sorted(ex, key=lambda k: str(impl.struct(k)))
    n = 16 if q else 40
    m = -(-len(ex) // n)
    S = [dict(exprs=ex[i : i + m]) for i in range(0, len(ex), m)]
    S.append(dict(plain=True))
    return S


def compare(r, kern, got, om, case):
    got = np.asarray(got, float)
    exp = spectrum(kern, om)
    top = np.max(np.abs(exp))
    if got.shape != exp.shape:
        r.violate(f"shape:{kern[0]}", f"{kern}: psd has shape {got.shape}, expected {exp.shape}", case)
        return
    err = np.abs(got - exp) / top
    err = np.where(np.isfinite(err), err, np.inf)
    far = np.abs(exp) > 1e-9 * top  # smaller values are checked relative to themselves too
    rel = np.where(far, np.abs(got - exp) / np.abs(exp), 0) * (TOL / 1e-5)
    neg = np.maximum(-got / top, 0) * (TOL / 1e-12)
    for name, e in (("value", err), ("tail", rel), ("negative", neg)):
        r.evaluations += e.size
        m = float(np.max(e))
        if not m <= TOL:
            i = int(np.argmax(e))
            r.violate(f"{name}:{kern[0]}", f"{kern}: psd({om[i]}) = {got[i]!r}, expected {exp[i]!r}", case)
    r.max_err = max(r.max_err, float(np.max(err)) if np.all(np.isfinite(err)) else 0)
    r.traces += 1
    r.outcomes.add(hash(tuple(np.round(got / top, 9))))


def one(r, kern, om=OM):
    case = dict(kernel=kern)
    tau = np.array([0.0, 0.3, 2.0])  # the transcription as exponential polynomial is the documented kernel
    chk = np.array([np.real(sum(c * t**m * np.exp(-l * t) for c, m, l in terms(kern))) for t in tau])
    assert np.allclose(chk, ref.kfun(kern, tau), rtol=1e-9, atol=1e-10), kern
    try:
        try:
            got = _fn()(impl.build(kern, num=jnp.asarray), jnp.asarray(om))
        except Exception:
            got = impl.build(kern).psd(jnp.asarray(om))
        compare(r, kern, got, om, case)
    except Exception as e:
        r.violate(f"call:{kern[0]}", f"{kern}: {type(e).__name__}: {str(e)[:300]}", case)
    n = _expr.size(kern)
    r.states += n
    r.transitions += n - 1


def run(shard):
    r = Result()
    if "exprs" in shard:
        for k in shard["exprs"]:
            one(r, _expr.tup(k))
        r.samples.append(dict(kernel=shard["exprs"][-1]))
    else:  # plain calls with Python-number parameters
        for k in (("SHO", 1.3, 2.0, 1.1), ("SHO", 1.3, 0.2, 1.1), ("Sum", ("Exp", 2.0, 1.0), ("Matern52", 3.0, 1.5)),
                  ("Product", ("Exp", 2.0, 1.0), ("Cosine", 3.0, 1.5)), ("Scale", 3.0, ("Matern32", 2.0, 1.5))):
            for num in (float, jnp.asarray):
                try:
                    compare(r, k, impl.build(k, num=num).psd(jnp.asarray(OM[:5])), OM[:5], dict(kernel=k))
                except Exception as e:
                    r.violate(f"call:{k[0]}", f"{k}: {type(e).__name__}: {str(e)[:300]}", dict(kernel=k))
        r.samples.append(dict(plain=True))
    return r


def replay(case):
    r = Result()
    one(r, _expr.tup(case["kernel"]))
    return not r.violations, "; ".join(v["what"] for v in r.violations) or f"max error {r.max_err:.2e}"
