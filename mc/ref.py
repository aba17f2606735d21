"""Boring numpy/scipy reference model.

Nothing in here imports smolgp (or jax).  A kernel is a nested tuple:

    ("SHO", w, q, s)  ("Exp", l, s)  ("Matern32", l, s)  ("Matern52", l, s)
    ("Cosine", l, s)  ("ESS", P, gamma, s, order|None)   ("Constant", s)
    ("Sum", a, b)     ("Product", a, b)   ("Scale", c, a)

An observation is an *averaging measure* on the real line: (t, delta) is the mean of
the process over [t-delta/2, t+delta/2] (delta = 0: the value at t).  The reference GP
is the textbook dense one: build K by 1-D Gauss-Legendre quadrature (exactly, up to
round-off), factorise K + diag, read off likelihood and posterior.
"""

from __future__ import annotations

import numpy as np
from scipy.special import ive

LEAVES = ("SHO", "Exp", "Matern32", "Matern52", "Cosine", "ESS", "Constant")


# ------------------------------------------------------------------ covariances
def kfun(k, tau):
    """k(tau) of the documented covariance function (tau any real array)."""
    tau = np.abs(np.asarray(tau, dtype=float))
    op = k[0]
    if op == "Sum":
        return kfun(k[1], tau) + kfun(k[2], tau)
    if op == "Product":
        return kfun(k[1], tau) * kfun(k[2], tau)
    if op == "Scale":
        return k[1] * kfun(k[2], tau)
    if op == "Constant":
        return k[1] ** 2 * np.ones_like(tau)
    if op == "Exp":
        _, l, s = k
        return s**2 * np.exp(-tau / l)
    if op == "Matern32":
        _, l, s = k
        r = np.sqrt(3) * tau / l
        return s**2 * (1 + r) * np.exp(-r)
    if op == "Matern52":
        _, l, s = k
        r = np.sqrt(5) * tau / l
        return s**2 * (1 + r + r * r / 3) * np.exp(-r)
    if op == "Cosine":
        _, l, s = k
        return s**2 * np.cos(2 * np.pi * tau / l)
    if op == "ESS":
        _, P, g, s, order = k
        if order is None:  # the documented formula
            return s**2 * np.exp(-g * np.sin(np.pi * tau / P) ** 2)
        # the documented truncated expansion (Solin & Sarkka 2014), first `order` harmonics
        out = np.zeros_like(tau)
        for j in range(order):
            c = 1.0 if j == 0 else 2.0
            out = out + c * ive(j, g / 2) * np.cos(2 * np.pi * j * tau / P)
        return s**2 * out
    if op == "SHO":
        _, w, q, s = k
        if abs(q - 0.5) < 1e-12:
            return s**2 * np.exp(-w * tau) * (1 + w * tau)
        if q > 0.5:
            n = np.sqrt(1 - 1 / (4 * q * q))
            return (
                s**2
                * np.exp(-w * tau / (2 * q))
                * (np.cos(n * w * tau) + np.sin(n * w * tau) / (2 * n * q))
            )
        n = np.sqrt(1 / (4 * q * q) - 1)
        a1 = w * (1 / (2 * q) - n)  # slow rate
        if a1 / w < 1e-3:
            a1 = w * w / (w * (1 / (2 * q) + n))
        a2 = w * (1 / (2 * q) + n)
        f = 1 / (2 * n * q)
        return s**2 * 0.5 * ((1 + f) * np.exp(-a1 * tau) + (1 - f) * np.exp(-a2 * tau))
    raise ValueError(op)


def ess_tail(gamma, order):
    """Exact size (at sigma=1) of everything the truncated expansion leaves out."""
    j = np.arange(order, order + 200)
    return float(np.sum(2.0 * ive(j, gamma / 2)))


def rates(k):
    """rough fastest inverse timescale; only used to choose the number of panels"""
    op = k[0]
    if op in ("Sum", "Product"):
        return rates(k[1]) + rates(k[2])
    if op == "Scale":
        return rates(k[2])
    if op == "Constant":
        return 0.0
    if op == "SHO":
        _, w, q, s = k
        return w * max(1.0, 1 / q)
    if op == "Cosine":
        return 2 * np.pi / k[1]
    if op == "ESS":
        return 2 * np.pi / k[1] * (k[4] or 12)
    return 3.0 / k[1]


_GLX, _GLW = np.polynomial.legendre.leggauss(32)


def _gl(f, a, b, rate):
    if b <= a:
        return 0.0
    n = int(max(1, np.ceil((b - a) * rate / 8.0)))
    e = np.linspace(a, b, n + 1)
    h = 0.5 * np.diff(e)[:, None]
    x = 0.5 * (e[1:] + e[:-1])[:, None] + h * _GLX[None, :]
    return float(np.sum(h * _GLW[None, :] * f(x)))


def cov_avg(k, o1, o2):
    """Cov(mean over o1, mean over o2) with o = (t, delta)."""
    (t1, d1), (t2, d2) = o1, o2
    if d1 == 0 and d2 == 0:
        return float(kfun(k, t1 - t2))
    r = rates(k)
    if d1 == 0 or d2 == 0:
        if d1 == 0:
            (t1, d1), (t2, d2) = o2, o1
        a, b = t1 - t2 - d1 / 2, t1 - t2 + d1 / 2
        pts = sorted({a, b} | ({0.0} if a < 0 < b else set()))
        return sum(_gl(lambda u: kfun(k, u), p, q, r) for p, q in zip(pts, pts[1:])) / d1
    # distribution of the lag between a uniform point of o1 and one of o2: a trapezoid
    c = t1 - t2
    hi, lo = 0.5 * (d1 + d2), 0.5 * abs(d1 - d2)
    pts = sorted({c - hi, c - lo, c + lo, c + hi, 0.0})
    pts = [p for p in pts if c - hi <= p <= c + hi]
    m = min(d1, d2)

    def f(u):
        w = np.minimum(m, np.maximum(hi - np.abs(u - c), 0.0))
        return w * kfun(k, u)

    return sum(_gl(f, p, q, r) for p, q in zip(pts, pts[1:])) / (d1 * d2)


def cov_matrix(k, obs1, obs2=None):
    sym = obs2 is None
    obs2 = obs1 if sym else obs2
    if all(o[1] == 0 for o in obs1) and all(o[1] == 0 for o in obs2):
        a = np.array([o[0] for o in obs1], float)
        b = np.array([o[0] for o in obs2], float)
        return kfun(k, a[:, None] - b[None, :])
    cache = {}
    out = np.empty((len(obs1), len(obs2)))
    for i, a in enumerate(obs1):
        for j, b in enumerate(obs2):
            key = (round(a[0] - b[0], 13), a[1], b[1])
            if key not in cache:
                cache[key] = cov_avg(k, a, b)
            out[i, j] = cache[key]
    return out


# ------------------------------------------------------------------ dense GP
class DenseGP:
    """N(0, K + diag(R)); K (N,N), R (N,)"""

    def __init__(self, K, R):
        self.K = np.asarray(K, float)
        self.R = np.broadcast_to(np.asarray(R, float), (len(K),))
        self.C = self.K + np.diag(self.R)
        self.L = np.linalg.cholesky(self.C)
        self.Ci = np.linalg.inv(self.C)

    def logp(self, y):
        a = np.linalg.solve(self.L, y)
        return float(
            -0.5 * a @ a
            - np.sum(np.log(np.diag(self.L)))
            - 0.5 * len(y) * np.log(2 * np.pi)
        )

    def post(self, Ks, kss, y):
        """Ks (M,N) covariance test/data, kss (M,) prior variance at test"""
        a = np.linalg.solve(self.C, y)
        mu = Ks @ a
        V = np.linalg.solve(self.L, Ks.T)
        return mu, kss - np.sum(V * V, axis=0)


# ------------------------------------------------- derivatives and linear functionals
def exppoly(k):
    """[(lam, coeffs)]: k(tau) = Re sum_i poly_i(tau) exp(lam_i tau) for tau >= 0"""
    op = k[0]
    if op == "Sum":
        return exppoly(k[1]) + exppoly(k[2])
    if op == "Scale":
        return [(l, k[1] * c) for l, c in exppoly(k[2])]
    if op == "Product":
        return [
            (l1 + l2, np.convolve(c1, c2))
            for l1, c1 in exppoly(k[1])
            for l2, c2 in exppoly(k[2])
        ]
    a = lambda *c: np.array(c, complex)
    if op == "Constant":
        return [(0.0, a(k[1] ** 2))]
    _, p, *rest = k
    if op == "SHO":
        w, (q, s) = p, rest
        if abs(q - 0.5) < 1e-12:
            return [(-w, s**2 * a(1, w))]
        r = np.sqrt(complex(1 / (4 * q * q) - 1))  # imaginary when underdamped
        lp, lm = w * (-1 / (2 * q) + r), w * (-1 / (2 * q) - r)
        f = 1 / (2 * r * q)
        return [(lp, s**2 * 0.5 * a(1 + f)), (lm, s**2 * 0.5 * a(1 - f))]
    s = rest[0]
    if op == "Exp":
        return [(-1 / p, s**2 * a(1))]
    if op == "Matern32":
        b = np.sqrt(3) / p
        return [(-b, s**2 * a(1, b))]
    if op == "Matern52":
        b = np.sqrt(5) / p
        return [(-b, s**2 * a(1, b, b * b / 3))]
    if op == "Cosine":
        w = 2 * np.pi / p
        return [(1j * w, s**2 * a(0.5)), (-1j * w, s**2 * a(0.5))]
    raise ValueError(op)


def kder(k, n, tau):
    """n-th derivative of the covariance function at tau (any sign)"""
    tau = np.asarray(tau, float)
    x = np.abs(tau)
    out = np.zeros_like(x, dtype=complex)
    for lam, c in exppoly(k):
        for _ in range(n):
            d = np.zeros_like(c)
            d[:-1] = np.arange(1, len(c)) * c[1:]
            c = d + lam * c
        out = out + np.polyval(c[::-1], x) * np.exp(lam * x)
    return np.where((tau < 0) & (n % 2 == 1), -1.0, 1.0) * out.real


def cov_elem(k, e1, e2):
    """Cov of two elements (order, t, delta): the order-th derivative at t, or (order 0,
    delta > 0) the mean over an exposure"""
    (n1, t1, d1), (n2, t2, d2) = e1, e2
    if d1 == 0 and d2 == 0:
        if n1 + n2 == 0:
            return float(kfun(k, t1 - t2))
        return float((-1) ** n2 * kder(k, n1 + n2, t1 - t2))
    if d1 > 0 and d2 == 0:
        return cov_elem(k, e2, e1)
    if n1 == 0:
        return cov_avg(k, (t1, d1), (t2, d2))
    a, b = t2 - d2 / 2, t2 + d2 / 2
    return float(kder(k, n1 - 1, t1 - a) - kder(k, n1 - 1, t1 - b)) / d2
