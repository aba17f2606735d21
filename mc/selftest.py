"""Checks of the machinery itself (setup_cmd): the oracle, the transition systems and the judge."""
from __future__ import annotations

import itertools

import numpy as np
from scipy.integrate import dblquad
from scipy.stats import multivariate_normal

from mc import judge, models, ref

KERNELS = [
    ("SHO", 1.3, 2.0, 1.1), ("SHO", 1.3, 0.5, 1.1), ("SHO", 1.3, 0.2, 0.7), ("Exp", 1.4, 1.1),
    ("Matern32", 1.5, 1.2), ("Matern52", 1.6, 1.2), ("Cosine", 5.3, 1.1), ("Constant", 0.8),
    ("Sum", ("Exp", 0.5, 0.7), ("Product", ("SHO", 2.2, 0.3, 0.9), ("Cosine", 3.0, 0.8))),
]


def close(what, a, b, tol):
    e = float(np.max(np.abs(np.asarray(a) - np.asarray(b))))
    assert e <= tol, f"{what}: {a} {b}"


def oracle():
    tau = np.linspace(-4, 4, 33)
    for k in KERNELS:
        close(f"exponential polynomial of {k}", ref.kder(k, 0, tau), ref.kfun(k, tau), 1e-12)
        h = 1e-5
        x = np.array([-2.0, -0.3, 0.7, 1.9])
        fd = (ref.kfun(k, x + h) - ref.kfun(k, x - h)) / (2 * h)
        close(f"derivative of {k}", ref.kder(k, 1, x), fd, 1e-8)
    for k in KERNELS[::3]:
        for o1, o2 in [((0.0, 1.0), (2.0, 0.6)), ((0.0, 1.0), (0.2, 0.5)), ((0.0, 1.0), (0.9, 0.8))]:
            a, b = o1[0] - o1[1] / 2, o2[0] - o2[1] / 2
            num = dblquad(lambda v, u: ref.kfun(k, u - v), a, a + o1[1], b, b + o2[1],
                          epsabs=1e-8, epsrel=1e-8)[0] / (o1[1] * o2[1])
            close(f"average of {k} over {o1} {o2}", ref.cov_avg(k, o1, o2), num, 1e-6)
    # likelihood and posterior against the joint Gaussian of data and test points
    k = KERNELS[0]
    t, x, R, y = np.array([0.0, 0.5, 0.5, 2.0]), np.array([-1.0, 0.5, 3.0]), 0.2, np.array([0.4, -0.9, 1.2, 0.3])
    K = ref.kfun(k, t[:, None] - t)
    Ks = ref.kfun(k, x[:, None] - t)
    gp = ref.DenseGP(K, R)
    close("likelihood", gp.logp(y), multivariate_normal(np.zeros(4), K + R * np.eye(4)).logpdf(y), 1e-10)
    joint = np.block([[K + R * np.eye(4), Ks.T], [Ks, ref.kfun(k, x[:, None] - x)]])
    P = np.linalg.inv(joint)
    cov = np.linalg.inv(P[4:, 4:])
    mu, var = gp.post(Ks, ref.kfun(k, np.zeros(3)), y)
    close("posterior mean", mu, -cov @ P[4:, :4] @ y, 1e-8)
    close("posterior variance", var, np.diag(cov), 1e-8)


def automata():
    for grid, insts, n in [(3, 1, 2), (4, 2, 2), (4, 2, 3), (3, 3, 3), (5, 1, 3)]:
        iv = [(a, b) for a in range(grid) for b in range(a, grid)]
        exps = [(i, a, b) for i in range(insts) for a, b in iv]

        def allowed(e, f):  # one instrument: no shared interior, zero lengths not inside or repeated ends
            (i, a, b), (j, c, d) = e, f
            return i != j or b <= c or d <= a

        brute = {
            tuple(sorted(c)) for c in itertools.combinations_with_replacement(exps, n)
            if all(allowed(e, f) for e, f in itertools.combinations(c, 2))
        }
        got = set(models.timelines(grid, insts, n)[0])
        assert got == brute, (grid, insts, n, len(got), len(brute), sorted(got ^ brute)[:5])
    w, s, t = models.words(range(3), 4)
    assert len(set(w)) == 81 and s == 121 and t == 120


def judged():
    K, R = np.eye(2)[None] * 1.5, np.full((1, 2), 0.1)
    Y = models.y_basis(2, quad=True)
    exp = judge.expected(K, R, Y, what="lc")
    prior, ymax = judge.scales(K, R, Y)
    assert max(float(e.max()) for e in judge.errors(exp, exp, prior, ymax).values()) == 0.0
    for name in exp:
        bad = {k: np.array(v) for k, v in exp.items()}
        bad[name].flat[-1] += 1e-3 * (1 + abs(bad[name].flat[-1]))
        assert float(judge.errors(bad, exp, prior, ymax)[name].max()) > 1e-5, name
        bad[name].flat[0] = np.nan
        assert not float(judge.errors(bad, exp, prior, ymax)[name].max()) <= judge.TOL, name


def main():
    oracle()
    automata()
    judged()
    print("selftest passed")
