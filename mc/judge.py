"""Comparison of implementation outputs with the dense reference, for batches of data sets."""
from __future__ import annotations

import numpy as np

from mc import ref

TOL = 1e-7


def expected(Kmat, R, Y, Ks=None, kss=None, what="l"):
    """Kmat (B,N,N), R (B,N), Y (nY,N), Ks (B,M,N), kss (M,) or (B,M) -> dict of arrays"""
    B, N, _ = Kmat.shape
    C = Kmat + np.einsum("bi,ij->bij", R, np.eye(N))
    L = np.linalg.cholesky(C)
    Li = np.linalg.inv(L)
    W = np.einsum("bij,yj->byi", Li, Y)  # whitened data
    out = {}
    if "l" in what or "c" in what:
        lp = (
            -0.5 * np.sum(W * W, axis=2)
            - np.sum(np.log(np.diagonal(L, axis1=1, axis2=2)), axis=1)[:, None]
            - 0.5 * N * np.log(2 * np.pi)
        )
        if "l" in what:
            out["logp"] = lp
        if "c" in what:
            out["clogp"] = lp
    if "c" in what:
        V = np.einsum("bij,bjk->bik", Li, Kmat)
        out["loc"] = np.einsum("byi,bik->byk", W, V)
        var = np.diagonal(Kmat, axis1=1, axis2=2) - np.sum(V * V, axis=1)
        out["var"] = np.broadcast_to(var[:, None, :], (B, len(Y), N))
    if "p" in what:
        V = np.einsum("bij,bmj->bim", Li, Ks)
        out["pmu"] = np.einsum("byi,bim->bym", W, V)
        kss = np.broadcast_to(kss, Ks.shape[:2])
        var = kss - np.sum(V * V, axis=1)
        out["pvar"] = np.broadcast_to(var[:, None, :], (B, len(Y), Ks.shape[1]))
    return out


def scales(Kmat, R, Y, kss=None):
    """Natural size of each observable, so that errors are relative"""
    prior = np.max(np.diagonal(Kmat, axis1=1, axis2=2), axis=1)  # (B,)
    if kss is not None:
        prior = np.maximum(prior, np.max(np.atleast_1d(kss)))
    ymax = np.maximum(np.max(np.abs(Y), axis=1), 1e-300)  # (nY,)
    return prior, ymax


def errors(got, exp, prior, ymax):
    """dict name -> (B,nY[,..]) array of relative errors (inf where not finite)"""
    errs = {}
    for name, e in exp.items():
        g = np.asarray(got[name], float)
        if g.shape != e.shape:
            raise ShapeError(f"{name}: shape {g.shape}, expected {e.shape}")
        if name in ("logp", "clogp"):
            sc = 1.0 + np.abs(e)
        elif name in ("loc", "pmu"):
            sc = np.broadcast_to(ymax[None, :, None], e.shape)
        else:
            sc = np.broadcast_to(prior[:, None, None], e.shape)
        with np.errstate(all="ignore"):
            d = np.abs(g - e) / sc
        errs[name] = np.where(np.isfinite(d), d, np.inf)
    return errs


class ShapeError(Exception):
    pass


def outcome_hashes(got, cap=2000):
    """distinct observed answers, rounded: shows that the cases do not collapse"""
    out = set()
    for name in ("logp", "loc", "pmu"):
        if name in got:
            a = np.asarray(got[name])
            a = a.reshape(a.shape[0], -1)[:cap]
            for row in a:
                out.add(hash((name, tuple(np.round(row[:24], 6)))))
    return out
