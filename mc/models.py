"""The finite models whose behaviours are enumerated and replayed on the implementation."""
from __future__ import annotations

import collections
import functools
import itertools

import numpy as np


# ------------------------------------------------------------- exposure timelines
@functools.lru_cache(maxsize=None)
def timelines(grid, insts, nobs):
    """Breadth-first search of the exposure automaton.

    A state is (grid point g, phase, open exposure per instrument, finished observations).
    Events at one grid point, in this canonical order: end(i) closes i's open exposure;
    zero(i) takes a zero-length exposure with an idle instrument; start(i) opens one;
    tick moves to the next grid point.  No instrument has two exposures open at once.
    Complete behaviours (nobs finished, none open) are returned as sorted tuples of
    (instrument, start, end).  Also returns the numbers of states and transitions.
    """
    init = (0, 0, (None,) * insts, ())
    seen = {init}
    q = collections.deque([init])
    ntrans = 0
    done = set()
    # phases: 0..I-1 end(i) | I..2I-1 zero(i) | 2I..3I-1 start(i) | 3I tick
    while q:
        g, ph, opened, obs = q.popleft()
        nopen = sum(o is not None for o in opened)
        if len(obs) == nobs and nopen == 0:
            done.add(tuple(sorted(obs)))
            continue
        succ = []
        for p in range(ph, 3 * insts):
            i = p % insts
            if p < insts:  # end(i)
                if opened[i] is not None and opened[i] < g:
                    succ.append(
                        (g, p + 1, opened[:i] + (None,) + opened[i + 1 :],
                         tuple(sorted(obs + ((i, opened[i], g),))))
                    )
            elif p < 2 * insts:  # zero(i), may repeat
                if opened[i] is None and len(obs) + nopen < nobs:
                    succ.append((g, p, opened, tuple(sorted(obs + ((i, g, g),)))))
            else:
                if opened[i] is None and len(obs) + nopen < nobs and g + 1 < grid:
                    succ.append((g, p + 1, opened[:i] + (g,) + opened[i + 1 :], obs))
        if g + 1 < grid:
            succ.append((g + 1, 0, opened, obs))
        for s in succ:
            ntrans += 1
            if s not in seen:
                seen.add(s)
                q.append(s)
    return sorted(done), len(seen), ntrans


def row_orders(n, full=True):
    if full:
        return list(itertools.permutations(range(n)))
    ids = list(range(n))
    return [tuple(ids), tuple(ids[::-1]), tuple(ids[1::2] + ids[::2])]


# ------------------------------------------------------------- point-data time lines
def words(alphabet, length):
    """All words over `alphabet`: leaves of a tree with (states, transitions)"""
    n = len(alphabet)
    states = sum(n**k for k in range(length + 1))
    trans = sum(n**k for k in range(1, length + 1))
    return list(itertools.product(range(n), repeat=length)), states, trans


def times_from_words(ws, gaps, t0=0.0):
    g = np.asarray(gaps, float)
    ws = np.asarray(ws, int).reshape(len(ws), -1)
    t = np.concatenate([np.zeros((len(ws), 1)), np.cumsum(g[ws], axis=1)], axis=1)
    return t0 + t


def y_basis(n, quad=False, big=1e4):
    """Data vectors that decide a linear (quad=False) or quadratic (quad=True) map of y,
    plus a generic and a large one."""
    I = np.eye(n)
    Y = [np.zeros(n)] + [I[i] for i in range(n)]
    if quad:
        Y += [I[i] + I[j] for i in range(n) for j in range(i)]
    gen = np.array([((i * 37 + 11) % 17 - 8) / 5.0 for i in range(n)])
    Y += [gen, big * gen]
    return np.array(Y)
