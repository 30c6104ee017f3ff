"""Random nonlinear and quadratic programs (C37, C38)."""
import numpy as np
from scipy.sparse import csr_matrix

INF = np.inf


def limits(rng, kinds, v, big=.15, narrow=0.):
    """limits of the given kinds with v strictly inside (fixed: at v)"""
    n = len(v)
    l, u = np.full(n, -INF), np.full(n, INF)
    for k, t in enumerate(kinds):
        if t == 'fixed':
            l[k] = u[k] = v[k]
        if t in ('lower', 'box'):
            l[k] = v[k] - np.round(rng.uniform(.1, 3), 3)
        if t in ('upper', 'box'):
            u[k] = v[k] + np.round(rng.uniform(.1, 3), 3)
        if t in ('free', 'upper') and rng.random() < big:
            l[k] = -1e10
        if t in ('free', 'lower') and rng.random() < big:
            u[k] = 1e10
        if t == 'box' and rng.random() < narrow:
            w = 10.**-rng.uniform(2.5, 5.5)
            l[k], u[k] = v[k] - w, v[k] + w
    return l, u


def psd(rng, n, rank=None):
    r = n if rank is None else rank
    m = np.round(rng.normal(size=(n, r)), 2)
    return np.round(m.dot(m.T), 4) + (np.eye(n) * .5 if rank is None else 0)


def quad(rng, n, v, convex=None, slack=0.):
    """x'Gx/2 + a'x + r with value -slack at v"""
    G = psd(rng, n, 1) if convex else np.zeros((n, n)) if convex is None else psd(rng, n, 1) - psd(rng, n, 1)
    a = np.round(rng.normal(size=n), 2)
    r = -slack - .5 * v.dot(G).dot(v) - a.dot(v)
    return {'G': G, 'a': a, 'r': r}


def qval(q, x):
    return .5 * x.dot(q['G']).dot(x) + q['a'].dot(x) + q['r']


def qgrad(q, x):
    return q['G'].dot(x) + q['a']
