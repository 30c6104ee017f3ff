"""Random OPF cases: a network with limits, costs, dispatchable loads, capability curves, user data."""
import numpy as np
from scipy.sparse import csr_matrix

import gen
from gen import rnd


def costs(rng, c, kind='mix', q=None, maxdeg=2, npt=None):
    """convex costs: rows for P and (if q) for Q of every unit"""
    rows = []
    s = 100. / c['baseMVA']
    for g in c['gen']:
        k = rng.choice(['poly', 'pwl']) if kind == 'mix' else kind
        lo, hi = min(g[9], 0.), max(g[8], 1.)
        rows.append(_row(rng, k, lo, hi, s, maxdeg, npt))
    if q is None:
        q = rng.random() < .3
    if q:
        for g in c['gen']:
            k = rng.choice(['poly', 'pwl']) if kind == 'mix' else kind
            if k == 'poly':
                rows.append([2, 0, 0, 3, rnd(rng, .001, .02) * s, rnd(rng, -.5, .5), rnd(rng, 0, 5)])
            else:
                lo, hi = min(g[4], -1), max(g[3], 1)
                rows.append(list(_pwlq(rng, lo, hi)))
    return gen.stack([np.array(r, float) for r in rows])


def _row(rng, k, lo, hi, s, maxdeg, npt):
    if k == 'poly':
        d = int(rng.integers(1, maxdeg + 1))
        co = [rnd(rng, .01, .08) * s] if d >= 2 else []
        if d == 3:
            co = [rnd(rng, .0001, .0005) * s * s] + co
        return [2, rnd(rng, 0, 300, d=1), rnd(rng, 0, 300, d=1), len(co) + 2] + co + [rnd(rng, 5, 45, d=3), rnd(rng, 0, 100, d=2)]
    return list(gen.pwlcost(rng, lo, hi, npt))


def _pwlq(rng, lo, hi):
    x = np.array([lo, (lo + hi) / 3, hi])
    sl = np.sort(rnd(rng, -1, 1, 2, d=3)) + [0, .1]
    y0 = rnd(rng, 0, 5, d=2)
    y = np.round([y0, y0 + sl[0] * (x[1] - x[0]), y0 + sl[0] * (x[1] - x[0]) + sl[1] * (x[2] - x[1])], 6)
    return np.array([1, 0, 0, 3, x[0], y[0], x[1], y[1], x[2], y[2]])


def case(rng, cost='mix', q=None, rate=.5, tight=.2, ang=.3, disp=.3, cap=.2, maxdeg=2, npt=None, dc=False, **kw):
    c = gen.network(rng, **dict(dict(chg=.5, rzero=.1, shift=.2, tap=.3), **kw))
    s = c['baseMVA'] / 100.
    g, br, bus = c['gen'], c['branch'], c['bus']
    n = len(g)
    bus[:, 11], bus[:, 12] = 1.1, .9
    lo = rng.random(n)
    g[:, 9] = np.where(lo < .4, 0, np.where(lo < .7, rnd(rng, .5, 5, n) * s, 0))
    g[:, 8] = np.round(np.maximum(g[:, 8], g[:, 9] + 10 * s), 4)
    g[:, 3] = rnd(rng, 20, 60, n) * s
    g[:, 4] = -rnd(rng, 20, 60, n) * s
    if rng.random() < rate * 1.4:
        lim = rng.random(len(br)) < rate
        br[lim, 5] = np.where(rng.random(lim.sum()) < tight, rnd(rng, 8, 25, lim.sum()), rnd(rng, 40, 120, lim.sum())) * s
        if rng.random() < .2:
            br[rng.integers(0, len(br)), 5] = 1e10
    if rng.random() < ang:
        for b in br:
            r = rng.random()
            if r < .4:
                b[11], b[12] = -rnd(rng, 5, 30, d=1), rnd(rng, 5, 30, d=1)
            elif r < .5:
                b[11], b[12] = 0, rnd(rng, 5, 20, d=1)
            elif r < .6:
                b[11], b[12] = -rnd(rng, 5, 20, d=1), 360
            elif r < .7:
                b[11] = b[12] = 0
    if rng.random() < disp:
        live = np.flatnonzero(bus[:, 1] != 4)
        for _ in range(int(rng.integers(1, 3))):
            row = np.zeros(21)
            row[0] = bus[rng.choice(live), 0]
            p = rnd(rng, 2, 15) * s
            row[1] = row[9] = -p
            q = np.round(p * rnd(rng, .1, .5), 4)
            r = rng.random()
            if r < .4:
                row[4], row[3], row[2] = -q, 0, -q      # inductive
            elif r < .7:
                row[4], row[3], row[2] = 0, q, q        # capacitive
            row[5], row[6], row[7] = 1., c['baseMVA'], int(rng.random() < .85)
            g = np.vstack([g, row])
        g = g[rng.permutation(len(g))]
    if rng.random() < cap:
        for r in g:
            if r[9] >= 0 and r[8] > 0 and rng.random() < .6:
                # PC1 PC2 QC1MIN QC1MAX QC2MIN QC2MAX
                r[10], r[11] = np.round([r[8] * .1, r[8] * .9], 3)
                r[12], r[13] = r[4], r[3]
                r[14], r[15] = np.round([r[4] * rng.choice([.3, 1., .6]), r[3] * rng.choice([.4, 1., .7])], 3)
                r[14], r[15] = max(r[14], r[12]), min(r[15], r[13])
    c['gen'] = g
    c['gencost'] = costs(rng, c, cost, q, maxdeg, npt)
    # a load must pay for what it takes: keep its cost increasing and valuable
    return c


def user_costs(rng, n, nz=0, rows=None, convex=True):
    """general costs over n + nz variables"""
    m = int(rng.integers(1, 4)) if rows is None else rows
    N = np.round(rng.normal(size=(m, n + nz)) * (rng.random((m, n + nz)) < .4), 2)
    H = np.round(rng.normal(size=(m, m)), 2)
    H = H.dot(H.T) if convex else H + H.T
    fp = np.c_[rng.choice([1., 2.], m), np.round(rng.normal(size=m), 2), rng.choice([0., .2, .5], m), np.round(rng.uniform(.5, 3, m), 2)]
    return {'N': csr_matrix(N), 'H': csr_matrix(H), 'Cw': np.round(rng.normal(size=m) * 10, 2), 'fparm': fp}
