import numpy as np

import common
from pypower.totcost import totcost
from pypower.polycost import polycost
from pypower.pqcost import pqcost


def table(rng, n, kind='mix', pad=True, maxpts=6, maxdeg=5, convex=False):
    """rows of costs; kind: mix, poly, pwl"""
    rows = []
    for _ in range(n):
        if kind == 'poly' or (kind == 'mix' and rng.random() < .5):
            m = int(rng.integers(1, maxdeg + 1))
            co = [round(float(rng.normal()) * 10. ** (2 - m + j), 4 if j > m - 3 else 6) for j in range(m)]
            rows.append([2, float(rng.integers(0, 9)), float(rng.integers(0, 9)), m] + co)
        else:
            m = int(rng.integers(2, maxpts + 1))
            x = np.sort(rng.choice(np.arange(-60, 100), m, replace=False)).astype(float)
            if rng.random() < .5:
                x = x + np.round(rng.random(m) * .4, 3)
            y = np.round(rng.normal(size=m) * 500, 2)
            rows.append([1, float(rng.integers(0, 9)), 0., m] + [v for p in zip(x, y) for v in p])
    w = max(len(r) for r in rows) + (int(rng.integers(0, 4)) if pad else 0)
    return np.array([r + [0.] * (w - len(r)) for r in rows])


def points(rng, g, frac=.4):
    """one point per row, often exactly a breakpoint, sometimes outside"""
    x = np.round(rng.uniform(-90, 140, len(g)), 3)
    for k in range(len(g)):
        if g[k, 0] == 1 and rng.random() < frac:
            x[k] = g[k, 4 + 2 * rng.integers(0, int(g[k, 3]))]
        elif rng.random() < .1:
            x[k] = 0
    return x


def run(ctx):
    rng = ctx.rng
    for k in range(ctx.n(500, 6000)):
        n = int(rng.integers(1, 7))
        g = table(rng, n, str(rng.choice(['mix', 'mix', 'poly', 'pwl'])))
        if rng.random() < .1:
            g = np.floor(g).astype(int) if (g[:, 0] == 2).all() else g
        x = points(rng, g)
        d0 = common.digest([g, x])
        ok, v, err = common.attempt(totcost, g, x)
        if ok:
            ctx.log('totcost', g=g, x=x, v=v, untouched=common.digest([g, x]) == d0)
        else:
            ctx.log('raised', what='totcost', err=err, g=g, x=x)
        if k % 4 == 0:
            X = np.array([points(rng, g) for _ in range(int(rng.integers(1, 4)))]).T
            ok, v, err = common.attempt(totcost, g, X)
            if ok:
                ctx.log('totmat', g=g, x=X, v=v, untouched=True)
            else:
                ctx.log('raised', what='totcost of a matrix', err=err, g=g, x=X)
    for k in range(ctx.n(400, 4000)):
        g = table(rng, int(rng.integers(1, 6)), 'poly')
        x = points(rng, g)
        for d in (0, 1, 2):
            d0 = common.digest([g, x])
            ok, v, err = common.attempt(polycost, g, x, d)
            if ok:
                ctx.log('polycost', g=g, x=x, d=d, v=v, untouched=common.digest([g, x]) == d0)
            else:
                ctx.log('raised', what='polycost', err=err, g=g, x=x, d=d)
    for k in range(ctx.n(200, 1000)):
        ng = int(rng.integers(1, 5))
        g = table(rng, int(rng.choice([ng, 2 * ng, 2 * ng, ng + 1, 2 * ng + 1, max(1, ng - 1)])))
        on = np.arange(ng) if rng.random() < .5 else np.flatnonzero(rng.random(ng) < .6)
        ok, v, err = common.attempt(pqcost, g, ng) if len(on) == ng and rng.random() < .5 else common.attempt(pqcost, g, ng, on)
        ctx.log('pqcost', g=g, ng=ng, on=on, ok=ok, p=v[0] if ok else [], q=v[1] if ok else [])
    ctx.judge('CostTrace')
