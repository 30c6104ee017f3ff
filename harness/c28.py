import numpy as np

import common
from c27 import table
from pypower.modcost import modcost
from pypower.poly2pwl import poly2pwl


def run(ctx):
    rng = ctx.rng
    for k in range(ctx.n(500, 5000)):
        g = table(rng, int(rng.integers(1, 6)), str(rng.choice(['mix', 'poly', 'pwl'])))
        kind = str(rng.choice(['SCALE_F', 'SCALE_X', 'SHIFT_F', 'SHIFT_X']))
        a = round(float(rng.uniform(.2, 3)), 3)
        if kind[:5] == 'SHIFT' or (kind == 'SCALE_F' and rng.random() < .5):
            a = round(float(rng.uniform(-50, 50)), 3)
        if rng.random() < .2:
            a = float(rng.choice([1., 2.]))
        if kind == 'SCALE_F' and rng.random() < .1:
            a = 0.
        x = np.round(rng.uniform(-90, 140, 5), 2)
        args = (g, a) if kind == 'SCALE_F' and rng.random() < .5 else (g, a, kind)
        d0 = common.digest(g)
        ok, v, err = common.attempt(modcost, *args)
        if ok:
            ctx.log('modcost', g=g, r=v, a=a, type=kind, x=x, untouched=common.digest(g) == d0)
        else:
            ctx.log('raised', what='modcost ' + kind, err=err, g=g, a=a)
    for k in range(ctx.n(250, 2500)):
        n = int(rng.integers(1, 5))
        g = table(rng, n, 'poly')
        lo = rng.choice([0., -20., 10., 5.5, -60.], n)
        hi = np.maximum(lo, 0) + np.round(rng.uniform(10, 90, n), 1)
        neg = (lo == -60) & (rng.random(n) < .7)
        hi[neg] = -rng.choice([0., 10.], neg.sum())
        npts = int(rng.integers(3, 9))
        d0 = common.digest([g, lo, hi])
        ok, v, err = common.attempt(poly2pwl, g, lo, hi, npts)
        if ok:
            ctx.log('poly2pwl', g=g, r=v, lo=lo, hi=hi, n=npts, untouched=common.digest([g, lo, hi]) == d0)
        else:
            ctx.log('raised', what='poly2pwl', err=err, g=g, lo=lo, hi=hi, n=npts)
    ctx.judge('CostTrace')
