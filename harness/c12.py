import numpy as np
import common
import gen
from c13 import internal
from pf import view
from pypower.makeYbus import makeYbus
from pypower.bustypes import bustypes
from pypower.pfsoln import pfsoln


def run(ctx):
    rng = ctx.rng
    for k in range(ctx.n(260, 2500)):
        c = internal(ctx, gen.network(rng, multi=.9, npv=.6, shift=.4, islands=.15), k % 2)
        g = c['gen']
        s = c['baseMVA'] / 100
        for j in range(len(g)):
            z = rng.random()
            if z < .12:
                g[j, 3] = g[j, 4] = np.round(rng.uniform(-20, 20), 2) * s
            elif z < .2:
                g[j, 3] = np.inf
                if rng.random() < .6:
                    g[j, 4] = -np.inf
            elif z < .25:
                g[j, 4] = -np.inf
            elif z < .3:
                g[j, 3] = 9999.
                g[j, 4] = -9999.
        if rng.random() < .15:          # no range at all at some bus
            b = rng.choice(g[:, 0])
            at = g[:, 0] == b
            g[at, 3] = g[at, 4]
            g[at & np.isinf(g[:, 4]), 3:5] = 0
        if k % 2 == 0:
            # a fraction of the branches switched off after the fact
            off = rng.random(len(c['branch'])) < .2
            c['branch'][off, 10] = 0
        c['branch'] = np.c_[c['branch'], rng.uniform(-9, 9, (len(c['branch']), 4))]
        ref, pv, pq = bustypes(c['bus'], g)
        if rng.random() < .2 and len(pv):
            ref, pv = np.r_[ref, pv[:1]], pv[1:]
        n = len(c['bus'])
        V = rng.uniform(.9, 1.1, n) * np.exp(1j * rng.uniform(-.4, .4, n))
        Y, Yf, Yt = makeYbus(c['baseMVA'], c['bus'], c['branch'])
        w = {t: c[t].copy() for t in ('bus', 'gen', 'branch')}
        ok, v, err = common.attempt(pfsoln, c['baseMVA'], w['bus'], w['gen'], w['branch'], Y, Yf, Yt, V.copy(), ref, pv, pq)
        if not ok:
            ctx.log('raised', err=err, c=view(c))
            continue
        fin = g[np.isfinite(g[:, 3]) & np.isfinite(g[:, 4])]
        ctx.log('update', c=view(c), r={'bus': v[0], 'gen': v[1], 'branch': v[2]}, v=V, ref=ref,
                range=float(np.abs(fin[:, 3:5]).sum()) if len(fin) else 0)
    ctx.judge('PowerFlowTrace')
