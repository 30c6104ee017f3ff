import numpy as np
import opfgen
import opfsol
from pf import view


def run(ctx):
    rng = ctx.rng
    tried = solved = 0
    for k in range(ctx.n(150, 1000)):
        easy = k % 3 == 0
        kw = dict(rate=.3, tight=0, ang=.2) if easy else dict(rate=.7, tight=.4, disp=.4)
        c = opfgen.case(rng, nb=int(rng.integers(2, 9)), islands=.12, **kw)
        if rng.random() < .2:      # a constant cost
            g = c['gencost']
            j = int(rng.integers(0, len(g)))
            if g[j, 0] == 2:
                g[j, 3:] = 0
                g[j, 3], g[j, 4] = 1, np.round(rng.uniform(1, 50), 2)
        if k % 3 and k % 4:
            opfsol.press(rng, c)
        if k % 2:
            c = opfsol.narrow(rng, c)
        u = opfsol.user_data(rng, c, True) if k % 4 == 3 else opfsol.NOUSER
        ign = bool(rng.random() < .15)
        if k % 12 == 11:
            opfsol.refused(ctx, opfsol.impossible(rng, c), True)
            continue
        if k % 12 == 5 and (c['gencost'][:, 0] == 2).any():     # costs beyond quadratic, which this solver cannot express
            g = c['gencost'] = np.c_[c['gencost'], np.zeros((len(c['gencost']), 4))]
            j = int(rng.choice(np.flatnonzero(g[:, 0] == 2)))
            g[j, 4:] = 0
            g[j, 3] = n = int(rng.integers(4, 6))
            g[j, 4:4 + n] = rng.uniform(.001, .1, n).round(3)
            if c['gen'][j % len(c['gen']), 7] > 0 and j < len(c['gen']) and c['bus'][c['bus'][:, 0] == c['gen'][j, 0], 1][0] != 4:
                ok, _, err = opfsol.solve(c, u, PF_DC=1)
                ctx.log('higher', rejected=not ok and err.startswith('ValueError'))
                ctx.count('higher costs')
            continue
        ok, r, err = opfsol.solve(c, u, PF_DC=1, OPF_ALG_DC=int(rng.choice([0, 200, 250])), OPF_IGNORE_ANG_LIM=int(ign))
        if not ok:
            ctx.log('raised', what='opf', err=err, c=view(c, True), u=u)
            continue
        if easy and u is opfsol.NOUSER:
            tried += 1
            solved += bool(r['success'])
        ctx.count('solved' if r['success'] else 'not solved')
        if r['success']:
            opfsol.record(ctx, 'dc', c, u, r, dc=True, ignore=ign)
    ctx.log('rate', tried=tried, solved=solved, percent=75)
    ctx.judge('OpfSolutionTrace')
