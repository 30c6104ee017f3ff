import numpy as np
import opfgen
import opfsol
from pf import view


def brief(r):
    return {'success': bool(r['success']), 'f': r['f'], 'pg': r['gen'][:, 1], 'z': r['var']['val'].get('z', [])}


def run(ctx):
    rng = ctx.rng
    for k in range(ctx.n(60, 600)):
        dc = bool(k % 2)
        c = opfgen.case(rng, nb=int(rng.integers(2, 7)), rate=.3, tight=.1, ang=.2, outage=.4, iso=.7, disp=.3, cap=.1, islands=.12,
                        cost='poly', q=False if k % 4 < 2 else None)
        w = c['gencost'].shape[1]
        if w < 7:
            c['gencost'] = np.c_[c['gencost'], np.zeros((len(c['gencost']), 7 - w))]
        for r in c['gencost'][:len(c['gen'])]:        # strictly convex: one solution
            r[3:7] = 3, np.round(rng.uniform(.02, .08), 4) * 100 / c['baseMVA'], np.round(rng.uniform(5, 45), 2), 0
        while True:
            u = opfsol.user_data(rng, c, dc)
            if len(u['A']) or len(u['N']):
                break
        ok, r, err = opfsol.solve(c, u, PF_DC=int(dc))
        if not ok:
            ctx.log('raised', what='opf', err=err, c=view(c, True), u=u)
            continue
        ctx.count('%s %s' % ('dc' if dc else 'ac', 'solved' if r['success'] else 'not solved'))
        if r['success']:
            opfsol.record(ctx, 'dc' if dc else 'feasible', c, u, r, dc=dc)
            if not dc and k % 6 == 0:
                opfsol.record(ctx, 'prices', c, u, r)
        d, v, at = opfsol.relisted(rng, c, u, dc)
        ok, r2, err = opfsol.solve(d, v, PF_DC=int(dc))
        if not ok:
            ctx.log('raised', what='opf', err=err, c=view(d, True), u=v)
            continue
        ctx.log('twins', c=view(c, True), u=u, a=brief(r), b=brief(r2), at=at, tol=1e-5, near=1e-2)
    ctx.judge('OpfSolutionTrace')
