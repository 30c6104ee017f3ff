import numpy as np
from scipy.sparse import csr_matrix

import common
from optmodel import histories, play, random_history, val, add, fill
from pypower.opf_costfcn import opf_costfcn
from pypower.opf_model import opf_model
from pypower.totcost import totcost


def objective(ctx):
    """the objective callback of the AC problem with user costs over all of its variables"""
    rng = ctx.rng
    nb, ng = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    sizes = [('Va', nb), ('Vm', nb), ('Pg', ng), ('Qg', ng)] + ([('z', 2)] if rng.random() < .5 else [])
    c2 = val(rng, (ng, 3))
    gencost = np.c_[np.full(ng, 2.), np.zeros((ng, 2)), np.full(ng, 3.), c2]
    om = opf_model({'baseMVA': 100., 'gen': np.zeros((ng, 21)), 'gencost': gencost})
    steps = [{'op': 'var', 'b': {'name': n, 'n': k, 'v0': [], 'vl': [], 'vu': []}} for n, k in sizes]
    names = [n for n, _ in sizes]
    for s in steps:
        add(rng, om, s)
    for k in range(int(rng.integers(1, 3))):
        vs = [str(x) for x in rng.permutation(names)[:rng.integers(1, len(names) + 1)]]
        n = int(rng.integers(1, 4))
        nv = sum(dict(sizes)[v] for v in vs)
        H = val(rng, (n, n))
        s = {'op': 'cost', 'b': {'name': 'u%d' % k, 'n': n, 'N': val(rng, (n, nv)) * (rng.random() > .1), 'Cw': val(rng, n), 'H': H + H.T,
                                 'dd': rng.choice([1., 2.], n), 'rh': val(rng, n), 'kk': rng.integers(0, 4, n).astype(float),
                                 'mm': val(rng, n), 'vs': vs}}
        add(rng, om, s)
        steps.append(s)
    om.build_cost_params()
    if rng.random() < .5:
        om.compute_cost(val(rng, om.getN('var')), 'u0')
    x = val(rng, om.getN('var'), False)
    f = opf_costfcn(x, om)[0]
    p = x[2 * nb:2 * nb + ng] * 100
    ctx.log('objective', steps=steps, x=x, f=f, gencost=sum(c2[k, 0] * p[k]**2 + c2[k, 1] * p[k] + c2[k, 2] for k in range(ng)))


def run(ctx):
    rng = ctx.rng
    for h in histories(ctx, 500, 8000, lambda h: any(o['op'] == 'cost' for o in h)):
        play(ctx, h, False, True)
    for _ in range(ctx.n(400, 4000)):
        play(ctx, random_history(rng, int(rng.integers(3, 9)), 4), False, True)
    for _ in range(ctx.n(150, 1000)):
        ok, _, err = common.attempt(objective, ctx)
        if not ok:
            ctx.log('raised', err=err)
    ctx.judge('OptModelTrace')
