import numpy as np
import common
import opfgen
import opfsol
from pf import view


def run(ctx):
    rng = ctx.rng
    tried = solved = 0
    for k in range(ctx.n(45, 500)):
        easy = k % 3 == 0
        kw = dict(rate=.3, tight=0, ang=.2) if easy else {}
        c = opfgen.case(rng, nb=int(rng.integers(2, 8)), islands=.15, **kw)
        if k % 2:
            c = opfsol.narrow(rng, c)
        u = opfsol.user_data(rng, c, False) if k % 5 == 4 else opfsol.NOUSER
        kind = int(rng.choice([0, 0, 1, 2]))
        alg = int(rng.choice([0, 560, 565]))
        ign = bool(rng.random() < .15)
        if k % 15 == 14:
            opfsol.refused(ctx, opfsol.impossible(rng, c), False)
            continue
        ok, r, err = opfsol.solve(c, u, OPF_FLOW_LIM=kind, OPF_ALG=alg, OPF_IGNORE_ANG_LIM=int(ign))
        if not ok:
            ctx.log('raised', what='opf', err=err, c=view(c, True), u=u)
            continue
        if easy and u is opfsol.NOUSER and alg != 565:
            tried += 1
            solved += bool(r['success'])
        ctx.count('solved' if r['success'] else 'not solved')
        if r['success']:
            opfsol.record(ctx, 'feasible', c, u, r, kind=kind, ignore=ign)
    ctx.log('rate', tried=tried, solved=solved, percent=75)
    ctx.judge('OpfSolutionTrace')
