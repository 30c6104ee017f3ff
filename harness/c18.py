import numpy as np
import opfgen
import opfsol
from pf import view


def run(ctx):
    rng = ctx.rng
    for k in range(ctx.n(90, 600)):
        c = opfgen.case(rng, nb=int(rng.integers(2, 6)), rate=.6, tight=.4, cap=.5, disp=.4, iso=.3, islands=.15)
        if k % 3:
            opfsol.press(rng, c)
        if k % 2:
            c = opfsol.narrow(rng, c)
        u = opfsol.user_data(rng, c, False) if k % 4 == 3 else opfsol.NOUSER
        kind = int(rng.choice([0, 0, 1, 2]))
        ign = bool(rng.random() < .15)
        ok, r, err = opfsol.solve(c, u, OPF_FLOW_LIM=kind, OPF_ALG=int(rng.choice([0, 560, 565])), OPF_IGNORE_ANG_LIM=int(ign))
        if not ok:
            ctx.log('raised', what='opf', err=err, c=view(c, True), u=u)
            continue
        ctx.count('solved' if r['success'] else 'not solved')
        if r['success']:
            opfsol.record(ctx, 'prices', c, u, r, kind=kind, ignore=ign)
    ctx.judge('OpfSolutionTrace')
