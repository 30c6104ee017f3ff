import numpy as np
import common
import gen
from pf import view
from pypower.ext2int import ext2int
from pypower.makeYbus import makeYbus
from pypower.makeSbus import makeSbus
from pypower.makeB import makeB
from pypower.makeBdc import makeBdc


def internal(ctx, c, keep_off):
    """internal form; keep_off: with out-of-service equipment left in (the routines take its status into account)"""
    if not keep_off:
        with common.silence():
            i = ext2int(c)
        return {k: i[k] for k in ('baseMVA', 'bus', 'gen', 'branch')}
    n = len(c['bus'])
    pos = {int(b): k for k, b in enumerate(c['bus'][:, 0])}
    i = {'baseMVA': c['baseMVA'], 'bus': c['bus'].copy(), 'gen': c['gen'].copy(), 'branch': c['branch'].copy()}
    i['bus'][:, 0] = np.arange(n)
    i['bus'][i['bus'][:, 1] == 4, 1] = 1
    for t, cols in (('gen', [0]), ('branch', [0, 1])):
        for col in cols:
            i[t][:, col] = [pos[int(x)] for x in i[t][:, col]]
    return i


def run(ctx):
    for k in range(ctx.n(160, 1500)):
        c = internal(ctx, gen.network(ctx.rng, shift=.5, tap=.5, islands=.1), k % 2)
        b, bus, g, br = c['baseMVA'], c['bus'], c['gen'], c['branch']
        d0 = common.digest(c)

        def mats():
            Y, Yf, Yt = makeYbus(b, bus, br)
            Bp2, Bpp2 = makeB(b, bus, br, 2)
            Bp3, Bpp3 = makeB(b, bus, br, 3)
            B, Bf, Pb, Pf = makeBdc(b, bus, br)
            return dict(Ybus=Y, Yf=Yf, Yt=Yt, Sbus=makeSbus(b, bus, g), Bp2=Bp2, Bpp2=Bpp2, Bp3=Bp3, Bpp3=Bpp3,
                        Bbus=B, Bf=Bf, Pbusinj=np.asarray(Pb).ravel(), Pfinj=np.asarray(Pf).ravel())
        ok, v, err = common.attempt(mats)
        if ok:
            ctx.log('mats', c=view(c), untouched=common.digest(c) == d0, **v)
        else:
            ctx.log('raised', err=err, c=view(c))
    ctx.judge('MatricesTrace')
