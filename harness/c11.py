import numpy as np
import common
from pypower.bustypes import bustypes
from pypower.ext2int import ext2int


def one(ctx, c):
    i = ext2int(c)
    if not len(i['gen']):
        return
    d0 = common.digest(i)
    ok, v, err = common.attempt(bustypes, i['bus'], i['gen'])
    ref, pv, pq = v if ok else ([], [], [])
    ctx.log('roles', c={k: c[k] for k in ('bus', 'gen', 'branch')}, ok=ok, err=err, ref=ref, pv=pv, pq=pq,
            untouched=common.digest(i) == d0)


def case(busno, t, g):
    bus = np.zeros((len(t), 13))
    bus[:, 0] = busno
    bus[:, 1] = t
    gen = np.zeros((len(g), 21))
    gen[:, 0] = [x[0] for x in g]
    gen[:, 7] = [x[1] for x in g]
    br = np.zeros((1, 13))
    br[0, :2] = busno[0], busno[-1]
    br[0, 10] = 1
    return {'version': '2', 'baseMVA': 100., 'bus': bus, 'gen': gen, 'branch': br}


def run(ctx):
    sc = ctx.check_design('RolesMC', 'RolesMC.cfg', workers=8)
    if ctx.thorough:
        ctx.check_design('RolesMC', 'RolesMCdeep.cfg', workers=8)
    sc.sort(key=str)
    pick = ctx.rng.permutation(len(sc))[:ctx.n(5000, len(sc))]
    ctx.count('structures from the model', len(pick))
    with common.silence():
        for k in pick:
            if any(t != 4 for t in sc[k]['t']):
                one(ctx, case([8, 3, 10], sc[k]['t'], sc[k]['g']))
        for _ in range(ctx.n(600, 6000)):
            n = int(ctx.rng.integers(2, 12))
            no = ctx.rng.choice(np.arange(1, 90), n, replace=False)
            t = ctx.rng.choice([1, 2, 3, 4], n, p=[.4, .35, .1, .15])
            if (t == 4).all():
                continue
            one(ctx, case(no, t, [(ctx.rng.choice(no), int(ctx.rng.random() < .6) * ctx.rng.choice([1, 1, 2]))
                                  for _ in range(int(ctx.rng.integers(1, 10)))]))
    ctx.judge('PowerFlowTrace')
