import numpy as np
import common
from pypower.ppoption import ppoption


def name(v):
    if isinstance(v, (bool, int, float, np.number)):
        return repr(float(v))
    return 's:%s' % (v,)


def value(rng, s, like):
    if s.startswith('s:'):
        return s[2:]
    x = float(s)
    if x in (0., 1.) and isinstance(like, bool):
        return bool(x)
    return int(x) if x == x and abs(x) < 1e9 and x == int(x) else x


def view(o):
    return {k: name(v) for k, v in o.items()}


def replay(ctx, rng, steps, like):
    vs, obs = [], []
    for a in steps:
        kw = {n: value(rng, s, like.get(n)) for n, s in a['kw']}
        if a['op'] == 'new':
            how = rng.integers(0, 2)
            ok, v, err = common.attempt(ppoption, **kw) if how else common.attempt(ppoption, None, **kw)
        elif a['op'] == 'from':
            ok, v, err = common.attempt(ppoption, vs[a['i'] - 1], **kw)
        else:
            ok, err = True, ''
            vs[a['i'] - 1].update(kw)
            v = None
        if not ok:
            ctx.log('raised', err=err)
            return
        if v is not None:
            vs.append(v)
        obs.append([view(x) for x in vs])
    ctx.log('history', steps=steps, obs=obs)


def run(ctx):
    if ctx.thorough:
        ctx.check_design('OptionsMC', 'OptionsMCdeep.cfg', workers=8)
    hs = ctx.check_design('OptionsMC', 'OptionsMC.cfg', workers=4)
    ctx.count('histories generated by TLC', len(hs))
    rng = ctx.rng
    ok, like, err = common.attempt(ppoption)
    if not ok:
        ctx.log('raised', err=err)
        like = {}
    for h in hs:
        replay(ctx, rng, h, like)
    names = sorted(like)
    for _ in range(ctx.n(60, 800)):
        steps, n = [], 0
        for _ in range(int(rng.integers(2, 9))):
            op = 'new' if n == 0 or rng.random() < .25 else str(rng.choice(['from', 'from', 'set']))
            kw = []
            for k in rng.choice(names, size=int(rng.integers(0, 5)), replace=False) if names else []:
                s = name(like[k])
                kw.append([str(k), 's:%d' % rng.integers(0, 99) if s.startswith('s:') else repr(float(rng.choice([0, 1, 2, 3, .5, 1e-3, 1e-9])))])
            steps.append({'op': op, 'i': 0 if op == 'new' else int(rng.integers(1, n + 1)), 'kw': kw})
            n += op != 'set'
        replay(ctx, rng, steps, like)
        ctx.count('random histories')
    ctx.judge('OptionsTrace')
