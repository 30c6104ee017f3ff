"""Drives total_load and scale_load (C29, C30)."""
import numpy as np

import common
import gen as g
import opfgen
import pf
from gen import rnd
from pypower.scale_load import scale_load
from pypower.total_load import total_load

WHICH = {'F': 'FIXED', 'D': 'DISPATCHABLE', 'B': 'BOTH'}


def case(rng):
    c = opfgen.case(rng, disp=1)
    bus, gn = c['bus'].copy(), c['gen'].copy()
    na = int(rng.integers(1, 4))
    bus[:, 6] = rng.integers(1, na + 1, len(bus))
    if rng.random() < .3:
        bus[rng.integers(0, len(bus)), 2:4] = 0
    for r in gn:
        if r[9] < 0 and rng.random() < .1:
            r[8] = 1.           # storage, not a load
    if rng.random() < .15:      # nothing but dispatchable loads, a number of them
        ld = gn[(gn[:, 9] < 0) & (gn[:, 8] == 0)]
        if len(ld):
            gn = ld[rng.integers(0, len(ld), int(rng.integers(2, 7)))].copy()
            gn[:, 0] = rng.choice(bus[:, 0], len(gn))
            gn[:, [1, 9]] = np.round(gn[:, [1, 9]] * rng.uniform(.5, 2, (len(gn), 1)), 3)
    extra = gn[rng.integers(0, len(gn), 2)].copy()
    if rng.random() < .5:       # several at a bus, in any order of rows
        gn = np.r_[gn, extra]
    gn = gn[rng.permutation(len(gn))]
    c = pf.integral(rng, {'bus': bus, 'gen': gn})
    return c['bus'], c['gen']


def zones(rng, nb):
    k = rng.integers(0, 4)
    if k < 2:
        return None
    z = rng.integers(0, 4, nb)
    if not z.any():
        z[0] = 1
    return z if k == 2 else z.astype(float)


def nogen(rng):
    return None if rng.random() < .5 else np.array([])


def dig(*a):
    return common.digest([x for x in a if x is not None])


def total(ctx, rng):
    bus, gn = case(rng)
    z = zones(rng, len(bus))
    by = 'given' if z is not None else str(rng.choice(['areas', 'all']))
    arg = 'all' if by == 'all' else (None if rng.random() < .7 else np.array([], int)) if z is None else z
    given = rng.random() < .8
    which = str(rng.choice(['default', 'F', 'D', 'B', 'B', 'X'], p=[.3, .2, .25, .1, .1, .05]))
    w = None if which == 'default' else WHICH.get(which, 'ALL')
    a = [bus, gn if given else nogen(rng), arg, w]
    while a[-1] is None and len(a) > 1 and rng.random() < .7:
        a.pop()
    before = dig(bus, gn, z)
    ok, r, err = common.attempt(total_load, *a)
    ctx.count('%s %s' % (by, which if given else 'no gen'))
    f = dict(p=np.atleast_1d(r[0]), q=np.atleast_1d(r[1])) if ok else dict(p=[], q=[])
    ctx.log('total', bus=bus[:, :7], gen=gn[:, :10] if given else [], by=by, zone=z if z is not None else [], which=which,
            rejected=not ok, err=err, untouched=before == dig(bus, gn, z), **f)


def scale(ctx, rng):
    bus, gn = case(rng)
    for _ in range(int(rng.integers(1, 4))):
        bus, gn = one(ctx, rng, bus, gn)
        if bus is None:
            return


def one(ctx, rng, bus, gn):
    z = zones(rng, len(bus))
    given = rng.random() < .85
    which = str(rng.choice(['default', 'F', 'D', 'B']))
    scale_ = str(rng.choice(['default', 'FACTOR', 'QUANTITY', 'QUANTITY']))
    pq = str(rng.choice(['default', 'PQ', 'P']))
    if rng.random() < .03:
        pq = 'Q'
    if rng.random() < .03:
        which = 'X'
    if rng.random() < .03:
        scale_ = 'X'
    n = int(max(bus[:, 6])) if z is None else int(max(z))
    n += int(rng.choice([0, 0, 0, 0, 1, -1]))
    n = 1 if n < 1 or (z is None and rng.random() < .3) else n
    kind = rng.integers(0, 3)
    if scale_ == 'QUANTITY':
        load = rnd(rng, 0, 200, n, d=2)
        # sometimes what is there already
        p = total_load(bus, gn if given else None, z.astype(int) if z is not None else ('all' if n == 1 else None))[0]
        for k in range(min(n, len(p))):
            if rng.random() < .4:
                load[k] = p[k]
    else:
        load = rnd(rng, 0, 3, n, d=2)
    if kind == 0:
        load = np.round(load).astype(int)
    arg = load if kind < 2 or n > 1 else (float(load[0]) if rng.random() < .5 else load)
    opt = {}
    if which != 'default':
        opt['which'] = WHICH.get(which, 'ALL')
    if scale_ != 'default':
        opt['scale'] = scale_
    if pq != 'default':
        opt['pq'] = pq
    o = opt if opt or rng.random() < .5 else None
    a = [arg, bus, gn if given else nogen(rng), z, o]
    while a[-1] is None and len(a) > 2 and rng.random() < .7:
        a.pop()
    before = dig(*a)
    ok, r, err = common.attempt(scale_load, *a)
    after = dig(*a)
    ctx.count('%s %s %s' % (scale_, which, 'gen' if given else 'no gen'))
    ctx.log('scale', bus=bus, gen=gn if given else [], gengiven=given, load=np.atleast_1d(load), by='given' if z is not None else 'none', zone=z if z is not None else [],
            which=which, scale=scale_, pq=pq, rejected=not ok, err=err, bus2=r[0] if ok else [], gen2=r[1] if ok and given else [], untouched=before == after)
    if not ok or not given:
        return None, None
    return r
