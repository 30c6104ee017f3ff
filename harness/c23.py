"""C23: unit decommitment."""
import copy
import itertools
import random

import numpy as np

import common
import opfgen
import opfsol
from gen import rnd
from opfsol import TIGHT
from pf import view
from pypower.fairmax import fairmax
from pypower.opf import opf
from pypower.ppoption import ppoption
from pypower.runduopf import runduopf
from pypower.runuopf import runuopf
from pypower.uopf import uopf


def case(rng):
    c = opfgen.case(rng, nb=int(rng.integers(2, 6)), rate=.3, tight=.1, ang=.1, disp=.35, cap=0, q=bool(rng.random() < .2), npv=.6, multi=.7)
    c = {k: c[k] for k in ('version', 'baseMVA', 'bus', 'gen', 'branch', 'gencost')}
    g, bus = c['gen'], c['bus']
    s = c['baseMVA'] / 100.
    unit = g[:, 9] >= 0
    g[unit, 9] = 0
    live = [k for k in np.flatnonzero(unit & (g[:, 7] > 0)) if bus[bus[:, 0] == g[k, 0], 1][0] != 4]
    heavy = rng.permutation(live)[:int(rng.choice([1, 2, 2, 3, 4]))]
    for k in heavy:
        g[k, 8] = rnd(rng, 15, 60) * s
        g[k, 9] = np.round(g[k, 8] * rng.uniform(.15, .8), 3)
    for k in np.flatnonzero(unit & (g[:, 7] <= 0)):
        if rng.random() < .5:
            g[k, 9] = np.round(g[k, 8] * .5, 3)
    out = [k for k in np.flatnonzero(unit & (g[:, 7] > 0)) if k not in live]
    for k in out:                       # on an isolated bus
        g[k, 9] = np.round(g[k, 8] * .5, 3)
    if rng.random() < .15 and len(heavy) > 1:       # alike
        a, b = heavy[:2]
        g[a, 8:10] = g[b, 8:10]
        c['gencost'][a] = c['gencost'][b]
    k = rng.random()
    total = g[heavy, 9].sum()
    load = bus[bus[:, 1] != 4, 2].sum()
    if k < .4 and load > 0:             # around the point where minimum outputs exceed the load
        bus[:, 2:4] *= np.clip(total / load * rng.uniform(.5, 1.5), .1, 6)
    elif k < .7:
        bus[:, 2:4] *= rng.uniform(.3, 1.2)
    bus[:, 2:4] = bus[:, 2:4].round(4)
    if rng.random() < .3:
        bus[bus[:, 1] == 4, 2] = np.round(total, 2)
    for r in c['gencost'][:len(g)]:     # running costs something
        if r[0] == 2 and rng.random() < .7:
            r[3 + int(r[3])] = rnd(rng, 0, 900)
    if rng.random() < .45 and len(live) > 2 and len(heavy) > 1:
        scarce(rng, c, live, heavy)
    return c, [int(h) for h in heavy]


def scarce(rng, c, live, heavy):
    """every unit with a minimum output runs at it, and only so many of them can be spared"""
    g, bus, gc = c['gen'], c['bus'], c['gencost']
    s = c['baseMVA'] / 100.
    g[g[:, 9] < 0, 7] = 0
    c['branch'][:, 5:8] = 0
    rest = [k for k in live if k not in heavy]
    if not rest:
        return
    load = bus[bus[:, 1] != 4, 2].sum()
    need = g[heavy, 9].sum() + rnd(rng, 1, 5) * s
    if load < 2 * need:
        bus[:, 2:4] = (bus[:, 2:4] * 2 * need / max(load, 1e-3)).round(4) if load > 0 else bus[:, 2:4]
        load = bus[bus[:, 1] != 4, 2].sum()
    if load <= need:
        return
    g[rest, 8] = np.round((load - need) / len(rest), 4)
    n = len(heavy)
    spare = int(rng.integers(1, n)) if n > 2 else 1        # this many can go, not one more
    lo = need / (n - spare)
    g[heavy, 8] = np.round(lo * rng.uniform(1.02, 1.3, n), 4)
    for k in list(rest) + list(heavy):
        gc[k, 4:] = 0
        d = k in heavy
        gc[k, :4] = [2, 0, 0, 3]
        gc[k, 4:7] = [rnd(rng, .001, .01), rnd(rng, 30, 45) if d else rnd(rng, 5, 25), rnd(rng, 0, 900) if d else 0]


def commit(c, off):
    x = copy.deepcopy(c)
    x['gen'][list(off), 1] = x['gen'][list(off), 2] = x['gen'][list(off), 7] = 0
    return x


def one(ctx, rng, k, stat):
    c, heavy = case(rng)
    dc = k % 3 != 2
    o = ppoption(**dict(TIGHT, VERBOSE=0, OUT_ALL=0, PF_DC=int(dc)))
    tab, exact, scale = [], True, 0
    for n in range(len(heavy) + 1):
        for off in itertools.combinations(heavy, n):
            ok, r, err = common.attempt(opf, commit(c, off), o)
            if not ok:
                tab = None
                break
            mu = r['gen'][:, 22] if r['gen'].shape[1] > 22 else np.zeros(len(r['gen']))
            held = [h for h in heavy if h not in off]
            good = bool(r['success'])
            exact = exact and (dc or good)
            if good:
                scale = max(scale, abs(r['f']))
            tab.append(dict(off=[h + 1 for h in off], ok=good, f=r['f'] if good else 0, may=[h + 1 for h in held if not good or mu[h] >= 0],
                            sure=[h + 1 for h in held if good and mu[h] > 1e-3]))
        if tab is None:
            break
    if tab is None:         # e.g. no unit left at all
        ctx.count('a commitment without units (skipped)')
        return
    x = copy.deepcopy(c)
    if k % 4 == 1:
        x = opfsol.narrow(rng, x)
        x['bus'], x['branch'] = c['bus'].copy(), c['branch'].copy()
    before = common.digest([x, o])
    random.seed(int(rng.integers(1 << 30)))
    if k % 5 == 4:
        run1 = (lambda: runduopf(x, o)) if dc else (lambda: runuopf(x, o))
    else:
        run1 = lambda: uopf(x, o)
    if rng.random() < .2:
        o['VERBOSE'] = 1
        before = common.digest([x, o])
    ok, r, err = common.attempt(run1)
    if not ok:
        ctx.log('raised', what='uopf', err=err, c=view(c, True))
        return
    stat[0] += 1
    stat[1] += bool(r['success'])
    base = tab[0]
    off = [j for j in range(len(c['gen'])) if c['gen'][j, 7] > 0 and r['gen'][j, 7] == 0]
    shed = c['gen'][heavy, 9].sum() > c['bus'][c['bus'][:, 1] != 4, 2].sum() - c['gen'][(c['gen'][:, 9] < 0) & (c['gen'][:, 7] > 0), 9].sum()
    ctx.count('%s%s%s' % ('DC' if dc else 'AC', ' shed' if shed else '', '' if r['success'] else ' not solved'))
    ctx.count('switched off %d' % len(off))
    ctx.log('uopf', c=view(c, True), r={'gen': r['gen']}, success=bool(r['success']), f=r['f'] if r['success'] else 0, tab=tab, exact=exact,
            scale=scale, all=dict(ok=base['ok'], f=base['f']), untouched=before == common.digest([x, o]))
    if r['success'] and set(off) <= set(heavy):
        x = commit(c, off)
        x['gen'][off, 5] = r['gen'][off, 5]     # set points of an earlier stage
        opfsol.record(ctx, 'dc' if dc else 'feasible', x, opfsol.NOUSER, r, dc=dc)


def run(ctx):
    rng = ctx.rng
    ctx.check_design('DecommitMC', 'DecommitMC.cfg', 8)
    ctx.check_design('DecommitMC', 'DecommitMCshed.cfg', 8)
    if ctx.thorough:
        ctx.check_design('DecommitMC', 'DecommitMCdeep.cfg', 8)
    stat = [0, 0]
    for k in range(ctx.n(140, 700)):
        one(ctx, rng, k, stat)
    for _ in range(ctx.n(8, 40)):
        x = np.round(rng.uniform(-3, 3, int(rng.integers(1, 7))))
        ok, v, err = common.attempt(lambda: [fairmax(x) for _ in range(200)])
        if not ok:
            ctx.log('raised', what='fairmax', err=err)
            continue
        ctx.log('fair', x=x, val=v[0][0], idx=sorted({int(t[1]) for t in v}))
    ctx.log('rate', tried=stat[0], solved=stat[1], percent=55)
    mine = [e for e in ctx.events if e['ev'] in ('uopf', 'fair', 'rate', 'raised')]
    ctx.judge('DecommitTrace', mine)
    ctx.judge('OpfSolutionTrace', [e for e in ctx.events if e['ev'] in ('dc', 'feasible')])
