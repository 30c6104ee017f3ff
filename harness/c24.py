"""C24: zonal reserves."""
import io

import numpy as np

import common
import opfgen
from gen import rnd
from opfsol import TIGHT
from pf import view
from pypower.opf import opf
from pypower.ppoption import ppoption
from pypower.printpf import printpf
from pypower.ext2int import ext2int
from pypower.int2ext import int2ext
from pypower.rundcopf import rundcopf
from pypower.rundcpf import rundcpf
from pypower.runpf import runpf
from pypower.runopf import runopf
from pypower.runopf_w_res import runopf_w_res
from pypower.toggle_reserves import toggle_reserves


def units(rng, c, perm, n):
    """n units on buses so that the in-service ones come in the order perm"""
    bus = c['bus']
    live = np.flatnonzero(bus[:, 1] != 4)
    pos = np.sort(rng.choice(live, len(perm), replace=len(perm) > len(live)))
    if len(perm) > 1 and len(set(pos)) < len(perm):
        # at one bus the case's order holds
        perm = list(perm)
        k = 0
        while k < len(perm):
            j = k
            while j < len(perm) and pos[j] == pos[k]:
                j += 1
            perm[k:j] = sorted(perm[k:j])
            k = j
    load = max(bus[live, 2].sum(), 1.)
    g = np.zeros((n, 21))
    for u in range(n):
        g[u, 0] = bus[rng.integers(0, len(bus)), 0]
        g[u, 8] = np.round(load * rng.uniform(.5, 1.5), 3) + 5
        g[u, 9] = np.round(g[u, 8] * rng.choice([0, 0, .1]), 3)
        g[u, 1] = np.round(load / n, 3)
        g[u, 3], g[u, 4] = np.round(load, 2) + 20, -np.round(load, 2) - 20
        g[u, 5], g[u, 6] = 1., c['baseMVA']
        g[u, 17] = rng.choice([0., 0., np.round(load * rng.uniform(.05, .5), 3) + .1])
    bus[live, 1] = 1
    for k, u in enumerate(perm):
        g[u, 0] = bus[pos[k], 0]
        g[u, 7] = 1
        bus[pos[k], 1] = 2
    bus[pos[0], 1] = 3
    c['gen'] = g
    c['gencost'] = opfgen.costs(rng, c, q=False)
    return c


def case(rng, shape=None):
    c = opfgen.case(rng, rate=.2, tight=0, ang=0, disp=0, cap=0, dc=True)
    c = {k: c[k] for k in ('version', 'baseMVA', 'bus', 'gen', 'branch', 'gencost') if k in c}
    c['bus'][:, 2] = abs(c['bus'][:, 2])
    if shape:
        n = len(shape['zones'][0])
        c = units(rng, c, [u - 1 for u in shape['perm']], n)
        z, form, q = np.array(shape['zones'], float), shape['form'], shape['qty']
    else:
        n = int(rng.integers(3, 7))
        on = rng.permutation(n)[:int(rng.integers(2, n + 1))]
        c = units(rng, c, list(on), n)
        if rng.random() < .4:           # a load that can be cut
            row = np.zeros(21)
            row[0] = rng.choice(c['bus'][c['bus'][:, 1] != 4, 0])
            row[[1, 9]] = -rnd(rng, 3, 20)
            row[5], row[6], row[7] = 1, c['baseMVA'], 1
            row[17] = rng.choice([0, 5.])
            k = int(rng.integers(0, n + 1))
            c['gen'] = np.insert(c['gen'], k, row, 0)
            c['gencost'] = opfgen.costs(rng, c, q=False)
            n += 1
        z = (rng.random((int(rng.integers(1, 4)), n)) < .6).astype(float)
        if not z.any():
            z[0, 0] = 1
        form, q = str(rng.choice(['full', 'compact'])), rng.random() < .6
    e = z.any(0)
    w = n if form == 'full' else int(e.sum())
    load = c['bus'][:, 2].sum()
    res = {'zones': z, 'cost': rnd(rng, 0, 20, w, d=2)}
    if q:
        res['qty'] = rnd(rng, .5, .4 * load + 1, w, d=3)
        if rng.random() < .25:          # units that may take part but offer nothing
            res['qty'][rng.random(w) < .4] = 0
    cap = capability(c, res)
    res['req'] = np.round(cap * rng.choice([0, .2, .6, .9, .98], len(z)), 3)
    # a zone nobody can serve and that asks for nothing at all leaves its price open
    res['req'][(cap <= 0) & (rng.random() < .8)] = -.5
    if rng.random() < .3:
        res['req'] = np.floor(res['req'])
    if rng.random() < .2:
        res['zones'] = z.astype(int)
    if rng.random() < .15:
        res['cost'] = np.ceil(res['cost']).astype(int)
        if q:
            res['qty'] = np.ceil(res['qty']).astype(int)
    c['reserves'] = res
    return c


def capability(c, res):
    z, g = np.asarray(res['zones']), c['gen']
    n, e = len(g), z.any(0)
    q = np.full(n, np.inf)
    if 'qty' in res:
        if len(res['qty']) == n:
            q = res['qty'].astype(float)
        else:
            q[e] = res['qty']
    r = np.where(g[:, 17] == 0, np.inf, g[:, 17])
    dead = c['bus'][c['bus'][:, 1] == 4, 0]
    b = np.minimum(np.minimum(q, r), g[:, 8] - g[:, 9]) * (g[:, 7] > 0) * ~np.isin(g[:, 0], dead)
    # leave the load met
    spare = max((g[:, 8] * (g[:, 7] > 0) * ~np.isin(g[:, 0], dead)).sum() - c['bus'][:, 2].sum() * 1.1, 0)
    return np.minimum(z.dot(b), spare / 2)


def go(rng, c, dc):
    """through one of the doors"""
    how = int(rng.integers(0, 4))
    o = ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=int(dc), **TIGHT)
    d = {k: v for k, v in c.items()}
    if how == 0:
        x, f = d, (lambda: runopf_w_res(d, o))
    else:
        d['reserves'] = c['reserves']
        x = toggle_reserves(d, 'on')
        f = (lambda: opf(x, o)) if how == 1 else (lambda: runopf(x, o)) if how == 2 or not dc else (lambda: rundcopf(x, o))
    before = common.digest(x)
    ok, r, err = common.attempt(f)
    return ok, r, err, before == common.digest(x), o


def fields(r):
    q = r['reserves']
    return dict(rr=dict(zones=q['zones'], req=q['req'], cost=q['cost'], qty=q.get('qty', []), R=q['R'], Rmin=q['Rmin'], Rmax=q['Rmax'],
                        mul=q['mu']['l'], muu=q['mu']['u'], mup=q['mu']['Pmax'], prc=q['prc']),
                total=q['totalcost'], lam=r['lin']['mu']['l']['Rreq'])


def given(c):
    q = c['reserves']
    return dict(zones=q['zones'], req=q['req'], cost=q['cost'], qty=q.get('qty', []))


def one(ctx, rng, shape=None, stat=None):
    c = case(rng, shape)
    dc = bool(rng.random() < .7)
    ok, r, err, same, o = go(rng, c, dc)
    if not ok:
        ctx.log('raised', what='reserves', err=err, c=view(c, True), res=given(c))
        return
    stat[0] += 1
    stat[1] += bool(r['success'])
    ctx.count('%s %s' % ('DC' if dc else 'AC', 'solved' if r['success'] else 'not solved'))
    if not r['success']:
        return
    f = fields(r)
    if np.max(f['lam']) > 1e6:
        ctx.count('open price (skipped)')
        return
    scale = max(abs(r['bus'][:, 13:15]).max(), abs(r['gen'][:, 21:25]).max(), abs(np.r_[f['rr']['mup'], f['rr']['muu'], f['rr']['prc'][np.abs(f['rr']['Rmax']) > 0]]).max())
    ctx.log('reserves', c=view(c, True), res=given(c), dc=dc, success=True, r=view(r, True), f=r['f'], untouched=same, scale=scale, **f)
    if rng.random() < .3:
        printed(ctx, c, toggle_reserves({k: v for k, v in r.items()}, 'on') if not r.get('userfcn', {}).get('printpf') else r, o)


def printed(ctx, c, r, o):
    b = io.StringIO()
    ok, _, err = common.attempt(printpf, r, b, ppoption(o, OUT_ALL=1))
    if not ok:
        ctx.log('raised', what='printpf', err=err)
        return
    part, units_, zones, limits, totals = None, [], [], [], []
    for x in b.getvalue().split('\n'):
        if '|     Reserves ' in x:
            part = units_
        elif x.startswith('Zone  Reserves'):
            part = zones
        elif '|     Reserve Limits' in x:
            part = limits
        elif x.startswith('|'):
            part = None
        elif part is not None:
            if 'Total:' in x:
                totals += [w for w in x.replace('Total:', ' ').replace('Cost:', ' ').replace('Total', ' ').replace('$', ' ').split()]
                continue
            t = x.replace(',', ' ').split()
            try:
                row = [int(w) for w in t[:(1 if part is zones else 3)]] + t[(1 if part is zones else 3):]
            except ValueError:
                continue
            if row and t[0].isdigit():
                part.append(row)
    f = fields(r)
    ctx.count('printed')
    ctx.log('printed', c=view(c), res=given(c), units=units_, zonerows=zones, limits=limits, totals=totals, **f)


def short(ctx, rng):
    """more than there can be"""
    c = case(rng)
    z, g = c['reserves']['zones'], c['gen']
    k = int(rng.integers(0, len(z)))
    c['reserves']['req'] = c['reserves']['req'] + 0.
    c['reserves']['req'][k] = np.round((g[:, 8] - g[:, 9]).sum() * 1.5 + 5, 2)
    dc = bool(rng.random() < .7)
    ok, r, err, same, o = go(rng, c, dc)
    if not ok:
        ctx.log('raised', what='short', err=err, c=view(c, True), res=given(c))
        return
    ctx.count('short')
    ctx.log('short', c=view(c, True), res=given(c), success=bool(r['success']))


def bad(ctx, rng):
    c = case(rng)
    q = dict(c['reserves'])
    c['reserves'] = q
    k = int(rng.integers(0, 5))
    what = ['no ' + k for k in ('zones', 'req', 'cost')]
    if k < 3:
        del q[what[k][3:]]
    elif k == 3:
        q['req'] = np.r_[q['req'], 1.]
    else:
        q['cost'] = np.r_[q['cost'], 1., 1.]
        while len(q['cost']) in (len(c['gen']), int(np.asarray(q['zones']).any(0).sum())):
            q['cost'] = np.r_[q['cost'], 1.]
    ok, r, err, same, o = go(rng, c, True)
    ctx.count('bad data')
    ctx.log('bad', k=k, rejected=not ok, err=err)


def passing(ctx, rng, shape):
    """what only passes the data through"""
    c = case(rng, shape)
    o = ppoption(VERBOSE=0, OUT_ALL=int(rng.random() < .5), OUT_ALL_LIM=0)
    x = toggle_reserves({k: v for k, v in c.items()}, 'on')
    how = str(rng.choice(['runpf', 'rundcpf', 'int2ext']))
    f = {'runpf': lambda: runpf(x, o)[0], 'rundcpf': lambda: rundcpf(x, o)[0], 'int2ext': lambda: int2ext(ext2int(x))}[how]
    before = common.digest(x)
    ok, r, err = common.attempt(f)
    if not ok:
        ctx.log('raised', what=how, err=err, c=view(c, True), res=given(c))
        return
    ctx.count(how)
    q = r['reserves']
    ctx.log('passing', how=how, res=given(c), rr=dict(zones=q['zones'], req=q['req'], cost=q['cost'], qty=q.get('qty', [])), untouched=before == common.digest(x))


def run(ctx):
    rng = ctx.rng
    shapes = ctx.check_design('ReservesMC', 'ReservesMC.cfg', 8)
    if ctx.thorough:
        ctx.check_design('ReservesMC', 'ReservesMCdeep.cfg', 8)
    stat = [0, 0]
    for k in rng.permutation(len(shapes))[:ctx.n(150, 2000)]:
        one(ctx, rng, shapes[int(k)], stat)
    for _ in range(ctx.n(90, 900)):
        one(ctx, rng, None, stat)
    for k in rng.permutation(len(shapes))[:ctx.n(60, 600)]:
        passing(ctx, rng, shapes[int(k)])
    for _ in range(ctx.n(12, 80)):
        short(ctx, rng)
        bad(ctx, rng)
    ctx.log('rate', tried=stat[0], solved=stat[1], percent=60)
    ctx.judge('ReservesTrace')
