"""C25: interface flow limits."""
import io

import numpy as np

import common
import opfgen
from gen import rnd
from opfsol import TIGHT
from pf import view
from pypower.ext2int import ext2int
from pypower.int2ext import int2ext
from pypower.makeBdc import makeBdc
from pypower.opf import opf
from pypower.ppoption import ppoption
from pypower.printpf import printpf
from pypower.rundcopf import rundcopf
from pypower.rundcpf import rundcpf
from pypower.runopf import runopf
from pypower.runpf import runpf
from pypower.toggle_iflims import toggle_iflims


def rows_of(m):
    """interface, branch, direction; a negative number is the other direction, also for branch 0"""
    return [[int(i), int(abs(b)) + 1, -1 if np.signbit(b) else 1] for i, b in np.asarray(m)]


def base(rng):
    c = opfgen.case(rng, rate=.3, tight=.2, ang=0, disp=.2, cap=0, dc=True, islands=.15, base=float(rng.choice([100., 100., 10., 50.])))
    return {k: c[k] for k in ('version', 'baseMVA', 'bus', 'gen', 'branch', 'gencost') if k in c}


def place(rng, c, shape):
    """branches of the case for those of the shape, with a spare for every one that goes out"""
    nl = len(c['branch'])
    live = {int(b) for b in c['bus'][c['bus'][:, 1] != 4, 0]}
    ok = [k for k in range(nl) if c['branch'][k, 10] > 0 and int(c['branch'][k, 0]) in live and int(c['branch'][k, 1]) in live]
    n = 3
    pick = list(rng.choice(ok, min(n, len(ok)), replace=False))
    while len(pick) < n:
        c['branch'] = np.r_[c['branch'], c['branch'][pick[:1]]]
        pick.append(len(c['branch']) - 1)
    pick = [int(k) for k in pick]
    if rng.random() < .6:
        pick[0], k = 0, pick[0]          # branch 0 takes part
        if 0 in pick[1:]:
            pick[1 + pick[1:].index(0)] = k
        elif 0 not in ok:
            c['branch'][0] = c['branch'][k]
    pick.sort()
    for b in range(1, n + 1):
        if b not in shape['on']:
            spare = c['branch'][pick[b - 1]].copy()
            c['branch'][pick[b - 1], 10] = 0
            c['branch'] = np.r_[c['branch'], [spare]]
        else:
            c['branch'][pick[b - 1], 10] = 1
    for k in pick:
        if rng.random() < .3:
            c['branch'][k, 9] = rnd(rng, -3, 3)
    return [[m['i'], pick[m['b'] - 1], m['d']] for m in shape['map']], list(shape['lims'])


def random_map(rng, c):
    nl = len(c['branch'])
    m = []
    for i in range(1, int(rng.integers(1, 4)) + 1):
        for b in rng.choice(nl, min(int(rng.integers(1, 5)), nl), replace=False):
            m.append([i, int(b), int(rng.choice([-1, 1]))])
    lims = [int(x) for x in rng.permutation(sorted({r[0] for r in m}))]
    if rng.random() < .2:
        lims = lims[:1]
    return m, lims


def numbered(rng, m, lims):
    """interfaces under other numbers, the rows of the map in any order"""
    to = {i: int(n) for i, n in zip(range(1, 5), rng.choice(np.arange(1, 30), 4, replace=False))}
    if rng.random() < .4:
        to = {i: i for i in range(1, 5)}
    m = [[to[i], b, d] for i, b, d in m]
    m = [m[k] for k in rng.permutation(len(m))]
    return m, [to[i] for i in lims]


def case(rng, shape=None):
    c = base(rng)
    m, lims = place(rng, c, shape) if shape else random_map(rng, c)
    m, lims = numbered(rng, m, lims)
    arr = np.array([[i, -float(b) if d < 0 else float(b)] for i, b, d in m]).reshape(-1, 2)
    if len(m) and all(b or d > 0 for _, b, d in m) and rng.random() < .3:
        arr = arr.astype(int)
    return c, m, arr, lims


def flow(c, m, i, r):
    dead = c['bus'][c['bus'][:, 1] == 4, 0]
    on = (c['branch'][:, 10] > 0) & ~np.isin(c['branch'][:, 0], dead) & ~np.isin(c['branch'][:, 1], dead)
    return sum(d * r['branch'][b, 13] for k, b, d in m if k == i and on[b])


def go(rng, c, dc):
    o = ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=int(dc), **TIGHT)
    x = toggle_iflims(c, 'on')
    how = int(rng.integers(0, 3))
    f = (lambda: opf(x, o)) if how == 0 else (lambda: runopf(x, o)) if how == 1 or not dc else (lambda: rundcopf(x, o))
    before = common.digest(x)
    ok, r, err = common.attempt(f)
    return ok, r, err, before == common.digest(x), o


def one(ctx, rng, shape, stat):
    c, m, arr, lims = case(rng, shape)
    dc = bool(rng.random() < .8)
    # around what flows without limits
    ok, r0, err = common.attempt(opf, c, ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=1, **TIGHT))
    if not ok or not r0['success']:
        ctx.count('no base case')
        return
    rows = []
    for i in lims:
        f = flow(c, m, i, r0)
        w = rng.integers(0, 5)
        d = rnd(rng, .1, 5) * c['baseMVA'] / 100.
        lo, up = (f - d, f + d) if w == 0 else (f + d / 2, f + 50 * d) if w == 1 else (f - 50 * d, f - d / 2) if w == 2 else (f - d, 99999.) if w == 3 else (-500., 500.)
        if not any(k == i for k, b, q in m):
            lo, up = min(lo, -1.), max(up, 1.)
        rows.append([i, np.round(lo, 4), np.round(up, 4)])
    c['if'] = {'map': arr, 'lims': np.array(rows, float)}
    ok, r, err, same, o = go(rng, c, dc)
    if not ok:
        ctx.log('raised', what='iflims', err=err, c=view(c, True), map=rows_of(arr), lims=rows)
        return
    stat[0] += 1
    stat[1] += bool(r['success'])
    ctx.count('%s %s' % ('DC' if dc else 'AC', 'solved' if r['success'] else 'not solved'))
    if not r['success']:
        return
    q = r['if']
    f = dict(P=q['P'], l=q['mu']['l'], u=q['mu']['u'])
    if len(f['l']) and (np.r_[f['l'], f['u']] / c['baseMVA']).max() > 1e4:
        ctx.count('open price (skipped)')
        return
    scale = max(abs(r['bus'][:, 13:15]).max(), abs(r['gen'][:, 21:25]).max(), abs(r['branch'][:, 17:19]).max(), (np.r_[f['l'], f['u'], 0] / c['baseMVA']).max())
    ctx.count('binding', int((np.r_[f['l'], f['u']] > 1e-3).sum()))
    ctx.log('iflims', c=view(c, True), map=rows_of(arr), lims=rows, dc=dc, success=True, r=view(r), scale=scale, untouched=same, mapback=rows_of(q['map']), limsback=q['lims'], **f)
    if rng.random() < .3:
        printed(ctx, rows, r, f, o)


def printed(ctx, lims, r, f, o):
    b = io.StringIO()
    ok, _, err = common.attempt(printpf, r, b, ppoption(o, OUT_ALL=1))
    if not ok:
        ctx.log('raised', what='printpf', err=err)
        return
    t = b.getvalue()
    rows = []
    if 'Interface Flow Limits' in t:
        for x in t[t.index('Interface Flow Limits'):].split('\n')[5:]:
            w = x.split()
            if not w or not w[0].lstrip('-').isdigit():
                break
            rows.append(w)
    ctx.count('printed')
    ctx.log('printed', lims=lims, rows=rows, **f)


def passing(ctx, rng, shape):
    c, m, arr, lims = case(rng, shape)
    rows = [[i, -10., 10.] for i in lims]
    c['if'] = {'map': arr, 'lims': np.array(rows)}
    x = toggle_iflims(c, 'on')
    o = ppoption(VERBOSE=0, OUT_ALL=int(rng.random() < .5), OUT_ALL_LIM=0)
    how = str(rng.choice(['runpf', 'rundcpf', 'int2ext']))
    f = {'runpf': lambda: runpf(x, o)[0], 'rundcpf': lambda: rundcpf(x, o)[0], 'int2ext': lambda: int2ext(ext2int(x))}[how]
    before = common.digest(x)
    ok, r, err = common.attempt(f)
    if not ok:
        ctx.log('raised', what=how, err=err, c=view(c, True), map=rows_of(arr), lims=rows)
        return
    ctx.count(how)
    ctx.log('passing', how=how, map=rows_of(arr), lims=rows, mapback=rows_of(r['if']['map']), limsback=r['if']['lims'], untouched=before == common.digest(x))


def impossible(ctx, rng):
    c, m, arr, lims = case(rng)
    i = lims[0]
    for k, b, d in m:
        if k == i:
            c['branch'][b, 5] = 50.
    tot = 50. * sum(k == i for k, b, d in m)
    rows = [[n, tot + 10. if n == i else -500., tot + 20. if n == i else 500.] for n in lims]
    c['if'] = {'map': arr, 'lims': np.array(rows)}
    ok, r, err, same, o = go(rng, c, True)
    if not ok:
        ctx.log('raised', what='impossible', err=err, c=view(c, True), map=rows_of(arr), lims=rows)
        return
    ctx.count('impossible')
    ctx.log('impossible', c=view(c), map=rows_of(arr), lims=rows, success=bool(r['success']))


def run(ctx):
    rng = ctx.rng
    shapes = ctx.check_design('InterfacesMC', 'InterfacesMC.cfg', 8)
    if ctx.thorough:
        ctx.check_design('InterfacesMC', 'InterfacesMCdeep.cfg', 8)
    stat = [0, 0]
    for k in rng.permutation(len(shapes))[:ctx.n(180, 2000)]:
        one(ctx, rng, shapes[int(k)], stat)
    for _ in range(ctx.n(90, 1000)):
        one(ctx, rng, None, stat)
    for k in rng.permutation(len(shapes))[:ctx.n(60, 600)]:
        passing(ctx, rng, shapes[int(k)])
    for _ in range(ctx.n(10, 80)):
        impossible(ctx, rng)
    ctx.log('rate', tried=stat[0], solved=stat[1], percent=50)
    ctx.judge('InterfacesTrace')
