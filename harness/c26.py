"""C26: DC transmission lines."""
import copy
import io

import numpy as np

import common
import gen
import opfgen
from gen import rnd
from opfsol import TIGHT
from pf import view
from pypower.ext2int import ext2int
from pypower.int2ext import int2ext
from pypower.opf import opf
from pypower.ppoption import ppoption
from pypower.printpf import printpf
from pypower.rundcopf import rundcopf
from pypower.rundcpf import rundcpf
from pypower.runopf import runopf
from pypower.runpf import runpf
from pypower.toggle_dcline import toggle_dcline

KINDS = ['forward', 'from zero', 'both ways', 'reverse']


def base(rng):
    c = opfgen.case(rng, rate=.3, tight=.1, ang=0, disp=.2, cap=0, islands=.15, q=bool(rng.random() < .25), base=float(rng.choice([100., 100., 10., 50.])))
    c = {k: c[k] for k in ('version', 'baseMVA', 'bus', 'gen', 'branch', 'gencost') if k in c}
    if rng.random() < .5:           # columns of solved cases
        c['gen'] = np.c_[c['gen'], np.zeros((len(c['gen']), 4))]
    return c


def line(rng, c, f, t, on, kind):
    s = c['baseMVA'] / 100.
    lo, up = {'forward': (rnd(rng, .5, 4), rnd(rng, 5, 14)), 'from zero': (0, rnd(rng, 4, 14)),
              'both ways': (-rnd(rng, 3, 9), rnd(rng, 3, 9)), 'reverse': (-rnd(rng, 5, 14), -rnd(rng, .5, 4))}[kind]
    q = rng.random() < .8
    q = [-rnd(rng, 2, 12), rnd(rng, 2, 12), -rnd(rng, 2, 12), rnd(rng, 2, 12)] if q else [0, 0, 0, 0]
    row = [f, t, on, np.round(rng.uniform(lo, up), 3), 0, 0, 0, 1., 1., lo, up, *q, rng.choice([0, 0, rnd(rng, 0, .5)]), 0]
    row = np.array(row, float)
    row[[3, *range(9, 16)]] *= s
    row[16] = rng.choice([0, rnd(rng, 0, .08), rnd(rng, 0, .08), rnd(rng, -.01, 0)])
    return row


def cost(rng, c, maxn=3):
    s = 100. / c['baseMVA']
    if rng.random() < .5:
        n = int(rng.integers(1, maxn + 1))
        co = np.zeros(n)
        co[-1] = rnd(rng, -5, 20)
        if n > 1:
            co[-2] = rnd(rng, -8, 8)
        if n > 2:
            co[-3] = rnd(rng, .01, .5) * s
        return np.array([2, 0, 0, n, *co])
    n = int(rng.integers(2, 5))
    x = np.sort(rng.choice(np.arange(-16, 17), n, replace=False)) / s
    sl = np.sort(rnd(rng, -8, 8, n - 1)) + np.arange(n - 1) * .1
    y = rnd(rng, 0, 10) + np.r_[0, np.cumsum(sl * np.diff(x))]
    return np.array([1, rnd(rng, 0, 9), 0, n, *np.c_[x, y].ravel()])


def case(rng, shape=None):
    c = base(rng)
    bus = c['bus']
    live = bus[bus[:, 1] != 4, 0]
    dead = bus[bus[:, 1] == 4, 0]
    if shape:
        b = dict(zip([1, 2, 3], rng.choice(live, 3, replace=False)))
        if shape['dead']:
            if not len(dead):
                new = bus[:1].copy()
                new[0, 0], new[0, 1] = rng.choice([n for n in range(1, 90) if n not in bus[:, 0]]), 4
                bus = c['bus'] = np.insert(bus, int(rng.integers(0, len(bus) + 1)), new, 0)
                dead = new[:, 0]
            b[3] = rng.choice(dead)
        dl = [line(rng, c, b[x['f']], b[x['t']], x['on'], x['lim']) for x in shape['lines']]
    else:
        dl = []
        for _ in range(int(rng.integers(1, 5))):
            f, t = rng.choice(bus[:, 0] if rng.random() < .1 else live, 2, replace=False)
            dl.append(line(rng, c, f, t, int(rng.random() < .8), str(rng.choice(KINDS))))
    dl = np.array(dl)
    # setpoints agree where several hold the voltage of a bus
    vg = {n: rnd(rng, .99, 1.03) for n in bus[:, 0]}
    c['gen'][:, 5] = [vg[n] for n in c['gen'][:, 0]]
    dl[:, 7] = [vg[n] for n in dl[:, 0]]
    dl[:, 8] = [vg[n] for n in dl[:, 1]]
    if rng.random() < .3:           # lines of a case solved before
        dl = np.c_[dl, rnd(rng, 0, 5, (len(dl), 6))]
    c['dcline'] = dl
    if rng.random() < .5:
        c['dclinecost'] = gen.stack([cost(rng, c) for _ in dl])
    return c


def lines(c):
    return dict(lines=c['dcline'][:, :17], costs=c.get('dclinecost', np.zeros((0, 0))))


def solved(r):
    return dict(r=view(r, True), dl=r['dcline'], costsback=r.get('dclinecost', np.zeros((0, 0))))


def tell(ctx, c, what, err):
    ctx.log('raised', what=what, err=err, c=view(c, True), **lines(c))


def solve(ctx, rng, c, stat):
    dc = bool(rng.random() < .65)
    o = ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=int(dc), **TIGHT)
    x = toggle_dcline(c, 'on')
    how = int(rng.integers(0, 3))
    f = (lambda: opf(x, o)) if how == 0 else (lambda: runopf(x, o)) if how == 1 or not dc else (lambda: rundcopf(x, o))
    before = common.digest(x)
    ok, r, err = common.attempt(f)
    if not ok:
        tell(ctx, c, 'opf', err)
        return
    stat[0] += 1
    stat[1] += bool(r['success'])
    ctx.count('%s %s' % ('DC' if dc else 'AC', 'solved' if r['success'] else 'not solved'))
    if not r['success']:
        return
    scale = max(abs(r['bus'][:, 13:15]).max(), abs(r['gen'][:, 21:25]).max(), abs(r['branch'][:, 17:19]).max(), abs(r['dcline'][:, 17:]).max())
    if scale > 1e4:
        ctx.count('open price (skipped)')
        return
    ctx.count('binding', int((abs(r['dcline'][:, 17:]) > 1e-3).sum()))
    ctx.log('opf', c=view(c, True), dc=dc, success=True, f=r['f'], scale=scale, untouched=before == common.digest(x), **lines(c), **solved(r))
    if rng.random() < .3:
        printed(ctx, r)


def flow(ctx, rng, c):
    dc = bool(rng.random() < .4)
    o = ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=int(dc), PF_ALG=int(rng.choice([1, 1, 2, 3])))
    x = toggle_dcline(c, 'on')
    before = common.digest(x)
    ok, r, err = common.attempt(rundcpf if dc and rng.random() < .5 else runpf, x, o)
    if not ok:
        tell(ctx, c, 'pf', err)
        return
    r, success = r
    ctx.count('%s flow%s' % ('DC' if dc else 'AC', '' if success else ' not solved'))
    ctx.log('pf', c=view(c, True), dc=dc, success=bool(success), untouched=before == common.digest(x), **lines(c), **solved(r))
    if success and rng.random() < .4:
        printed(ctx, r)


def words(t, title):
    rows = []
    for x in t[t.index(title):].split('\n')[5:]:
        w = x.split()
        if not w or not w[0].isdigit():
            return rows, x
        rows.append(w)


def printed(ctx, r):
    b = io.StringIO()
    ok, _, err = common.attempt(printpf, r, b, ppoption(OUT_ALL=1, VERBOSE=0))
    if not ok:
        ctx.log('raised', what='printpf', err=err)
        return
    t = b.getvalue()
    rows, lims, total = [], [], 'nan'
    if 'DC Line Data' in t:
        rows, _ = words(t, 'DC Line Data')
        total = t[t.index('DC Line Data'):].split('Total:')[1].split()[0]
    if 'DC Line Constraints' in t:
        lims, _ = words(t, 'DC Line Constraints')
    ctx.count('printed')
    ctx.log('printed', dl=r['dcline'], rows=rows, limits=lims, total=total)


def back(ctx, c):
    x = toggle_dcline(c, 'on')
    before = common.digest(x)
    ok, r, err = common.attempt(lambda: int2ext(ext2int(x)))
    if not ok:
        tell(ctx, c, 'int2ext', err)
        return
    ctx.count('there and back')
    d = solved(r)
    shown = c['dcline'].copy()
    on = ~np.isin(shown[:, :2], c['bus'][c['bus'][:, 1] == 4, 0]).any(1) & (shown[:, 2] > 0)
    # the flow delivered follows from the flow drawn; columns of a solution are those of the units
    shown[on, 4] = shown[on, 3] - (shown[on, 15] + shown[on, 16] * shown[on, 3])
    n = 23 if c['gen'].shape[1] > 21 else shown.shape[1]
    shown = np.c_[shown[:, :17], np.zeros((len(shown), 6))] if n == 23 and c['gen'].shape[1] > 21 else shown
    ctx.log('back', c=view(c, True), untouched=before == common.digest(x), shown=shown, **lines(c), **d)


def off(ctx, rng, c):
    o = ppoption(VERBOSE=0, OUT_ALL=0)
    ok, r, err = common.attempt(lambda: rundcopf(toggle_dcline(toggle_dcline(c, 'on'), 'off'), o))
    plain = {k: v for k, v in c.items() if not k.startswith('dc')}
    ok2, r2, err2 = common.attempt(rundcopf, plain, o)
    if not ok or not ok2:
        tell(ctx, c, 'off', err or err2)
        return
    ctx.count('off')
    ctx.log('off', same=r['success'] == r2['success'] and common.digest(view(r)) == common.digest(view(r2)) and common.digest(r['dcline']) == common.digest(c['dcline']))


def impossible(ctx, rng):
    c = case(rng)
    live = [n for n in c['bus'][c['bus'][:, 1] != 4, 0]]
    f, t = rng.choice(live, 2, replace=False)
    at = (c['branch'][:, 0] == f) | (c['branch'][:, 1] == f)
    c['branch'][at, 5] = 10.
    k = c['bus'][:, 0] == f
    c['bus'][k, 2] = abs(c['bus'][k, 2])
    c['bus'][k, 4] = abs(c['bus'][k, 4])
    row = line(rng, c, f, t, 1, 'forward')
    row[9] = 10. * at.sum() + np.maximum(0, c['gen'][c['gen'][:, 0] == f, 8]).sum() + 5
    row[10] = row[9] + 20
    c['dcline'] = row[None, :]
    c.pop('dclinecost', None)
    ok, r, err = common.attempt(rundcopf, toggle_dcline(c, 'on'), ppoption(VERBOSE=0, OUT_ALL=0))
    if not ok:
        tell(ctx, c, 'impossible', err)
        return
    ctx.count('impossible')
    ctx.log('impossible', c=view(c), success=bool(r['success']), **lines(c))


def bad(ctx, rng):
    c = case(rng)
    todo = [('missing', 'on', lambda x: x.pop('dcline')), ('narrow', 'on', lambda x: x.update(dcline=x['dcline'][:, :16])),
            ('costs', 'on', lambda x: x.update(dclinecost=np.zeros((len(x['dcline']) + 1, 6)))), ('word', 'maybe', lambda x: None)]
    for name, word, f in todo:
        x = copy.deepcopy(c)
        f(x)
        try:
            toggle_dcline(x, word)
            rejected = False
        except (ValueError, TypeError, KeyError) as e:
            rejected = isinstance(e, ValueError)
        ctx.count('bad data')
        ctx.log('bad', what=name, rejected=rejected)


def run(ctx):
    rng = ctx.rng
    shapes = ctx.check_design('DcLinesMC', 'DcLinesMC.cfg', 8)
    if ctx.thorough:
        ctx.check_design('DcLinesMC', 'DcLinesMCdeep.cfg', 8)
    stat = [0, 0]
    pick = iter(rng.permutation(len(shapes)))

    def some(k):
        return case(rng, shapes[int(next(pick))] if k % 2 else None)
    for k in range(ctx.n(160, 1400)):
        solve(ctx, rng, some(k), stat)
    for k in range(ctx.n(90, 800)):
        flow(ctx, rng, some(k))
    for k in range(ctx.n(30, 300)):
        back(ctx, some(k))
    for k in range(ctx.n(6, 60)):
        off(ctx, rng, some(k))
    for _ in range(ctx.n(8, 80)):
        impossible(ctx, rng)
    for _ in range(ctx.n(2, 10)):
        bad(ctx, rng)
    ctx.log('rate', tried=stat[0], solved=stat[1], percent=50)
    ctx.judge('DcLinesTrace')
