"""C39: continuation power flow."""
import copy

import numpy as np

import common
import gen
from gen import rnd
import pf
from pf import QUIET, view
from pypower import cpf_callbacks
from pypower.ppoption import ppoption
from pypower.runcpf import runcpf

SEEN = []


class TooLong(Exception):
    pass


def vp_note(k, V_c, lam_c, V_p, lam_p, cb_data, cb_state, cb_args, results=None, is_final=False):
    if len(SEEN) > 300:
        raise TooLong('%s' % [x[3] for x in SEEN[-5:]])
    SEEN.append((bool(is_final), int(k), np.array(V_c), float(lam_c), np.array(V_p), float(lam_p), cb_args))
    if is_final:
        results['noted'] = len(SEEN)
    return cb_state, results


def vp_other(k, V_c, lam_c, V_p, lam_p, cb_data, cb_state, cb_args, results=None, is_final=False):
    return cb_state, results


cpf_callbacks.vp_note = vp_note
cpf_callbacks.vp_other = vp_other


def two(rng):
    """a load at the end of a line"""
    base = float(rng.choice([100., 10., 50.]))
    s = base / 100.
    no = rng.choice(np.arange(1, 80), 2, replace=False)
    bus = np.zeros((2, 13))
    bus[:, 0] = no
    bus[:, 1] = 3, 1
    bus[1, 2:4] = rnd(rng, 5, 40) * s, rnd(rng, -10, 15) * s
    bus[:, 6] = bus[:, 10] = 1
    bus[:, 7], bus[:, 9], bus[:, 11], bus[:, 12] = 1, 100, 1.1, .9
    bus[0, 8] = rng.choice([0, rnd(rng, -30, 30)])
    g = np.zeros((1, 21))
    g[0, [0, 5, 6, 7, 8]] = no[0], rnd(rng, .95, 1.08), base, 1, 500
    g[0, 3:5] = 500, -500
    br = np.zeros((1, 13))
    br[0, :2] = no if rng.random() < .5 else no[::-1]
    br[0, 2:4] = rng.choice([0, rnd(rng, .005, .1)]), rnd(rng, .1, .4)
    br[0, 10:] = 1, -360, 360
    if rng.random() < .5:
        bus = bus[::-1].copy()
    c = {'version': '2', 'baseMVA': base, 'bus': bus, 'gen': g, 'branch': br}
    t = copy.deepcopy(c)
    k = int(np.flatnonzero(bus[:, 1] == 1)[0])
    z = br[0, 2] + 1j * br[0, 3]
    u = (bus[k, 2] + 1j * bus[k, 3]) / base
    nose = g[0, 5] ** 2 / 2 / ((z * u.conjugate()).real + abs(z * u))
    t['bus'][k, 2:4] *= 1 + (nose - 1) / rng.uniform(.4, 3)
    lam = (nose - 1) / (t['bus'][k, 2] / bus[k, 2] - 1)
    return c, t, lam


def net(rng):
    c = gen.network(rng, nb=int(rng.integers(2, 6)), iso=.3)
    c = {k: c[k] for k in ('version', 'baseMVA', 'bus', 'gen', 'branch') if k in c}
    t = copy.deepcopy(c)
    up = rnd(rng, 5, 20, len(t['bus'])) if rng.random() < .5 else float(rng.choice([5, 10, 15]))
    t['bus'][:, 2] *= up
    t['bus'][:, 3] *= up
    if rng.random() < .6:
        t['gen'][:, 1] = np.round(t['gen'][:, 1] * rng.uniform(.8, 8), 3)
    if rng.random() < .2:
        t['gen'][:, 2] = np.round(t['gen'][:, 2] + 1, 3)
    return c, t, None


def trace(ctx, rng, x, k, kind=None):
    kind = kind or (x['stop']['kind'] if x else str(rng.choice(['nose', 'full', 'at'])))
    c, t, nose = two(rng) if k % 3 == 0 else net(rng)
    special = ''
    if k % 23 == 7:
        t, special = copy.deepcopy(c), 'alike'
        if rng.random() < .5:
            t['branch'][:, 5] = 99
            t['bus'][:, 10] = 2
    elif k % 23 == 15:
        c['bus'][:, 2:4] *= 40
        special = 'no base'
    elif k % 5 == 0:
        tab = 'gen' if nose else str(rng.choice(['gen', 'bus']))
        c, t = (dict(d, **{tab: np.round(d[tab]).astype(int)}) for d in (c, t))
        special = 'integers'
    if k % 4 == 1:          # tables without the columns of results, or with only some of them
        n = int(rng.choice([14, 15, 16, 17]))
        for d in (c, t):
            d['branch'] = np.c_[d['branch'], np.zeros((len(d['branch']), n - 13))]
    param = 1 if x and x['natural'] else int(rng.choice([2, 3, 3]))
    adapt = bool(x['adapt']) if x else bool(rng.random() < .5)
    step = float(rng.choice([.02, .05, .1, .1]))
    if kind == 'at':
        near = (x['stop']['at'] / 4.) if x else rng.random() * 1.3
        at = float(near * (nose if nose else rng.uniform(.3, 2)))
        if rng.random() < .2:
            at = float(np.round(at, 1))
        if rng.random() < .15:
            at = step * float(rng.choice([.3, 1., 2.]))
    else:
        at = 0
    opt = dict(CPF_PARAMETERIZATION=param, CPF_ADAPT_STEP=adapt, CPF_STEP=step, CPF_STEP_MIN=1e-3 if rng.random() < .7 else .01,
               CPF_STEP_MAX=float(rng.choice([.1, .2])), CPF_ERROR_TOL=float(rng.choice([1e-3, 5e-3])) , PF_TOL=float(rng.choice([1e-8, 1e-8, 1e-6])),
               CPF_STOP_AT={'nose': str(rng.choice(['NOSE', 'nose'])), 'full': str(rng.choice(['FULL', 'full']))}.get(kind, at),
               CPF_USER_CALLBACK=['vp_note', ['vp_note'], ['vp_other', 'vp_note']][int(rng.integers(3))])
    if rng.random() < .3:
        opt['CPF_USER_CALLBACK_ARGS'] = {'a': 1}
    o = ppoption(**dict(QUIET, VERBOSE=int(rng.choice([0, 0, 0, 1, 2, 3]))), **opt)
    before = common.digest([c, t, o])
    SEEN.clear()
    ok, v, err = common.attempt(runcpf, c, t, o)
    if not ok and err.startswith('TooLong'):
        ctx.count('never-ending %s (skipped)' % kind)
        return None
    if not ok:
        ctx.log('raised', what='runcpf', err=err, c=view(c), t=view(t), opt={k: str(v) for k, v in opt.items()})
        return None
    r, success = v
    ctx.count('%s %s%s' % (kind, special or ('two' if nose else 'net'), '' if success else ' failed'))
    pts = [dict(k=s[1], v=s[2], lam=s[3], vp=s[4], lamp=s[5], a=np.angle(s[2]), ap=np.angle(s[4])) for s in SEEN if not s[0]]
    if len(pts) > 160:
        ctx.count('long (skipped)')
        return bool(success)
    ends = [dict(k=s[1], lam=s[3]) for s in SEEN if s[0]]
    cpf = {}
    if success:
        f = r['cpf']
        cpf = dict(vc=f['V_c'], vp=f['V_p'], lamc=f['lam_c'], lamp=f['lam_p'], iterations=f['iterations'], max=f['max_lam'], noted=f.get('noted', -1))
    ctx.count('points', len(pts))
    ctx.log('cpf', b=view(c), t=view(t), r=view(r), success=bool(success) and bool(r['success']), pts=pts, ends=ends, cpf=cpf, args=all(x[6] == o['CPF_USER_CALLBACK_ARGS'] for x in SEEN), calls=len(SEEN), two=bool(nose and special in ('', 'integers')),
            easy=special in ('', 'integers'), param=param, adapt=adapt, step=step, min=opt['CPF_STEP_MIN'], max=opt['CPF_STEP_MAX'],
            stop={'kind': kind, 'at': at}, tol=opt['PF_TOL'], untouched=before == common.digest([c, t, o]))
    return bool(success)


def run(ctx):
    rng = ctx.rng
    plans = ctx.check_design('ContinuationMC', 'ContinuationMC.cfg', 8)
    if ctx.thorough:
        ctx.check_design('ContinuationMC', 'ContinuationMCdeep.cfg', 8)
    pick = rng.permutation(len(plans))
    tried = solved = 0
    for k in range(ctx.n(110, 1000)):
        ok = trace(ctx, rng, plans[int(pick[k % len(pick)])] if k % 2 or k % 3 == 0 else None, k)
        e = ctx.events[-1] if ctx.events else {}
        if ok is not None and e.get('ev') == 'cpf' and e['param'] != 1 and e['stop']['kind'] == 'nose' and e['easy']:
            tried += 1
            solved += ok
    ctx.log('rate', what='nose', tried=tried, solved=solved, percent=75)
    tried = solved = 0
    for k in range(ctx.n(12, 60)):
        ok = trace(ctx, rng, None, 3 * k, 'full')
        if ok is not None and ctx.events[-1]['easy']:
            tried += 1
            solved += ok
    ctx.log('rate', what='full', tried=tried, solved=solved, percent=75)
    ctx.judge('ContinuationTrace')
