"""Drives the power flow routines (C07, C09, ...)."""
import copy

import numpy as np

import common
import gen
from pypower.ppoption import ppoption
from pypower.runpf import runpf
from pypower.rundcpf import rundcpf

QUIET = dict(VERBOSE=0, OUT_ALL=0)


def view(c, cost=False):
    d = {'baseMVA': c['baseMVA'], 'bus': c['bus'], 'gen': c['gen'], 'branch': c['branch']}
    if cost:
        d['gencost'] = c['gencost']
    return d


def integral(rng, c):
    """now and then the same case with a table written in whole numbers, as case files often are"""
    if rng.random() < .3:
        k = str(rng.choice(['gen', 'gen', 'bus']))
        c = dict(c, **{k: np.round(c[k]).astype(int)})
    return c


def widths(rng, c):
    """the same case with tables as wide as an earlier result, or part of one, left them"""
    if rng.random() < .4:
        c = dict(c)
        for k, w in (('branch', (13, 14, 15, 16, 17, 19, 21)), ('bus', (13, 15, 17)), ('gen', (10, 12, 21, 25))):
            t, n = c[k], int(rng.choice(w))
            more = np.round(rng.uniform(-9, 9, (len(t), max(0, n - t.shape[1]))), 2)
            c[k] = np.c_[t[:, :n], more]
    return c


def ac_events(ctx, c, algs, tol=1e-8, what=''):
    """solve with every method; record the ones that report success (whether they must is C08's subject)"""
    r1 = None
    c = widths(ctx.rng, integral(ctx.rng, c))
    for alg in algs:
        opt = ppoption(PF_ALG=alg, PF_TOL=tol, PF_MAX_IT=20, PF_MAX_IT_FD=60, PF_MAX_IT_GS=3000, **QUIET)
        d0 = common.digest(c)
        ok, v, err = common.attempt(runpf, c, opt)
        if not ok:
            ctx.log('raised', what='runpf alg %d' % alg, err=err, c=view(c))
            continue
        r, success = v
        if alg == algs[0]:
            if not success:
                ctx.count('no solution (skipped)')
                return
            r1 = r
        elif not success:
            ctx.count('alg %d did not converge' % alg)
            continue
        ctx.count('alg %d' % alg)
        ctx.log('ac', c=view(c), r=view(r), r1={'bus': r1['bus']}, success=bool(success) and bool(r['success']), tol=tol, alg=alg,
                agree=1e-4 if alg == 4 else 1e-5, untouched=common.digest(c) == d0)


def dc_event(ctx, c, via):
    c = widths(ctx.rng, integral(ctx.rng, c))
    if via:
        ok, v, err = common.attempt(rundcpf, c, ppoption(**QUIET))
    else:
        ok, v, err = common.attempt(runpf, c, ppoption(PF_DC=1, **QUIET))
    if not ok:
        ctx.log('raised', what='rundcpf', err=err, c=view(c))
        return
    r, success = v
    ctx.log('dc', c=view(c), r=view(r), success=bool(success) and bool(r['success']))
