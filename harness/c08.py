import numpy as np
import common
import gen
from c13 import internal
from pf import view, QUIET
from pypower.bustypes import bustypes
from pypower.fdpf import fdpf
from pypower.gausspf import gausspf
from pypower.makeB import makeB
from pypower.makeSbus import makeSbus
from pypower.makeYbus import makeYbus
from pypower.newtonpf import newtonpf
from pypower.ppoption import ppoption
from pypower.runpf import runpf


def problem(ctx, heavy):
    c = internal(ctx, gen.network(ctx.rng, nb=int(ctx.rng.integers(2, 7)), iso=0, load=heavy), False)
    ref, pv, pq = bustypes(c['bus'], c['gen'])
    V0 = c['bus'][:, 7] * np.exp(1j * np.pi / 180 * c['bus'][:, 8])
    for b, vg, st in zip(c['gen'][:, 0].astype(int), c['gen'][:, 5], c['gen'][:, 7]):
        if st > 0 and b not in pq:
            V0[b] *= vg / abs(V0[b])
    return c, ref, pv, pq, V0


def solver(ctx, method, heavy, start):
    c, ref, pv, pq, V0 = problem(ctx, heavy)
    Y = makeYbus(c['baseMVA'], c['bus'], c['branch'])[0]
    S = makeSbus(c['baseMVA'], c['bus'], c['gen'])
    tol = float(ctx.rng.choice([1e-8, 1e-8, 1e-6, 1e-4, 1e-2]))
    K = {'newton': 6, 'fd': 14, 'gauss': 6}[method]
    limits = list(range(K)) + [{'newton': 12, 'fd': 60, 'gauss': 1500}[method]]
    Bp, Bpp = makeB(c['baseMVA'], c['bus'], c['branch'], 2 + int(ctx.rng.integers(0, 2)))

    def call(m, V, lim, t):
        o = ppoption(PF_TOL=t, PF_MAX_IT=lim, PF_MAX_IT_FD=lim, PF_MAX_IT_GS=lim, **QUIET)
        if m == 'newton':
            return newtonpf(Y, S, V, ref, pv, pq, o)
        if m == 'fd':
            return fdpf(Y, S, V, Bp, Bpp, ref, pv, pq, o)
        return gausspf(Y, S, V, ref, pv, pq, o)
    if start == 'solved':
        ok, v, err = common.attempt(call, 'newton', V0.copy(), 30, 1e-11)
        if not ok or not v[1]:
            return
        V0 = v[0]
    runs = []
    d0 = common.digest([S, V0, Y, Bp, Bpp, ref, pv, pq])
    d1 = None
    for lim in limits:
        ok, v, err = common.attempt(call, method, V0, lim, tol)
        if not ok:
            ctx.log('raised', what=method, err=err, c=view(c))
            return
        d1 = common.digest([S, V0, Y, Bp, Bpp, ref, pv, pq])
        runs.append({'max': lim, 'conv': bool(v[1]), 'it': int(v[2]), 'V': v[0]})
    # the sequence of limits must be gap free for Consistent: keep the long run apart
    tail = runs.pop()
    base = dict(method=method, Y=Y, S=S, V0=V0, ref=ref, pv=pv, pq=pq, tol=tol, untouched=d0 == d1)
    ctx.log('solver', runs=runs, **base)
    ctx.log('long', run=tail, easy=bool(heavy <= 1 and start == 'near' and method != 'gauss'), prefix=[
        {'conv': r['conv'], 'it': r['it']} for r in runs], **base)
    ctx.count(method + (' converged' if tail['conv'] else ' not converged'))


def whole(ctx, k):
    load = [1., 1., 3., 4000.][k % 4]
    c = gen.network(ctx.rng, load=load, islands=.12)
    alg = 1 + (k // 4) % 4
    tol = float(ctx.rng.choice([1e-8, 1e-5, 1e-3]))
    lim = int(ctx.rng.choice([0, 1, 2, 3, 5, 30]))
    o = ppoption(PF_ALG=alg, PF_TOL=tol, PF_MAX_IT=lim, PF_MAX_IT_FD=lim, PF_MAX_IT_GS=lim * 20, VERBOSE=0,
                 OUT_ALL=1 if k % 5 == 0 else 0)
    ok, v, err = common.attempt(runpf, c, o)
    if not ok:
        ctx.log('raised', what='runpf alg %d' % alg, err=err, c=view(c))
        return
    r, success = v
    ctx.log('run', c=view(c), r=view(r), success=bool(success), rsuccess=bool(r['success']), tol=tol, alg=alg, lim=lim,
            hopeless=bool(load == 4000. and c['bus'][c['bus'][:, 1] == 1, 2].max(initial=0) > 3e4 * c['baseMVA'] / 100))
    ctx.count('run %s' % ('converged' if success else 'failed'))


def run(ctx):
    ctx.check_design('SolverLoopMC', 'SolverLoopMC.cfg')
    for k in range(ctx.n(90, 900)):
        m = ('newton', 'fd', 'gauss')[k % 3]
        solver(ctx, m, [1., 1., .5, 4., 30.][(k // 3) % 5], 'solved' if k % 7 == 0 else 'near')
    for k in range(ctx.n(160, 1200)):
        whole(ctx, k)
    ctx.judge('SolverTrace')
