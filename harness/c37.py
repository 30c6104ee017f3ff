import numpy as np
from scipy.sparse import csr_matrix

import common
from nlp import INF, limits, psd, qgrad, quad, qval
from pypower.pips import pips

NAMES = dict(lower='lower', upper='upper', mul='mu_l', muu='mu_u', lam='eqnonlin', mu='ineqnonlin')

EASY = [0, 0]


def problem(rng, n, kinds, nonlinear, convex):
    v = np.round(rng.normal(size=n) * 2, 3)
    m = len(kinds) - n
    A = np.round(rng.normal(size=(m, n)), 2)
    narrow = .5 * (rng.random() < .2)
    xmin, xmax = limits(rng, kinds[:n], v, narrow=narrow)
    l, u = limits(rng, kinds[n:], A.dot(v), narrow=narrow)
    p = {'H': psd(rng, n) if convex else psd(rng, n) - 2 * psd(rng, n, 1), 'c': np.round(rng.normal(size=n) * 3, 2),
         'q': np.round(rng.random(n), 2) * (rng.random() < .5) * (1 if convex else 1),
         'A': A, 'l': l, 'u': u, 'xmin': xmin, 'xmax': xmax, 'g': [], 'h': []}
    if nonlinear:
        p['h'] = [quad(rng, n, v, True if convex or rng.random() < .6 else False, slack=round(float(rng.uniform(.2, 3)), 2))
                  for _ in range(int(rng.integers(0, 3)))]
        p['g'] = [quad(rng, n, v, None if convex else False) for _ in range(int(rng.integers(0, 2)) if n > 1 else 0)]
    return p, v


def solve(ctx, p, v, convex):
    rng = ctx.rng
    n = len(v)
    xs = []

    def f_fcn(x, hess=False):
        if not hess:
            xs.append(np.array(x, float))
        f = .5 * x.dot(p['H']).dot(x) + p['c'].dot(x) + p['q'].dot(x**4)
        df = p['H'].dot(x) + p['c'] + 4 * p['q'] * x**3
        if not hess:
            return f, df
        return f, df, csr_matrix(p['H'] + np.diag(12 * p['q'] * x**2))

    def gh_fcn(x):
        h = np.array([qval(q, x) for q in p['h']])
        g = np.array([qval(q, x) for q in p['g']])
        dh = csr_matrix(np.array([qgrad(q, x) for q in p['h']]).T) if p['h'] else None
        dg = csr_matrix(np.array([qgrad(q, x) for q in p['g']]).T) if p['g'] else None
        return h, g, dh, dg

    def hess_fcn(x, lm, mult=1):
        L = mult * (p['H'] + np.diag(12 * p['q'] * x**2))
        for k, q in enumerate(p['h']):
            L = L + lm['ineqnonlin'][k] * q['G']
        for k, q in enumerate(p['g']):
            L = L + lm['eqnonlin'][k] * q['G']
        return csr_matrix(L)
    opt = {}
    tol = dict(feas=1e-6, grad=1e-6, comp=1e-6, cost=1e-6)
    if rng.random() < .3:
        tol = dict(feas=1e-8, grad=1e-7, comp=1e-7, cost=1e-7)
        opt.update(feastol=1e-8, gradtol=1e-7, comptol=1e-7, costtol=1e-7)
    mx = 150
    if rng.random() < .2:
        mx = opt['max_it'] = int(rng.integers(0, 12))
    mult = 1
    if rng.random() < .25:
        mult = opt['cost_mult'] = float(rng.choice([.01, 1e-3, 10.]))
    sc = rng.random() < .3
    if sc or rng.random() < .2:
        opt['step_control'] = bool(sc)
        if rng.random() < .3:
            opt['max_red'] = int(rng.integers(1, 5))
    x0 = np.round(v + rng.normal(size=n), 2) if rng.random() < .7 else np.zeros(n)
    kw = {'x0': x0}
    if len(p['A']) or rng.random() < .3:
        kw['A'] = csr_matrix(p['A']) if len(p['A']) else None
    for a, free in (('l', -INF), ('u', INF), ('xmin', -INF), ('xmax', INF)):
        if len(p[a]) and not ((p[a] == free).all() and rng.random() < .5):
            kw[a] = p[a].copy()
        elif rng.random() < .2:
            kw[a] = np.array([]) if rng.random() < .5 else None
    if p['g'] or p['h']:
        kw.update(gh_fcn=gh_fcn, hess_fcn=hess_fcn)
    elif rng.random() < .1:
        kw.update(gh_fcn=gh_fcn, hess_fcn=hess_fcn)
    if opt or rng.random() < .3:
        kw['opt'] = opt
    data = [kw.get(k) for k in ('x0', 'A', 'l', 'u', 'xmin', 'xmax', 'opt')]
    d0 = common.digest(data)
    if rng.random() < .3:
        ok, r, err = common.attempt(pips, dict(kw, f_fcn=f_fcn))
    else:
        ok, r, err = common.attempt(pips, f_fcn, **kw)
    if not ok:
        ctx.log('raised', what='pips', err=err, p=p, opt=opt)
        return
    neq = sum(a == b for a, b in zip(p['l'], p['u'])) + sum(a == b for a, b in zip(p['xmin'], p['xmax'])) + len(p['g'])
    easy = convex and mx == 150 and not sc and neq < n and mult == 1
    o, lm = r['output'], r['lmbda']
    s = {k: np.asarray(lm.get(w, [])) for k, w in NAMES.items()}
    s['x'] = r['x']
    if easy:
        EASY[0] += 1
        EASY[1] += int(r['eflag'] == 1)
    ctx.count('converged' if r['eflag'] else 'not converged')
    ctx.log('pips', p=p, s=s, f=r['f'], conv=bool(r['eflag'] == 1), tol=tol, mult=mult, max=mx, it=o['iterations'], message=o['message'],
            hist=[{a: b for a, b in h.items()} for h in o['hist']], xs=[] if sc else xs, sc=bool(sc),
            untouched=common.digest(data) == d0)


def run(ctx):
    rng = ctx.rng
    combos = ctx.check_design('BoundsMC', 'BoundsMCdeep.cfg' if ctx.thorough else 'BoundsMC.cfg')
    n = ctx.n(500, 4000)
    if len(combos) > n:
        combos = [combos[i] for i in rng.choice(len(combos), n, replace=False)]
    for c in combos:
        convex = rng.random() < .6
        p, v = problem(rng, c['n'], c['kinds'], rng.random() < .5, convex)
        solve(ctx, p, v, convex)
    kinds = ['free', 'lower', 'upper', 'box', 'fixed']
    for _ in range(ctx.n(150, 2000)):
        n, m = int(rng.integers(3, 7)), int(rng.integers(0, 5))
        convex = rng.random() < .6
        ks = [str(x) for x in rng.choice(kinds, n + m, p=[.25, .2, .2, .25, .1])]
        p, v = problem(rng, n, ks, rng.random() < .5, convex)
        solve(ctx, p, v, convex)
    ctx.log('rate', total=EASY[0], solved=EASY[1])
    ctx.judge('NlpTrace')
