import numpy as np
from scipy.sparse import csr_matrix

import common
from nlp import INF, limits, psd
from pypower.qps_pypower import qps_pypower
from pypower.qps_pips import qps_pips

TOL = dict(feas=1e-6, grad=1e-6, comp=1e-6, cost=1e-6)
RATE = [0, 0]


def built(rng, n, kinds, lp):
    """a convex program with a known optimum, from its optimality conditions"""
    v = np.round(rng.normal(size=n) * 2, 3)
    m = len(kinds) - n
    A = np.round(rng.normal(size=(m, n)), 2)
    H = np.zeros((n, n)) if lp else psd(rng, n, None if rng.random() < .5 else int(rng.integers(1, n + 1)))
    xmin, xmax = limits(rng, kinds[:n], v)
    l, u = limits(rng, kinds[n:], A.dot(v))
    lo, up = np.r_[xmin, l], np.r_[xmax, u]
    val = np.r_[v, A.dot(v)]
    M = np.vstack([np.eye(n), A])
    # active rows are independent and leave one optimum: strictly feasible points exist, multipliers are unique
    grad = np.zeros(n)                 # = -(H v + c) = sum of (muu - mul) * row
    act = np.zeros((0, n))

    def independent(k):
        return np.linalg.svd(np.vstack([act, M[k]]), compute_uv=False)[-1] > .05 if len(act) < n else False
    for k, t in enumerate(kinds):
        if t == 'fixed':
            if independent(k):
                act = np.vstack([act, M[k]])
                grad += np.round(rng.normal() * 2, 2) * M[k]
            else:
                lo[k], up[k] = lo[k] - 1, up[k] + 1
    want = .35
    for k in rng.permutation(len(kinds)):
        t = kinds[k]
        w = rng.random()
        full = np.linalg.svd(np.vstack([H, act]), compute_uv=False)[-1] > .05
        if t not in ('lower', 'box', 'upper') or (full and w > want) or not independent(k):
            continue
        act = np.vstack([act, M[k]])
        if t == 'lower' or t == 'box' and w < want / 2:
            lo[k] = val[k]
            grad -= np.round(rng.uniform(.05, 3), 2) * M[k]
        else:
            up[k] = val[k]
            grad += np.round(rng.uniform(.05, 3), 2) * M[k]
    if np.linalg.svd(np.vstack([H, act]), compute_uv=False)[-1] <= .05:
        H = H + np.eye(n)
    c = np.round(-grad - H.dot(v), 9)
    return {'H': H, 'c': c, 'q': np.zeros(n), 'A': A, 'l': lo[n:], 'u': up[n:], 'xmin': lo[:n], 'xmax': up[:n], 'g': [], 'h': []}, v


def call(ctx, p, truth, v):
    rng = ctx.rng
    n = len(v)
    alg = int(rng.choice([0, 200, 250]))
    opt = {}
    if alg or rng.random() < .5:
        opt['alg'] = alg
    if rng.random() < .2:
        opt['max_it'] = int(rng.choice([0, 150]))
    if rng.random() < .2:
        opt['verbose'] = 0
    mult = 1
    tol = TOL
    if rng.random() < .25:
        po = opt['pips_opt'] = {}
        if rng.random() < .5:
            tol = dict(feas=1e-7, grad=1e-7, comp=1e-7, cost=1e-7)
            po.update(feastol=1e-7, gradtol=1e-7, comptol=1e-7, costtol=1e-7)
        if rng.random() < .5:
            mult = po['cost_mult'] = float(rng.choice([.1, 1e-2]))
    kw = {}
    zero = not p['H'].any()
    if not zero or rng.random() < .4:
        kw['H'] = csr_matrix(p['H']) if rng.random() < .8 else p['H'].copy()
    else:
        kw['H'] = None
    kw['c'] = p['c'].copy()
    if len(p['A']):
        kw['A'] = csr_matrix(p['A'])
        for a, free in (('l', -INF), ('u', INF)):
            kw[a] = None if (p[a] == free).all() and rng.random() < .5 else p[a].copy()
    for a, free in (('xmin', -INF), ('xmax', INF)):
        if not ((p[a] == free).all() and rng.random() < .5) or (kw['H'] is None and 'A' not in kw and a == 'xmin'):
            kw[a] = p[a].copy()
    if rng.random() < .6:
        kw['x0'] = np.round(v + rng.normal(size=n), 2)
    form = rng.integers(0, 3)
    d0 = common.digest([kw, opt])
    direct = rng.random() < .2 and not (opt.get('alg') or opt.get('max_it') == 0)
    pass_opt = opt or rng.random() < .3
    if direct:                       # the interior point back end itself
        o = dict(opt.get('pips_opt', {}))
        f = {k: w for k, w in kw.items() if w is not None or rng.random() < .5}
        if form == 0:
            a = [kw.get(k) for k in ('H', 'c', 'A', 'l', 'u', 'xmin', 'xmax', 'x0')]
            ok, r, err = common.attempt(qps_pips, *a, o)
        else:
            q = dict(f, opt=o) if o or rng.random() < .3 else f
            d1 = common.digest(q)
            ok, r, err = common.attempt(lambda: qps_pips(q, None, None, None, None))
            if common.digest(q) != d1:
                d0 = None
    elif form == 0:
        a = [kw.get(k) for k in ('H', 'c', 'A', 'l', 'u', 'xmin', 'xmax', 'x0')]
        ok, r, err = common.attempt(qps_pypower, *(a + [opt] if pass_opt else a))
    elif form == 1:
        if pass_opt:
            ok, r, err = common.attempt(lambda: qps_pypower(kw.get('H'), **{k: w for k, w in kw.items() if k != 'H'}, opt=opt))
        else:
            ok, r, err = common.attempt(lambda: qps_pypower(kw.get('H'), **{k: w for k, w in kw.items() if k != 'H'}))
    else:
        q = {k: w for k, w in kw.items() if w is not None or rng.random() < .5}
        if pass_opt:
            q['opt'] = opt
        d1 = common.digest(q)
        ok, r, err = common.attempt(qps_pypower, q)
        if common.digest(q) != d1:
            d0 = None
    if not ok:
        ctx.log('raised', what='qps', err=err, p=p, opt=opt)
        return
    x, f, flag, out, lm = r
    s = {'x': x, 'lower': lm['lower'], 'upper': lm['upper'], 'mul': lm['mu_l'], 'muu': lm['mu_u'], 'lam': [], 'mu': []}
    conv = bool(flag == 1)
    plain = truth == 'optimum' and mult == 1 and alg != 250
    if plain:
        RATE[0] += 1
        RATE[1] += int(conv)
    ctx.count('%s %s' % (truth, 'solved' if conv else 'not solved'))
    ctx.log('qp', p=p, s=s, f=f, conv=conv, tol=tol, mult=mult, truth=truth, best=v, alg=200 if direct else alg, used=out.get('alg', 200 if direct else -1),
            untouched=bool(common.digest([kw, opt]) == d0))


def wrong(rng, p, v, truth):
    """make the program infeasible or unbounded"""
    n = len(v)
    if truth == 'infeasible':
        k = int(rng.integers(0, 3))
        gap = np.round(rng.uniform(.5, 5), 2)
        if k == 0 and len(p['A']):                    # a row against a copy of it
            r = int(rng.integers(0, len(p['A'])))
            t = p['A'][r].dot(v)
            p['A'] = np.vstack([p['A'], p['A'][r]])
            p['u'][r] = t
            p['l'][r] = min(p['l'][r], t - 1)
            p['l'] = np.r_[p['l'], t + gap]
            p['u'] = np.r_[p['u'], INF]
        elif k == 1:                                  # crossed limits of a variable
            j = int(rng.integers(0, n))
            p['xmin'][j] = v[j] + gap
            p['xmax'][j] = v[j]
        else:                                         # a sum beyond its bounds
            p['xmin'], p['xmax'] = v - 1, v + 1
            p['A'] = np.vstack([p['A'], np.ones(n)])
            p['l'] = np.r_[p['l'], v.sum() + n + gap]
            p['u'] = np.r_[p['u'], INF]
    else:                                             # a direction that is free and pays
        j = int(rng.integers(0, n))
        s = 1 if rng.random() < .5 else -1
        p['H'][j, :] = p['H'][:, j] = 0
        if len(p['A']):
            p['A'][:, j] = 0
        p['c'][j] = -s * np.round(rng.uniform(.5, 3), 2)
        p['xmax' if s > 0 else 'xmin'][j] = s * INF
        if rng.random() < .5:
            p['xmin' if s > 0 else 'xmax'][j] = -s * INF


def run(ctx):
    rng = ctx.rng
    RATE[:] = [0, 0]
    combos = ctx.check_design('BoundsMC', 'BoundsMCdeep.cfg' if ctx.thorough else 'BoundsMC.cfg')
    n = ctx.n(450, 4000)
    if len(combos) > n:
        combos = [combos[i] for i in rng.choice(len(combos), n, replace=False)]
    kinds = ['free', 'lower', 'upper', 'box', 'fixed']
    todo = [(c['n'], c['kinds']) for c in combos]
    for _ in range(ctx.n(150, 2000)):
        n, m = int(rng.integers(3, 7)), int(rng.integers(0, 5))
        todo.append((n, [str(x) for x in rng.choice(kinds, n + m, p=[.25, .2, .2, .25, .1])]))
    small = len(todo)
    for n in (1, 2) * ctx.n(10, 60):        # nothing but bounds
        todo.append((n, [str(x) for x in rng.choice(kinds[1:], n)]))
    for i, (n, ks) in enumerate(todo):
        p, v = built(rng, n, ks, rng.random() < (.8 if i >= small else .35))
        t = rng.random()
        truth = 'optimum' if t < .75 else 'infeasible' if t < .9 else 'unbounded'
        if truth != 'optimum':
            wrong(rng, p, v, truth)
        call(ctx, p, truth, v)
    c, A = np.array([1., 2.]), csr_matrix(np.array([[1., 1.]]))
    H = csr_matrix(np.eye(2))
    for a in (-1, 1, 100, 199, 201, 249, 300, 350, 450, 999):
        ok, r, err = common.attempt(lambda: qps_pypower(H, c, A, np.array([1.]), np.array([2.]), opt={'alg': a}))
        ctx.log('bad', what='algorithm code %d' % a, ok=ok)
    for q in ({'H': None, 'c': c}, {'c': c}, {'c': c, 'A': None}):
        ok, r, err = common.attempt(qps_pypower, q)
        ctx.log('bad', what='no constraint', ok=ok)
    ctx.log('rate', total=RATE[0], solved=RATE[1])
    ctx.judge('NlpTrace')
