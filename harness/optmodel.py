"""Drives opf_model through histories of additions and questions (C05, C06)."""
import numpy as np
from scipy.sparse import csr_matrix, issparse, lil_matrix

import common
from pypower.opf_model import opf_model

LETTERS = 'abcdefghijklmn'


def arr(m):
    return m.toarray() if issparse(m) else np.asarray(m)


def val(rng, shape, ints=True):
    return rng.integers(-9, 10, shape).astype(float) if ints else np.round(rng.normal(size=shape), 3)


def random_history(rng, length, maxn):
    h, names = [], []
    for k in range(length):
        op = rng.choice(['var', 'lin', 'nln', 'cost', 'var', 'cost'] if names else ['var', 'nln'])
        vs = []
        if op in ('lin', 'cost') and rng.random() < .7:
            vs = [str(x) for x in rng.permutation(names)[:rng.integers(1, len(names) + 1)]]
        if op == 'var':
            names.append(LETTERS[k])
        h.append({'op': str(op), 'n': int(rng.integers(0, maxn + 1)), 'vs': vs})
    return h


def fill(rng, h):
    """give the operations of a history data; returns steps [op, b]"""
    size, order, steps = {}, [], []
    some = lambda n, lo=-9: val(rng, n) if n and rng.random() < .6 else []
    for k, o in enumerate(h):
        nm, n = LETTERS[k], o['n']
        b = {'name': nm, 'n': n}
        nv = sum(size[v] for v in (o['vs'] or order))
        if o['op'] == 'var':
            b.update(v0=some(n), vl=some(n), vu=some(n))
            size[nm] = n
            order.append(nm)
        elif o['op'] == 'lin':
            b.update(a=val(rng, (n, nv)), l=some(n), u=some(n), vs=o['vs'])
        elif o['op'] == 'cost':
            H = val(rng, (n, n))
            b.update(N=val(rng, (n, nv)), Cw=val(rng, n), H=H + H.T if n and rng.random() < .6 else [],
                     dd=rng.choice([1., 2.], n) if n and rng.random() < .6 else [], rh=some(n),
                     kk=rng.integers(0, 6, n).astype(float) if n and rng.random() < .6 else [],
                     mm=some(n), vs=o['vs'])
        steps.append({'op': o['op'], 'b': b})
    return steps


def add(rng, om, s):
    b, op = s['b'], s['op']
    def opt(x):
        return np.array(x, float) if len(x) else (None if rng.random() < .5 else np.array([]))
    if op == 'var':
        om.add_vars(b['name'], b['n'], opt(b['v0']), opt(b['vl']), opt(b['vu']))
    elif op == 'nln':
        om.add_constraints(b['name'], b['n'], 'nonlinear')
    elif op == 'lin':
        e = lambda x: np.array(x, float) if len(x) else np.array([])
        vs = list(b['vs']) or (None if rng.random() < .5 else [])
        om.add_constraints(b['name'], sp(rng, b['a']), e(b['l']), e(b['u']), vs)
    elif op == 'cost':
        cp = {'N': sp(rng, b['N']), 'Cw': np.array(b['Cw'], float)}
        if len(b['H']):
            cp['H'] = csr_matrix(b['H'])
        for k in ('dd', 'rh', 'kk', 'mm'):
            if len(b[k]):
                cp[k] = np.array(b[k], float)
        om.add_costs(b['name'], cp, list(b['vs']) or (None if rng.random() < .5 else []))


def sp(rng, a):
    return csr_matrix(np.asarray(a, float))


def blocks(om):
    out = {}
    vv = dict(zip(('var', 'lin', 'nln', 'cost'), om.get_idx()))
    for kind in vv:
        s = getattr(om, kind)
        out[kind] = dict(i1=dict(vv[kind]['i1']), iN=dict(vv[kind]['iN']), N=dict(vv[kind]['N']),
                         n={k: om.getN(kind, k) for k in s['order']}, total=om.getN(kind), sets=s['NS'],
                         order=list(s['order']), unknown=om.getN(kind, 'nosuch'))
    return out


def observe(om):
    v0, vl, vu = om.getv()
    A, l, u = om.linear_constraints()
    return dict(blocks=blocks(om),
                vars=dict(v0=v0, vl=vl, vu=vu, named={k: list(om.getv(k)) for k in om.var['order']}),
                lin=dict(A=[] if A is None else arr(A), l=l, u=u))


def params(cp):
    return {k: arr(cp[k]) for k in ('N', 'H', 'Cw', 'dd', 'rh', 'kk', 'mm')}


def ask(rng, om, steps, k):
    """questions about costs, in random order"""
    om.build_cost_params()
    out = []
    names = [''] + [n for n in om.cost['order']]
    for _ in range(int(rng.integers(1, 5))):
        nm = str(rng.choice(names))
        if rng.random() < .4:
            cp = om.get_cost_params() if nm == '' else om.get_cost_params(nm)
            out.append({'ask': 'params', 'name': nm, 'v': params(cp), 'x': []})
        else:
            x = val(rng, om.getN('var'), rng.random() < .5)
            out.append({'ask': 'cost', 'name': nm, 'x': x, 'v': om.compute_cost(x) if nm == '' else om.compute_cost(x, nm)})
    return out


def play(ctx, h, model, costs):
    rng = ctx.rng
    steps = fill(rng, h)
    om = opf_model({})
    rec = []
    for k, s in enumerate(steps):
        r = dict(s)
        ok, _, err = common.attempt(add, rng, om, s)
        if not ok:
            r['raised'] = err
        elif model and (k == len(steps) - 1 or rng.random() < .4):
            ok, o, err = common.attempt(observe, om)
            r.update(o if ok else {'raised': err})
        if ok and costs and om.getN('cost') + (rng.random() < .5) > 0 and (k == len(steps) - 1 or rng.random() < .3):
            ok, o, err = common.attempt(ask, rng, om, steps, k)
            r.update({'asked': o} if ok else {'raised': err})
        rec.append(r)
        if not ok:
            break
    ctx.log('history', steps=rec)
    return om, steps


def histories(ctx, quick, thorough, keep=None):
    cfg = 'OptModelMCdeep.cfg' if ctx.thorough else 'OptModelMC.cfg'
    hs = ctx.check_design('OptModelMC', cfg)
    if keep:
        hs = [h for h in hs if keep(h)]
    n = ctx.n(quick, thorough)
    if len(hs) > n:
        hs = [hs[i] for i in ctx.rng.choice(len(hs), n, replace=False)]
    return hs
