"""Drives ext2int/int2ext and the field converters (C01, C02, C03)."""
import copy

import numpy as np
from scipy.sparse import csr_matrix

import common
from pypower.ext2int import ext2int
from pypower.int2ext import int2ext
from pypower.e2i_data import e2i_data
from pypower.e2i_field import e2i_field
from pypower.i2e_data import i2e_data
from pypower.i2e_field import i2e_field

NBC, NGC, NLC = 13, 21, 13


def payload(rng, n, w):
    return rng.integers(1, 100000, size=(n, w)).astype(float)


def build(rng, busno, btype, gens, brs, opts):
    """a case with the given structure and random integer payload everywhere else"""
    nb, ng, nl = len(busno), len(gens), len(brs)
    bus = payload(rng, nb, NBC)
    bus[:, 0] = busno
    bus[:, 1] = btype
    gen = payload(rng, ng, NGC)
    gen[:, 0] = [g[0] for g in gens]
    gen[:, 7] = [g[1] for g in gens]
    gen[:, 6] = 200000 + np.arange(ng)          # distinct identity
    br = payload(rng, nl, NLC)
    br[:, 0] = [b[0] for b in brs]
    br[:, 1] = [b[1] for b in brs]
    br[:, 10] = [b[2] for b in brs]
    c = {'version': '2', 'baseMVA': 100.0, 'bus': bus, 'gen': gen, 'branch': br}
    if opts.get('cost'):
        c['gencost'] = payload(rng, ng * opts['cost'], 7)
    if opts.get('areas'):
        ar = payload(rng, opts['areas'], 2)
        ar[:, 1] = rng.choice(busno, size=opts['areas'])
        c['areas'] = ar
    n = (nb + ng) * (1 if opts.get('dc') else 2) + opts.get('extra', 0)
    for f in ('A', 'N'):
        if opts.get(f):
            m = payload(rng, opts[f], n)
            m[rng.random(m.shape) < .3] = 0
            c[f] = csr_matrix(m) if opts.get('sparse') else m
    return c


def tables(c):
    return {k: c[k] for k in ('bus', 'gen', 'branch', 'gencost', 'areas', 'A', 'N') if k in c}


def random_case(rng, big=False):
    nb = int(rng.integers(2, 14 if big else 8))
    ng = int(rng.integers(1, 24 if big else 6))
    nl = int(rng.integers(1, 16 if big else 8))
    busno = rng.choice(np.arange(1, 60), size=nb, replace=False)
    if rng.random() < .3:
        busno = np.sort(busno)
    btype = rng.choice([1, 2, 3, 4], p=[.4, .2, .1, .3], size=nb)
    if (btype == 4).all():
        btype[0] = 3
    g = [(rng.choice(busno), rng.choice([1, 0], p=[.75, .25])) for _ in range(ng)]
    on = busno[btype != 4]
    if not any(s and b in on for b, s in g):
        g[0] = (on[0], 1)
    if rng.random() < .12:              # many units at few buses: their order among themselves matters
        ng = int(rng.integers(18, 50))
        few = rng.choice(on, size=min(len(on), 3), replace=False)
        g = [(rng.choice(few), rng.choice([1, 0], p=[.85, .15])) for _ in range(ng)]
        g[0] = (few[0], 1)
    b = [tuple(rng.choice(busno, size=2, replace=False)) + (rng.choice([1, 0], p=[.75, .25]),) for _ in range(nl)]
    opts = {'cost': int(rng.integers(0, 3)), 'areas': int(rng.integers(0, 4)), 'A': int(rng.integers(0, 3)),
            'N': int(rng.integers(0, 3)), 'dc': bool(rng.random() < .3), 'extra': int(rng.integers(0, 3)),
            'sparse': bool(rng.random() < .6)}
    if opts['dc']:
        opts['extra'] = 0
    return build(rng, busno, btype, g, b, opts), opts


def from_model(rng, s, k):
    """a case from a structure emitted by IndexingMC"""
    busno = [8, 3, 10, 5, 1][:len(s['t'])]
    opts = {'cost': k % 3, 'areas': (k // 3) % 3, 'A': (k // 2) % 2, 'N': (k // 5) % 2, 'dc': k % 7 == 0,
            'extra': 0 if k % 7 == 0 else k % 2, 'sparse': k % 4 < 2}
    g = [tuple(x) for x in s['g']]
    return build(rng, np.array(busno), np.array(s['t']), g, [tuple(x) for x in s['b']], opts), opts


def order_view(o):
    return {'busi2e': o['bus']['i2e'], 'buse2i': o['bus']['e2i'],
            'gene2i': o['gen']['e2i'], 'geni2e': o['gen']['i2e'],
            'buson': o['bus']['status']['on'], 'busoff': o['bus']['status']['off'],
            'genon': o['gen']['status']['on'], 'genoff': o['gen']['status']['off'],
            'branchon': o['branch']['status']['on'], 'branchoff': o['branch']['status']['off'], 'state': o['state']}


def perturb(rng, i):
    """what a solver does to internal tables: new values in result columns"""
    i = copy.deepcopy(i)
    i['bus'][:, 2:] = payload(rng, *i['bus'][:, 2:].shape)
    i['gen'][:, 1:6] = payload(rng, i['gen'].shape[0], 5)
    i['gen'][:, 8:] = payload(rng, *i['gen'][:, 8:].shape)
    i['branch'][:, 2:10] = payload(rng, i['branch'].shape[0], 8)
    i['branch'][:, 11:] = payload(rng, *i['branch'][:, 11:].shape)
    if 'areas' in i:
        i['areas'][:, 0] = payload(rng, i['areas'].shape[0], 1)[:, 0]
    if 'gencost' in i:
        i['gencost'] = payload(rng, *i['gencost'].shape)
    return i


def degenerate(c):
    """structures with nothing in service carry no meaning for the tables"""
    on = c['bus'][c['bus'][:, 1] != 4, 0]
    gen_on = (c['gen'][:, 7] > 0) & np.isin(c['gen'][:, 0], on)
    br_on = (c['branch'][:, 10] != 0) & np.isin(c['branch'][:, 0], on) & np.isin(c['branch'][:, 1], on)
    return not gen_on.any(), not br_on.any()


def cycle(ctx, c, opts, what):
    d0 = common.digest(c)
    ok, i, err = common.attempt(ext2int, c)
    if not ok:
        ctx.log('raised', what='ext2int', err=err)
        return
    ctx.count('cases')
    if 'toint' in what:
        ok2, again, _ = common.attempt(ext2int, i)
        ctx.log('toint', c=tables(c), i=tables(i), o=order_view(i['order']), dc=bool(opts.get('dc')),
                untouched=common.digest(c) == d0, idem=ok2 and common.digest(tables(again)) == common.digest(tables(i)))
        return i
    if 'toext' in what:
        for solved in (False, True, True):
            if solved:
                i = perturb(ctx.rng, i)
            d1 = common.digest(i)
            ok, x, err = common.attempt(int2ext, i)
            if not ok:
                ctx.log('raised', what='int2ext', err=err)
                return
            if not solved:
                ctx.log('round', c=tables(c), x=tables(x))
            else:
                oi = x['order'].get('int', {})
                ctx.log('toext', c=tables(c), i=tables(i), x=tables(x), state=x['order']['state'],
                        untouched=common.digest(i) == d1,
                        intcopy=all(common.digest(oi.get(k)) == common.digest(i[k]) for k in tables(i)))
            # the second cycle starts from the results of the first
            c = x
            ok, i, err = common.attempt(ext2int, x)
            if not ok:
                ctx.log('raised', what='ext2int again', err=err)
                return


def field_events(ctx, c, opts):
    rng = ctx.rng
    ok, i, err = common.attempt(ext2int, c)
    if not ok:
        ctx.log('raised', what='ext2int', err=err)
        return
    tag = {t: k for k, t in enumerate(c['gen'][i['order']['gen']['status']['on'], 6])}
    perm = [tag[t] + 1 for t in i['gen'][:, 6]]
    nset = int(rng.integers(1, 4))
    kinds = [str(k) for k in rng.choice(['bus', 'gen', 'branch'], size=nset)]
    extra = int(rng.integers(0, 3)) if nset > 1 else 0
    n = sum(c[k].shape[0] for k in kinds) + extra
    form = str(rng.choice(['vec', 'dense0', 'dense1', 'sparse0', 'sparse1']))
    dim = 1 if form.endswith('1') else 0
    w = int(rng.integers(1, 4))
    val = payload(rng, n, w)
    old = payload(rng, n, w)
    if form == 'vec':
        val, old = val[:, 0], old[:, 0]
    elif dim == 1:
        val, old = val.T, old.T
    wrap = csr_matrix if form.startswith('sparse') else (lambda m: m.copy())
    ordering = kinds[0] if nset == 1 else kinds
    how = str(rng.choice(['data', 'field', 'nested']))
    ctx.count('form_' + form)
    ctx.count('via_' + how)
    d0 = common.digest({k: i[k] for k in ('bus', 'gen', 'branch')})
    saved = True
    v = wrap(val)
    dv = common.digest(v)
    untouched = True
    okb, back, back_err = False, None, ''
    if how == 'data':
        okf, got, err = common.attempt(e2i_data, i, v, ordering, dim)
        mod = got
        if okf and got is not None:
            mod = got.copy()
            mod = wrap(payload(rng, *(got.shape if got.ndim == 2 else (got.shape[0], 1)))) if got.ndim == 2 \
                else payload(rng, got.shape[0], 1)[:, 0]
            ov = wrap(old)
            do = common.digest(ov)
            okb, back, back_err = common.attempt(i2e_data, i, mod, ov, ordering, dim)
            untouched = common.digest(v) == dv and common.digest(ov) == do
    else:
        path = ['x'] if how == 'field' else [['x', 'more'], ['x', 'deep', 'other']][int(rng.integers(2))]
        fld = 'xfield' if how == 'field' else path

        def put(ppc, a):
            if how == 'field':
                ppc['xfield'] = a
            else:
                for p in path[:-1]:
                    ppc = ppc.setdefault(p, {})
                ppc[path[-1]] = a

        def get(ppc):
            if how == 'field':
                return ppc['xfield']
            for p in path:
                ppc = ppc[p]
            return ppc
        i = copy.deepcopy(i)
        old = val                       # the original value is what is restored
        put(i, v)
        if how == 'nested':             # another member of the same record was converted before
            other = ['x', 'first']
            i['x']['first'] = payload(rng, c['gen'].shape[0], 2)
            common.attempt(e2i_field, i, other, 'gen')
        okf, j, err = common.attempt(e2i_field, i, fld, ordering, dim)
        got = get(j) if okf else None
        if okf and got is not None:
            ext = j['order']['ext']
            try:
                saved = common.digest(get(ext)) == dv
            except KeyError:
                saved = False
            mod = wrap(payload(rng, *got.shape)) if got.ndim == 2 else payload(rng, got.shape[0], 1)[:, 0]
            put(j, mod)
            if how == 'nested':
                common.attempt(i2e_field, j, other, 'gen')
            okb, b, back_err = common.attempt(i2e_field, j, fld, ordering, dim)
            back = get(b) if okb else None
    if not okf or got is None:
        ctx.log('raised', what='e2i ' + how + ' ' + form, err=err)
        return
    if not okb or back is None:
        ctx.log('raised', what='i2e ' + how + ' ' + form, err=back_err)
        return

    def mat(a):
        a = a.toarray() if common.sps.issparse(a) else np.asarray(a)
        return a[:, None] if a.ndim == 1 else a
    ctx.log('field', c=tables(c), perm=perm, kinds=kinds, dim=dim, val=mat(val), got=mat(got), mod=mat(mod), old=mat(old),
            back=mat(back), okfwd=True, okback=True, saved=saved,
            untouched=untouched and common.digest({k: i[k] for k in ('bus', 'gen', 'branch')}) == d0)


def cases(ctx, nmodel, nrandom, nbig):
    deep = ctx.thorough
    scen = ctx.check_design('IndexingMC', 'IndexingMCdeep.cfg' if deep else 'IndexingMC.cfg', workers=8)
    scen.sort(key=str)
    take = scen if len(scen) <= nmodel else [scen[k] for k in
                                             sorted(ctx.rng.choice(len(scen), size=nmodel, replace=False))]
    ctx.notes['model_scenarios'] = len(scen)
    ctx.notes['model_scenarios_replayed'] = len(take)
    for k, s in enumerate(take):
        yield from_model(ctx.rng, s, k)
    for k in range(nrandom + nbig):
        yield random_case(ctx.rng, k >= nrandom)
