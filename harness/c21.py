"""C21: every way of calling the OPF poses the same problem."""
import os
import pickle

import numpy as np
from scipy.sparse import csr_matrix, issparse

import common
import gen
import opfgen
import opfsol
import pf
from gen import rnd
from pypower.opf import opf
from pypower.dcopf import dcopf
from pypower.opf_args import opf_args, opf_args2
from pypower.ppoption import ppoption

LIMITS, COSTS, EXTRA = ['A', 'l', 'u'], ['N', 'fparm', 'H', 'Cw'], ['z0', 'zl', 'zu']
FORM = {0: [], 1: ['ppopt'], 2: ['userfcn', 'ppopt'], 3: LIMITS, 4: LIMITS + ['ppopt'], 8: LIMITS + ['ppopt'] + COSTS,
        11: LIMITS + ['ppopt'] + COSTS + EXTRA}
TABLES = ['baseMVA', 'bus', 'gen', 'branch', 'gencost']
OUT = ['baseMVA', 'bus', 'gen', 'branch', 'gencost', 'A', 'l', 'u', 'ppopt', 'N', 'fparm', 'H', 'Cw', 'z0', 'zl', 'zu', 'userfcn', 'areas']
ROLES = LIMITS + COSTS + EXTRA + ['userfcn', 'ppopt']
OPT = dict(VERBOSE=0, OUT_ALL=0)


def empty(rng, role, width=3):
    k = rng.integers(0, 4)
    if role == 'ppopt':
        return None if k < 2 else {}
    if k == 0:
        return None
    if k == 1:
        return []
    if k == 2 and role in ('A', 'N', 'H'):
        return csr_matrix((0, 0 if role == 'H' else width))
    return np.array([])


def isnone(v):
    return v is None or (v.shape[0] if issparse(v) or isinstance(v, np.ndarray) else len(v)) == 0


def fields(rng, nx, nz, m, k):
    """one full set of user data: m limits, k costs"""
    w = nx + nz
    cb = {'formulation': [{'fcn': lambda om, args: om}]}
    cb['formulation'][0]['fcn'].__name__ = 'f%d' % rng.integers(0, 10**9)
    h = rng.normal(size=(k, k))
    return {'A': csr_matrix(np.round(rng.normal(size=(m, w)), 3)), 'l': -rng.random(m), 'u': rng.random(m),
            'N': csr_matrix(np.round(rng.normal(size=(k, w)), 3)), 'fparm': np.c_[np.ones(k), rng.random(k), np.zeros(k), rnd(rng, 1, 2, k)],
            'H': csr_matrix(h.dot(h.T)), 'Cw': rng.random(k), 'z0': rng.random(nz), 'zl': -rng.random(nz), 'zu': rng.random(nz),
            'userfcn': cb, 'ppopt': ppoption(PDIPM_MAX_IT=int(rng.integers(10, 10**6)), **OPT)}


def put_file(ctx, c):
    ctx.nfiles = getattr(ctx, 'nfiles', 0) + 1
    name = os.path.join(ctx.scratch, 'case_%d' % ctx.nfiles)
    with open(name + '.pkl', 'wb') as f:
        pickle.dump(c, f)
    with open(name + '.py', 'w') as f:
        f.write('import pickle\n\n\ndef case_%d():\n    return pickle.load(open(%r, "rb"))\n' % (ctx.nfiles, name + '.pkl'))
    return name + ('.py' if ctx.nfiles % 2 else '')


def start(ctx, source, c):
    if source == 'tables':
        return [c['baseMVA'], c['bus'], c['gen'], c['branch'], c.get('areas'), c['gencost']]
    return [c] if source == 'dict' else [put_file(ctx, c)]


def real(c):
    return common.digest({k: np.asarray(c[k], float) for k in TABLES})


def cb_case(*a):
    return a[0]


def args_event(ctx, rng, source, c, held, first, call, n, entry):
    names = {}
    for src, f in (('call', call), ('case', held)):
        for r, v in f.items():
            names.setdefault((r, common.digest(v)), src)

    def name(r, v):
        if isnone(v):
            return ''
        v = np.asarray(v) if isinstance(v, list) else v
        return names.get((r, common.digest(v)), 'other')
    off = 6 if source == 'tables' else 1
    form = FORM.get(n - off)
    none = set() if form is None else set(r for r in form if r in ctx.none)
    if form is None:
        vals = [call[r] for r in (LIMITS + ['ppopt'] + COSTS + EXTRA + LIMITS)[:n - off]]
    else:
        vals = [empty(rng, r) if r in none else call[r] for r in form]
    before = common.digest([x for x in first if not isinstance(x, str)] + vals)
    ok, r, err = common.attempt(opf_args if entry == 0 else opf_args2, *(first + vals))
    after = common.digest([x for x in first if not isinstance(x, str)] + vals)
    got, tables, kept = {}, '', ''

    rest = common.digest({k: v for k, v in c.items() if k not in TABLES + ROLES and k != 'version'}) if entry else ''
    if ok:
        d = dict(zip(OUT, r)) if entry == 0 else dict(r[0], ppopt=r[1])
        got = {k: name(k, d.get(k)) for k in ROLES}
        if got['ppopt'] == 'other' and common.digest(d['ppopt']) == common.digest(ppoption()):
            got['ppopt'] = 'default'
        tables = real(d)
        if entry:
            kept = common.digest({k: v for k, v in d.items() if k not in TABLES + ROLES and k != 'version'})
    ctx.count('%s %d' % (source, n))
    ctx.log('args', source=source, n=n, call={k: ('' if k in none else 'call') for k in call}, held={k: 'case' for k in held}, got=got, rejected=not ok,
            err=err, defaults='default', tables=tables, wanted=real(c), kept=kept, rest=rest, untouched=before == after,
            entry='opf_args2' if entry else 'opf_args', none=sorted(none))




def args_history(ctx, rng, hs):
    """the calls of hs, one after the other, on the one case"""
    source, heldroles = hs[0]['source'], hs[0]['held']
    c = opfgen.case(rng)
    c = {k: c[k] for k in TABLES}
    if rng.random() < .5 or source == 'tables':
        c['areas'] = np.array([[1., c['bus'][0, 0]]])
    if source != 'tables':
        c['version'] = '2'
        if rng.random() < .5:
            c['note'] = {'a': np.arange(3.), 'b': 'kept'}
    c = pf.integral(rng, c)
    nx, nz = 2 * len(c['bus']) + 2 * len(c['gen']), int(rng.integers(1, 3))
    m, k = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    case_f, call = fields(rng, nx, nz, m, k), fields(rng, nx, nz, m, k)
    held = {r: case_f[r] for r in heldroles}
    if source == 'file' and 'userfcn' in held:
        held['userfcn'] = {'formulation': [{'fcn': cb_case}]}
    full = dict(c, **held)
    first = start(ctx, source, full)
    for x in hs:
        for one in x['calls']:
            ctx.none = one['none']
            args_event(ctx, rng, source, full, held, first, call, one['n'], int(rng.integers(0, 2)))
    if rng.random() < .1:
        off = 6 if source == 'tables' else 1
        bad = [n for n in range(off, off + 14) if n - off not in FORM]
        ctx.none = []
        args_event(ctx, rng, source, full, held, first, call, int(rng.choice(bad)), int(rng.integers(0, 2)))


# ---------------------------------------------------------------- malformed problems
def shape(ctx, rng):
    dc = bool(rng.random() < .5)
    c = opfgen.case(rng, dc=dc, disp=0)
    c = {k: c[k] for k in TABLES}
    nb, ng = len(c['bus']), len(c['gen'])
    own = nb + ng if dc and rng.random() < .6 else 2 * nb + 2 * ng
    nz, m, k = int(rng.integers(0, 3)), int(rng.integers(0, 3)), int(rng.integers(0, 3))
    if not m:
        nz = 0
    dims = {'A': [m, own + nz], 'l': m, 'u': m, 'N': [k, own + nz], 'H': [k, k], 'fparm': [k, 4], 'Cw': k, 'z0': nz, 'zl': nz, 'zu': nz}
    for r in ('l', 'u', 'H', 'fparm', 'z0', 'zl', 'zu'):
        if rng.random() < .25:
            dims[r] = None
    for _ in range(int(rng.choice([0, 1, 1, 1, 2]))):
        r = str(rng.choice(list(dims)))
        d = int(rng.choice([-1, 1, 2]))
        if dims[r] is None:
            continue
        if isinstance(dims[r], list):
            j = int(rng.integers(0, 2))
            dims[r][j] = max(0, dims[r][j] + d)
        else:
            dims[r] = max(0, dims[r] + d)
    f = {}
    for r, d in dims.items():
        if d is None or d == 0 or d == [0, 0] or (isinstance(d, list) and 0 in d):
            dims[r] = None
        elif isinstance(d, list):
            v = np.round(rng.uniform(-1, 1, d) * (rng.random(d) < .4), 2)
            if dc and r in ('A', 'N') and d[1] >= 2 * nb + 2 * ng:
                v[:, nb:2 * nb] = v[:, 2 * nb + ng:2 * nb + 2 * ng] = 0
            if r == 'H':
                v = np.eye(*d)
            f[r] = csr_matrix(v) if r != 'fparm' else np.abs(v) + .1
            if r == 'fparm':
                f[r][:, 0] = 1
        else:
            f[r] = {'l': -50., 'u': 50., 'zl': -1., 'zu': 1.}.get(r, .5) * np.ones(d)
    if dims['A'] is None:       # limits without a matrix say nothing
        dims['l'] = dims['u'] = None
        f.pop('l', 0), f.pop('u', 0)
    if dims['N'] is None:
        for r in ('Cw', 'H', 'fparm'):
            dims[r] = None
            f.pop(r, 0)
    touch = 'no'
    for r in ('A', 'N'):
        if r in f and dc and f[r].shape[1] >= 2 * nb + 2 * ng and rng.random() < .25:
            live = c['bus'][:, 1] != 4      # what is out of service drops out, with what is said of it
            on = (c['gen'][:, 7] > 0) & np.isin(c['gen'][:, 0], c['bus'][live, 0])
            j = int(rng.choice(list(nb + np.flatnonzero(live)) + list(2 * nb + ng + np.flatnonzero(on))))
            i = int(rng.integers(0, f[r].shape[0]))
            f[r] = f[r].tolil()
            f[r][i, j] = .5
            f[r] = f[r].tocsr()
            if r == 'N' and 'Cw' in f and f['Cw'].shape[0] > i and rng.random() < .6:
                f['Cw'][i] = 0.
                if 'H' in f and min(f['H'].shape) > i:
                    if rng.random() < .5:
                        h = f['H'].tolil()
                        h[i, i] = 0
                        f['H'] = h.tocsr()
                        f['H'].eliminate_zeros()
                    else:
                        touch = 'N'
            else:
                touch = r
    o = ppoption(PDIPM_MAX_IT=2, **OPT)
    o['PF_DC'] = int(dc)
    incase = rng.random() < .5
    if incase:
        if 'A' in f:
            f = dict({'l': np.array([]), 'u': np.array([])}, **f)
        if 'N' in f:
            f = dict({'Cw': np.array([])}, **f)
        ok, r, err = common.attempt(opf, dict(c, version='2', **f), o)
    else:
        a = [f.get(r) if r != 'ppopt' else o for r in LIMITS + ['ppopt'] + COSTS + EXTRA]
        ok, r, err = common.attempt(opf, *(start(ctx, str(rng.choice(['dict', 'tables'])), dict(c)) + a))
    two = {r: {'rows': -1, 'cols': -1} if dims[r] is None else dict(zip(('rows', 'cols'), dims[r])) for r in ('A', 'N', 'H', 'fparm')}
    one = {r: -1 if dims[r] is None else dims[r] for r in ('l', 'u', 'Cw', 'z0', 'zl', 'zu')}
    ctx.count('rejected' if not ok else 'accepted')
    ctx.log('shape', d=dict(two, touch=touch, nb=nb, ng=ng, dc=dc, **one), rejected=not ok, err=err)


# ---------------------------------------------------------------- the same problem, posed in every way
class Push:
    """a callback that asks for a little more or less of the first unit"""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __call__(self, om, args):
        ng = om.getN('var', 'Pg')
        om.add_constraints('push', csr_matrix(([1.], ([0], [0])), (1, ng)), np.array([self.lo]), np.array([self.hi]), ['Pg'])
        return om


def same(ctx, rng):
    dc = bool(rng.random() < .5)
    c = opfgen.case(rng, dc=dc)
    c = opfsol.narrow(rng, {k: c[k] for k in TABLES})
    c['version'] = '2'
    c = pf.integral(rng, c)
    u = opfsol.user_data(rng, c, dc)
    f = {k: v for k, v in opfsol.with_user({}, u).items()}
    if 'A' in f and rng.random() < .2:
        f.pop(str(rng.choice(['l', 'u'])))
        f.update({k: np.array([]) for k in ('l', 'u') if k not in f})
    on = np.flatnonzero(c['gen'][:, 7] > 0)
    if rng.random() < .3:
        g = c['gen'][on[0]]
        f['userfcn'] = {'formulation': [{'fcn': Push(float(g[9]) / c['baseMVA'], float(g[9] * .6 + g[8] * .4) / c['baseMVA'])}]}
    o = ppoption(PF_DC=dc, **dict(opfsol.TIGHT, **OPT))
    ok0, r0, err0 = common.attempt(opf, dict(c, **f), o)
    ctx.count('solved' if ok0 and r0['success'] else 'not solved')
    if not ok0:
        ctx.log('raised', what='opf(case with everything)', err=err0)
        return
    for _ in range(ctx.n(3, 4)):
        source = str(rng.choice(['dict', 'file', 'tables']))
        must = set(f) if source == 'tables' else set()
        ks = [k for k in FORM if must <= set(FORM[k])]
        if not ks:
            source, must, ks = 'dict', set(), list(FORM)
        k = int(rng.choice(ks))
        form = FORM[k]
        call = {r: f[r] for r in form if r in f and (r in must or rng.random() < .6)}
        for a, b in (('A', ('l', 'u')), ('N', ('Cw',))):
            for r in b:
                if r in f and r in form:
                    if a in call:
                        call[r] = f[r]
                    else:
                        call.pop(r, None)
        held = {r: v for r, v in f.items() if r not in call}
        for r in call:              # what the case says of it does not count
            if rng.random() < .3 and r in ('A', 'N', 'fparm', 'z0', 'zl', 'zu'):
                held[r] = f[r] * .5
                if r == 'A':
                    held['l'], held['u'] = -np.ones(f[r].shape[0]), np.zeros(f[r].shape[0])
                if r == 'N':
                    held['Cw'] = -np.ones(f[r].shape[0])
        for r in ('A', 'N', 'H'):
            if r in call and rng.random() < .15:
                call[r] = call[r].toarray()
        fn = opf
        if dc and rng.random() < .4:
            fn = dcopf
        op = o if fn is opf else ppoption(o, PF_DC=bool(rng.random() < .3))
        if fn is opf and 'ppopt' not in form:
            if dc:
                fn = dcopf
            if rng.random() < .7:
                continue
        vals = [op if r == 'ppopt' else call.get(r, empty(rng, r)) for r in form]
        ref = r0
        if 'ppopt' not in form:     # the default options
            okr, ref, _ = common.attempt(opf, dict(c, **f), ppoption(PF_DC=dc))
            if not okr:
                continue
        if source == 'tables':
            held = {}
        ok, r, err = common.attempt(fn, *(start(ctx, source, dict(c, **held)) + vals))
        ctx.count('%s %s %d' % (fn.__name__, source, k))
        t = ('bus', 'gen', 'branch')
        if not ok:
            ctx.log('same', rejected=True, rejected0=False, err=err, fn=fn.__name__, source=source, form=k)
            continue
        ctx.log('same', rejected=False, rejected0=False, err='', fn=fn.__name__, source=source, form=k, call=sorted(call), held=sorted(held),
                success=bool(r['success']), success0=bool(ref['success']), f=r['f'], f0=ref['f'], x=r['x'], x0=ref['x'],
                r={x: r[x] for x in t}, r0={x: ref[x] for x in t})


def run(ctx):
    rng = ctx.rng
    hs = ctx.check_design('CallingMC', 'CallingMC.cfg', 4)
    if ctx.thorough:
        ctx.check_design('CallingMC', 'CallingMCdeep.cfg', 8)
    by = {}
    for x in hs:
        by.setdefault((x['source'], tuple(x['held'])), []).append(x)
    keys = sorted(by)
    for key in keys:
        one = by[key]
        pick = list(rng.permutation(len(one)))
        if not ctx.thorough:
            pick = pick[:len(one) // (2 if key[0] == 'tables' else 10)]
        while pick:
            n = int(rng.integers(1, 4))
            args_history(ctx, rng, [one[i] for i in pick[:n]])
            pick = pick[n:]
    for _ in range(ctx.n(150, 1500)):
        shape(ctx, rng)
    for _ in range(ctx.n(25, 300)):
        same(ctx, rng)
    ctx.judge('CallingTrace')
