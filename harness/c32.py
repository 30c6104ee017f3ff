import os

import numpy as np
from scipy.io import savemat

import casefiles
import common
import gen
import opfgen
from gen import rnd
from casefiles import data, token
from pypower.loadcase import loadcase
from pypower.add_userfcn import add_userfcn


def narrow(rng, t, w):
    o = np.zeros((len(t), w))
    n = min(w, t.shape[1])
    o[:, :n] = t[:, :n]
    if n < w or rng.random() < .8:
        o[:, 10 if w < 15 else 11:] = np.round(rng.uniform(-50, 50, (len(t), w - (10 if w < 15 else 11))), 4)
    return o


def convert(ctx, rng):
    c = casefiles.base_case(rng)
    version = str(rng.choice(['none', '1', '1', '2']))
    gw = int(rng.choice([10, 14, 21, 25]))
    bw = int(rng.choice([11, 15, 17])) if gw < 20 else int(rng.choice([13, 17, 21]))
    g, b = c['gen'], c['branch']
    gt, bt = np.round(rng.uniform(-99, 99, (len(g), gw)), 4), np.round(rng.uniform(-99, 99, (len(b), bw)), 4)
    gt[:, :10], bt[:, :11] = g[:, :10], b[:, :11]
    c.update(gen=gt, branch=bt)
    del c['version']
    how = str(rng.choice(['dict', 'dict', 'tuple', 'mat', 'struct']))
    if how == 'dict':
        src = dict(c)
        if version != 'none':
            src['version'] = version
    elif how == 'tuple':
        version = '1'
        src = os.path.join(ctx.scratch, 'old.py')
        open(src, 'w').write('from numpy import array\n\ndef old():\n    return %s\n' % ', '.join(
            repr(c[k]) if k == 'baseMVA' else 'array(%r)' % c[k].tolist() for k in ('baseMVA', 'bus', 'gen', 'branch', 'areas', 'gencost')))
    else:
        src = os.path.join(ctx.scratch, 'old.mat')
        d = dict(c)
        if how == 'mat':
            version = version if version == '2' else '1'
            if version == '2':
                d['version'] = '2'
            savemat(src, d)
        else:
            if version != 'none':
                d['version'] = version
            savemat(src, {str(rng.choice(['ppc', 'mpc'])): d})
        version = version
    if version == '1' and gw > 20:
        bt = c['branch']
    before = common.digest(src)
    ok, r, err = common.attempt(loadcase, src)
    if not ok or not isinstance(r, dict):
        ctx.log('raised', what='load old ' + how, err=err or repr(r))
        return
    ctx.count('from ' + how)
    ctx.log('convert', version=version, c=data(c), r=dict(data(r), version=str(r.get('version'))), untouched=common.digest(src) == before, how=how)


def arrays(x, out):
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, dict):
        for v in x.values():
            arrays(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            arrays(v, out)
    return out


def callback(*a):
    return a[0]


def copy(ctx, rng):
    """a case with nested and unusual fields comes back whole, as real tables, and apart"""
    c = casefiles.base_case(rng)
    if rng.random() < .5:
        c['reserves'] = {'zones': np.ones((1, len(c['gen']))), 'req': np.array([10.]), 'cost': np.ones(len(c['gen']))}
    if rng.random() < .5:
        c['notes'] = ['a', {'deep': np.arange(3.)}]
    if rng.random() < .4:
        c = add_userfcn(c, 'formulation', callback, {'w': np.ones(2)})
    if rng.random() < .4:
        k = str(rng.choice(['bus', 'gen', 'branch', 'gencost']))
        c[k] = np.round(c[k]).astype(int)
    if rng.random() < .2:
        c['areas'] = np.zeros((0, 2))
    before = common.digest(c)
    ok, r, err = common.attempt(loadcase, c)
    if not ok or not isinstance(r, dict):
        ctx.log('raised', what='copy', err=err or repr(r))
        return
    a, b = arrays(c, []), arrays(r, [])
    shared = sum(bool(np.shares_memory(x, y)) for x in a for y in b)
    real = all(r[k].dtype.kind == 'f' for k in ('bus', 'gen', 'branch', 'gencost'))

    def flat(x):
        return {k: (np.asarray(v, float) if k in ('bus', 'gen', 'branch', 'gencost') else v) for k, v in x.items() if not (k == 'areas' and len(v) == 0)}
    ctx.log('copy', same=common.digest(flat(c)) == common.digest(flat(r)) and common.digest(c) == before, shared=shared, real=real)


def codes(ctx, rng):
    """what cannot be loaded from memory"""
    for what in ('none', 'number', 'list', 'empty', 'lacks', 'null', 'directory', 'name'):
        c, want = casefiles.base_case(rng), 5
        kw = {}
        if what in ('none', 'number', 'list'):
            c, want = {'none': None, 'number': 7, 'list': [1, 2]}[what], 1
        elif what == 'empty':
            c = {}
        elif what in ('lacks', 'null'):
            req = str(rng.choice(['case', 'tables', 'tables_gencost', 'tables_pf']))
            kw = casefiles.REQ[req]
            k = str(rng.choice(['baseMVA', 'bus', 'gen', 'branch'] + ([] if req in ('case', 'tables_pf') else ['gencost']) + (['areas'] if req == 'tables' else [])))
            if what == 'lacks':
                del c[k]
            else:
                c[k] = None
        elif what == 'directory':
            c, want = str(rng.choice([os.path.join(ctx.scratch, 'no', 'such.py'), os.path.join(ctx.scratch, 'such.mat'), os.path.join(ctx.scratch, 'no', 'such')])), 0
            want = 4 if c.endswith('.py') else 3 if c.endswith('.mat') else 2
        else:
            c, want = '', 2
        ok, r, err = common.attempt(loadcase, c, **kw)
        if not ok:
            ctx.log('raised', what=what, err=err)
        else:
            ctx.log('code', what=what, code=int(r) if isinstance(r, (int, np.integer)) else 0, wanted=want)


def run(ctx):
    casefiles.histories(ctx, 4000, 20000, 60)
    for _ in range(ctx.n(80, 800)):
        convert(ctx, ctx.rng)
        copy(ctx, ctx.rng)
    for _ in range(ctx.n(8, 60)):
        codes(ctx, ctx.rng)
    ctx.judge('CaseFilesTrace')
