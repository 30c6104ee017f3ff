"""Drives loadcase and savecase (C31, C32)."""
import hashlib
import os
import shutil

import numpy as np
from scipy.io import savemat
from scipy.sparse import csr_matrix, issparse

import common
import gen
import opfgen
import opfsol
from pypower.loadcase import loadcase
from pypower.savecase import savecase

TABLES = ['bus', 'gen', 'branch', 'areas', 'gencost', 'fparm']
VECTORS = ['l', 'u', 'Cw', 'z0', 'zl', 'zu']
SPARSE = ['A', 'N', 'H']
REQ = {'case': {}, 'tables': dict(return_as_obj=False), 'tables_gencost': dict(return_as_obj=False, expect_areas=False),
       'tables_pf': dict(return_as_obj=False, expect_areas=False, expect_gencost=False)}
ORDER = {'tables': ['baseMVA', 'bus', 'gen', 'branch', 'areas', 'gencost'],
         'tables_gencost': ['baseMVA', 'bus', 'gen', 'branch', 'gencost'], 'tables_pf': ['baseMVA', 'bus', 'gen', 'branch']}


def data(c):
    """the fields of a case the specification speaks of"""
    d = {'baseMVA': float(c['baseMVA'])}
    for k in TABLES + VECTORS:
        if c.get(k) is not None:
            d[k] = np.asarray(c[k], float)
    for k in SPARSE:
        if c.get(k) is not None:
            m = csr_matrix(c[k]).tocoo()
            s = sorted((int(i), int(j), float(x)) for i, j, x in zip(m.row, m.col, m.data) if x != 0)
            d[k] = {'m': m.shape[0], 'n': m.shape[1], 's': [list(x) for x in s]}
    return d


def token(c):
    try:
        if not isinstance(c, dict):
            return 'not a case'
        return common.digest({k: (v if not isinstance(v, dict) else v) for k, v in data(c).items()})
    except Exception as e:
        return 'unreadable %s' % type(e).__name__


def base_case(rng):
    """a case whose every number survives nine digits and four decimals"""
    c = opfgen.case(rng)
    d = {'version': '2', 'baseMVA': float(c['baseMVA'])}
    for k, w in (('bus', 13), ('gen', 21), ('branch', 13)):
        t = np.zeros((len(c[k]), w))
        n = min(w, c[k].shape[1])
        t[:, :n] = np.round(c[k][:, :n], 3)
        d[k] = t
    d['areas'] = np.array([[1., d['bus'][0, 0]]])
    d['gencost'] = np.round(c['gencost'], 3)
    return d


# ------------------------------------------------------------------ histories
def write_text(path, c, kind, rng):
    name = os.path.splitext(os.path.basename(path))[0]
    if kind == 'broken':
        bad = ['def %s():\n    return {' % name, 'x = 1\n', 'def %s():\n    raise ValueError("no data")\n' % name,
               'def %s():\n    return undefined_name\n' % name, 'def %s():\n    pass\n' % name, 'import no_such_module_at_all\n']
        open(path, 'w').write(str(rng.choice(bad)))
    else:
        drop = str(rng.choice(['bus', 'gen', 'branch', 'baseMVA']))
        c = {k: v for k, v in c.items() if k != drop}
        if rng.random() < .3:
            open(path, 'w').write('from numpy import array\ndef %s():\n    return 100., array([[1.]]), array([[2.]])\n' % name)
        else:
            how = rng.random()
            open(path, 'w').write('import numpy as np\ndef %s():\n    c = %r\n    return {k: (np.array(v) if isinstance(v, list) else v) for k, v in c.items()}\n' % (
                name, {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in c.items()} if how < .6 else
                dict({k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in c.items()}, **{drop: None})))


def write_mat(path, c, kind, rng):
    if kind == 'broken':
        open(path, 'wb').write(bytes(rng.integers(0, 256, size=int(rng.integers(0, 300))).astype(np.uint8).tolist()) if rng.random() < .7 else b'not a MAT file')
    else:
        drop = str(rng.choice(['bus', 'gen', 'branch', 'baseMVA']))
        d = {k: v for k, v in c.items() if k != drop}
        savemat(path, {'ppc': d} if rng.random() < .5 else d)


def files(d):
    out = {}
    for p in ('a.py', 'a.mat'):
        f = os.path.join(d, p)
        out[p] = hashlib.sha256(open(f, 'rb').read()).hexdigest()[:12] if os.path.exists(f) else 'none'
    stray = [x for x in os.listdir(d) if x not in out and x != '__pycache__']
    return out, len(stray)


def replay(ctx, rng, steps, base):
    d = os.path.join(ctx.scratch, 'dir')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    mem = []
    for has, t in (('all', 0), ('pf', 100), ('gencost', 200)):
        c = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in base.items()}
        if has != 'all':
            c.pop('areas')
        if has == 'pf':
            c.pop('gencost')
        c['bus'][0, 2] = t
        mem.append(c)
    obs = []
    for a in steps:
        code, name = 0, 'none'
        if a['op'] in ('load', 'take', 'other'):
            src = os.path.join(d, a['n']) if a['op'] == 'load' else mem[a['k'] - 1] if a['op'] == 'take' else \
                [None, 3, ['bus'], np.zeros((2, 2))][int(rng.integers(0, 4))]
            req = a.get('req', 'case')
            ok, v, err = common.attempt(loadcase, src, **REQ[req])
            if not ok:
                ctx.log('raised', what='load', err=err, steps=steps)
                return
            if isinstance(v, (int, np.integer)):
                code = int(v)
            else:
                if req != 'case':
                    v = dict(zip(ORDER[req], v)) if isinstance(v, (list, tuple)) and len(v) == len(ORDER[req]) else 'wrong number of tables'
                mem.append(v)
        elif a['op'] == 'save':
            ok, v, err = common.attempt(savecase, os.path.join(d, a['n']), mem[a['k'] - 1])
            if not ok:
                ctx.log('raised', what='save', err=err, steps=steps)
                return
            name = os.path.relpath(v, d) if isinstance(v, str) else repr(v)
        elif a['op'] == 'put':
            p = os.path.join(d, a['n'])
            if a['is'] == 'none':
                if os.path.exists(p):
                    os.remove(p)
            elif a['n'].endswith('.py'):
                write_text(p, base, a['is'], rng)
            else:
                write_mat(p, base, a['is'], rng)
        elif a['op'] == 'edit':
            c = mem[a['k'] - 1]
            if isinstance(c, dict):
                c['bus'][0, 2] += 1
        f, stray = files(d)
        obs.append({'code': code, 'name': name, 'mem': [token(c) for c in mem], 'files': f, 'stray': stray})
    ctx.log('history', steps=steps, obs=obs)
    shutil.rmtree(d, ignore_errors=True)


def histories(ctx, quick, thorough, long):
    if ctx.thorough:
        ctx.check_design('CaseFilesMC', 'CaseFilesMCdeep.cfg', workers=8)
    hs = ctx.check_design('CaseFilesMC', 'CaseFilesMC.cfg', workers=4)
    ctx.count('histories generated by TLC', len(hs))
    rng = ctx.rng
    base = base_case(rng)
    pick = rng.permutation(len(hs))[:ctx.n(quick, thorough)]
    for i in pick:
        replay(ctx, rng, hs[i], base)
        ctx.count('of these replayed')
    for _ in range(ctx.n(long, 12 * long)):
        steps, fs, mem = [], {'a.py': 'none', 'a.mat': 'none'}, ['all', 'pf', 'gencost']
        for _ in range(int(rng.integers(5, 14))):
            op = str(rng.choice(['load', 'load', 'load', 'take', 'save', 'save', 'put', 'edit', 'other']))
            k = int(rng.integers(1, len(mem) + 1))
            a = {'op': op}
            if op == 'load':
                a.update(n=str(rng.choice(['a', 'a.py', 'a.mat'])), req=str(rng.choice(sorted(REQ))))
                p = a['n'] if a['n'] != 'a' else 'a.mat' if fs['a.mat'] != 'none' else 'a.py'
                has = fs[p]
            elif op == 'take':
                a.update(k=k, req=str(rng.choice(sorted(REQ))))
                has = mem[k - 1]
            elif op == 'save':
                a.update(k=k, n=str(rng.choice(['a', 'a.py', 'a.mat'])))
                fs[a['n'] if '.' in a['n'] else 'a.py'] = mem[k - 1]
            elif op == 'put':
                a.update({'n': str(rng.choice(['a.py', 'a.mat'])), 'is': str(rng.choice(['none', 'broken', 'lacking']))})
                fs[a['n']] = a['is']
            elif op == 'edit':
                a.update(k=k)
            if op in ('load', 'take') and has in ('all', 'pf', 'gencost'):
                need = a['req']
                if not (need == 'tables' and has != 'all' or need == 'tables_gencost' and has == 'pf'):
                    mem.append({'case': has, 'tables': 'all', 'tables_gencost': 'gencost', 'tables_pf': 'pf'}[need])
            steps.append(a)
        replay(ctx, rng, steps, base)
        ctx.count('long random histories')
