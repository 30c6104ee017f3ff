import os

import numpy as np
from scipy.sparse import csr_matrix

import casefiles
import common
import opfgen
import opfsol
from casefiles import data
from gen import rnd
from pypower.loadcase import loadcase
from pypower.opf import opf
from pypower.ppoption import ppoption
from pypower.runpf import runpf
from pypower.savecase import savecase
from pypower.toggle_dcline import toggle_dcline
from pypower.toggle_iflims import toggle_iflims
from pypower.toggle_reserves import toggle_reserves


def number(rng, size=None):
    """numbers of every size, some with more digits than a file keeps"""
    x = rng.standard_normal(size) * 10. ** rng.integers(-12, 13, size)
    y = np.where(rng.random(size) < .3, np.round(rng.uniform(-999, 999, size)), x)
    y = np.where(rng.random(size) < .1, 0., y)
    return y if size is not None else float(y)


def tables(rng):
    c = opfgen.case(rng)
    nb, ng, nl = len(c['bus']), len(c['gen']), len(c['branch'])
    d = {'version': '2', 'baseMVA': float(rng.choice([100., 10., 1 / 3., 1000.]))}
    for k, ints, w in (('bus', [0, 1, 6, 10], [13, 13, 17]), ('gen', [0, 7], [21, 21, 25]), ('branch', [0, 1, 10], [13, 17, 21])):
        w = int(rng.choice(w))
        t = number(rng, (len(c[k]), w))
        for j in ints:
            t[:, j] = c[k][:, j]
        if rng.random() < .2:
            t[rng.integers(0, len(t)), 8] = np.inf
        d[k] = t
    if rng.random() < .5:
        d['areas'] = np.array([[float(a), float(rng.choice(c['bus'][:, 0]))] for a in range(1, int(rng.integers(2, 4)))])
    elif rng.random() < .3:
        d['areas'] = np.zeros((0, 2))
    if rng.random() < .7:
        m = rng.choice([1, 2], size=ng * int(rng.integers(1, 3)))
        n = np.where(m == 1, rng.integers(2, 5, len(m)), rng.integers(1, 6, len(m)))
        w = 4 + int(np.max(np.where(m == 1, 2 * n, n))) + int(rng.integers(0, 3))
        t = number(rng, (len(m), w))
        t[:, 0], t[:, 3] = m, n
        d['gencost'] = t
    return d


def sparse(rng, m, n):
    a = number(rng, (m, n)) * (rng.random((m, n)) < rng.choice([0., .2, .6]))
    return csr_matrix(a)


def user(rng, d):
    nz = int(rng.integers(0, 3))
    n = 2 * len(d['bus']) + 2 * len(d['gen']) + nz
    if rng.random() < .7:
        m = int(rng.integers(0 if rng.random() < .2 else 1, 4))
        d['A'] = sparse(rng, m, n)
        for k in ('l', 'u'):
            if rng.random() < .8:
                d[k] = np.where(rng.random(m) < .3, {'l': -np.inf, 'u': np.inf}[k], number(rng, m))
    if rng.random() < .6:
        m = int(rng.integers(1, 4))
        d['N'], d['Cw'] = sparse(rng, m, n), number(rng, m)
        if rng.random() < .6:
            h = number(rng, (m, m))
            d['H'] = csr_matrix(h + h.T)
        if rng.random() < .6:
            d['fparm'] = np.column_stack([rng.choice([1., 2.], m), number(rng, (m, 3))])
    for k in ('z0', 'zl', 'zu'):
        if rng.random() < .4 and nz:
            d[k] = number(rng, nz)
    if rng.random() < .1 and 'A' in d:
        d['A'] = d['A'].toarray()
    if rng.random() < .1:
        d['H'] = None
    return d


def extension(rng, d):
    """the data of the packaged extensions, with the callbacks that save it"""
    ng = len(d['gen'])
    extra = []
    if rng.random() < .5:
        nz = int(rng.integers(1, 3))
        z = (rng.random((nz, ng)) < .6).astype(float)
        z[0, 0] = 1.
        n = int(z.any(0).sum()) if rng.random() < .5 else ng
        d['reserves'] = {'zones': z, 'req': number(rng, nz), 'cost': number(rng, n)}
        if rng.random() < .5:
            d['reserves']['qty'] = number(rng, n)
        d = toggle_reserves(d, 'on')
        extra += [('reserves', k) for k in d['reserves']]
    if rng.random() < .5:
        d['if'] = {'map': np.array([[1, 1], [1, -len(d['branch'])], [2, 1]][:int(rng.integers(1, 4))]), 'lims': np.column_stack([[1., 2.], number(rng, (2, 2))])}
        d = toggle_iflims(d, 'on')
        extra += [('if', 'map'), ('if', 'lims')]
    if rng.random() < .5:
        t = number(rng, (int(rng.integers(1, 4)), int(rng.choice([17, 23]))))
        t[:, :3], t[:, 15:17] = 1., .05
        d['dcline'] = t
        d = toggle_dcline(d, 'on')
        extra += [('dcline',)]
    return d, extra


def get(c, path):
    for k in path:
        if not isinstance(c, dict) or k not in c:
            return []
        c = c[k]
    return np.asarray(c, float)


def roundtrip(ctx, rng, c, extra, what):
    ext = str(rng.choice(['.py', '.mat', '']))
    stem = str(rng.choice(['saved', 'case_x', 'py', 'm', 'dat', 'mat', 'casepy', 'abmat']))
    f = os.path.join(ctx.scratch, stem + ext)
    comment = [None, 'one line', ['two', 'lines'], []][int(rng.integers(0, 4))]
    text = ext != '.mat'
    src = c
    for again in range(2):
        before = common.digest(src)
        ok, name, err = common.attempt(savecase, f, src, comment) if comment is not None or again else common.attempt(savecase, f, src)
        if not ok:
            ctx.log('raised', what='save ' + what, err=err)
            break
        ok, r, err = common.attempt(loadcase, name if rng.random() < .5 else f)
        if not ok or not isinstance(r, dict):
            ctx.log('raised', what='load ' + what, err=err or repr(r))
            break
        x = [{'t': 'vector' if get(src, p).ndim == 1 else 'matrix', 'name': '.'.join(p), 'a': get(src, p), 'b': get(r, p)} for p in (extra if text else [])]
        ctx.log('roundtrip', text=text, c=data(src), d=data(r), extra=x, name=os.path.relpath(name, ctx.scratch),
                wanted=stem + (ext or '.py'), untouched=common.digest(src) == before, what=what)
        ctx.count(what + (' again' if again else '') + (' text' if text else ' MAT'))
        if extra and text:
            break            # the callbacks are not part of the file
        src = r
    for e in ('.py', '.mat'):
        if os.path.exists(os.path.join(ctx.scratch, stem + e)):
            os.remove(os.path.join(ctx.scratch, stem + e))


def solved(rng, k):
    c = opfgen.case(rng, dc=k % 2 == 1)
    q = dict(VERBOSE=0, OUT_ALL=0)
    if k % 3 == 0:
        ok, v, err = common.attempt(runpf, c, ppoption(PF_DC=k % 2, **q))
        return v[0] if ok else None
    u, _ = opfsol.user_data(rng, c, k % 2 == 1) if False else (None, None)
    ok, v, err = common.attempt(opf, c, ppoption(PF_DC=k % 2, **q))
    return v if ok else None


def run(ctx):
    casefiles.histories(ctx, 1200, 8000, 30)
    rng = ctx.rng
    for k in range(ctx.n(160, 2000)):
        c = user(rng, tables(rng))
        extra = []
        if rng.random() < .3:
            c, extra = extension(rng, c)
        roundtrip(ctx, rng, c, extra, 'made up')
    for k in range(ctx.n(36, 240)):
        c = solved(rng, k)
        if c is not None:
            roundtrip(ctx, rng, c, [], 'solved')
    ctx.judge('CaseFilesTrace')
