import copy
import io
import os
import re
import tempfile

import numpy as np
import common
import gen
import opfgen
from gen import rnd
from pf import view
from pypower.opf import opf
from pypower.ppoption import ppoption
from pypower.printpf import printpf
from pypower.runpf import runpf
from pypower.rundcpf import rundcpf

NUM = re.compile(r'^(-?\d+(\.\d+)?|-?nan|-?inf)$')
KEEP = ('OUT_ALL', 'OUT_SYS_SUM', 'OUT_AREA_SUM', 'OUT_BUS', 'OUT_BRANCH', 'OUT_GEN', 'OUT_ALL_LIM', 'OUT_V_LIM', 'OUT_LINE_LIM',
        'OUT_PG_LIM', 'OUT_QG_LIM', 'OPF_VIOLATION', 'OPF_FLOW_LIM')


def tokens(line):
    """the numbers (and '-') of a line, None if it has anything else"""
    t = line.replace('*', ' ').replace('Total:', ' ').replace('Tot:', ' ').replace(' to ', ' ').split()
    return t if t and all(x == '-' or NUM.match(x) for x in t) else None


def loose(line):
    """the numbers among words"""
    line = re.sub(r'@ line (\d+)-(\d+)', r'\1 \2', line)
    out = [x for x in line.split() if x == '-' or NUM.match(x)]
    return out


def parse(text):
    t = {'titles': [], 'rest': [], 'converged': False, 'et': '-', 'f': '-'}
    name, rows, part = None, [], None
    lines = text.split('\n')
    tables = {'Generator Data': 'gen', 'Dispatchable Load Data': 'disp', 'Bus Data': 'bus', 'Branch Data': 'branch',
              'Voltage Constraints': 'vlim', 'Branch Flow Constraints': 'flim'}
    k = 0
    while k < len(lines):
        x = lines[k]
        k += 1
        m = re.match(r'^\|\s+(.*?)\s+\|$', x)
        if m:
            name, part = m.group(1), None
            t['titles'].append(name)
            if name == 'System Summary':
                t['sys'], t['ext'] = [], []
            elif name == 'Area Summary':
                t['area'] = []
            elif name in tables:
                t[tables[name]] = []
                if name == 'Bus Data':
                    t['stars'] = []
            continue
        if not x.strip() or re.match(r'^[= ]+$', x):
            continue
        if name is None:
            m = re.match(r'^(Converged in|Did not converge \()\s*(\S+) seconds\)?$', x)
            if m:
                t['converged'], t['et'] = m.group(1).startswith('Conv'), m.group(2)
                continue
            m = re.match(r'^Objective Function Value = (\S+) \$/hr$', x)
            if m:
                t['f'] = m.group(1)
                continue
            t['rest'].append(x)
        elif name == 'System Summary':
            if re.match(r'^(Buses|Generators|Committed Gens|Loads|  Fixed|  Dispatchable|Shunts|Branches|Transformers|Inter-ties|Areas) ', x):
                t['sys'].append(loose(x))
            elif re.match(r'^(Voltage|P Losses|Q Losses|Lambda)', x):
                r = loose(x)
                t['ext'].append(r[1:] if 'Losses' in x and r[:1] == ['-'] else r)
        elif name == 'Area Summary':
            if x.startswith('Area '):
                t['area'].append([])
            r = tokens(x)
            if r is not None:
                t['area'][-1].append(r)
        elif name in ('Generation Constraints', 'Dispatchable Load Constraints'):
            if 'Power Limits' in x:
                part = 'P' if 'Active' in x else 'Q'
                t['titles'].append(part)
                t[('g' if name[0] == 'G' else 'l') + part.lower() + 'lim'] = []
            r = tokens(x)
            if r is not None and part:
                t[('g' if name[0] == 'G' else 'l') + part.lower() + 'lim'].append(r)
        else:
            r = tokens(x)
            if r is not None:
                t[tables.get(name, 'rest')].append(r)
                if name == 'Bus Data' and 'Total' not in x:
                    stars, n = [], 0
                    for p in re.findall(r'[^\s*]+|\*', x):
                        if p == '*':
                            stars.append(n)
                        else:
                            n += 1
                    t['stars'].append(stars)
    return t


def options(rng, dc):
    o = dict(OUT_ALL=int(rng.choice([-1, -1, -1, -1, 1, 1, 0])), OUT_SYS_SUM=int(rng.random() < .6), OUT_AREA_SUM=int(rng.random() < .6),
             OUT_BUS=int(rng.random() < .6), OUT_BRANCH=int(rng.random() < .6), OUT_GEN=int(rng.random() < .6),
             OUT_ALL_LIM=int(rng.choice([-1, -1, -1, 0, 1, 2])), OPF_FLOW_LIM=int(rng.integers(0, 3)), OPF_VIOLATION=float(rng.choice([5e-6, 1e-3])))
    for k in ('OUT_V_LIM', 'OUT_LINE_LIM', 'OUT_PG_LIM', 'OUT_QG_LIM'):
        o[k] = int(rng.choice([0, 1, 1, 1, 2]))
    return ppoption(VERBOSE=0, PF_DC=bool(dc), **o)


def near(rng, x, lo, hi, ctol):
    """values inside, at, just inside and just beyond their limits"""
    z = rng.choice(8, size=len(x))
    x = np.where(z == 0, lo, x)
    x = np.where(z == 1, hi, x)
    x = np.where(z == 2, lo + 3 * ctol, x)
    x = np.where(z == 3, hi - 3 * ctol, x)
    x = np.where(z == 4, hi - ctol / 2, x)
    return np.where(z == 5, 0, x)


def mus(rng, n):
    return np.where(rng.random(n) < .5, 0, np.where(rng.random(n) < .3, 6e-5, np.where(rng.random(n) < .2, 2e-4, rnd(rng, 0, 60, n))))


def made_up(rng, dc, isopf, ctol):
    """a result with any contents whatever"""
    c = opfgen.case(rng, dc=dc, rate=.8, disp=.7, islands=.15, base=float(rng.choice([100., 10., 50.])))
    c['branch'][c['branch'][:, 5] > 1e6, 5] = 900
    c.pop('areas', None)
    if rng.random() < .4:
        c['bus'][:, 6] = rng.choice([1, 2, 5, 7], len(c['bus']))
    b, g, l = c['bus'], c['gen'], c['branch']
    b[:, 7] = near(rng, rnd(rng, .9, 1.1, len(b)), b[:, 12], b[:, 11], ctol)
    b[b[:, 7] == 0, 7] = 1.
    b[:, 8] = rnd(rng, -40, 40, len(b))
    g[:, 1] = near(rng, rnd(rng, -5, 80, len(g), d=3), g[:, 9], g[:, 8], ctol)
    g[:, 2] = near(rng, rnd(rng, -30, 30, len(g), d=3), g[:, 4], g[:, 3], ctol)
    l[:, 2] = abs(l[:, 2])
    odd = rng.random(len(g)) < .15
    g[odd, 8] = rng.choice([0, 0, -3.], odd.sum())
    g[odd, 9] = rng.choice([0, -7.5], odd.sum())
    pq = rnd(rng, -60, 60, (len(l), 4))
    l = np.c_[l[:, :13], pq]
    if isopf:
        b = np.c_[b[:, :13], rnd(rng, -5, 80, len(b)), np.where(rng.random(len(b)) < .3, 5e-5, rnd(rng, -9, 9, len(b))), mus(rng, len(b)), mus(rng, len(b))]
        g = np.c_[g[:, :21], mus(rng, len(g)), mus(rng, len(g)), mus(rng, len(g)), mus(rng, len(g))]
        hit = (rng.random(len(l)) < .4) & (l[:, 5] != 0)
        l[hit, 13] = np.where(rng.random(hit.sum()) < .5, 1, -1) * l[hit, 5]
        other = hit & (rng.random(len(l)) < .5)
        l[other, 15], l[other, 13] = l[other, 13], l[other, 15]
        l[hit & (rng.random(len(l)) < .5), 14:17:2] = 0
        l = np.c_[l, mus(rng, len(l)), mus(rng, len(l)), np.zeros((len(l), 2))]
    off = l[:, 10] == 0
    l[off, 13:17] = 0
    c.update(bus=b, gen=g, branch=l, success=bool(rng.random() < .7), et=float(rnd(rng, 0, 9)))
    if isopf:
        c['f'] = float(rnd(rng, -500, 5000))
    return c


def solved(rng, dc, isopf):
    if isopf:
        c = opfgen.case(rng, dc=dc, rate=.8, disp=.5, base=float(rng.choice([100., 10.])))
        c['branch'][c['branch'][:, 5] > 1e6, 5] = 900
        ok, r, err = common.attempt(opf, c, ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=bool(dc)))
        return r if ok else None
    c = gen.network(rng, islands=.15, base=float(rng.choice([100., 10.])))
    ok, v, err = common.attempt(rundcpf if dc else runpf, c, ppoption(VERBOSE=0, OUT_ALL=0, PF_MAX_IT=int(rng.choice([2, 10, 10]))))
    return v[0] if ok else None


class Catch:
    """what is written to the standard output of the process"""
    def __init__(self):
        self.text = ''


def to_stdout(f, *a, **k):
    import sys
    with tempfile.TemporaryFile() as t:
        sys.stdout.flush()
        real = os.dup(1)
        os.dup2(t.fileno(), 1)
        try:
            f(*a, **k)
            sys.__stdout__.flush()
        finally:
            os.dup2(real, 1)
            os.close(real)
        t.seek(0)
        return t.read().decode()


def run(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(420, 4500)):
        dc, isopf = bool(rng.random() < .3), bool(rng.random() < .75)
        o = options(rng, dc)
        r = made_up(rng, dc, isopf, o['OPF_VIOLATION']) if rng.random() < .6 else solved(rng, dc, isopf)
        if r is None:
            ctx.count('not solved')
            continue
        if not np.isfinite(np.r_[r['bus'][:, 7:9].ravel(), r['branch'][:, 13:17].ravel(), r['gen'][:, 1:3].ravel(), r['bus'][:, 13:].ravel()]).all() \
                or abs(np.r_[r['bus'][:, 7:].ravel(), r['branch'][:, 13:].ravel(), r['gen'][:, 21:].ravel()]).max() > 900:
            ctx.count('skipped: too wide for the columns')
            continue
        f = float(r['f']) if isopf else 0.
        before = copy.deepcopy(view(r))
        d0, form = common.digest(r), str(rng.choice(['dict', 'dict', 'args', 'stdout', 'args stdout']))
        args = (r['baseMVA'], r['bus'], r['gen'], r['branch'], r['f'] if isopf else None, r['success'], r['et'])
        fd = io.StringIO()
        try:
            if form == 'dict':
                ok, _, err = common.attempt(printpf, r, fd, o)
                text = fd.getvalue()
            elif form == 'args':
                ok, _, err = common.attempt(printpf, *(args + (fd, o)))
                text = fd.getvalue()
            elif form == 'stdout':
                ok, err, text = True, '', to_stdout(printpf, r, None, o)
            else:
                ok, err, text = True, '', to_stdout(printpf, *args, ppopt=o)
        except Exception as e:
            ok, err = False, repr(e)
        if not ok:
            ctx.log('raised', err=err, form=form, dc=dc, opf=isopf)
            continue
        t = parse(text)
        ctx.count('%s%s %s' % ('dc ' if dc else '', 'opf' if isopf else 'pf', form))
        for x in t['titles']:
            ctx.count(x)
        opts = {k: int(o[k]) if k.startswith('OUT') or k == 'OPF_FLOW_LIM' else o[k] for k in KEEP}
        opts['dc'] = dc
        for k in ('OUT_SYS_SUM', 'OUT_AREA_SUM', 'OUT_BUS', 'OUT_BRANCH', 'OUT_GEN'):
            opts[k] = bool(opts[k])
        ctx.log('report', r=dict(before, opf=isopf, f=f, success=bool(r['success']), et=r['et']), o=opts, t=t, empty=not text.strip(),
                same=common.digest(r) == d0)
    ctx.judge('ReportTrace')
