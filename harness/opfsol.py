"""Solves random OPF cases and records the solved case for the specification (C17-C20)."""
import numpy as np
from scipy.sparse import csr_matrix, issparse

import common
import gen
import opfgen
from common import enc
from gen import rnd
from pf import view
from pypower.opf import opf
from pypower.ppoption import ppoption

TIGHT = dict(PDIPM_FEASTOL=1e-8, PDIPM_GRADTOL=1e-7, PDIPM_COMPTOL=1e-8, PDIPM_COSTTOL=1e-8)
NOUSER = dict(A=[], l=[], u=[], N=[], H=[], Cw=[], fparm=[], zl=[], zu=[])


def arr(m):
    return m.toarray() if issparse(m) else np.asarray(m)


def user_data(rng, c, dc, form=None):
    """user variables, limits and costs in the case's own columns; feasible around the middle of the ranges"""
    nb, ng = len(c['bus']), len(c['gen'])
    ac_cols = not dc or (rng.random() < .4 if form is None else form)
    live = c['bus'][:, 1] != 4
    no = set(c['bus'][live, 0])
    on = (c['gen'][:, 7] > 0) & np.array([b in no for b in c['gen'][:, 0]])
    nx = 2 * nb + 2 * ng if ac_cols else nb + ng
    nz = int(rng.integers(0, 3))
    if ac_cols:
        va, vm, pg, qg = 0, nb, 2 * nb, 2 * nb + ng
    else:
        va, vm, pg, qg = 0, None, nb, None
    base = c['baseMVA']
    mid = np.zeros(nx + nz)
    if vm is not None:
        mid[vm:vm + nb] = 1.
    mid[pg:pg + ng] = np.clip(c['gen'][:, 1], c['gen'][:, 9], c['gen'][:, 8]) / base * on
    rows, lo, up = [], [], []

    def put(r, w):
        rows.append(r)
        v = r.dot(mid)
        k = rng.random()
        lo.append(-np.inf if k < .35 else np.round(v - w, 4))
        up.append(np.inf if .35 <= k < .7 else np.round(v + w, 4))
    for _ in range(int(rng.integers(0, 4))):
        r = np.zeros(nx + nz)
        t = rng.random()
        if t < .4 and on.sum() > 1:                      # share between two units
            a, b = rng.choice(np.flatnonzero(on), 2, replace=False)
            r[pg + a], r[pg + b] = 1., rnd(rng, -1, 1, d=2)
            put(r, rnd(rng, .02, .3))
        elif t < .6:                                     # angle difference
            a, b = rng.choice(np.flatnonzero(live), 2, replace=False)
            r[va + a], r[va + b] = 1, -1
            put(r, rnd(rng, .05, .4))
        elif t < .8 and ac_cols and not dc:
            r[vm + rng.choice(np.flatnonzero(live))] = 1.
            r[qg + rng.choice(np.flatnonzero(on))] = rnd(rng, -.2, .2, d=2)
            put(r, rnd(rng, .03, .1))
        elif nz:
            r[nx + rng.integers(0, nz)] = 1.
            r[pg + rng.choice(np.flatnonzero(on))] = rnd(rng, -1, 1, d=2)
            put(r, rnd(rng, .05, .4))
        if len(rows) and rng.random() < .2 and (~on).any():   # what is out of service drops out
            rows[-1][pg + rng.choice(np.flatnonzero(~on))] = 1.
    if nz and not rows:
        r = np.zeros(nx + nz)
        r[nx] = 1.
        put(r, .5)
    A = np.array(rows).reshape(-1, nx + nz)
    u = dict(NOUSER, A=A, l=np.array(lo), u=np.array(up))
    if nz:
        u['zl'] = np.round(-rng.uniform(.1, 1, nz), 3)
        u['zu'] = np.round(rng.uniform(.1, 1, nz), 3)
    if rng.random() < .6 and (not nz or len(rows)):
        m = int(rng.integers(1, 4))
        N = np.zeros((m, nx + nz))
        for r in N:
            for _ in range(int(rng.integers(1, 3))):
                cols = list(pg + np.flatnonzero(on)) + list(va + np.flatnonzero(live)) + list(range(nx, nx + nz))
                if ac_cols and not dc:
                    cols += list(vm + np.flatnonzero(live))
                r[rng.choice(cols)] = rnd(rng, -1, 1, d=2)
        H = np.round(rng.normal(size=(m, m)), 2)
        H = np.round(H.dot(H.T) * rng.choice([1., 50.]), 4)
        # a smooth problem: linear terms only, no dead zone
        fp = np.c_[np.ones(m), np.round(rng.normal(size=m), 2) * (rng.random(m) < .6), np.zeros(m), rnd(rng, .5, 2, m, d=2)]
        u.update(N=N, Cw=np.round(rng.normal(size=m) * 20, 2))
        if rng.random() < .7:
            u['H'] = H
        if rng.random() < .7:
            u['fparm'] = fp
    return u


def with_user(c, u):
    d = dict(c)
    for k, f in (('A', csr_matrix), ('N', csr_matrix), ('H', csr_matrix), ('l', np.array), ('u', np.array), ('Cw', np.array), ('fparm', np.array),
                 ('zl', np.array), ('zu', np.array)):
        if len(u[k]):
            d[k] = f(u[k])
    if len(u['zl']):
        d['z0'] = np.zeros(len(u['zl']))
    return d


def solve(c, u=NOUSER, **opt):
    o = ppoption(VERBOSE=0, OUT_ALL=0, **dict(TIGHT, **opt))
    return common.attempt(opf, with_user(c, u), o)


def named(r):
    out = {}
    for n, v in r['var']['val'].items():
        out[n] = {'val': v, 'l': r['var']['mu']['l'][n], 'u': r['var']['mu']['u'][n]}
    lin = {n: {'l': r['lin']['mu']['l'][n], 'u': r['lin']['mu']['u'][n]} for n in r.get('lin', {'mu': {'l': {}}})['mu']['l']}
    nln = {}
    if 'nln' in r:
        nln = {n: {'l': r['nln']['mu']['l'][n], 'u': r['nln']['mu']['u'][n]} for n in r['nln']['mu']['l']}
    return out, lin, nln


def record(ctx, ev, c, u, r, dc=False, kind=0, ignore=False):
    var, lin, nln = named(r)
    ctx.log(ev, c=view(c, True), u=u, dc=dc, kind=kind, ignore=bool(ignore), success=bool(r['success']),
            perm=[int(k) + 1 for k in r['order']['gen']['e2i']], r=view(r, True), f=r['f'], var=var, lin=lin, nln=nln,
            cost=sum(r['cost'].values()) if 'cost' in r else 0,
            feastol=TIGHT['PDIPM_FEASTOL'], gradtol=TIGHT['PDIPM_GRADTOL'], comptol=TIGHT['PDIPM_COMPTOL'])


def narrow(rng, c):
    """the tables as a user may give them: with or without result columns, these with stale contents"""
    c = dict(c)
    for k, n in (('bus', 17), ('gen', 25), ('branch', 21)):
        if rng.random() < .5:
            w = c[k].shape[1]
            c[k] = np.c_[c[k], rnd(rng, 0, 9, (len(c[k]), n - w), d=2)]
    return c


def impossible(rng, c):
    c = dict(c, bus=c['bus'].copy(), branch=c['branch'].copy())
    c['bus'][:, 4] = abs(c['bus'][:, 4])
    c['bus'][:, 2] = abs(c['bus'][:, 2]) * 2 + c['gen'][:, 8].clip(0).sum() / len(c['bus']) * 2
    c['branch'][:, 2] = abs(c['branch'][:, 2])
    return c


def refused(ctx, c, dc):
    ok, r, err = solve(c, PF_DC=int(dc))
    if not ok:
        ctx.log('raised', what='opf', err=err, c=view(c, True))
        return
    ctx.log('refused', c=view(c, True), success=bool(r['success']), perm=[int(k) + 1 for k in r['order']['gen']['e2i']])


def relisted(rng, c, u, dc):
    """the same problem with every table in another order and buses numbered otherwise"""
    nb, ng = len(c['bus']), len(c['gen'])
    pb, pg, pr = rng.permutation(nb), rng.permutation(ng), rng.permutation(len(c['branch']))
    new = rng.choice(np.arange(1, 200), size=nb, replace=False).astype(float)
    to = {int(b): n for b, n in zip(c['bus'][:, 0], new)}
    d = dict(c, bus=c['bus'][pb].copy(), gen=c['gen'][pg].copy(), branch=c['branch'][pr].copy())
    gc = c['gencost']
    d['gencost'] = np.r_[gc[:ng][pg], gc[ng:][pg]] if len(gc) == 2 * ng else gc[pg]
    d['bus'][:, 0] = [to[int(b)] for b in d['bus'][:, 0]]
    d['gen'][:, 0] = [to[int(b)] for b in d['gen'][:, 0]]
    for k in (0, 1):
        d['branch'][:, k] = [to[int(b)] for b in d['branch'][:, k]]
    v = dict(u)
    for k in ('A', 'N'):
        m = np.asarray(u[k])
        if not m.size:
            continue
        if m.shape[1] >= 2 * nb + 2 * ng:
            cols = np.r_[pb, nb + pb, 2 * nb + pg, 2 * nb + ng + pg, np.arange(2 * nb + 2 * ng, m.shape[1])]
        else:
            cols = np.r_[pb, nb + pg, np.arange(nb + ng, m.shape[1])]
        v[k] = m[:, cols]
    return d, v, np.argsort(pg)


def press(rng, c):
    """make limits bind: narrow angle limits, heavy reactive load on sloped capability curves, cheap power on the wrong side"""
    s = c['baseMVA'] / 100.
    g, b = c['gen'], c['branch']
    if rng.random() < .5:
        for r in b:
            if rng.random() < .5:
                r[11], r[12] = -rnd(rng, .3, 3, d=2), rnd(rng, .3, 3, d=2)
                if rng.random() < .3:
                    r[rng.choice([11, 12])] = 0
    if rng.random() < .6:
        up = rng.random() < .5
        c['bus'][:, 3] += (1 if up else -1) * rnd(rng, 2, 12, len(c['bus'])) * s
        for r in g:
            if r[8] > 0 and r[9] >= 0:
                q = rnd(rng, 15, 40) * s
                r[3], r[4] = q, -q
                r[10], r[11] = 0, r[8]
                f = rnd(rng, 0, .5, d=2)
                r[12], r[13] = -q, q
                r[14] = -q if rng.random() < .4 else -np.round(q * f, 4)
                r[15] = q if rng.random() < .4 else np.round(q * f, 4)
    gc = c['gencost']
    if rng.random() < .4:                                # steeply different prices, some negative
        for r in gc[:len(g)]:
            if r[0] == 2 and r[3] > 1:
                r[4 + int(r[3]) - 2] = np.round(rng.uniform(-30, 60), 2)
    return c
