import numpy as np
from scipy.sparse import issparse

import common
import opfgen
from pf import view
from pypower.ext2int import ext2int
from pypower.hasPQcap import hasPQcap
from pypower.isload import isload
from pypower.makeAang import makeAang
from pypower.makeApq import makeApq
from pypower.makeAvl import makeAvl
from pypower.makeAy import makeAy
from pypower.opf_setup import opf_setup
from pypower.ppoption import ppoption


def arr(m):
    return m.toarray() if issparse(m) else np.asarray(m)


def envelope(row, p):
    n = int(row[3])
    x, v = row[4:4 + 2 * n:2], row[5:5 + 2 * n:2]
    return max(v[k] + (v[k + 1] - v[k]) / (x[k + 1] - x[k]) * (p - x[k]) for k in range(n - 1))


def loads(g):
    return (g[:, 9] < 0) & (g[:, 8] == 0) & ((g[:, 3] != 0) | (g[:, 4] != 0))


def units(rng, c):
    """outputs (p.u.) within the box, on the lines of the loads and inside the capability curves; one may be moved out"""
    g, s = c['gen'], c['baseMVA']
    ng = len(g)
    p = g[:, 9] + rng.random(ng) * (g[:, 8] - g[:, 9])
    edge = rng.random(ng)
    p = np.where(edge < .15, g[:, 8], np.where(edge < .3, g[:, 9], p))
    lo, hi = g[:, 4].copy(), g[:, 3].copy()
    cut = g[:, 10] != g[:, 11]
    box = lo.copy(), hi.copy()
    with np.errstate(all='ignore'):
        t = (p - g[:, 10]) / (g[:, 11] - g[:, 10])
    hi[cut] = np.minimum(hi, g[:, 13] + t * (g[:, 15] - g[:, 13]))[cut]
    lo[cut] = np.maximum(lo, g[:, 12] + t * (g[:, 14] - g[:, 12]))[cut]
    f = rng.random(ng)
    f = np.where(rng.random(ng) < .2, 1, np.where(rng.random(ng) < .2, 0, f))
    q = lo + f * (hi - lo)
    move = rng.random()
    if move < .6:
        k = int(rng.integers(0, ng))
        if cut.any() and rng.random() < .6:
            k = int(rng.choice(np.flatnonzero(cut)))
        q[k] = box[0][k] + rng.random() * (box[1][k] - box[0][k])
    elif move < .85 and cut.any():       # just beyond a line
        k = int(rng.choice(np.flatnonzero(cut)))
        d = rng.choice([1e-4, 1e-3, .03]) * s
        q[k] = np.clip(hi[k] + d if rng.random() < .5 else lo[k] - d, box[0][k], box[1][k])
    v = loads(g)
    ratio = np.where(g[:, 4] != 0, g[:, 4], g[:, 3])
    q[v] = (p * ratio / np.where(g[:, 9] == 0, 1, g[:, 9]))[v]
    if v.any() and rng.random() < .4:
        k = int(rng.choice(np.flatnonzero(v)))
        q[k] += rng.choice([-1, 1]) * rng.choice([.02, 1.]) * s
    return np.r_[p, q] / s


def over(rng, rows, out, base):
    y = np.array([envelope(r, base * o) for r, o in zip(rows, out)])
    y = y + rng.random(len(y)) * rng.choice([1e-2, 10.], len(y)) + (1e-9 if len(y) else 0)
    if len(y) and rng.random() < .5:
        k = int(rng.integers(0, len(y)))
        y[k] -= rng.choice([.02, 2.]) + (y[k] - envelope(rows[k], base * out[k]))
    return y


def angles(rng, c, rows=None):
    br, nb = c['branch'], len(c['bus'])
    va = np.cumsum(rng.normal(size=nb) * rng.choice([.005, .03, .2]))
    if len(br) and rng.random() < .7:            # put one branch close to a limit
        k = int(rng.integers(0, len(br)))
        b = br[k]
        lim = [np.deg2rad(x) for x in (b[11], b[12]) if x != 0 and abs(x) < 360]
        d = rng.choice(lim) if lim else rng.uniform(-2, 2)
        va[int(b[0])] = va[int(b[1])] + d + rng.choice([-1, 1]) * rng.choice([1e-4, 1e-2])
    return va


def shuffled_limits(rng, c):
    for b in c['branch']:
        r = rng.random()
        if r < .25:
            b[11], b[12] = -opfgen.rnd(rng, 1, 40, d=2), opfgen.rnd(rng, 1, 40, d=2)
        elif r < .35:
            b[11], b[12] = opfgen.rnd(rng, .5, 5, d=2), opfgen.rnd(rng, 6, 40, d=2)
        elif r < .45:
            b[11], b[12] = 0, opfgen.rnd(rng, -4, 20, d=2)
        elif r < .55:
            b[11], b[12] = -opfgen.rnd(rng, 1, 40, d=2), rng.choice([0, 360, 400])
        elif r < .65:
            b[11], b[12] = rng.choice([0, -360, -500]), rng.choice([0, 360, 500])


def single(ctx, c):
    rng = ctx.rng
    ng, nb, base = len(c['gen']), len(c['bus']), c['baseMVA']
    cv = view(c, True)
    # cost rows
    rows = [k for k in range(len(c['gencost'])) if c['gencost'][k, 0] == 1]
    pgb = int(rng.integers(1, 4))
    qgb = pgb + ng + int(rng.integers(0, 3))
    yb = qgb + ng + int(rng.integers(0, 3))
    ok, r, err = common.attempt(makeAy, base, ng, c['gencost'].copy(), pgb, qgb, yb)
    if ok:
        xs = []
        for _ in range(6):
            out = units(rng, c)
            y = over(rng, [c['gencost'][k] for k in rows], [out[k] for k in rows], base)
            x = rng.normal(size=yb - 1 + len(rows))
            x[pgb - 1:pgb - 1 + ng], x[qgb - 1:qgb - 1 + ng] = out[:ng], out[ng:]
            x[yb - 1:] = y
            xs.append({'x': x, 'out': out, 'y': y})
        ctx.log('ay', c=cv, A=arr(r[0]), b=r[1], xs=xs, cols=yb - 1 + len(rows))
    else:
        ctx.log('raised', what='makeAy', err=err, c=cv)
    pts = [units(rng, c) for _ in range(8)]
    ok, r, err = common.attempt(makeAvl, base, c['gen'].copy())
    if ok:
        ok, il, err = common.attempt(isload, c['gen'].copy())
    if ok:
        ctx.log('avl', c=cv, A=arr(r[0]), l=r[1], u=r[2], at=r[3], isload=[bool(x) for x in il], xs=pts)
    else:
        ctx.log('raised', what='makeAvl', err=err, c=cv)
    ok, r, err = common.attempt(lambda: (makeApq(base, c['gen'].copy()), [hasPQcap(c['gen'].copy(), *a) for a in (('U',), ('L',), (), ('B',))]))
    if ok:
        (Ah, bh, Al, bl, data), (u, lo, b0, b1) = r
        ctx.log('apq', c=cv, Ah=arr(Ah), bh=bh, Al=arr(Al), bl=bl, ath=data['ipqh'], atl=data['ipql'], xs=pts,
                hasU=[bool(x) for x in u], hasL=[bool(x) for x in lo], hasB=[bool(x) for x in (b0 if rng.random() < .5 else b1)])
    else:
        ctx.log('raised', what='makeApq', err=err, c=cv)
    ign = bool(rng.random() < .2)
    ok, r, err = common.attempt(makeAang, base, c['branch'].copy(), nb, ppoption(OPF_IGNORE_ANG_LIM=int(ign)))
    if ok:
        ctx.log('aang', c=cv, A=arr(r[0]), l=r[1], u=r[2], at=r[3], ignore=ign, xs=[angles(rng, c) for _ in range(8)])
    else:
        ctx.log('raised', what='makeAang', err=err, c=cv)


def model(ctx, c, dc):
    rng = ctx.rng
    ng, nb, base = len(c['gen']), len(c['bus']), c['baseMVA']
    cv = common.enc(view(c, True))

    def build():
        om = opf_setup(c, ppoption(PF_DC=dc, VERBOSE=0))
        A, lo, up = om.linear_constraints()
        x0, xmin, xmax = om.getv()
        ll = om.get_idx()[1]
        return arr(A), lo, up, xmin, xmax, ll, om.lin_constraint_names() if hasattr(om, 'lin_constraint_names') else None
    n0 = [k for k in range(ng if dc else len(c['gencost'])) if c['gencost'][k, 0] == 1 and c['gencost'][k, 3] > 2]
    g0 = c['gencost'].copy()
    ok, r, err = common.attempt(build)
    if not ok:
        ctx.log('raised', what='opf_setup', err=err, c=cv)
        return
    A, lo, up, xmin, xmax, ll, _ = r
    blocks, counts = {}, {}
    for k in ('Pmis', 'Pf', 'Pt') if dc else ('PQh', 'PQl', 'vl'):
        counts[k] = ll['N'].get(k, 0)
    counts['ang'] = ll['N'].get('ang', 0)
    for k, n in ll['N'].items():
        if n:
            i = slice(ll['i1'][k], ll['iN'][k])
            blocks[k] = {'A': A[i], 'l': lo[i], 'u': up[i]}
    xs = []
    for _ in range(6):
        va, out = angles(rng, c), units(rng, c)
        if dc and rng.random() < .7:
            k = int(rng.integers(0, len(c['branch'])))
            b = c['branch'][k]
            if 0 < b[5] < 1e10:
                t = b[8] or 1.
                va[int(b[0])] = va[int(b[1])] + np.deg2rad(b[9]) + rng.choice([-1, 1]) * (b[5] / base + rng.choice([-1, 1]) * 1e-3) * b[3] * t
        y = over(rng, [g0[k] for k in n0], [out[k] for k in n0], base)
        xs.append(np.r_[va, out[:ng], y] if dc else np.r_[va, rng.uniform(.9, 1.1, nb), out, y])
    ctx.log('model', c=cv, dc=bool(dc), lo=xmin, up=xmax, counts=counts, blocks=blocks, xs=xs)


def run(ctx):
    rng = ctx.rng
    for k in range(ctx.n(90, 900)):
        with common.silence():
            c = ext2int(opfgen.case(rng, nb=int(rng.integers(2, 7)), maxdeg=2, rate=.7, disp=.7, cap=.7, tight=.5,
                                    q=None if rng.random() < .5 else True, cost=str(rng.choice(['mix', 'mix', 'pwl', 'poly']))))
        del c['order']
        shuffled_limits(rng, c)
        single(ctx, c)
        model(ctx, c, 0)
        if k % 2:
            with common.silence():
                c = ext2int(opfgen.case(rng, nb=int(rng.integers(2, 7)), maxdeg=2, rate=.7, disp=.4, tight=.5,
                                        q=bool(rng.random() < .3), cost=str(rng.choice(['mix', 'mix', 'pwl', 'poly']))))
            del c['order']
            shuffled_limits(rng, c)
            model(ctx, c, 1)
    ctx.judge('RegionTrace')
