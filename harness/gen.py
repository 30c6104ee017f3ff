"""Random power networks for the conformance checks.

Every network is connected through in-service branches, lightly loaded (so a
power flow exists), and deliberately awkward: non-consecutive bus numbers in
random order, isolated buses, equipment out of service, several units on a
bus, parallel branches, off-nominal taps, phase shifters and shunts.
"""
import numpy as np


def rnd(rng, lo, hi, size=None, d=4):
    return np.round(rng.uniform(lo, hi, size), d)


def network(rng, nb=None, iso=.5, outage=.2, parallel=.25, tap=.4, shift=.3, shunt=.3, mesh=.6, npv=.4,
            multi=.4, load=1., numbers=None, base=None, chg=.5, rzero=.15, wide=True, lineq=None, types=None, offpv=.3,
            start=.5, order=True, islands=0):
    if islands and rng.random() < islands:
        kw = dict(outage=outage, parallel=parallel, tap=tap, shift=shift, shunt=shunt, mesh=mesh, npv=npv, multi=multi, load=load,
                  base=float(rng.choice([100., 100., 10., 50.])) if base is None else base, chg=chg, rzero=rzero, wide=wide, offpv=offpv,
                  start=start, order=order)
        n = int(rng.integers(4, 9)) if nb is None else max(nb, 4)
        h = int(rng.integers(2, n - 1))
        return join(rng, network(rng, nb=h, iso=iso, **kw), network(rng, nb=n - h, iso=0, **kw), order)
    nb = int(rng.integers(3, 9)) if nb is None else nb
    base = float(rng.choice([100., 100., 10., 50.])) if base is None else base
    niso = int(rng.integers(1, 3)) if rng.random() < iso else 0
    n = nb + niso
    no = rng.choice(np.arange(1, 80), size=n, replace=False) if numbers is None else numbers(n)
    perm = rng.permutation(n)
    live, dead = perm[:nb], perm[nb:]
    s = base / 100.
    bus = np.zeros((n, 13))
    bus[:, 0] = no
    bus[:, 1] = 1
    bus[:, 2] = rnd(rng, 3, 30, n) * s * load
    bus[:, 3] = rnd(rng, -3, 10, n) * s * load
    z = rng.random(n) < .2
    bus[z, 2:4] = 0
    sh = rng.random(n) < shunt
    bus[sh, 4] = rnd(rng, 0, 4, sh.sum()) * s
    bus[sh, 5] = rnd(rng, -4, 12, sh.sum()) * s
    bus[:, 6] = rng.integers(1, 4, n)
    bus[:, 7] = rnd(rng, .97, 1.03, n)
    bus[:, 8] = rnd(rng, -8, 8, n)
    if rng.random() < start:
        bus[:, 7] = 1.
        bus[:, 8] = 0
    bus[:, 9] = rng.choice([135., 230., 345.])
    bus[:, 10] = rng.integers(1, 4, n)
    bus[:, 11] = 1.1
    bus[:, 12] = .9
    bus[dead, 1] = 4
    ref = live[0]
    bus[ref, 1] = 3
    bus[ref, 8] = rnd(rng, -20, 20) if rng.random() < .5 else 0
    pv = live[1:][rng.random(nb - 1) < npv]
    bus[pv, 1] = 2
    # branches: a tree in service, then more of anything
    br = []

    def add(f, t, on):
        row = np.zeros(13)
        row[0], row[1] = (no[f], no[t]) if rng.random() < .5 else (no[t], no[f])
        row[2] = 0 if rng.random() < rzero else rnd(rng, .005, .05)
        row[3] = rnd(rng, .05, .25)
        row[4] = rnd(rng, .01, .08) if rng.random() < chg else 0
        row[5:8] = 0
        row[8] = rnd(rng, .92, 1.08) if rng.random() < tap else 0
        if row[8] == 0 and rng.random() < .1:
            row[8] = 1
        row[9] = rnd(rng, -10, 10, d=3) if rng.random() < shift else 0
        row[10] = on
        row[11:13] = -360, 360
        br.append(row)
    for k in range(1, nb):
        add(live[k], live[rng.integers(0, k)], 1)
    for _ in range(int(rng.integers(0, 1 + int(mesh * nb) + 1))):
        f, t = rng.choice(live, 2, replace=False)
        add(f, t, int(rng.random() > outage))
    for _ in range(len(br)):
        if rng.random() < parallel / 3:
            b = br[rng.integers(0, len(br))]
            i = {v: k for k, v in enumerate(no)}
            add(i[b[0]], i[b[1]], int(rng.random() > outage))
    for d in dead:
        if rng.random() < .7:
            add(d, live[rng.integers(0, nb)], int(rng.random() < .7))
    br = np.array(br)
    if order:
        br = br[rng.permutation(len(br))]
    # generators
    g = []
    total = bus[live, 2].sum() + bus[live, 4].sum()

    def unit(b, on, vg):
        row = np.zeros(21)
        row[0] = no[b]
        row[1] = rnd(rng, 0, 20) * s
        row[2] = rnd(rng, -5, 8) * s
        row[3] = rnd(rng, 10, 60) * s
        row[4] = -rnd(rng, 10, 60) * s
        row[5] = vg
        row[6] = base
        row[7] = on
        row[8] = np.ceil(row[1] + rnd(rng, 20, 60) * s)
        row[9] = 0
        g.append(row)
    for b in np.r_[[ref], pv].astype(int):
        vg = rnd(rng, .98, 1.04)
        k = 1 + int(rng.integers(1, 3)) if rng.random() < multi else 1
        first = True
        for _ in range(k):
            on = 1 if (first and (b == ref or rng.random() > offpv)) else int(rng.random() > outage)
            unit(b, on, vg)
            first = False
    for b in live:
        if bus[b, 1] == 1 and rng.random() < .12:
            unit(b, int(rng.random() > outage), rnd(rng, .98, 1.04))
    for b in dead:
        if rng.random() < .6:
            unit(b, int(rng.random() > .4), 1.)
    g = np.array(g)
    if order:
        g = g[rng.permutation(len(g))]
    # spread the load over the units so that the slack is not extreme
    live_no = set(no[live])
    on = [k for k in range(len(g)) if g[k, 7] > 0 and g[k, 0] in live_no]
    share = rng.dirichlet(np.ones(len(on)))
    g[on, 1] = np.round(total * share * .9, 3)
    g[on, 8] = np.ceil(g[on, 1] + rnd(rng, 20, 60, len(on)) * s)
    return {'version': '2', 'baseMVA': base, 'bus': bus, 'gen': g, 'branch': br}


def join(rng, a, b, order=True):
    """one case of two networks that no branch connects, each with its own reference bus"""
    free = [n for n in range(1, 160) if n not in a['bus'][:, 0]]
    to = dict(zip(b['bus'][:, 0], rng.choice(free, len(b['bus']), replace=False)))
    for t, cols in (('bus', [0]), ('gen', [0]), ('branch', [0, 1])):
        for j in cols:
            b[t][:, j] = [to[n] for n in b[t][:, j]]
    c = dict(a)
    for t in ('bus', 'gen', 'branch'):
        m = np.vstack([a[t], b[t]])
        c[t] = m[rng.permutation(len(m))] if order else m
    return c


def in_service(c):
    live = c['bus'][c['bus'][:, 1] != 4, 0]
    gon = np.flatnonzero((c['gen'][:, 7] > 0) & np.isin(c['gen'][:, 0], live))
    bon = np.flatnonzero((c['branch'][:, 10] != 0) & np.isin(c['branch'][:, 0], live) & np.isin(c['branch'][:, 1], live))
    return live, gon, bon


def polycost(rng, c, degree=None, rows=None, pad=0):
    """convex polynomial costs, one row per unit"""
    ng = len(c['gen']) if rows is None else rows
    out = np.zeros((ng, 4 + 3 + pad))
    s = 100. / c['baseMVA']
    for k in range(ng):
        d = int(rng.integers(1, 3)) if degree is None else degree
        co = [rnd(rng, .01, .08) * s] if d == 2 else []
        co += [rnd(rng, 5, 45, d=3), rnd(rng, 0, 100, d=2)]
        out[k, :4] = 2, rnd(rng, 0, 300, d=1), rnd(rng, 0, 300, d=1), len(co)
        out[k, 4:4 + len(co)] = co
    return out


def pwlcost(rng, lo, hi, npt=None):
    """one convex piecewise linear cost row (unpadded) over [lo, hi]"""
    n = int(rng.integers(2, 5)) if npt is None else npt
    x = np.sort(rng.choice(np.arange(1, 40), n - 2, replace=False) / 40. * (hi - lo) + lo) if n > 2 else np.array([])
    x = np.r_[lo, x, hi]
    sl = np.sort(rnd(rng, 5, 60, n - 1, d=2)) + np.arange(n - 1) * .5
    y = np.r_[rnd(rng, 0, 50, d=1), 0 * x[1:]]
    for k in range(1, n):
        y[k] = y[k - 1] + sl[k - 1] * (x[k] - x[k - 1])
    row = [1, 0, 0, n]
    for a, b in zip(x, y):
        row += [a, b]
    return np.round(row, 6)


def stack(rows):
    w = max(len(r) for r in rows)
    return np.array([np.r_[r, np.zeros(w - len(r))] for r in rows])
