"""Transfer and outage factors; the harness only supplies bus angles as witnesses, TLC checks them."""
import numpy as np

import common
import gen
from c13 import internal
from pf import view
from pypower.makePTDF import makePTDF
from pypower.makeLODF import makeLODF


def angles(c, p, off=None):
    """bus angles for injections p (p.u.): a witness"""
    n = len(c['bus'])
    B = np.zeros((n, n))
    for k, r in enumerate(c['branch']):
        if r[10] == 0 or k == off:
            continue
        b = 1 / (r[3] * (r[8] or 1))
        f, t = int(r[0]), int(r[1])
        B[f, f] += b
        B[t, t] += b
        B[f, t] -= b
        B[t, f] -= b
    th = np.zeros((n,) + p.shape[1:])
    try:
        th[1:] = np.linalg.solve(B[1:, 1:], p[1:])
    except np.linalg.LinAlgError:
        th[:] = np.nan
    return th


def run(ctx):
    rng = ctx.rng
    for k in range(ctx.n(160, 1000)):
        c = internal(ctx, gen.network(rng, iso=0 if k % 2 else .5, shift=.3, tap=.5, mesh=1.), k % 2)
        n = len(c['bus'])
        kind = ('bus', 'bus', 'weights', 'matrix', 'default', 'column')[k % 6]
        if kind == 'bus':
            slack = int(rng.integers(0, n))
            arg = slack
        elif kind in ('weights', 'column'):
            slack = gen.rnd(rng, 0, 4, n)
            slack[rng.integers(0, n)] = 2.
            if rng.random() < .3:
                slack = np.floor(slack).astype(int)
                slack[0] += 1
            elif rng.random() < .6:
                slack = slack * rng.choice([.01, .1, 1 / slack.sum(), 10.])
            arg = slack if kind == 'weights' else slack.reshape(-1, 1)
            kind = 'weights'
        elif kind == 'matrix':
            w = rng.dirichlet(np.ones(n), n).T
            slack = np.eye(n) - w
            arg = slack
        else:
            slack = int(np.flatnonzero(c['bus'][:, 1] == 3)[0])
            arg = None
            kind = 'bus'
        d0 = common.digest([c, arg])
        ok, h, err = common.attempt(makePTDF, c['baseMVA'], c['bus'], c['branch'], arg)
        if not ok:
            ctx.log('raised', err=err, c=view(c), arg=arg)
            continue
        pat = np.eye(n)
        if kind == 'bus':
            pat[slack, :] -= 1
        elif kind == 'weights':
            pat -= np.outer(slack / slack.sum(), np.ones(n))
        else:
            pat = slack
        p = rng.uniform(-3, 3, n)
        p -= p.mean()
        th = angles(c, pat).T
        ctx.log('ptdf', c=view(c), kind=kind, slack=slack, h=np.asarray(h), th=th, p=p, thp=angles(c, p),
                untouched=common.digest([c, arg]) == d0)
        if kind == 'matrix':
            continue
        d0 = common.digest([c, h])
        ok, lodf, err = common.attempt(makeLODF, c['branch'], h)
        if not ok:
            ctx.log('raised', err=err, c=view(c), arg=arg)
            continue
        thk = [angles(c, p, b) for b in range(len(c['branch']))]
        ctx.log('lodf', c=view(c), lodf=np.asarray(lodf), p=p, th=angles(c, p), flow=np.asarray(h) @ p, thk=thk,
                untouched=common.digest([c, h]) == d0)
    ctx.judge('FactorsTrace')
