import copy

import numpy as np
import common
import gen
from pf import view, QUIET
from pypower.ppoption import ppoption
from pypower.runpf import runpf

VIOL = 5e-6


def tight(rng, c):
    """limits close to what the units would produce, so that many of them bind"""
    ok, v, err = common.attempt(runpf, c, ppoption(PF_TOL=1e-10, PF_MAX_IT=25, **QUIET))
    if not ok or not v[1]:
        return False
    q = v[0]['gen'][:, 2]
    live, on, _ = gen.in_service(c)
    s = c['baseMVA'] / 100.
    if rng.random() < .12:
        # every unit leaves its range by less than the tolerance (or by just more than it):
        # the first is not a violation, the second is one at every unit
        out = rng.choice([1e-6, 2.5e-6, 1.2e-5, 1e-4])
        for j in on:
            w = rng.uniform(.3, 8) * s
            if rng.random() < .5:
                c['gen'][j, 3] = q[j] - out
                c['gen'][j, 4] = c['gen'][j, 3] - w
            else:
                c['gen'][j, 4] = q[j] + out
                c['gen'][j, 3] = c['gen'][j, 4] + w
        return True
    for j in on:
        z = rng.random()
        w = rng.uniform(.3, 8) * s
        if z < .3:
            c['gen'][j, 3] = q[j] - rng.uniform(.1, 3) * s
            c['gen'][j, 4] = c['gen'][j, 3] - w
        elif z < .5:
            c['gen'][j, 4] = q[j] + rng.uniform(.1, 3) * s
            c['gen'][j, 3] = c['gen'][j, 4] + w
        elif z < .75:
            c['gen'][j, 3] = q[j] + rng.uniform(.05, 3) * s
            c['gen'][j, 4] = q[j] - rng.uniform(.05, 3) * s
        else:
            c['gen'][j, 3] = q[j] + 100 * s
            c['gen'][j, 4] = q[j] - 100 * s
    c['gen'][:, 3:5] = np.round(c['gen'][:, 3:5], 3)
    return True


def tree(c, one, maxnodes=60):
    """solutions of the plain power flow for every set of units the machine may fix next"""
    nodes = []
    todo = [(0, [], copy.deepcopy(c), None)]
    base_bus = c['bus'].copy()
    setpoints = c['bus'][:, 7:9].copy()
    for j in gen.in_service(c)[1]:
        setpoints[c['bus'][:, 0] == c['gen'][j, 0], 0] = c['gen'][j, 5]
    while todo:
        parent, fix, w, start = todo.pop(0)
        if len(nodes) >= maxnodes:
            return None
        w['bus'][:, 7:9] = base_bus[:, 7:9]
        ok, v, err = common.attempt(runpf, w, ppoption(PF_TOL=1e-10, PF_MAX_IT=25, **QUIET))
        node = {'parent': parent, 'fix': fix, 'ok': bool(ok and v[1])}
        if parent:
            # the machine may start from the set points or go on from where it is:
            # only problems that are as easily solved from there
            for s in (start, setpoints):
                x = copy.deepcopy(w)
                x['bus'][:, 7:9] = s
                ok2, v2, _ = common.attempt(runpf, x, ppoption(PF_TOL=1e-10, PF_MAX_IT=25, **QUIET))
                if bool(ok2 and v2[1]) != node['ok'] or node['ok'] and np.abs(v[0]['bus'][:, 7] - v2[0]['bus'][:, 7]).max() > 1e-7:
                    return None
        nodes.append(node)
        me = len(nodes)
        if not node['ok']:
            node.update(qg=[], pg=[], vm=[], va=[])
            continue
        r = v[0]
        qg, pg = r['gen'][:, 2].copy(), r['gen'][:, 1].copy()
        off = w['gen'][:, 7] <= 0
        qg[off], pg[off] = w['gen'][off, 2], w['gen'][off, 1]
        node.update(qg=qg, pg=pg, vm=r['bus'][:, 7], va=r['bus'][:, 8])
        live, on, _ = gen.in_service(w)
        up = r['bus'][:, 1] != 4
        if r['bus'][up, 7].min() < .75 or np.ptp(r['bus'][up, 8]) > 120:
            return None                     # a low-voltage solution: the algorithms may find different ones
        hi = qg[on] - w['gen'][on, 3]
        lo = w['gen'][on, 4] - qg[on]
        worst = np.maximum(hi, lo)
        if (np.abs(worst - VIOL) < 2e-6).any():
            return None                     # too close to call
        viol = on[worst > VIOL]
        if not len(viol):
            continue
        am = np.sort(worst[worst > VIOL])[::-1]
        if one and len(am) > 1 and am[0] - am[1] < 1e-4:
            return None
        ctl = [j for j in on if w['bus'][w['bus'][:, 0] == w['gen'][j, 0], 1][0] in (2, 3)]
        if set(ctl) <= set(viol):
            continue
        sets = [[viol[np.argmax(worst[worst > VIOL])]]] + ([[x] for x in viol][:3] if one else []) if one else [list(viol)]
        seen = []
        for F in sets:
            F = [int(x) for x in F]
            if F in seen:
                continue
            seen.append(F)
            n = copy.deepcopy(w)
            n['gen'][:, 1:3] = np.c_[pg, qg]
            for j in F:
                n['gen'][j, 2] = n['gen'][j, 3] if qg[j] > n['gen'][j, 3] else n['gen'][j, 4]
                n['gen'][j, 7] = 0
                b = n['bus'][:, 0] == n['gen'][j, 0]
                n['bus'][b, 2] -= n['gen'][j, 1]
                n['bus'][b, 3] -= n['gen'][j, 2]
                n['bus'][b, 1] = 1
            _, on2, _ = gen.in_service(n)
            has = np.isin(n['bus'][:, 0], n['gen'][on2, 0])
            if not ((n['bus'][:, 1] == 3) & has).any():
                cand = np.flatnonzero((n['bus'][:, 1] == 2) & has)
                if not len(cand):
                    continue
                n['bus'][n['bus'][:, 1] == 3, 1] = 1
                n['bus'][cand[0], 1] = 3
            todo.append((me, [j + 1 for j in F], n, r['bus'][:, 7:9].copy()))
    return nodes


def run(ctx):
    ctx.check_design('QLimitsMC', 'QLimitsMCdeep.cfg' if ctx.thorough else 'QLimitsMC.cfg', workers=8)
    rng = ctx.rng
    want = ctx.n(120, 900)
    tries = 0
    while want > 0 and tries < 4000:
        tries += 1
        c = gen.network(rng, npv=float(rng.choice([.3, .6, .9])), multi=float(rng.choice([0, .4, .8])), nb=int(rng.integers(3, 8)), outage=.15, islands=.15)
        if not tight(rng, c):
            continue
        one = bool(rng.random() < .5)
        nodes = tree(c, one)
        if nodes is None:
            ctx.count('skipped: boundary or too large')
            continue
        want -= 1
        alg = 1 if rng.random() < .7 else int(rng.integers(2, 4))
        d0 = common.digest(c)
        o = ppoption(ENFORCE_Q_LIMS=2 if one else int(rng.choice([1, 1, True])), PF_ALG=alg, PF_TOL=1e-10, PF_MAX_IT=25, PF_MAX_IT_FD=100, **QUIET)
        ok, v, err = common.attempt(runpf, c, o)
        if not ok:
            ctx.count('raised')
            ctx.log('raised', err=err, c=view(c), one=one, viol=VIOL, nodes=nodes, slack=err.startswith('ValueError') and 'slacks' in err)
            continue
        r, success = v
        ctx.count('rounds %d' % max(1, len(nodes)) if not one else 'one at a time')
        ctx.count('success %s' % bool(success))
        ctx.log('qlim', c=view(c), r=view(r), one=one, success=bool(success), rsuccess=bool(r['success']), viol=VIOL, nodes=nodes, alg=alg)
    ctx.judge('QLimitsTrace')
