import numpy as np
from scipy.sparse import csr_matrix, issparse

import common
import opfgen
from pf import view
from pypower.ext2int import ext2int
from pypower.makeYbus import makeYbus
from pypower.opf_consfcn import opf_consfcn
from pypower.opf_costfcn import opf_costfcn
from pypower.opf_hessfcn import opf_hessfcn
from pypower.opf_setup import opf_setup
from pypower.ppoption import ppoption


def arr(m):
    return [] if m is None else m.toarray() if issparse(m) else np.asarray(m)


def point(rng, om, c):
    n = om.getN('var')
    nb, ng = len(c['bus']), len(c['gen'])
    x = rng.normal(size=n)
    x[:nb] = rng.uniform(-1.2, 1.2, nb)
    x[nb:2 * nb] = rng.uniform(.8, 1.2, nb)
    x[2 * nb:2 * nb + 2 * ng] = rng.uniform(-1, 2, 2 * ng)
    return np.round(x, 6)


def one(ctx, k):
    rng = ctx.rng
    with common.silence():
        c = ext2int(opfgen.case(rng, nb=int(rng.integers(2, 6)), maxdeg=3, rate=.7,
                                cost=str(rng.choice(['mix', 'mix', 'poly', 'pwl']))))
    del c['order']
    nb, ng, nl = len(c['bus']), len(c['gen']), len(c['branch'])
    nx, nz = 2 * nb + 2 * ng, 0
    u = {'N': []}
    zero = None
    if rng.random() < .5:
        nz = int(rng.integers(0, 3))
        uc = opfgen.user_costs(rng, nx, nz, convex=False)
        if rng.random() < .4:
            # a row without a dead zone, evaluated exactly where it changes sign
            zero = int(rng.integers(0, nx))
            N = arr(uc['N']).copy()
            N[0] = 0
            N[0, zero] = 1
            uc['N'] = csr_matrix(N) if issparse(uc['N']) else N
            uc['fparm'][0] = [rng.choice([1., 2.]), np.round(rng.uniform(.8, 1.1), 2), 0, np.round(rng.uniform(.5, 2), 2)]
        c.update(uc)
        u = {a: arr(b) for a, b in uc.items()}
        if nz:
            c['A'] = csr_matrix(np.round(rng.normal(size=(1, nx + nz)), 2))
            c['l'], c['u'] = np.array([-np.inf]), np.array([5.])
    kind = int(rng.integers(0, 3))
    opt = ppoption(OPF_FLOW_LIM=kind, VERBOSE=0)
    base = {'c': view(c, True), 'u': u, 'nz': nz, 'kind': kind}
    base = common.enc(base)        # before the set-up touches anything

    def evaluate():
        om = opf_setup(c, opt)
        om.build_cost_params()
        x = point(rng, om, c)
        if rng.random() < .4:
            il = np.flatnonzero((c['branch'][:, 5] != 0) & (c['branch'][:, 5] < 1e10))
        else:
            il = np.sort(rng.permutation(nl)[:rng.integers(1, nl + 1)])
        c['branch'][(c['branch'][:, 5] == 0) | (c['branch'][:, 5] > 1e9), 5] = 50.
        base['c']['branch'] = common.enc(c['branch'])
        om.get_ppc()['branch'][:, 5] = c['branch'][:, 5]
        Y, Yf, Yt = makeYbus(c['baseMVA'], c['bus'], c['branch'])
        if zero is not None:
            x[zero] = uc['fparm'][0, 1]
        xi = x.copy()
        f, df, d2f = opf_costfcn(xi, om, True)
        f1, df1 = opf_costfcn(xi, om)
        a = () if len(il) == nl and rng.random() < .5 else (il,)
        h, g, dh, dg = opf_consfcn(xi, om, Y, Yf[il, :], Yt[il, :], opt, *a)
        lam = np.round(rng.normal(size=2 * nb) * 10, 3)
        mu = np.round(rng.random(2 * len(il)) * 10, 3)
        mult = float(rng.choice([1., 1e-4, .5]))
        lm = {'eqnonlin': lam.copy(), 'ineqnonlin': mu.copy()}
        if len(a) and rng.random() < .8 or mult != 1:
            hs = opf_hessfcn(xi, lm, om, Y, Yf[il, :], Yt[il, :], opt, il, mult)
        else:
            mult = 1.
            hs = opf_hessfcn(xi, lm, om, Y, Yf[il, :], Yt[il, :], opt, il)
        if rng.random() < .3:
            f, df = f1, df1
        return dict(x=x, il=il, f=f, df=df, d2f=arr(d2f), h=np.asarray(h).ravel(), g=g, dh=arr(dh), dg=arr(dg), lam=lam, mu=mu,
                    mult=mult, hess=arr(hs), d=np.round(rng.normal(size=len(x)), 3))
    ok, r, err = common.attempt(evaluate)
    if ok:
        ctx.log('opf', **dict(base, **r))
    else:
        ctx.log('raised', what='opf functions', err=err, **base)


def run(ctx):
    for k in range(ctx.n(200, 2000)):
        one(ctx, k)
    ctx.judge('OpfModelTrace')
