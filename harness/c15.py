import numpy as np
from scipy.sparse import issparse

import common
import gen
from c13 import internal
from pf import view
from pypower.makeYbus import makeYbus
from pypower.dSbus_dV import dSbus_dV
from pypower.dSbr_dV import dSbr_dV
from pypower.dIbr_dV import dIbr_dV
from pypower.dAbr_dV import dAbr_dV


def arr(m):
    return m.toarray() if issparse(m) else np.asarray(m)


def run(ctx):
    rng = ctx.rng
    for k in range(ctx.n(70, 700)):
        c = internal(ctx, gen.network(rng, shift=.5, tap=.5, nb=int(rng.integers(2, 7))), k % 2)
        n = len(c['bus'])
        V = rng.uniform(.7, 1.3, n) * np.exp(1j * rng.uniform(-1.5, 1.5, n))
        with common.silence():
            Y, Yf, Yt = makeYbus(c['baseMVA'], c['bus'], c['branch'])
        dense = rng.random() < .4
        A = (lambda m: m.toarray()) if dense else (lambda m: m)
        if dense and rng.random() < .5:
            A = lambda m: np.asmatrix(m.toarray())
        Y, Yf, Yt = A(Y), A(Yf), A(Yt)
        base = {'c': view(c), 'v': V, 'dense': dense}

        def same():
            return common.digest([c, arr(Y), arr(Yf), arr(Yt), V])
        d0 = same()
        ok, r, err = common.attempt(dSbus_dV, Y, V)
        if ok:
            ctx.log('dsbus', dVm=arr(r[0]), dVa=arr(r[1]), untouched=same() == d0, **base)
        else:
            ctx.log('raised', what='dSbus_dV', err=err, **base)
        for what, fn in (('S', dSbr_dV), ('I', dIbr_dV)):
            ok, r, err = common.attempt(fn, c['branch'], Yf, Yt, V)
            if not ok:
                ctx.log('raised', what=fn.__name__, err=err, **base)
                continue
            ctx.log('dbr', what=what, untouched=same() == d0, f=np.asarray(r[4]).ravel(), t=np.asarray(r[5]).ravel(),
                    **dict(base, **{x: arr(y) for x, y in zip(('fa', 'fm', 'ta', 'tm'), r)}))
            if dense and not all(issparse(x) for x in r[:4]):
                # documented input of dAbr_dV are the derivatives of the flows, as returned
                pass
            for kind in (('S', 'P') if what == 'S' else ('I',)):
                a = [x.real if kind == 'P' else x for x in r]
                dd = common.digest([arr(x) for x in a])
                ok, q, err = common.attempt(dAbr_dV, *a)
                if ok:
                    ctx.log('dabr', what=kind, untouched=common.digest([arr(x) for x in a]) == dd,
                            **dict(base, **{x: arr(y) for x, y in zip(('fa', 'fm', 'ta', 'tm'), q)}))
                else:
                    ctx.log('raised', what='dAbr_dV', err=err, **base)
    ctx.judge('DerivativesTrace')
