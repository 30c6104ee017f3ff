"""C36: no routine changes what its caller gave it, nor keeps hold of what it gave back."""
import copy
import io
import os

import numpy as np
import scipy.sparse as sps

import common
import gen
import opfgen
import opfsol
import pf
from gen import rnd
from pypower import api
from pypower.add_userfcn import add_userfcn
from pypower.ext2int import ext2int
from pypower.int2ext import int2ext
from pypower.loadcase import loadcase
from pypower.opf import opf
from pypower.opf_args import opf_args2
from pypower.ppoption import ppoption
from pypower.printpf import printpf
from pypower.runcpf import runcpf
from pypower.runduopf import runduopf
from pypower.rundcopf import rundcopf
from pypower.rundcpf import rundcpf
from pypower.runopf import runopf
from pypower.runpf import runpf
from pypower.runuopf import runuopf
from pypower.savecase import savecase
from pypower.toggle_dcline import toggle_dcline
from pypower.toggle_iflims import toggle_iflims
from pypower.toggle_reserves import toggle_reserves
from pypower.uopf import uopf


# ------------------------------------------------------------------ contents
def strip(x, path=()):
    """without what tells of the clock"""
    if id(x) in path:
        return 'itself'
    if isinstance(x, dict):
        return {k: strip(v, path + (id(x),)) for k, v in x.items() if k != 'et'}
    if isinstance(x, (list, tuple)):
        return [strip(v, path + (id(x),)) for v in x]
    if hasattr(x, '__dict__') and not callable(x) and type(x).__module__.startswith('pypower'):
        return strip(vars(x), path + (id(x),))
    return x


def contents(x):
    return common.digest(strip(x))


def flat(x, out):
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            out.append(str(k))
            flat(x[k], out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            flat(v, out)
    elif sps.issparse(x):
        flat(x.toarray(), out)
    elif isinstance(x, np.ndarray):
        out.append(str(x.shape))
        if x.dtype.kind in 'biufc':
            out.append(np.array(x, complex).ravel())
        else:
            flat(x.tolist(), out)
    elif isinstance(x, (int, float, complex, np.number)) and not isinstance(x, bool):
        out.append(np.array([complex(x)]))
    else:
        out.append(getattr(x, '__name__', None) or repr(x))
    return out


def close(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if type(x) is not type(y):
            return False
        if isinstance(x, str):
            if x != y:
                return False
        elif x.shape != y.shape or not np.allclose(x, y, rtol=1e-6, atol=1e-6, equal_nan=True):
            return False
    return True


class Answers:
    """names for answers: the same up to the last digits is the same"""
    def __init__(self):
        self.known = []

    def name(self, x):
        f = flat(strip(x), [])
        for k, g in enumerate(self.known):
            if close(f, g):
                return 'answer %d' % k
        self.known.append(f)
        return 'answer %d' % (len(self.known) - 1)


def spoil(x, seen=None):
    """overwrite everything in a result, in place"""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, seen)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v, seen)
        if isinstance(x, list):
            del x[:]
    elif sps.issparse(x):
        if hasattr(x, 'data') and isinstance(x.data, np.ndarray) and x.data.dtype.kind in 'biufc':
            x.data[...] = 1
    elif isinstance(x, np.ndarray):
        if x.flags.writeable:
            if x.dtype.kind in 'iufc':
                x[...] = 77
            elif x.dtype.kind == 'b':
                x[...] = ~x
    elif type(x).__module__.startswith('pypower') and hasattr(x, '__dict__'):
        spoil(vars(x), seen)


# ------------------------------------------------------------------ things
def plain_formulation(om, *a):
    return om


def make(rng):
    """a case with anything that may go with one"""
    kind = str(rng.choice(['plain', 'plain', 'user', 'reserves', 'iflims', 'dcline', 'userfcn', 'dc user']))
    c = opfgen.case(rng, disp=.4, rate=.4, dc=kind == 'dc user') if kind != 'plain' else opfgen.case(rng, disp=.4, islands=.2)
    c = {k: v for k, v in c.items() if k in ('version', 'baseMVA', 'bus', 'gen', 'branch', 'gencost', 'areas')}
    if rng.random() < .3:
        c['areas'] = np.array([[1., c['bus'][0, 0]]])
    if kind.endswith('user'):
        c = with_user(rng, c, kind == 'dc user')
    elif kind == 'reserves':
        ng = len(c['gen'])
        z = np.atleast_2d((rng.random((int(rng.integers(1, 3)), ng)) < .7).astype(float))
        z[:, 0] = 1
        c['reserves'] = {'zones': z, 'req': rnd(rng, 1, 3, len(z)), 'cost': rnd(rng, 1, 9, ng), 'qty': rnd(rng, 5, 30, ng)}
        c = toggle_reserves(c, 'on')
    elif kind == 'iflims':
        nl = len(c['branch'])
        k = rng.choice(nl, min(3, nl), replace=False)
        s = rng.choice([-1, 1], len(k))
        c['if'] = {'map': np.array([[1 + (j > 0), a * max(b, 1)] for j, (a, b) in enumerate(zip(s, k))], float),
                   'lims': np.array([[1, -500., 500.], [2, -400., 400.]])[:1 + (len(k) > 1)]}
        c = toggle_iflims(c, 'on')
    elif kind == 'dcline':
        b = c['bus'][c['bus'][:, 1] != 4, 0]
        k = rng.choice(len(b), 2, replace=False)
        c['dcline'] = np.array([[b[k[0]], b[k[1]], 1, 2., 0, 0, 0, 1.01, 1., 1., 5., -5, 5, -5, 5, .1, .01]] +
                               [[b[k[1]], b[k[0]], int(rng.random() < .5), 1., 0, 0, 0, 1., 1., 1., 3., -5, 5, -5, 5, 0, 0]] * int(rng.integers(0, 2)))
        if rng.random() < .5:
            c['dclinecost'] = np.array([[2., 0, 0, 2, 3., 0]] * len(c['dcline']))
        c = toggle_dcline(c, 'on')
    elif kind == 'userfcn':
        c = add_userfcn(c, 'formulation', plain_formulation)
    if rng.random() < .2:
        for k in ('bus', 'gen'):
            c = dict(c, **{k: c[k].astype(int)}) if rng.random() < .5 else c
    return c, kind


def with_user(rng, c, dc):
    nb, ng = len(c['bus']), len(c['gen'])
    nx = (nb + ng) * (1 if dc else 2)
    A = np.zeros((1, nx))
    A[0, nx - ng:] = 1
    N = np.zeros((1, nx))
    N[0, nx - 1] = 1
    return dict(c, A=sps.csr_matrix(A), l=np.array([-1e4]), u=np.array([1e4]), N=sps.csr_matrix(N), H=sps.csr_matrix(np.array([[.1]])),
                Cw=np.array([1.]), fparm=np.array([[1., 0, 0, 1]]))


class World:
    pass


def world(rng, scratch):
    w = World()
    w.case, w.kind = make(rng)
    t = ext2int(gen_copy(w.case)) if w.kind not in ('reserves', 'iflims', 'dcline') else ext2int({k: copy.deepcopy(v) for k, v in w.case.items()
                                                                                                    if k in ('baseMVA', 'bus', 'gen', 'branch', 'gencost')})
    w.internal = t
    w.dc = w.kind in ('dc user', 'iflims')
    w.options = ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=w.dc or rng.random() < .25, PF_ALG=int(rng.choice([1, 1, 2, 3, 4])), ENFORCE_Q_LIMS=int(rng.integers(0, 3)),
                         OPF_VIOLATION=5e-6, PF_MAX_IT_FD=60, PF_MAX_IT_GS=3000, OPF_FLOW_LIM=int(rng.integers(0, 3)), OPF_IGNORE_ANG_LIM=bool(rng.random() < .3),
                         OPF_ALG=int(rng.choice([0, 560, 565])), RETURN_RAW_DER=int(rng.random() < .2), OPF_ALG_DC=int(rng.choice([0, 200, 250])))
    w.options['CPF_STEP'] = .3
    w.scratch = scratch
    return w


def gen_copy(c):
    return copy.deepcopy(c)


def text(f):
    b = io.StringIO()
    f(b)
    return b.getvalue().splitlines()


# the routines that give a case: case, options
def via_tables(c, o):
    a = [c[k] for k in ('baseMVA', 'bus', 'gen', 'branch')]
    return opf(*(a + [c.get('areas', np.array([])), c['gencost'], o]))


def there_and_back(c, o):
    return int2ext(ext2int(c))


def power_flow(c, o):
    return runpf(c, o)[0]


def dc_power_flow(c, o):
    return rundcpf(c, o)[0]


def continuation(c, o):
    t = dict(c)
    t['bus'] = c['bus'].copy()
    t['bus'][:, 2:4] = t['bus'][:, 2:4] * 2
    d = common.digest(t)
    r = runcpf(c, t, ppoption(o, PF_DC=False, CPF_STOP_AT=.3))[0]
    if common.digest(t) != d:
        raise AssertionError('target changed')
    return r


def targeted(c, o):
    b = dict(c)
    b['bus'] = c['bus'].copy()
    b['bus'][:, 2:4] = b['bus'][:, 2:4] / 2
    return runcpf(b, c, ppoption(o, PF_DC=False, CPF_STOP_AT=.3))[0]


def loaded(c, o):
    return loadcase(c)


CASES = dict(runpf=power_flow, rundcpf=dc_power_flow, runopf=lambda c, o: runopf(c, o), opf=lambda c, o: opf(c, o), rundcopf=lambda c, o: rundcopf(c, o),
             runuopf=lambda c, o: runuopf(c, o), runduopf=lambda c, o: runduopf(c, o), uopf=lambda c, o: uopf(c, o), there_and_back=there_and_back,
             tables=via_tables, loadcase=loaded, runcpf=continuation, runcpf_target=targeted, ext2int=lambda c, o: ext2int(c),
             opf_args=lambda c, o: opf_args2(c, o)[0])


def report(w, c, t, o):
    r = dict(c, success=c.get('success', 1), et=0.)
    return text(lambda f: printpf(r, f, ppoption(o, OUT_ALL=1, OUT_ALL_LIM=2)))


def report_given(w, c, t, o):
    return text(lambda f: printpf(dict(c, et=0.) if 'et' in c else c, f, o))


def saved(w, c, t, o):
    name = os.path.join(w.scratch, 'saved_case')
    out = savecase(name + '.py', c)
    return [x for x in open(out).read().splitlines() if 'et' not in x.split('"')]


# what is made of the tables of an internal case
def pieces(t):
    ng = len(t['gen'])
    return t['baseMVA'], t['bus'], t['gen'], t['branch'], t['gencost'], ng


def volts(t):
    return t['bus'][:, 7] * np.exp(1j * np.pi / 180 * t['bus'][:, 8])


def opts_ac(o):
    return ppoption(o, PF_DC=False)


def table_routines():
    def f(name, args):
        return name, (getattr(api, name), args)
    B = lambda t, o: (t['baseMVA'], t['bus'], t['branch'])
    return dict([
        f('makeYbus', B), f('makeBdc', B), f('makePTDF', B),
        ('makeB 2', (api.makeB, lambda t, o: B(t, o) + (2,))), ('makeB 3', (api.makeB, lambda t, o: B(t, o) + (3,))),
        f('makeSbus', lambda t, o: (t['baseMVA'], t['bus'], t['gen'])),
        f('bustypes', lambda t, o: (t['bus'], t['gen'])),
        f('makeApq', lambda t, o: (t['baseMVA'], t['gen'])),
        f('makeAvl', lambda t, o: (t['baseMVA'], t['gen'])),
        f('makeAang', lambda t, o: (t['baseMVA'], t['branch'], len(t['bus']), o)),
        f('makeAy', lambda t, o: (t['baseMVA'], len(t['gen']), t['gencost'], 1, 1 + len(t['gen']), 1 + 2 * len(t['gen']))),
        f('hasPQcap', lambda t, o: (t['gen'],)), f('isload', lambda t, o: (t['gen'],)),
        f('pqcost', lambda t, o: (t['gencost'], len(t['gen']))),
        f('totcost', lambda t, o: (t['gencost'][:len(t['gen'])], t['gen'][:, 1])),
        f('modcost', lambda t, o: (t['gencost'], 1.5, 'SCALE_X')),
        ('modcost 2', (api.modcost, lambda t, o: (t['gencost'], 2., 'SHIFT_F'))),
        ('modcost 3', (api.modcost, lambda t, o: (t['gencost'], 1.))),
        f('poly2pwl', lambda t, o: (t['gencost'][:len(t['gen'])], np.minimum(t['gen'][:, 9], -1.), np.maximum(t['gen'][:, 8], 1.), 4)),
        f('polycost', lambda t, o: (poly(t), np.ones(len(poly(t))), 1)),
        f('total_load', lambda t, o: (t['bus'], t['gen'])),
        ('total_load 2', (api.total_load, lambda t, o: (t['bus'], t['gen'], np.ones(len(t['bus'])), 'BOTH'))),
        f('scale_load', lambda t, o: (1.2, t['bus'], t['gen'])),
        ('scale_load 2', (api.scale_load, lambda t, o: (np.array([1.]), t['bus'], t['gen']))),
        ('scale_load 3', (api.scale_load, lambda t, o: (np.array([50.]), t['bus'], t['gen'], None, {'scale': 'QUANTITY'}))),
        ('dSbus_dV', (api.dSbus_dV, lambda t, o: (api.makeYbus(*B(t, o))[0], volts(t)))),
        ('dSbr_dV', (api.dSbr_dV, lambda t, o: (t['branch'],) + api.makeYbus(*B(t, o))[1:] + (volts(t),))),
        ('dIbr_dV', (api.dIbr_dV, lambda t, o: (t['branch'],) + api.makeYbus(*B(t, o))[1:] + (volts(t),))),
        ('dAbr_dV', (api.dAbr_dV, lambda t, o: api.dSbr_dV(t['branch'], *(api.makeYbus(*B(t, o))[1:] + (volts(t),))))),
        ('newtonpf', (api.newtonpf, lambda t, o: (api.makeYbus(*B(t, o))[0], api.makeSbus(t['baseMVA'], t['bus'], t['gen']), volts(t)) +
                      api.bustypes(t['bus'], t['gen']) + (o,))),
        ('gausspf', (api.gausspf, lambda t, o: (api.makeYbus(*B(t, o))[0], api.makeSbus(t['baseMVA'], t['bus'], t['gen']), volts(t)) +
                     api.bustypes(t['bus'], t['gen']) + (o,))),
        ('fdpf', (api.fdpf, lambda t, o: (api.makeYbus(*B(t, o))[0], api.makeSbus(t['baseMVA'], t['bus'], t['gen']), volts(t)) +
                  api.makeB(t['baseMVA'], t['bus'], t['branch'], 2) + api.bustypes(t['bus'], t['gen']) + (o,))),
        ('dcpf', (api.dcpf, lambda t, o: (api.makeBdc(*B(t, o))[0], np.real(api.makeSbus(t['baseMVA'], t['bus'], t['gen'])), np.zeros(len(t['bus']))) +
                  api.bustypes(t['bus'], t['gen']))),
        ('makeLODF', (api.makeLODF, lambda t, o: (t['branch'], api.makePTDF(*B(t, o))))),
        ('loadcase', (loadcase, lambda t, o: ({k: t[k] for k in ('baseMVA', 'bus', 'gen', 'branch')},))),
        ('ppoption', (ppoption, lambda t, o: (o,))),
        ('ppoption 2', ((lambda o: ppoption(o, VERBOSE=2)), lambda t, o: (o,))),
    ])


def poly(t):
    g = t['gencost']
    return g[g[:, 0] == 2]


ROUTINES = table_routines()


def on_tables(name):
    f, args = ROUTINES[name]

    def v(w, c, t, o):
        return f(*args(t, o))
    v.__name__ = name
    return v


VALUES = dict(report=report, report_given=report_given, saved=saved)


def scribble(rng, c):
    """the caller changes a few numbers"""
    k = int(rng.integers(0, len(c['bus'])))
    c['bus'][k, 2] += 1
    return c


def history(ctx, steps, rng):
    w = world(rng, ctx.scratch)
    names = {'a': str(rng.choice(list(CASES))), 'b': str(rng.choice(list(CASES)))}
    v = str(rng.choice(list(VALUES) + [str(rng.choice(list(ROUTINES)))]))
    fv = VALUES[v] if v in VALUES else on_tables(v)
    things = [w.case, w.internal, w.options]
    ans = Answers()
    obs, seen, done, given = [[contents(x) for x in things]], ['', '', ''], [], []
    for st in steps:
        op = st['op']
        if op == 'call':
            x = things[st['on'] - 1]
            f = (lambda: fv(w, x, w.internal, w.options)) if st['r'] == 'v' else (lambda: CASES[names[st['r']]](x, w.options))
            ok, r, err = common.attempt(f)
            if not ok:
                r = 'raised ' + err.split(':')[0] + err[err.find(' at '):].split(': ')[0]
                ctx.count('raised: %s %s' % (names.get(st['r'], v), err[:60]))
            things.append(r)
            seen.append(ans.name(r))
            if ok and isinstance(r, str):
                raise common.MachineryError('a text')
        elif op == 'edit':
            if st['on'] == 1:
                scribble(rng, w.case)
            else:
                w.options['OPF_VIOLATION'] = w.options['OPF_VIOLATION'] / 2
        else:
            spoil(things[st['on'] - 1])
        done.append(st)
        obs.append([contents(x) for x in things])
        if op == 'call' and not ok and st['gives'] == 'case' and any(s['on'] == len(things) for s in steps[len(done):]):
            break
    ctx.count('with ' + w.kind)
    for k, n in names.items():
        if any(s.get('r') == k for s in done):
            ctx.count('history: ' + n)
    if any(s.get('r') == 'v' for s in done):
        ctx.count('history: ' + v)
    ctx.log('history', steps=done, obs=obs, ans=seen, a=names['a'], b=names['b'], v=v, kind=w.kind)


def pure(ctx, name, rng):
    w = world(rng, ctx.scratch)
    f, args = ROUTINES[name]
    a = args(w.internal, w.options)
    d = [contents(x) for x in a]
    ok, r, err = common.attempt(f, *a)
    ctx.count('pure: ' + name if ok else 'raised: %s %s' % (name, err[:60]))
    same = [contents(x) for x in a] == d
    ans = Answers()
    n = ans.name(r if ok else err)
    spoil(r)
    shared = sum(x != y for x, y in zip([contents(x) for x in a], d)) if same else 0
    again = True
    if same and not shared:
        ok, r, err = common.attempt(f, *a)
        again = ans.name(r if ok else err) == n
    ctx.log('pure', routine=name, same=same, shared=shared, again=again)


def run(ctx):
    hs = ctx.check_design('CallerMC', 'CallerMCdeep.cfg' if ctx.thorough else 'CallerMC.cfg', 8)
    rng = ctx.rng
    for k in rng.permutation(len(hs))[:ctx.n(260, 3000)]:
        history(ctx, hs[int(k)], rng)
    for name in ROUTINES:
        for _ in range(ctx.n(4, 40)):
            pure(ctx, name, rng)
    ctx.judge('CallerTrace')
