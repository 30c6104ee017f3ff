import copy
import io
import os
import sys
import tempfile
import contextlib

import numpy as np
import common
import gen
import opfgen
from pypower.add_userfcn import add_userfcn
from pypower.remove_userfcn import remove_userfcn
from pypower.run_userfcn import run_userfcn
from pypower.toggle_reserves import toggle_reserves
from pypower.toggle_iflims import toggle_iflims
from pypower.toggle_dcline import toggle_dcline
from pypower.ppoption import ppoption
from pypower.runpf import runpf
from pypower.rundcpf import rundcpf
from pypower.runopf import runopf
from pypower.rundcopf import rundcopf

STAGES = ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']
TOGGLE = {'reserves': toggle_reserves, 'iflims': toggle_iflims, 'dcline': toggle_dcline}
ARGS = {'A': {'a': 1}, 'B': [7, 8], 'zero': 0, 'text': 'xy', 'flag': False, 'number': 3.5, 'array': np.array([2., 4.])}


def data():
    return {'reserves': {'zones': np.array([[1, 1.]]), 'req': np.array([1.]), 'cost': np.array([1., 2])},
            'if': {'map': np.array([[1., 1]]), 'lims': np.array([[1., -5, 5]])},
            'dcline': np.zeros((1, 17))}


def tag(x):
    """the name of an argument value"""
    if isinstance(x, list) and not x:
        return '[]'
    for k, v in ARGS.items():
        if type(v) is type(x) and (np.array_equal(v, x) if isinstance(v, np.ndarray) else v == x):
            return k
    return 'other:%r' % (x,)


def watch(f, *a):
    """call f; returns (value or None, raised, reported): a report is a message or an exception"""
    v, raised = None, False
    with tempfile.TemporaryFile() as t:
        real, out = os.dup(2), os.dup(1)
        os.dup2(t.fileno(), 2)
        os.dup2(t.fileno(), 1)
        try:
            with contextlib.redirect_stderr(io.StringIO()) as e, contextlib.redirect_stdout(e):
                try:
                    v = f(*a)
                except Exception:
                    raised = True
            sys.__stderr__.flush()
            sys.__stdout__.flush()
        finally:
            os.dup2(real, 2)
            os.dup2(out, 1)
            os.close(real)
            os.close(out)
        return v, raised, raised or bool(e.getvalue()) or t.tell() > 0


class Board:
    """callbacks that write down how they are called"""
    def __init__(self):
        self.calls = []
        self.fns = {}
        self.names = {}

    def fn(self, name):
        if name not in self.fns:
            def f(x, *a):
                self.n += 1
                self.calls.append({'f': name, 'args': tag(a[-1]), 'x': x, 'y': 'v%d' % self.n,
                                   'extras': list(a[:-1]) == self.extras})
                return 'v%d' % self.n
            f.__name__ = name
            self.fns[name] = f
            self.names[f] = name
        return self.fns[name]

    def view(self, ppc):
        u = ppc.get('userfcn', {})
        r = {s: [{'f': self.names.get(x['fcn'], 'unknown'), 'args': tag(x.get('args', []))} for x in u.get(s, [])] for s in STAGES}
        return r, sum(len(v) for k, v in u.items() if k not in STAGES)


def learn(ctx, b):
    """which function each packaged extension registers at which stage"""
    for x, t in TOGGLE.items():
        p, raised, _ = watch(t, data(), 'on')
        u = {} if raised else p.get('userfcn', {})
        ctx.log('extension', x=x, counts={s: len(u.get(s, [])) for s in STAGES})
        for s in STAGES:
            for e in u.get(s, []):
                b.names[e['fcn']] = '%s/%s' % (x, s)
                b.fns['%s/%s' % (x, s)] = e['fcn']
        for miss in ({}, {'reserves': {}, 'if': {}, 'dcline': np.zeros((1, 3))}, {'reserves': 3, 'if': 3, 'dcline': np.zeros((1, 16))}):
            _, raised, rep = watch(t, copy.deepcopy(miss), 'on')
            ctx.log('missing', x=x, reported=bool(rep))


def replay(b, steps):
    ppc = data()
    obs = []
    packaged = set()
    for s in steps:
        b.calls, b.n = [], 0
        o = {'calls': [], 'x': '', 'y': ''}
        if s['op'] == 'add':
            a = (ppc, s['stage'], b.fn(s['f'])) + ((ARGS[s['args']],) if s['args'] != '[]' else (None,)) + ((True,) if s['multi'] else ())
            v, raised, rep = watch(add_userfcn, *a)
        elif s['op'] == 'remove':
            v, raised, rep = watch(remove_userfcn, ppc, s['stage'], b.fn(s['f']))
        elif s['op'] == 'toggle':
            v, raised, rep = watch(TOGGLE[s['f']], ppc, s['mode'])
        else:
            b.extras = ['fd', 'options'] if s['stage'] in ('printpf', 'savecase') else []
            u = {k: [dict(e, fcn=e['fcn'] if b.names.get(e['fcn'], '/').find('/') < 0 else b.fn2(b.names[e['fcn']])) for e in w]
                 for k, w in ppc.get('userfcn', {}).items()}
            y, raised, rep = watch(run_userfcn, u, s['stage'], 'v0', *b.extras)
            o['calls'], o['x'], o['y'] = b.calls, 'v0', y if isinstance(y, str) else 'none'
            v = None
        if isinstance(v, dict):
            ppc = v
        o['after'], o['other'] = b.view(ppc)
        o['raised'], o['reported'] = raised, rep
        obs.append(o)
    return obs


def fn2(self, name):
    """a stand-in for a packaged callback, so that the dispatcher alone is run"""
    key = '~' + name
    f = self.fn(key)
    if not getattr(f, 'wrapped', None):
        def g(x, *a):
            y = f(x, *a)
            self.calls[-1]['f'] = name
            return y
        g.wrapped = True
        self.fns['stand-in ' + name] = g
    return self.fns['stand-in ' + name]


Board.fn2 = fn2


def random_history(rng, n):
    fs = ['f', 'g', 'h']
    st = STAGES
    out = []
    for _ in range(n):
        z = rng.random()
        s = str(rng.choice(st))
        a = {'op': '', 'stage': s, 'f': str(rng.choice(fs)), 'args': '', 'multi': False, 'mode': ''}
        if z < .45:
            a.update(op='add', args=str(rng.choice(['[]'] + list(ARGS))), multi=bool(rng.random() < .5))
            if rng.random() < .05:
                a['stage'] = 'bogus'
        elif z < .65:
            a.update(op='remove')
            if rng.random() < .3:
                a['f'] = str(rng.choice(list(TOGGLE))) + '/' + s
        elif z < .82:
            a.update(op='toggle', stage='', f=str(rng.choice(list(TOGGLE))), mode=str(rng.choice(['on', 'on', 'off', 'off', 'maybe'])))
        else:
            a.update(op='run')
        out.append(a)
    return out


# ------------------------------------------------------------------ whole runs
class Marked:
    pass


def whole(ctx, rng):
    kind = str(rng.choice(['pf', 'dcpf', 'opf', 'dcopf']))
    c = opfgen.case(rng, dc=kind == 'dcopf') if kind.endswith('opf') else gen.network(rng)
    calls = []

    def make(name):
        def f(x, *a):
            stage = here[name]
            k = {'stage': stage, 'f': name, 'args': tag(a[-1]), 'seen': [], 'state': '', 'lim': 0, 'wrote': True}
            calls.append(k)
            if stage == 'formulation':
                k['state'] = 'om'
                y = copy.deepcopy(x)
                k['seen'] = list(getattr(x, 'marks', []))
                y.marks = k['seen'] + [name]
                return y
            k['state'] = x['order']['state'] if 'order' in x else 'none'
            if stage in ('ext2int', 'int2ext'):
                k['seen'] = list(x.get('marks_' + stage, []))
                y = copy.deepcopy(x)
                y['marks_' + stage] = k['seen'] + [name]
                return y
            try:
                a[0].write('\n# mark %s\n' % name if stage == 'printpf' else '    # mark %s\n' % name)
            except Exception:
                k['wrote'] = False
            if stage == 'printpf':
                k['lim'] = a[1]['OUT_ALL_LIM']
            return x
        f.__name__ = name
        return f
    here, reg = {}, {s: [] for s in STAGES}
    n = 0
    for s in STAGES:
        for _ in range(int(rng.integers(0, 4))):
            n += 1
            name = 'u%d' % n
            here[name] = s
            a = str(rng.choice(['[]', 'A', 'B', 'zero', 'text', 'array']))
            c = add_userfcn(c, s, make(name), *([] if a == '[]' else [ARGS[a]]))
            reg[s].append({'f': name, 'args': a})
    printed = bool(rng.random() < .7)
    lim = int(rng.choice([-1, 0, 1, 2]))
    opt = ppoption(VERBOSE=0, OUT_ALL=-1 if printed else 0, OUT_ALL_LIM=lim, OPF_FLOW_LIM=0, OUT_AREA_SUM=False)
    d = tempfile.mkdtemp(dir=ctx.scratch)
    fname = os.path.join(d, 'report.txt') if rng.random() < .7 else ''
    ext = str(rng.choice(['', '.py', '.mat']))
    solved = os.path.join(d, 'solved' + ext) if ext or rng.random() < .5 else ''
    run = {'pf': runpf, 'dcpf': rundcpf, 'opf': runopf, 'dcopf': rundcopf}[kind]
    ok, v, err = common.attempt(run, c, opt, fname, solved)
    if not ok:
        ctx.log('raised', err=err, kind=kind, printed=printed, solved=os.path.basename(solved), nf=n)
        return
    r = v[0] if kind.endswith('pf') and isinstance(v, tuple) else v
    text = open(fname).read() if os.path.exists(fname) else ''
    if fname:
        for k in calls:
            if k['stage'] == 'printpf':
                k['wrote'] = k['wrote'] and text.count('# mark %s\n' % k['f']) == 1
    py = solved if solved.endswith('.py') else solved + '.py'
    text = open(py).read() if solved and os.path.exists(py) else ''
    for k in calls:
        if k['stage'] == 'savecase':
            k['wrote'] = k['wrote'] and text.count('# mark %s\n' % k['f']) == 1
    om = r.get('om')
    ctx.count('%s %s%s' % (kind, 'printed ' if printed else '', 'saved' if solved else ''))
    ctx.log('whole', kind='opf' if kind.endswith('opf') else 'pf', reg=reg, calls=calls, printed=printed,
            saved=bool(solved) and not solved.endswith('.mat'), lim=lim,
            final={'ext2int': list(r.get('marks_ext2int', [])), 'int2ext': list(r.get('marks_int2ext', [])),
                   'formulation': list(getattr(om, 'marks', []))})


def run(ctx):
    if ctx.thorough:
        ctx.check_design('RegistryMC', 'RegistryMCdeep.cfg', workers=8)
    histories = ctx.check_design('RegistryMC', 'RegistryMC.cfg', workers=4)
    b = Board()
    learn(ctx, b)
    ctx.count('histories generated by TLC', len(histories))
    rng = ctx.rng
    if not ctx.thorough:
        rng.shuffle(histories)
        histories = histories[:6000]
    for h in histories:
        if len(h) < 3:
            continue
        ctx.log('history', steps=h, obs=replay(b, h))
    for _ in range(ctx.n(300, 4000)):
        h = random_history(rng, int(rng.integers(4, 25)))
        ctx.log('history', steps=h, obs=replay(b, h))
        ctx.count('random histories')
    for _ in range(ctx.n(60, 500)):
        whole(ctx, rng)
    ctx.judge('RegistryTrace')
