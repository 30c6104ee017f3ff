"""C34: run functions and commands do what their arguments say."""
import copy
import hashlib
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np

import c24
import common
import pypower
from c36 import Answers, flat, strip
from pypower import main
from pypower.loadcase import loadcase
from pypower.opf import opf
from pypower.ppoption import ppoption, PF_OPTIONS, OPF_OPTIONS, OUTPUT_OPTIONS, PDIPM_OPTIONS
from pypower.printpf import printpf
from pypower.runcpf import runcpf
from pypower.runduopf import runduopf
from pypower.rundcopf import rundcopf
from pypower.rundcpf import rundcpf
from pypower.runopf import runopf
from pypower.runopf_w_res import runopf_w_res
from pypower.runpf import runpf
from pypower.runuopf import runuopf
from pypower.savecase import savecase
from pypower.toggle_reserves import toggle_reserves

F = dict(runpf=runpf, rundcpf=rundcpf, runopf=runopf, rundcopf=rundcopf, runuopf=runuopf, runduopf=runduopf, runopf_w_res=runopf_w_res, runcpf=runcpf)
OTHER = dict(PF_ALG=2, OPF_FLOW_LIM=1, OPF_ALG=565, OPF_ALG_DC=250, ENFORCE_Q_LIMS=1, OPF_IGNORE_ANG_LIM=True)


class Terminal:
    """what goes to the terminal, whichever way"""
    def __enter__(self):
        self.files = [tempfile.TemporaryFile(), tempfile.TemporaryFile()]
        for f in (sys.stdout, sys.stderr):
            f.flush()
        self.real = [os.dup(1), os.dup(2)]
        for k in (0, 1):
            os.dup2(self.files[k].fileno(), k + 1)
        return self

    def __exit__(self, *a):
        for f in (sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__):
            f.flush()
        self.text = []
        for k in (0, 1):
            os.dup2(self.real[k], k + 1)
            os.close(self.real[k])
            self.files[k].seek(0)
            self.text.append(self.files[k].read().decode())
            self.files[k].close()


def sha(t):
    return hashlib.sha256(t.encode()).hexdigest()[:12] if t else ''


def untimed(t):
    return re.sub(r' *[0-9]+\.[0-9]+ *seconds', ' seconds', t)


# ------------------------------------------------------------------ cases
def write(path, c):
    """a case file with every number to its last digit"""
    name = os.path.splitext(os.path.basename(path))[0]

    def lit(v):
        if isinstance(v, dict):
            return '{%s}' % ', '.join('%r: %s' % (k, lit(x)) for k, x in v.items())
        if isinstance(v, np.ndarray):
            return 'np.array(%r)' % v.tolist()
        return repr(v)
    open(path, 'w').write('import numpy as np\ndef %s():\n    return %s\n' % (name, lit(c)))
    shutil.rmtree(os.path.join(os.path.dirname(path), '__pycache__'), ignore_errors=True)


def good(rng):
    for _ in range(60):
        c = c24.case(rng)
        c['version'] = '2'
        c['baseMVA'] = float(c['baseMVA'])
        for f in (lambda: runpf(c, ppoption(VERBOSE=0, OUT_ALL=0)), lambda: runopf(c, ppoption(VERBOSE=0, OUT_ALL=0)), lambda: runopf(c, ppoption(VERBOSE=0, OUT_ALL=0, **OTHER)),
                  lambda: rundcopf(c, ppoption(VERBOSE=0, OUT_ALL=0)), lambda: runopf_w_res(c, ppoption(VERBOSE=0, OUT_ALL=0)),
                  lambda: runpf(c, ppoption(VERBOSE=0, OUT_ALL=0, **OTHER)), lambda: runopf_w_res(c, ppoption(VERBOSE=0, OUT_ALL=0, PF_DC=True)),
                  lambda: runopf_w_res(c, ppoption(VERBOSE=0, OUT_ALL=0, **OTHER))):
            ok, r, err = common.attempt(f)
            if not ok:
                break
            if not (r[0] if isinstance(r, tuple) else r)['success']:
                break
        else:
            return c
    raise common.MachineryError('no easy case')


def hard(c):
    c = copy.deepcopy(c)
    c['bus'][:, 2:4] = (abs(c['bus'][:, 2:4]) + 10 * c['baseMVA']) * 200
    return c


def options(rng, kind):
    if kind == 'none':
        return None
    o = dict(VERBOSE=0)
    if kind == 'dc':
        o['PF_DC'] = True
    elif kind == 'other':
        o.update(OTHER)
    elif kind == 'report':
        o.update(OUT_ALL=int(rng.choice([-1, -1, 0, 1])), OUT_BUS=bool(rng.random() < .5), OUT_GEN=bool(rng.random() < .5), OUT_BRANCH=bool(rng.random() < .5),
                 OUT_SYS_SUM=bool(rng.random() < .5), OUT_AREA_SUM=bool(rng.random() < .5), OUT_ALL_LIM=int(rng.choice([-1, 0, 1, 2])))
    elif kind == 'bad':
        o.update(PF_ALG=9, OPF_ALG=999, OPF_ALG_DC=999)
    return ppoption(**o)


def brief(r):
    """the answer, without what is asked for in passing"""
    return {k: r[k] for k in ('baseMVA', 'bus', 'gen', 'branch', 'gencost', 'f', 'success') if k in r and not (k == 'f' and not r['success'])} | \
        ({'R': r['reserves']['R']} if 'R' in r.get('reserves', {}) else {})


def as_printed(f, r):
    return toggle_reserves(dict(r, userfcn={}), 'on') if f == 'runopf_w_res' else r


def report(f, r, o):
    b = io.StringIO()
    ok, _, err = common.attempt(printpf, as_printed(f, r), b, o)
    return b.getvalue() if ok else 'cannot be printed: ' + err


def values(c):
    return sha(repr(flat({k: v for k, v in strip(c).items() if k not in ('om', 'raw', 'order', 'userfcn')}, [])))


def reloaded(ctx, f, r, ext):
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        ok, name, err = common.attempt(savecase, os.path.join(d, 'x' + ext), as_printed(f, r))
        return values(common.attempt(loadcase, os.path.join(d, 'x' + ext))[1]) if ok else 'cannot be saved: ' + err
    finally:
        shutil.rmtree(d)


NAMES = ('s.py', 's.mat', 't.py')


class Place:
    """a directory, and what has been written into its files so far"""
    def __init__(self, ctx):
        self.d = tempfile.mkdtemp(dir=ctx.scratch)
        self.read = {'r1': [], 'r2': []}

    def path(self, n):
        return os.path.join(self.d, 'missing' if n == 'bad' else '', n) if n else ''

    def chunks(self, lens):
        """the reports in the files, cut where earlier ones ended"""
        out = {}
        for n in ('r1', 'r2'):
            p = self.path(n)
            t = open(p).read() if os.path.exists(p) else ''
            cuts = self.read[n]
            out[n] = [t[a:b] for a, b in zip([0] + cuts, cuts)]
            rest = t[cuts[-1] if cuts else 0:]
            if rest or len(t) != (cuts[-1] if cuts else 0):
                out[n].append(rest)
                cuts.append(len(t))
        return out

    def saved(self):
        out = {}
        for n in NAMES:
            if os.path.exists(self.path(n)):
                shutil.rmtree(os.path.join(self.d, '__pycache__'), ignore_errors=True)
                ok, c, err = common.attempt(loadcase, self.path(n))
                out[n] = values(c) if ok and isinstance(c, dict) else 'cannot be loaded'
            else:
                out[n] = ''
        return out

    def stray(self):
        return sorted(x for x in os.listdir(self.d) if x not in ('r1', 'r2', '__pycache__', 'easy.py', 'hard.py', 'easy.mat', 'hard.mat') + NAMES)

    def done(self):
        shutil.rmtree(self.d)


def session(ctx, rng, h, cases):
    pl = Place(ctx)
    for k in ('easy', 'hard'):
        write(pl.path(k + '.py'), cases[k])
    ans, obs = Answers(), []
    for c in h:
        o = options(rng, c['o'])
        src = {'dict': cases[c['case']], 'file': pl.path(c['case'] + '.py'), 'name': pl.path(c['case'])}.get(c['src']) or pl.path(c['src'])
        a = [src, o, pl.path(c['rep']), pl.path(c['sav'])]
        while a and len(a) > 1 and (a[-1] == '' or a[-1] is None):
            a.pop()
        given = common.digest([src, o])
        f = F[c['f']]
        with Terminal() as term:
            try:
                r, raised = f(*a), ''
            except (Exception, SystemExit) as e:
                r, raised = None, type(e).__name__
        out, err = term.text
        b = dict(raised=raised != '', kind=raised, out=sha(out), more=False, err=err.strip() != '', own=dict(report='', py='', mat=''), ok=False, form='', answer='',
                 kept=common.digest([src, o]) == given)
        if not raised:
            b['form'] = 'pair' if isinstance(r, tuple) and len(r) == 2 else 'dict' if isinstance(r, dict) else type(r).__name__
            res = r[0] if b['form'] == 'pair' else r
            flag = r[1] if b['form'] == 'pair' else r['success']
            b['flags'] = bool(flag) == bool(res['success'])
            b['ok'] = bool(flag)
            own = report(c['f'], res, ppoption(o, PF_DC=True) if 'dc' in c['f'][:5] or c['f'] == 'runduopf' else ppoption(o))
            b['own'] = dict(report=sha(own), py=reloaded(ctx, c['f'], res, '.py'), mat=reloaded(ctx, c['f'], res, '.mat'))
            if c['o'] == 'none' and own and out.endswith(own):
                b['out'], b['more'] = sha(own), len(out) > len(own)
            elif c['o'] == 'none' and c['rep']:
                b['out'], b['more'] = '', len(out) > 0       # progress only
                if 'Bus Data' in out or 'System Summary' in out:
                    b['out'] = 'a report'
            b['answer'] = ans.name(brief(res))
        ch = pl.chunks(None)
        b['rep'] = {n: [sha(x) for x in ch[n]] for n in ch}
        b['sav'] = pl.saved()
        b['stray'] = len(pl.stray())
        obs.append(b)
        ctx.count('call: %s %s' % (c['f'], 'refused' if raised else 'solved' if b['ok'] else 'not solved'))
    pl.done()
    ctx.log('session', steps=h, obs=obs)


# ------------------------------------------------------------------ commands
def literal(rng, name, default):
    """a value for an option, as typed and as meant"""
    if isinstance(default, bool):
        v = bool(rng.random() < .5)
        return str(rng.choice(main.AFFIRMATIVE if v else main.NEGATIVE)), v
    choices = {'pf_alg': [1, 2, 3, 4], 'verbose': [0], 'out_all': [-1, 0, 1], 'out_all_lim': [-1, 0, 1, 2], 'opf_alg': [0, 560, 565], 'opf_flow_lim': [0, 1, 2],
               'opf_alg_dc': [0, 200, 250]}
    if name in choices:
        v = int(rng.choice(choices[name]))
    elif name.startswith('out_') and isinstance(default, int):
        v = int(rng.choice([0, 1, 2]))
    elif isinstance(default, int):
        v = default * 2 if default else 0
    elif isinstance(default, float):
        v = default / 2
    else:
        return None
    return str(v), v


def typed(rng, args, pl):
    out = []
    for a in args:
        if a['k'] == 'case':
            out.append(pl.path(a['v']))
        elif a['k'] in ('-c', '-o', '-s'):
            v = a['v'] if a['k'] == '-c' else pl.path(a['v'])
            long = {'-c': '--testcase', '-o': '--outfile', '-s': '--solvedcase'}[a['k']]
            out += [[a['k'], v], [a['k'] + v], [long, v], [long + '=' + v]][int(rng.integers(0, 4))]
        elif a['k'] in ('-u', '-r'):
            out.append(a['k'] if rng.random() < .5 else {'-u': '--uopf', '-r': '--w_res'}[a['k']])
        elif a['k'] == 'opt':
            out += ['--%s=%s' % (a['n'], a['v'])] if rng.random() < .6 else ['--' + a['n'], a['v']]
        else:
            out.append(str(rng.choice(['--nonsense', '--out_bus=perhaps', '--testcase=case7', '--verbose=much', '-x'])))
    return out


def meant(a, table):
    d = table[a['n']]
    return (a['v'] in main.AFFIRMATIVE) if isinstance(d, bool) else type(d)(a['v'])


BUILTIN = main.CASES


def line(ctx, rng, cmd, args, plan, cases, sub=False):
    pl = Place(ctx)
    for k in ('easy', 'hard'):
        write(pl.path(k + '.py'), cases[k])
    which = str(rng.choice(['easy.py', 'hard.py', 'easy', 'hard']))
    args = [dict(a, v=which) if a['k'] == 'case' and a['v'] == 'file' else a for a in args]
    # a decommitment takes long; what it prints by the way is of no interest here
    if not any(a['n'] == 'verbose' for a in args):
        args = args + [dict(k='opt', n='verbose', v='0')]
    argv = typed(rng, args, pl)
    if rng.random() < .3:
        open(pl.path('r1'), 'w').write('what was there before\n')
        pl.read['r1'] = [len('what was there before\n')]
    had = len(pl.read['r1'])
    if sub:
        p = subprocess.run([sys.executable, '-c', 'import sys; from pypower.main import %s; %s()' % (cmd, cmd)] + argv, cwd=os.path.dirname(os.path.dirname(pypower.__file__)), capture_output=True, text=True)
        code, out = p.returncode, p.stdout
    else:
        with Terminal() as term:
            try:
                code = getattr(main, cmd)(argv)
                code = 'returned'
            except SystemExit as e:
                code = e.code
            except Exception as e:
                code = 'raised ' + type(e).__name__
        out = term.text[0]
    ch = pl.chunks(None)
    obs = dict(code=str(code), out=sha(untimed(out)), rep=[sha(untimed(x)) for x in ch['r1'][had:]], kept=had == 0 or ch['r1'][0] == 'what was there before\n', sav=pl.saved(),
               stray=len(pl.stray()))
    # the function the line stands for
    ref = dict(report='', sav={n: '' for n in NAMES}, ok=False, raised=False)
    table = {n: d for n, d, _ in PF_OPTIONS + OPF_OPTIONS + OUTPUT_OPTIONS + PDIPM_OPTIONS}
    if plan is None:        # as the specification has it; judged there
        last = {}
        for a in args:
            last[a['k'] if a['k'] != 'opt' else 'opt ' + a['n']] = a
        ks = [a['k'] for a in args]
        bad = 'wrong' in ks or ks.count('case') > 1 or (cmd == 'pf' and ('-u' in ks or '-r' in ks)) or ('-u' in ks and '-r' in ks)
        plan = None if bad else dict(f='runpf' if cmd == 'pf' else 'runuopf' if '-u' in ks else 'runopf_w_res' if '-r' in ks else 'runopf',
                                     case=last.get('case', last.get('-c', dict(v='case9')))['v'], rep=last.get('-o', dict(v=''))['v'], sav=last.get('-s', dict(v=''))['v'],
                                     opts={a['n']: a['v'] for k, a in last.items() if k.startswith('opt ')})
    if plan:
        x = BUILTIN[plan['case']]() if plan['case'] in BUILTIN else pl.path(plan['case'])
        o = ppoption(**{n.upper(): meant(dict(n=n, v=v), table) for n, v in plan['opts'].items()})
        q = Place(ctx)
        a = (x, o, q.path(plan['rep'] or 'r2'), q.path(plan['sav']))
        ok, r, err = common.attempt(F[plan['f']], *a)
        ref['raised'] = not ok
        if ok:
            ch = q.chunks(None)
            ref.update(report=sha(untimed(''.join(ch[plan['rep'] or 'r2']))), sav=q.saved(), ok=bool((r[0] if isinstance(r, tuple) else r)['success']))
        q.done()
    pl.done()
    ctx.count('line: %s exits with %s' % (cmd, code))
    ctx.log('line', cmd=cmd, args=args, argv=argv, plan=plan or {'f': ''}, planned=plan is not None, obs=obs, ref=ref)


def random_line(rng):
    cmd = str(rng.choice(['pf', 'opf']))
    tab = (PF_OPTIONS if cmd == 'pf' else OPF_OPTIONS + PDIPM_OPTIONS) + OUTPUT_OPTIONS
    args = []
    if rng.random() < .5:
        args.append(dict(k='case', n='', v='file'))
    if rng.random() < .4:
        args.append(dict(k='-c', n='', v=str(rng.choice(['case4gs', 'case6ww', 'case9', 'case9Q', 'case14', 'case30', 'case30Q', 'case30pwl', 'case30_userfcns']))))
    for _ in range(int(rng.integers(1, 6))):
        n, d, _h = tab[int(rng.integers(0, len(tab)))]
        v = literal(rng, n, d)
        if v:
            args.append(dict(k='opt', n=n, v=v[0]))
    if rng.random() < .5:
        args.append(dict(k='-o', n='', v=str(rng.choice(['r1', 'r2']))))
    if rng.random() < .4:
        args.append(dict(k='-s', n='', v=str(rng.choice(['s', 's.py', 's.mat', 't.py']))))
    if cmd == 'opf' and rng.random() < .2:
        args.append(dict(k=str(rng.choice(['-r', '-u'])), n='', v=''))
    return cmd, [args[int(k)] for k in rng.permutation(len(args))]


def default(ctx, f):
    """without arguments: the nine-bus case"""
    with Terminal() as term:
        try:
            r = F[f]()
        except (Exception, SystemExit) as e:
            ctx.log('raised', what=f + '()', err=repr(e)[:200])
            return
    out = term.text[0]
    res = r[0] if isinstance(r, tuple) else r
    ok, s, err = common.attempt(F[f], BUILTIN['case9'](), *([os.path.join(os.path.dirname(main.__file__), 'case9target')] if f == 'runcpf' else []))
    ans = Answers()
    a, b = ans.name(brief(res)), ans.name(brief(s[0] if isinstance(s, tuple) else s) if ok else err)
    own = report(f, res, ppoption(PF_DC='dc' in f[:5] or f == 'runduopf'))
    ctx.log('default', f=f, same=a == b, printed=out.endswith(own) and own != '', form='pair' if isinstance(r, tuple) else 'dict')


def run(ctx):
    rng = ctx.rng
    emitted = ctx.check_design('EntryMC', 'EntryMC.cfg', 8)
    hs = [x['h'] for x in emitted if 'h' in x]
    lines = [x for x in emitted if 'cmd' in x]
    two = [x['h'] for x in ctx.check_design('EntryMC', 'EntryMCtwo.cfg', 8)]
    if ctx.thorough:
        ctx.check_design('EntryMC', 'EntryMCdeep.cfg', 8)
    cases = None
    todo = [hs[int(k)] for k in rng.permutation(len(hs))[:ctx.n(220, 1000)]] + [two[int(k)] for k in rng.permutation(len(two))[:ctx.n(70, 900)]]
    for k, h in enumerate(todo):
        if k % 12 == 0:
            c = good(rng)
            cases = dict(easy=c, hard=hard(c))
        session(ctx, rng, h, cases)
    for k, n in enumerate(rng.permutation(len(lines))[:ctx.n(110, 1200)]):
        if k % 20 == 0:
            c = good(rng)
            cases = dict(easy=c, hard=hard(c))
        line(ctx, rng, lines[int(n)]['cmd'], lines[int(n)]['args'], None, cases)
    for _ in range(ctx.n(60, 600)):
        cmd, args = random_line(rng)
        line(ctx, rng, cmd, args, None, cases)
    for _ in range(ctx.n(3, 20)):
        cmd, args = random_line(rng)
        line(ctx, rng, cmd, args, None, cases, sub=True)
    for f in F:
        if f != 'runopf_w_res':
            default(ctx, f)
    ctx.judge('EntryTrace')
