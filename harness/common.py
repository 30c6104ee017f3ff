"""Shared machinery: traces, TLC runs, verdicts, evidence.

A check is a Python module harness/<id>.py with `def run(ctx)`.  It drives the
real code in /repo, records events (plain dicts) and hands them to TLC, which
judges every event with the operators of a TLA+ module.  The harness never
decides a property itself: it only records, and reports what TLC printed.
"""
import contextlib
import hashlib
import io
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import scipy.sparse as sps

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


# quick sizes of the cheap checks are multiples of those written in them
MORE = dict(C05=3, C06=3, C07=5, C08=2, C09=6, C10=2, C12=3, C13=3, C14=3, C15=3, C16=2, C17=2, C18=2, C19=4, C20=2, C22=5, C27=3, C28=4,
            C29=2, C30=3, C31=2, C35=2, C37=2, C38=2)


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ encoding
def num(x):
    """a real as TLA+ sees it: a small integer, or a decimal string"""
    x = float(x)
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    if x == int(x) and abs(x) < 2**30:
        return int(x)
    return repr(x)


def enc(v):
    """encode a Python/numpy value for the trace"""
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, str):
        return v
    if isinstance(v, (int, np.integer)):
        return num(v)
    if isinstance(v, (float, np.floating)):
        return num(v)
    if isinstance(v, (complex, np.complexfloating)):
        return [num(v.real), num(v.imag)]
    if sps.issparse(v):
        return enc(v.toarray())
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return enc(v.item())
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, range)):
        return [enc(x) for x in v]
    if v is None:
        return 'none'
    raise MachineryError('cannot encode %r' % type(v))


def digest(v):
    """canonical digest of a nested case structure (for 'the input was not modified')"""
    h = hashlib.sha256()

    def go(x):
        if sps.issparse(x):
            x = x.tocoo()
            h.update(b'S%r' % (x.shape,))
            h.update(np.ascontiguousarray(x.toarray(), float).tobytes())
        elif isinstance(x, np.ndarray):
            h.update(('A%r%s' % (x.shape, x.dtype.kind)).encode())
            if x.dtype.kind in 'biufc':
                h.update(np.ascontiguousarray(x, complex).tobytes())
            else:
                h.update(repr(x.tolist()).encode())
        elif isinstance(x, dict):
            h.update(b'D%d' % len(x))
            for k in sorted(x, key=str):
                h.update(str(k).encode())
                go(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(b'L%d' % len(x))
            for y in x:
                go(y)
        elif callable(x):
            h.update(getattr(x, '__name__', 'f').encode())
        else:
            h.update(repr(x).encode())
    go(v)
    return h.hexdigest()[:16]


@contextlib.contextmanager
def silence():
    # some modules of the package bind sys.stdout when imported: also cover the file descriptors
    o = io.StringIO()
    sys.stdout.flush()
    sys.stderr.flush()
    null = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(1), os.dup(2)
    os.dup2(null, 1)
    os.dup2(null, 2)
    real = sys.stdout, sys.stderr
    try:
        with _quiet(o):
            yield o
    finally:
        for f in real:
            try:
                f.flush()
            except Exception:
                pass
        os.dup2(saved[0], 1)
        os.dup2(saved[1], 2)
        for fd in (null,) + saved:
            os.close(fd)


@contextlib.contextmanager
def _quiet(o):
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            yield o


def attempt(f, *a, **k):
    """call the code under test; returns (ok, value, description of the exception)"""
    try:
        with silence():
            return True, f(*a, **k), ''
    except Exception as e:      # noqa: the verdict on an exception is the specification's
        tb = [x for x in traceback.extract_tb(e.__traceback__)][-1]
        return False, None, '%s at %s:%d: %s' % (
            type(e).__name__, os.path.basename(tb.filename), tb.lineno, str(e)[:120])
    except SystemExit as e:
        return False, None, 'SystemExit(%r)' % (e.code,)


# ------------------------------------------------------------------ TLC
class Tlc:
    def __init__(self):
        self.states = 0
        self.distinct = 0


def classes_dir(scratch):
    d = os.path.join(ROOT, 'build')
    src = os.path.join(SPEC, 'java', 'Dec.java')
    cls = os.path.join(d, 'Dec.class')
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return d
    d = os.path.join(scratch, 'classes')
    if not os.path.exists(os.path.join(d, 'Dec.class')):
        os.makedirs(d, exist_ok=True)
        p = subprocess.run(['javac', '-cp', JARS, '-d', d, src], capture_output=True, text=True)
        if p.returncode:
            raise MachineryError('javac: ' + p.stderr[-500:])
    return d


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        h = int(hashlib.sha256(prop.encode()).hexdigest()[:8], 16)
        self.rng = np.random.default_rng([self.seed, h])
        self.t0 = time.time()
        self.events = []
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.bad = []           # (event, clauses)
        self.design = []        # design-level runs
        self.seen = {}

    # ---- pick a size by tier
    def n(self, quick, thorough):
        return thorough if self.thorough else max(quick, min(thorough, quick * MORE.get(self.prop, 1)))

    def log(self, ev, **fields):
        e = {'ev': ev}
        for k, v in fields.items():
            e[k] = enc(v)
        self.events.append(e)
        return e

    def count(self, what, k=1):
        self.seen[what] = self.seen.get(what, 0) + k

    # ---- run TLC on a module; returns its output
    def tlc(self, module, cfg, env=None, workers=1, extra=(), timeout=800, heap='3g'):
        meta = tempfile.mkdtemp(prefix='meta-', dir=self.scratch)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + meta,
               '-DTLA-Library=' + SPEC, '-cp', classes_dir(self.scratch) + ':' + JARS, 'tlc2.TLC',
               '-workers', str(workers), '-noGenerateSpecTE', '-metadir', meta,
               '-config', os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=meta)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on ' + module)
        out = p.stdout + p.stderr
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, out

    # ---- design-level model checking of a specification (must pass: it is our own spec)
    def check_design(self, module, cfg, workers=4, extra=(), timeout=800):
        rc, out = self.tlc(module, cfg, workers=workers, extra=extra, timeout=timeout)
        if rc != 0 or 'No error has been found' not in out:
            raise MachineryError('the specification itself fails: %s/%s\n%s' % (module, cfg, out[-3000:]))
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.design.append({'module': module, 'cfg': cfg, 'generated': int(m[-1][0]), 'distinct': int(m[-1][1])})
        return [json.loads(unq(x)) for x in sorted(re.findall(r'^<<"EMIT", (".*")>>$', out, re.M))]   # workers print in any order

    # ---- judge recorded events with a trace specification
    def judge(self, module, events=None, chunk=None, group=None, cfg='Trace.cfg'):
        """events: list; group: key function, events of a group stay in one file (histories)"""
        events = self.events if events is None else events
        if not events:
            return
        groups = []
        if group is None:
            groups = [[e] for e in events]
        else:
            last = object()
            for e in events:
                k = group(e)
                if k != last:
                    groups.append([])
                    last = k
                groups[-1].append(e)
        weight = [sum(len(json.dumps(e)) for e in g) for g in groups]
        total = sum(weight)
        njobs = int(min(8, max(1, total // 150000), len(groups))) if chunk is None else chunk
        files = [[] for _ in range(njobs)]
        loads = [0] * njobs
        for g, w in sorted(zip(groups, weight), key=lambda t: -t[1]) if njobs > 1 else zip(groups, weight):
            i = loads.index(min(loads))
            files[i].extend(g)
            loads[i] += w

        def one(i):
            evs = files[i]
            if not evs:
                return
            path = os.path.join(self.scratch, '%s-%d-%d.ndjson' % (module, i, len(os.listdir(self.scratch))))
            outside = 0
            while True:
                with open(path, 'w') as f:
                    for e in evs:
                        f.write(json.dumps(e) + '\n')
                rc, out = self.tlc(module, cfg, env={'TRACE': path})
                os.remove(path)
                if 'No error has been found' in out and rc == 0:
                    break
                # the recorded values lie outside the domain of the specification (wrong shape or type):
                # that event is rejected, and the rest of the trace is still judged
                m = re.findall(r'^(?:/\\ )?l = (\d+)', out, re.M)
                if os.environ.get('VERIF_DEBUG'):
                    print(out[-6000:])
                if group is not None or outside >= 3 or not m or 'rror' not in out or int(m[-1]) >= len(evs) \
                        or 'Parsing or semantic' in out or 'OutOfMemory' in out:
                    raise MachineryError('TLC failed on trace of %s:\n%s' % (module, out[-3000:]))
                outside += 1
                self.bad.append((evs[int(m[-1])], ['OutsideTheDomainOfTheSpecification']))
                evs = evs[:int(m[-1])] + evs[int(m[-1]) + 1:]
            m = re.search(r'<<"DONE", (\d+)>>', out)
            if not m or int(m.group(1)) != len(evs):
                raise MachineryError('TLC did not consume the whole trace of %s:\n%s' % (module, out[-2000:]))
            out = out.replace('\\"', '"')
            for m in re.finditer(r'^"<<"BAD", (\d+), \{(.*?)\}>>"$', out, re.M):
                self.bad.append((evs[int(m.group(1)) - 1], re.findall(r'"([^"]*)"', m.group(2))))
            if out.count('"BAD"') != len(re.findall(r'^"<<"BAD", (\d+), \{(.*?)\}>>"$', out, re.M)):
                raise MachineryError('unparsed verdict in %s:\n%s' % (module, out[-3000:]))
            self.traces += len(evs)
        with ThreadPoolExecutor(max_workers=min(8, njobs)) as ex:
            list(ex.map(one, range(njobs)))
        for e in events[:3]:
            s = json.dumps(e)
            self.samples.append(json.loads(s) if len(s) < 1500 else {'ev': e['ev'], 'json_prefix': s[:1000]})

    # ---- finish: known findings, evidence, exit code
    def finish(self):
        known = load_known(self.prop)
        viol, hit = [], {}
        for e, cl in self.bad:
            k = next((f for f in known if matches(f, e, cl)), None)
            if k is None:
                viol.append((e, cl))
            else:
                hit[k['what']] = hit.get(k['what'], 0) + 1
        for f in known:
            if f['what'] in hit:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        evd = os.path.join(ROOT, 'evidence')
        os.makedirs(evd, exist_ok=True)
        rep = None
        old = os.path.join(evd, 'replay', '%s.json' % self.prop)
        if os.path.exists(old):
            os.remove(old)
        if viol:
            os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
            rep = os.path.join('evidence', 'replay', '%s.json' % self.prop)
            with open(os.path.join(ROOT, rep), 'w') as f:
                json.dump([{'clauses': cl, 'event': e} for e, cl in viol[:20]], f, indent=1)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples[:4] or ['none'],
               'design_runs': self.design, 'exercised': self.seen}
        cov.update(self.notes)
        with open(os.path.join(evd, self.prop + '.json'), 'w') as f:
            json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
                       'coverage': cov, 'wall_s': round(time.time() - self.t0, 2),
                       'assumptions': ['TLC and the decimal-arithmetic override (spec/java/Dec.java) are correct',
                                       'the harness projects the public results of the real code faithfully'],
                       'violations': len(viol)}, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if viol:
            names = {}
            for e, cl in viol:
                for c in cl:
                    names[c] = names.get(c, 0) + 1
            print('failing clauses: ' + ', '.join('%s x%d' % t for t in sorted(names.items())))
            e, cl = viol[0]
            print('first: %s %s' % (cl, {k: v for k, v in e.items() if isinstance(v, (str, int, bool))}))
            print('VIOLATION property=%s replay=%s' % (self.prop, rep))
            return 1
        print('OK property=%s tier=%s traces=%d states=%d design=%s wall=%.1fs' % (
            self.prop, self.tier, self.traces, self.states,
            [(d['cfg'], d['distinct']) for d in self.design], time.time() - self.t0))
        return 0


def unq(s):
    return json.loads(s) if s.startswith('"') else s


def load_known(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)['findings'] if x['property'] == prop and x.get('status') == 'known']


def matches(f, e, cl):
    """a finding names the failing clauses and the values of identifying event fields"""
    return set(cl) <= set(f['clauses']) and all(e.get(k) == v for k, v in f['where'].items())
