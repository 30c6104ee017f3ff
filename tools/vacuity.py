"""tools/vacuity.py ID [N]: which recorded values does the specification constrain?

Runs the quick check of a property, corrupts one recorded value at a time and lets TLC judge the corrupted
events: a value (path, indices of rows generalised) whose corruption is never noticed is not constrained."""
import copy, importlib, json, os, re, sys, random
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/harness')
import common
ID, N = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 6
rnd = random.Random(1)
batches = []
real = common.Ctx.judge
def judge(self, module, events=None, chunk=None, group=None, cfg='Trace.cfg'):
    events = self.events if events is None else events
    if group is None:
        batches.append((module, cfg, list(events)))
    else:
        batches.append((module, cfg, None))
common.Ctx.judge = judge
ctx = common.Ctx(ID)
importlib.import_module(ID.lower()).run(ctx)

def leaves(v, path=()):
    if isinstance(v, dict):
        for k in v:
            yield from leaves(v[k], path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    else:
        yield path

def gen(path):
    """rows generalised: the index after a name is a row; a further index is a column"""
    out, last = [], None
    for p in path:
        if isinstance(p, int):
            out.append('*' if last != 'row' else str(p))
            last = 'row' if last != 'row' else 'col'
        else:
            out.append(p)
            last = 'name'
    return '.'.join(out)

def change(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + 1
    try:
        f = float(x)
        if f in (float('inf'), float('-inf')) or f != f:
            return 3
        return common.num(f * 1.03 + .07)
    except ValueError:
        return x + 'z'

for module, cfg, events in batches:
    if events is None:
        print(module, 'histories: skipped')
        continue
    where = {}
    for n, e in enumerate(events):
        seen = {}
        for p in leaves(e):
            if p != ('ev',):
                seen.setdefault(e['ev'] + ':' + gen(p), []).append(p)
        for g, ps in seen.items():
            where.setdefault(g, []).append((n, rnd.choice(ps)))
    muts = []
    for g, w in where.items():
        for n, p in rnd.sample(w, min(N, len(w))):
            e = copy.deepcopy(events[n])
            t = e
            for k in p[:-1]:
                t = t[k]
            t[p[-1]] = change(t[p[-1]])
            muts.append((g, e))
    tried, killed = {}, {}
    for g, _ in muts:
        tried[g] = tried.get(g, 0) + 1
    size = 150
    from concurrent.futures import ThreadPoolExecutor
    def one(part):
        part = list(part)
        while part:
            path = os.path.join(ctx.scratch, 'v%d.ndjson' % id(part))
            with open(path, 'w') as f:
                for _, e in part:
                    f.write(json.dumps(e) + '\n')
            rc, out = ctx.tlc(module, cfg, env={'TRACE': path})
            o = out.replace('\\"', '"')
            bad = {int(m.group(1)) - 1 for m in re.finditer(r'<<"BAD", (\d+), ', o)}
            for b in bad:
                killed[part[b][0]] = killed.get(part[b][0], 0) + 1
            if rc == 0:
                return
            m = re.findall(r'^(?:/\\ )?l = (\d+)', out, re.M)
            if not m:
                print('TLC:', out[-600:])
                return
            at = int(m[-1])
            if at >= len(part):
                return
            killed[part[at][0]] = killed.get(part[at][0], 0) + 1
            part = part[at + 1:]
    rnd.shuffle(muts)
    with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        list(ex.map(one, [muts[i:i + size] for i in range(0, len(muts), size)]))
    print('%s %s: %d values, %d never noticed' % (ID, module, len(tried), sum(1 for g in tried if not killed.get(g))))
    for g in sorted(tried):
        if not killed.get(g):
            print('   never', g, '0/%d' % tried[g])
        elif killed[g] < tried[g] / 2:
            print('   rarely', g, '%d/%d' % (killed[g], tried[g]))
import shutil
shutil.rmtree(ctx.scratch, ignore_errors=True)
