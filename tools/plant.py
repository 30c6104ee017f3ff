"""tools/plant.py ID PROP FILE < spec: build seeded/<ID> from a text replacement.

stdin: sections separated by lines '=====': old text, new text, needs, what_it_breaks, demo.py
(several replacements: further 'FILE old new' triples are given as sections before needs with a first line '@FILE').
Confirms in a scratch copy that it compiles, keeps the stable tests and that the demo tells the two trees apart."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID, PROP, FILE = sys.argv[1:4]
sec = [s.strip('\n') for s in sys.stdin.read().split('\n=====\n')]
demo, breaks, needs = sec.pop(), sec.pop().strip(), sec.pop().strip()
reps, f = [], FILE
while sec:
    old = sec.pop(0)
    if old.startswith('@'):
        f, old = old.split('\n', 1)
        f = f[1:]
    reps.append((f, old, sec.pop(0)))
d = os.path.join(ROOT, 'seeded', ID)
os.makedirs(d, exist_ok=True)
tmp = tempfile.mkdtemp(prefix='plant-')
try:
    subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/repo'])
    for f, old, new in reps:
        p = tmp + '/repo/pypower/' + f
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit('%s: old text found %d times' % (f, s.count(old)))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', tmp + '/repo', 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1\n'
                                   'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': PROP, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    def demo_rc(tree):
        e = dict(os.environ, PYTHONPATH=tree, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', d + '/demo.py'], env=e, cwd=tree, capture_output=True, text=True)
        return r.returncode, (r.stdout + r.stderr)[-400:]
    print(ID, 'unchanged:', demo_rc('/repo'), 'planted:', demo_rc(tmp + '/repo'))
    # blame: the changed lines must come from the base commit (checked by vcheck)
    if os.environ.get('NOTEST'):
        sys.exit()
    subprocess.check_call(['git', '-C', '/repo', 'diff', '--quiet'])
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    try:
        b = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True).returncode
        t = subprocess.run([ROOT + '/tools/regress.sh'], capture_output=True, text=True).stdout.strip()
        print('build', b, 'tests:', t)
        for prop in PROP.split(','):
            r = subprocess.run([ROOT + '/bin/check', prop, 'quick'], capture_output=True, text=True)
            print('check', prop, r.returncode, r.stdout.strip()[-400:])
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
finally:
    shutil.rmtree(tmp)
