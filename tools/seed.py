#!/usr/bin/env python3
"""developer aid: build and confirm a planted bug.  seed.py NAME PROPERTY  < spec
spec: edits as in variants (`@ path`, <<<< old ==== new >>>>), then lines:  needs: ..., breaks: ..., then `demo:` and the demo program."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name, prop = sys.argv[1:3]
lines = sys.stdin.read().split('\n')
edits, path, mode, needs, breaks, demo = [], None, None, '', '', []
for ln in lines:
    if mode == 'demo':
        demo.append(ln)
    elif ln.startswith('@ ') and mode is None:
        path = ln[2:].strip()
    elif ln == '<<<<' and mode is None:
        mode, old, new = 'old', [], []
    elif ln == '====' and mode == 'old':
        mode = 'new'
    elif ln == '>>>>' and mode == 'new':
        edits.append((path, '\n'.join(old), '\n'.join(new)))
        mode = None
    elif mode == 'old':
        old.append(ln)
    elif mode == 'new':
        new.append(ln)
    elif ln.startswith('needs:'):
        needs = ln[6:].strip()
    elif ln.startswith('breaks:'):
        breaks = ln[7:].strip()
    elif ln.strip() == 'demo:':
        mode = 'demo'
d = os.path.join(HERE, 'seeded', name)
os.makedirs(d, exist_ok=True)
scr = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
try:
    subprocess.check_call(['cp', '-a', '/repo', scr + '/repo'])
    r = scr + '/repo'
    subprocess.check_call(['git', '-C', r, 'checkout', '-q', '--', '.'])
    for path, old, new in edits:
        fn = os.path.join(r, path)
        s = open(fn).read()
        if s.count(old) != 1:
            sys.exit('%s: text found %d times:\n%s' % (path, s.count(old), old))
        open(fn, 'w').write(s.replace(old, new))
    patch = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.py', 'w').write('\n'.join(demo).rstrip() + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD/python" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nHERE="$(cd "$(dirname "$0")" && pwd)"\n'
                                    'SCRATCH="$(mktemp -d)"\ntrap \'rm -rf "$SCRATCH"\' EXIT\nexport SCRATCH\ntimeout 250 /opt/venv/bin/python "$HERE/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    b = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
    print('clean rc', a.returncode, 'patched rc', b.returncode)
    if a.returncode:
        print(a.stdout[-1500:], a.stderr[-1500:])
    if not b.returncode:
        print('NOT DEMONSTRATED', b.stdout[-500:])
    else:
        print((b.stdout + b.stderr)[-300:])
    # stable tests on the patched copy
    if '--tests' in sys.argv or os.environ.get('TESTS', '1') == '1':
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '--no-header', '-p', 'no:cacheprovider', 'getdist/tests'] if False else
                           ['bash', '-c', 'sed "s#/repo#%s#g" /opt/vp/env.sh > %s/env.sh; sed "s#/repo#%s#g; s#^. /opt/vp/env.sh#. %s/env.sh#" /opt/vp/test.sh > %s/test.sh; bash %s/test.sh %s/out.json' % (r, scr, r, scr, scr, scr, scr)], cwd=r, capture_output=True, text=True)
        try:
            o = json.load(open(scr + '/out.json'))
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            print('stable tests failing:', sorted(base - set(o['passed'])))
        except Exception as e:
            print('tests?', e, t.stdout[-300:], t.stderr[-300:])
    env = dict(os.environ, VERIF_REPO=r)
    c = subprocess.run([sys.executable, HERE + '/check.py', prop], env=env, capture_output=True, text=True)
    print('check rc', c.returncode, '|', '; '.join(x.strip() for x in c.stdout.split('\n') if x.strip().startswith('violated'))[:300], c.stderr[-300:])
finally:
    shutil.rmtree(scr)
