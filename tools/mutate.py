#!/usr/bin/env python3
"""developer aid (not a check): apply textual variants to a scratch copy of /repo and run checks on it.

variants live in tools/variants/*.txt:
  @bug P01 python/getdist/chains.py        (or @ok for a behaviour-preserving edit)
  <<<<
  old text
  ====
  new text
  >>>>
usage: mutate.py [PID ...] [--only=substr] [--kind=bug|ok]
"""
import glob
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))


def parse(fn):
    out, cur = [], None
    mode = None
    for line in open(fn):
        if line.startswith('@') and mode is None:
            kind, pid, path = line[1:].split(None, 3)[:3]
            cur = {'kind': kind, 'pid': pid, 'path': path, 'edits': [], 'name': '%s#%d' % (os.path.basename(fn)[:-4], len(out) + 1)}
            out.append(cur)
        elif line.rstrip('\n') == '<<<<' and mode is None:
            mode, old, new = 'old', [], []
        elif line.rstrip('\n') == '====' and mode == 'old':
            mode = 'new'
        elif line.rstrip('\n') == '>>>>' and mode == 'new':
            cur['edits'].append((''.join(old)[:-1], ''.join(new)[:-1]))
            mode = None
        elif mode == 'old':
            old.append(line)
        elif mode == 'new':
            new.append(line)
    return out


def run(v):
    d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    try:
        ev = os.path.join(d, 'verif')
        subprocess.check_call(['cp', '-a', os.environ.get('MUT_REPO', '/repo'), d + '/repo'])
        fn = os.path.join(d, 'repo', v['path'])
        s = open(fn).read()
        for old, new in v['edits']:
            if s.count(old) < 1:
                return v, 'NOMATCH', old
            s = s.replace(old, new, 1)
        open(fn, 'w').write(s)
        r = subprocess.run([sys.executable, '-m', 'py_compile', fn], capture_output=True, text=True)
        if r.returncode:
            return v, 'SYNTAX', r.stderr
        os.makedirs(ev)
        for x in ('sa', 'checks', 'check.py', 'known_findings.txt'):
            if os.path.exists('/verif/' + x):
                subprocess.check_call(['cp', '-a', '/verif/' + x, ev])
        pids = v['pid'].split(',')
        env = dict(os.environ, VERIF_REPO=d + '/repo')
        r = subprocess.run([sys.executable, ev + '/check.py'] + pids, capture_output=True, text=True, env=env)
        return v, r.returncode, r.stdout + r.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    pids = [a for a in sys.argv[1:] if not a.startswith('--')]
    only = [a.split('=')[1] for a in sys.argv if a.startswith('--only=')]
    kind = [a.split('=')[1] for a in sys.argv if a.startswith('--kind=')]
    vs = []
    for fn in sorted(glob.glob(os.path.join(HERE, 'variants', '*.txt'))):
        vs += parse(fn)
    vs = [v for v in vs if (not pids or set(v['pid'].split(',')) & set(pids)) and (not only or any(o in v['name'] for o in only))
          and (not kind or v['kind'] in kind)]
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for v, rc, out in ex.map(run, vs):
            want = 1 if v['kind'] == 'bug' else 0
            good = rc == want
            bad += not good
            print('%-4s %-18s %-4s %s rc=%s' % ('ok' if good else 'BAD', v['name'], v['kind'], v['pid'], rc))
            if not good or '--v' in sys.argv:
                print('\n'.join('      ' + l[:220] for l in out.splitlines() if 'violated' in l or 'BROKEN' in l or 'Error' in l or l.startswith('      ') or rc in ('NOMATCH', 'SYNTAX'))[:3000])
    print(len(vs), 'variants,', bad, 'unexpected')



if __name__ == '__main__':
    main()
