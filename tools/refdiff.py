#!/usr/bin/env python3
"""developer aid: refdiff.py PID path Class.fn T seed -> where the canonical forms of an edited function and its reference part"""
import sys, os, shutil, tempfile, importlib, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.argv, A = sys.argv[:1], sys.argv[1:]
from tools import refactor
pid, path, where = A[:3]
d = tempfile.mkdtemp(prefix='rfd_', dir='/tmp')
shutil.copytree('/repo', d + '/r', symlinks=True, ignore=shutil.ignore_patterns('.git', '*.pyc', 'camb', 'data'))
try:
    if len(A) > 3:
        src = open('/repo/' + path).read()
        open(d + '/r/' + path, 'w').write(refactor.apply(src, where, A[3], int(A[4]) if len(A) > 4 else 1))
    os.environ['VERIF_REPO'] = d + '/r'
    from sa.project import Project
    from sa.report import Report
    from sa import algebra
    from checks import refspec
    from sa.terms import show
    old = refspec.equal

    def eq(a, b, facts=frozenset(), canon=None, **k):
        r = old(a, b, facts, canon, **k)
        if r[0] == 'differ':
            x, y = (algebra.Canon().key(z) for z in r[2])
            path_ = []
            def show_(z, n=400):
                return str(z)[:n]
            def down(x, y):
                fx = getattr(x, 'v', None) or getattr(x, 'args', None) or (x if isinstance(x, tuple) else None)
                fy = getattr(y, 'v', None) or getattr(y, 'args', None) or (y if isinstance(y, tuple) else None)
                if isinstance(fx, tuple) and isinstance(fy, tuple) and len(fx) == len(fy):
                    for i, (p, q) in enumerate(zip(fx, fy)):
                        if p is not q and p != q:
                            path_.append((i, str(fx[0])[:20]))
                            return down(p, q)
                print('  at', path_[-12:])
                print('   GOT ', show_(x))
                print('   WANT', show_(y))
            down(x, y)
            print('   CASE', [show(c, 4)[:80] for c in r[1]], 'lens', len(r[2][0].args), len(r[2][1].args))
            print('   T', show(r[2][0], int(os.environ.get('D','3')))[:1500])
            print('   T', show(r[2][1], int(os.environ.get('D','3')))[:1500])
        return r
    refspec.equal = eq
    m = importlib.import_module('checks.' + pid.lower())
    f0 = refspec.formula
    refspec.formula = lambda p, rep, rule, f, ref, *a, **k: f0(p, rep, rule, f, ref, *a, **k) if where.endswith(f.name) else None
    r = Report(pid, 'quick', 1)
    for n in ('marge', 'likes', 'tables'):
        if hasattr(m, n):
            setattr(m, n, lambda *a: None)
    m.check(Project(d + '/r'), r)
    for o in r.obs:
        if not o[2]:
            print('BAD', o[1], o[3][:200])
finally:
    shutil.rmtree(d)
