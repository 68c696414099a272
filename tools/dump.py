#!/usr/bin/env python3
"""developer aid: dump what the interpreter sees. dump.py mod:Class.meth [--cls=mod:Cls] [--inline=a,b] [--ev] [--heap=attr,...] [--d=N]"""
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import warnings
warnings.simplefilter('ignore')
from checks.common import *
from sa.project import Project
a = [x for x in sys.argv[1:] if not x.startswith('--')]
o = dict((x[2:].split('=', 1) + [''])[:2] for x in sys.argv[1:] if x.startswith('--'))
p = Project()
mod, name = a[0].split(':')
cls = None
if '.' in name:
    c, m = name.split('.')
    cls = p.cls(mod, c)
    f = p.find_method(cls, m)
else:
    f = p.func(mod, name)
if 'cls' in o:
    cls = p.cls(*o['cls'].split(':'))
D = int(o.get('d', 8))
inl = o.get('inline', '')
pol = (lambda f, r: True) if inl == 'all' else policy(*inl.split(','))
I = Interp(p, inline=pol)
rets, raised = I.run_function(f, cls=cls) if cls else I.run_function(f)
if 'ev' in o:
    for e in I.events:
        if o['ev'] and e.kind not in o['ev'].split(','):
            continue
        print(e.kind, e.loc, e.name or '', show(e.fn, D) if e.fn is not None else '', 'base=' + show(e.base, D) if e.base is not None else '', [show(x, D) for x in e.args or ()],
              [(k, show(v, D)) for k, v in e.kwargs or ()], '-> ' + show(e.value, D) if e.value is not None else '')
        if 'facts' in o:
            for x in e.facts:
                print('       F', show(x, D))
for st, v in rets:
    print('RETURN', show(I.res(v, st), D))
    if 'facts' in o:
        for x in st.facts:
            print('   F', show(x, D))
    if 'heap' in o:
        for (b, n), v in st.heap.items():
            if n in o['heap'].split(',') or not o['heap']:
                print('  ', show(b), n, '=', show(I.res(v, st), D))
for r in raised:
    print('RAISE', r if not isinstance(r, tuple) else [show(x) for x in r if isinstance(x, Term)])
