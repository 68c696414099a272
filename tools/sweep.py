#!/usr/bin/env python3
"""developer aid (not a check): small changes of operators and constants in every function of a file; reports those no check sees.

usage: sweep.py path/in/repo [--fn=regex] [--n=12] [--pids=P01,P02] [--jobs=6]
"""
import ast
import importlib
import os
import random
import re
import shutil
import sys
import tempfile
import warnings
from concurrent.futures import ProcessPoolExecutor

warnings.simplefilter('ignore')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
OPT = dict(a[2:].split('=', 1) for a in sys.argv[1:] if a.startswith('--'))
PATHS = [a for a in sys.argv[1:] if not a.startswith('--')]
CMP = {'Lt': '<=', 'LtE': '<', 'Gt': '>=', 'GtE': '>', 'Eq': '!=', 'NotEq': '==', 'Is': 'is not', 'IsNot': 'is', 'In': 'not in', 'NotIn': 'in'}
BIN = {'Add': '-', 'Sub': '+', 'Mult': '/', 'Div': '*', 'FloorDiv': '/', 'Pow': '*', 'Mod': '//'}


def mutants(src, fn):
    """(line, description, new source) of one function"""
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda l, c: offs[l - 1] + c
    seg = lambda n: raw[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
    out = []

    def rep(n, text, why):
        out.append((n.lineno, why, (raw[:pos(n.lineno, n.col_offset)] + text.encode() + raw[pos(n.end_lineno, n.end_col_offset):]).decode()))
    inner = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef,)):
            inner |= set(ast.walk(n)) - {n}
    doc = {id(fn.body[0].value)} if isinstance(fn.body[0], ast.Expr) else set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'logging':
            inner |= set(ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print':
            inner |= set(ast.walk(n))
    for n in ast.walk(fn):
        if n in inner or id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0]).__name__
            if o in CMP:
                rep(n, '(%s %s %s)' % (seg(n.left), CMP[o], seg(n.comparators[0])), '%s -> %s' % (seg(n)[:60], CMP[o]))
        elif isinstance(n, ast.BinOp) and type(n.op).__name__ in BIN and not any(isinstance(y, ast.Constant) and isinstance(y.value, str) or isinstance(y, ast.JoinedStr) for y in ast.walk(n)):
            o = BIN[type(n.op).__name__]
            rep(n, '((%s) %s (%s))' % (seg(n.left), o, seg(n.right)), '%s -> %s' % (seg(n)[:70], o))
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + o.join('(%s)' % seg(v) for v in n.values) + ')', '%s ->%s' % (seg(n)[:70], o))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(n, '(%s)' % seg(n.operand), 'drop %s' % seg(n)[:50])
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes, type(None), type(...))):
            if isinstance(n.value, bool):
                rep(n, str(not n.value), '%s at %d' % (n.value, n.lineno))
            elif isinstance(n.value, int):
                rep(n, '(%d)' % (n.value + 1), '%d -> %d' % (n.value, n.value + 1))
            else:
                rep(n, repr(n.value * 1.5), '%r * 1.5' % n.value)
        elif isinstance(n, ast.If):
            rep(n.test, '(True)', 'if %s -> True' % seg(n.test)[:60])
            rep(n.test, '(False)', 'if %s -> False' % seg(n.test)[:60])
        elif isinstance(n, ast.IfExp):
            rep(n, '((%s) if (%s) else (%s))' % (seg(n.orelse), seg(n.test), seg(n.body)), 'swap %s' % seg(n)[:60])
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                continue
            rep(n, 'pass', 'drop %s' % seg(n)[:80])
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            a = [seg(x) for x in n.args]
            a[0], a[1] = a[1], a[0]
            if a[0] != a[1]:
                rep(n, '%s(%s)' % (seg(n.func), ', '.join(a)), 'swap args %s' % seg(n)[:60])
    return out


def relevant(path):
    from tools import props
    return None


def work(job):
    path, src, pids, muts = job
    d = tempfile.mkdtemp(prefix='swp_', dir='/tmp')
    res = []
    try:
        top = os.environ.get('MUT_REPO', '/repo')
        shutil.copytree(top, d + '/r', symlinks=True, ignore=shutil.ignore_patterns('.git', '*.pyc', 'camb', 'data', 'CosmoRec*'))
        os.environ['VERIF_REPO'] = d + '/r'
        from sa.project import Project
        from sa.report import Report
        mods = [(pid, importlib.import_module('checks.' + pid.lower())) for pid in pids]
        for where, line, why, new in muts:
            try:
                compile(new, path, 'exec')
            except SyntaxError:
                continue
            open(os.path.join(d, 'r', path), 'w').write(new)
            hit = err = None
            for pid, m in mods:
                try:
                    r = Report(pid, 'quick', 1)
                    m.check(Project(d + '/r'), r)
                    if [o for o in r.obs if not o[2]]:
                        hit = pid
                        break
                except BaseException as e:
                    err = '%s %s: %s' % (pid, type(e).__name__, str(e)[:60])
            res.append((where, line, why, hit, err))
    finally:
        shutil.rmtree(d)
    return res


def main():
    random.seed(int(OPT.get('seed', 1)))
    n = int(OPT.get('n', 12))
    pids = OPT['pids'].split(',') if 'pids' in OPT else ['P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P11', 'P12', 'P13', 'P14', 'P15', 'P17', 'P18', 'P19', 'P22', 'P23', 'P24', 'P10', 'P16']
    todo = []
    for path in PATHS:
        src = open(os.path.join(os.environ.get('MUT_REPO', '/repo'), path)).read()
        tree = ast.parse(src)
        fns = []
        for x in tree.body:
            if isinstance(x, ast.FunctionDef):
                fns.append((x.name, x))
            elif isinstance(x, ast.ClassDef):
                fns += [(x.name + '.' + y.name, y) for y in x.body if isinstance(y, ast.FunctionDef)]
        for name, f in fns:
            if not re.search(OPT.get('fn', ''), name):
                continue
            ms = mutants(src, f)
            random.shuffle(ms)
            todo += [(path, src, (name,) + m) for m in ms[:n]]
    jobs = []
    k = int(OPT.get('jobs', 6))
    size = max(1, min(12, len(todo) // k + 1))
    for path in PATHS:
        mine = [t[2] for t in todo if t[0] == path]
        s = [t[1] for t in todo if t[0] == path][:1]
        jobs += [(path, s[0], pids, mine[i:i + size]) for i in range(0, len(mine), size)]
    out = {}
    with ProcessPoolExecutor(k) as ex:
        for res in ex.map(work, jobs):
            for where, line, why, hit, err in res:
                out.setdefault(where, []).append((line, why, hit, err))
    for w, rs in sorted(out.items(), key=lambda x: x[1][0][0]):
        alive = [r for r in rs if not r[2]]
        print('%-40s %d/%d' % (w, len(rs) - len(alive), len(rs)))
        for line, why, hit, err in sorted(alive):
            print('      %5d %s%s' % (line, ' '.join(why.split())[:110], '   [%s]' % err if err else ''))


main()
