#!/usr/bin/env python3
"""developer aid (not a check): edits which keep the behaviour, in every function of a file; reports checks which raise an alarm on them.

usage: refactor.py path/in/repo ... [--fn=regex] [--pids=P01,P02] [--jobs=6] [--only=T3,T6] [--seed=1]
"""
import ast
import builtins
import copy
import importlib
import os
import random
import re
import shutil
import sys
import tempfile
import warnings
from concurrent.futures import ProcessPoolExecutor

warnings.simplefilter('ignore')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
OPT = dict(a[2:].split('=', 1) for a in sys.argv[1:] if a.startswith('--'))
PATHS = [a for a in sys.argv[1:] if not a.startswith('--')]
N = lambda n, c=None: ast.Name(n, c or ast.Load())


def blocks(fn):
    for n in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def params(fn):
    a = fn.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())


def nested(fn):
    return [n for n in ast.walk(fn) if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]


def simple(e):
    """no effects and not dependent on order"""
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Compare, ast.BoolOp, ast.operator, ast.unaryop, ast.cmpop, ast.boolop, ast.expr_context, ast.Subscript, ast.Slice)) for x in ast.walk(e))


def negated(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    flip = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in flip:
        return ast.Compare(t.left, [flip[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


def T1(fn, rnd, mod):
    """rename local variables"""
    if nested(fn) or any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)):
        return False
    loc = names(fn, ast.Store) - params(fn)
    if not loc:
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in loc:
            n.id = n.id + '_v'
    return True


def T2(fn, rnd, mod):
    """keep the value in a variable first"""
    sites = [(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant))]
    if not sites:
        return False
    b, i = rnd.choice(sites)
    v = b[i].value
    b[i].value = N('out_value')
    b.insert(i, ast.Assign([N('out_value', ast.Store())], v, lineno=0))
    return True


def T3(fn, rnd, mod):
    """turn if / else around"""
    done = False
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = negated(n.test), n.orelse, n.body
            done = True
        elif isinstance(n, ast.IfExp):
            n.test, n.body, n.orelse = negated(n.test), n.orelse, n.body
            done = True
    return done


def T4(fn, rnd, mod):
    """else after return, or none"""
    done = False
    for _, _, b in list(blocks(fn)):
        for i, s in enumerate(list(b)):
            if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                if s.orelse:
                    rest = s.orelse
                    s.orelse = []
                    j = b.index(s)
                    b[j + 1:j + 1] = rest
                    done = True
                elif i + 1 < len(b):
                    j = b.index(s)
                    s.orelse = b[j + 1:]
                    del b[j + 1:]
                    done = True
                if done:
                    return True
                break
    return done


def T6(fn, rnd, mod):
    """a helper function"""
    loc = names(fn, ast.Store) | params(fn)
    sites = []
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assign, ast.Return)) and n.value is not None:
            e = n.value
            if isinstance(e, (ast.BinOp, ast.Call, ast.Compare, ast.IfExp, ast.Subscript)) and len(list(ast.walk(e))) > 8 and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Yield, ast.NamedExpr, ast.Starred)) for x in ast.walk(e)) and 'super' not in names(e) \
                    and not any(isinstance(x, ast.Attribute) and x.attr.startswith('__') for x in ast.walk(e)):
                used = sorted(names(e) & loc)
                if names(e) & loc and not any(names(e) & (names(x, ast.Store) | params(x)) for x in nested(fn) if isinstance(x, ast.FunctionDef)):
                    inside = [x for x in nested(fn) if n in set(ast.walk(x))]
                    if not inside:
                        sites.append((n, used))
    if not sites:
        return False
    n, used = rnd.choice(sites)
    h = ast.FunctionDef('_value_of_helper', ast.arguments([], [ast.arg(u if u != 'self' else 'obj') for u in used], None, [], [], None, []), [ast.Return(copy.deepcopy(n.value))], [], lineno=0)
    for x in ast.walk(h):
        if isinstance(x, ast.Name) and x.id == 'self':
            x.id = 'obj'
    n.value = ast.Call(N('_value_of_helper'), [N(u) for u in used], [])
    mod.append(h)
    return True


def T7(fn, rnd, mod):
    """swap independent statements"""
    sites = []
    for _, _, b in blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and simple(x.value) and all(isinstance(y, (ast.Name, ast.Attribute)) for y in x.targets) for x in (s, t)):
                tx = [ast.unparse(x.targets[0]) for x in (s, t)]
                if tx[0] not in ast.unparse(t) and tx[1] not in ast.unparse(s) and tx[0].split('.')[-1] not in ast.unparse(t) and tx[1].split('.')[-1] not in ast.unparse(s):
                    sites.append((b, i))
    if not sites:
        return False
    b, i = rnd.choice(sites)
    b[i], b[i + 1] = b[i + 1], b[i]
    return True


def T8(fn, rnd, mod):
    """comparisons the other way"""
    flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    done = False
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in flip and simple(n):
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [flip[type(n.ops[0])]()]
            done = True
    return done


def T9(fn, rnd, mod):
    """appending loop -> comprehension"""
    for _, _, b in blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(t, ast.For) and len(t.body) == 1 and not t.orelse:
                body, cond = t.body[0], []
                if isinstance(body, ast.If) and len(body.body) == 1 and not body.orelse:
                    cond, body = [body.test], body.body[0]
                if isinstance(body, ast.Expr) and isinstance(body.value, ast.Call) and isinstance(body.value.func, ast.Attribute) and body.value.func.attr == 'append' and isinstance(body.value.func.value, ast.Name) and body.value.func.value.id == s.targets[0].id and s.targets[0].id not in names(body.value.args[0]):
                    s.value = ast.ListComp(body.value.args[0], [ast.comprehension(t.target, t.iter, cond, 0)])
                    del b[i + 1]
                    return True
    return False


def T10(fn, rnd, mod):
    """conditional expression -> if statement, and back"""
    sites = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                sites.append((b, i, 1))
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                sites.append((b, i, 3))
            elif isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and all(isinstance(x, ast.Assign) for x in (s.body[0], s.orelse[0])) and ast.unparse(s.body[0].targets[0]) == ast.unparse(s.orelse[0].targets[0]):
                sites.append((b, i, 2))
            elif isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and all(isinstance(x, ast.Return) and x.value is not None for x in (s.body[0], s.orelse[0])):
                sites.append((b, i, 4))
    if not sites:
        return False
    b, i, k = rnd.choice(sites)
    s = b[i]
    if k == 1:
        b[i] = ast.If(s.value.test, [ast.Assign(s.targets, s.value.body, lineno=0)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse, lineno=0)])
    elif k == 3:
        b[i] = ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])
    elif k == 2:
        b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value), lineno=0)
    else:
        b[i] = ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
    return True


def T11(fn, rnd, mod):
    """loop by index, or with an index not used"""
    sites = [n for n in ast.walk(fn) if isinstance(n, ast.For) and isinstance(n.iter, (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Name)]
    if not sites:
        return False
    n = rnd.choice(sites)
    n.iter = ast.Call(N('enumerate'), [n.iter], [])
    n.target = ast.Tuple([N('unused_ix', ast.Store()), n.target], ast.Store())
    return True


def T12(fn, rnd, mod):
    """a statement that does nothing"""
    bs = [b for _, _, b in blocks(fn)]
    b = rnd.choice(bs)
    i = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
    b.insert(i, ast.parse(rnd.choice(['pass', '_ = None', 'assert True', 'if False:\n    raise ValueError()', '0'])).body[0])
    return True


def T15(fn, rnd, mod):
    """and -> nested ifs; De Morgan"""
    sites = [n for n in ast.walk(fn) if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp)]
    if not sites:
        return False
    n = rnd.choice(sites)
    if isinstance(n.test.op, ast.And) and not n.orelse:
        first, rest = n.test.values[0], n.test.values[1:]
        n.body = [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), n.body, [])]
        n.test = first
    else:
        o = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
        n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [negated(v) for v in n.test.values]))
    return True


def T16(fn, rnd, mod):
    """formatting -> format string"""
    done = False
    for n in ast.walk(fn):
        for f, v in ast.iter_fields(n):
            for k, x in enumerate(v) if isinstance(v, list) else [(None, v)]:
                if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, str) and set(re.findall('%.', x.left.value)) == {'%s'}:
                    vals = x.right.elts if isinstance(x.right, ast.Tuple) else [x.right] if isinstance(x.right, (ast.Attribute, ast.Subscript)) else None
                    parts = x.left.value.split('%s')
                    if vals and len(vals) == len(parts) - 1 and not any("'" in ast.unparse(y) or '"' in ast.unparse(y) or '\\' in ast.unparse(y) for y in vals) and '\\' not in x.left.value and '{' not in x.left.value:
                        js = []
                        for a, b in zip(parts, vals):
                            js += [ast.Constant(a)] if a else []
                            js.append(ast.FormattedValue(b, -1))
                        js += [ast.Constant(parts[-1])] if parts[-1] else []
                        new = ast.JoinedStr(js)
                        if k is None:
                            setattr(n, f, new)
                        else:
                            v[k] = new
                        done = True
    return done


def T17(fn, rnd, mod):
    """an attribute used twice kept in a variable"""
    if nested(fn):
        return False
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign)) and s.value is not None:
                seen = {}
                for x in ast.walk(s.value):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and isinstance(x.ctx, ast.Load):
                        seen.setdefault(x.attr, []).append(x)
                calls = {id(x.func) for x in ast.walk(s.value) if isinstance(x, ast.Call)}
                if any(isinstance(x, (ast.Call, ast.Lambda)) and isinstance(getattr(x, 'func', None), ast.Attribute) and ast.unparse(x.func).startswith('self.') for x in ast.walk(s.value)):
                    continue
                for a, xs in seen.items():
                    if len(xs) >= 2 and not any(id(x) in calls for x in xs):
                        class R(ast.NodeTransformer):
                            def visit_Attribute(self, y):
                                self.generic_visit(y)
                                return N('kept_' + a) if isinstance(y.ctx, ast.Load) and y.attr == a and isinstance(y.value, ast.Name) and y.value.id == 'self' else y
                        s.value = R().visit(s.value)
                        b.insert(i, ast.Assign([N('kept_' + a, ast.Store())], ast.Attribute(N('self'), a, ast.Load()), lineno=0))
                        return True
    return False


def T18(fn, rnd, mod):
    """+= written out for numbers and text"""
    sites = [(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and (isinstance(s.value, ast.Constant) or isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Mod) and isinstance(s.value.left, ast.Constant))]
    if not sites:
        return False
    for b, i in sites:
        s = b[i]
        b[i] = ast.Assign([s.target], ast.BinOp(N(s.target.id), s.op, s.value), lineno=0)
    return True


def T19(fn, rnd, mod):
    """whole body in a helper"""
    if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) for n in ast.walk(fn)) or 'super' in names(fn) or fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs or fn.decorator_list or fn.name.startswith('__'):
        return False
    if any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__') for x in ast.walk(fn)):
        return False
    ps = [a.arg for a in fn.args.args]
    h = ast.FunctionDef('_body_of_' + fn.name, ast.arguments([], [ast.arg(x) for x in ps], None, [], [], None, []), fn.body, [], lineno=0)
    doc = fn.body[:1] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else []
    fn.body = doc + [ast.Return(ast.Call(N(h.name), [N(x) for x in ps], []))]
    mod.append(h)
    return True


def T20(fn, rnd, mod):
    """for loop -> while by hand"""
    sites = []
    for _, _, b in blocks(fn):
        for i, n in enumerate(b):
            if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and len(n.iter.args) == 1 and simple(n.iter.args[0]) and not n.orelse \
                    and not any(isinstance(x, (ast.Continue,)) for x in ast.walk(n)) and not (names(n.iter.args[0]) & {y for s in n.body for y in names(s, ast.Store)}) and n.target.id not in {y for s in n.body for y in names(s, ast.Store)} and not nested(fn):
                sites.append((b, i))
    if not sites:
        return False
    b, i = rnd.choice(sites)
    n = b[i]
    v = n.target.id
    b[i:i + 1] = [ast.Assign([N(v, ast.Store())], ast.Constant(0), lineno=0), ast.While(ast.Compare(N(v), [ast.Lt()], [n.iter.args[0]]), n.body + [ast.AugAssign(N(v, ast.Store()), ast.Add(), ast.Constant(1))], [])]
    return True


def T21(fn, rnd, mod):
    """comprehension -> appending loop"""
    sites = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and (isinstance(s, ast.Return) or isinstance(s.targets[0], ast.Name)) and not nested(fn):
                g = s.value.generators[0]
                if not (names(g.target) & (names(fn) - names(s.value))) and not (names(g.target) & params(fn)):
                    sites.append((b, i))
    if not sites:
        return False
    b, i = rnd.choice(sites)
    s, g = b[i], b[i].value.generators[0]
    if sum(1 for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id in names(g.target)) != sum(1 for x in ast.walk(s.value) if isinstance(x, ast.Name) and x.id in names(g.target)):
        return False
    v = 'collected'
    body = ast.Expr(ast.Call(ast.Attribute(N(v), 'append', ast.Load()), [s.value.elt], []))
    for c in g.ifs[::-1]:
        body = ast.If(c, [body], [])
    b[i:i + 1] = [ast.Assign([N(v, ast.Store())], ast.List([], ast.Load()), lineno=0), ast.For(g.target, g.iter, [body], [], lineno=0), s]
    s.value = N(v)
    return True


def T22(fn, rnd, mod):
    """loop over positions"""
    sites = [n for n in ast.walk(fn) if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, (ast.Name, ast.Attribute)) and not (names(n.iter) - {'self'}) & {y for s in n.body for y in names(s, ast.Store)}]
    sites = [n for n in sites if re.search('names|samples|chains|weights|results|params|list|items|lines', ast.unparse(n.iter))]
    if not sites:
        return False
    n = rnd.choice(sites)
    it = n.iter
    n.body.insert(0, ast.Assign([n.target], ast.Subscript(copy.deepcopy(it), N('pos_ix'), ast.Load()), lineno=0))
    n.iter = ast.Call(N('range'), [ast.Call(N('len'), [it], [])], [])
    n.target = N('pos_ix', ast.Store())
    return True


def T23(fn, rnd, mod):
    """enumerate -> positions"""
    sites = [n for n in ast.walk(fn) if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and len(n.iter.args) == 1 and isinstance(n.iter.args[0], (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Tuple)
             and not (names(n.iter.args[0]) - {'self'}) & {y for s in n.body for y in names(s, ast.Store)}]
    if not sites:
        return False
    n = rnd.choice(sites)
    it = n.iter.args[0]
    ix, x = n.target.elts
    n.body.insert(0, ast.Assign([x], ast.Subscript(copy.deepcopy(it), N(ix.id), ast.Load()), lineno=0))
    n.iter = ast.Call(N('range'), [ast.Call(N('len'), [it], [])], [])
    n.target = ix
    return True


def T24(fn, rnd, mod):
    """a helper for the statements of a block"""
    if nested(fn) or any(isinstance(n, (ast.Yield, ast.Global)) for n in ast.walk(fn)) or 'super' in names(fn):
        return False
    sites = []
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Raise)) for x in ast.walk(s)) and not names(ast.Module(s.body + s.orelse, []), ast.Store) and not any(isinstance(x, ast.Attribute) and x.attr.startswith('__') for x in ast.walk(s)):
                sites.append((b, i))
    if not sites:
        return False
    b, i = rnd.choice(sites)
    s = b[i]
    used = sorted(names(s) & (names(fn, ast.Store) | params(fn)))
    h = ast.FunctionDef('_part_of_' + fn.name.strip('_'), ast.arguments([], [ast.arg(u if u != 'self' else 'obj') for u in used], None, [], [], None, []), [copy.deepcopy(s)], [], lineno=0)
    for x in ast.walk(h):
        if isinstance(x, ast.Name) and x.id == 'self':
            x.id = 'obj'
    b[i] = ast.Expr(ast.Call(N(h.name), [N(u) for u in used], []))
    mod.append(h)
    return True


def T25(fn, rnd, mod):
    """pair assignment <-> two"""
    for _, _, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts) and all(isinstance(x, (ast.Name, ast.Attribute)) for x in s.targets[0].elts) and all(simple(v) for v in s.value.elts):
                ts = [ast.unparse(x) for x in s.targets[0].elts]
                if not any(t in ast.unparse(v) for t in ts for v in s.value.elts):
                    b[i:i + 1] = [ast.Assign([t], v, lineno=0) for t, v in zip(s.targets[0].elts, s.value.elts)]
                    return True
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and simple(x.value) for x in (s, t)) and s.targets[0].id not in names(t):
                b[i:i + 2] = [ast.Assign([ast.Tuple([s.targets[0], t.targets[0]], ast.Store())], ast.Tuple([s.value, t.value], ast.Load()), lineno=0)]
                return True
    return False


ALL = {k: v for k, v in list(globals().items()) if re.match(r'T\d+$', k)}


def apply(src, where, t, seed):
    tree = ast.parse(src)
    fn = None
    for x in tree.body:
        if isinstance(x, ast.FunctionDef) and x.name == where:
            fn = x
        elif isinstance(x, ast.ClassDef):
            for y in x.body:
                if isinstance(y, ast.FunctionDef) and x.name + '.' + y.name == where:
                    fn = y
    old = copy.deepcopy(fn)
    new = []
    if not ALL[t](fn, random.Random(seed), new):
        return None
    ast.fix_missing_locations(fn)
    ind = ' ' * old.col_offset
    text = '\n'.join(ind + l if l else l for l in ast.unparse(fn).split('\n'))
    lines = src.split('\n')
    first = min([old.lineno] + [d.lineno for d in old.decorator_list]) - 1
    lines[first:old.end_lineno] = text.split('\n')
    out = '\n'.join(lines)
    for h in new:
        ast.fix_missing_locations(h)
        out += '\n\n' + ast.unparse(h) + '\n'
    try:
        compile(out, 'x', 'exec')
    except SyntaxError as e:
        return None
    return out


def work(job):
    path, src, pids, muts = job
    d = tempfile.mkdtemp(prefix='rfc_', dir='/tmp')
    res = []
    try:
        top = os.environ.get('MUT_REPO', '/repo')
        shutil.copytree(top, d + '/r', symlinks=True, ignore=shutil.ignore_patterns('.git', '*.pyc', 'camb', 'data', 'CosmoRec*'))
        os.environ['VERIF_REPO'] = d + '/r'
        from sa.project import Project
        from sa.report import Report
        mods = [(pid, importlib.import_module('checks.' + pid.lower())) for pid in pids]
        for where, t, seed in muts:
            new = apply(src, where, t, seed)
            if new is None:
                continue
            open(os.path.join(d, 'r', path), 'w').write(new)
            for pid, m in mods:
                try:
                    r = Report(pid, 'quick', 1)
                    m.check(Project(d + '/r'), r)
                    bad = [o for o in r.obs if not o[2]]
                    if bad:
                        res.append((where, t, seed, pid, '%s | %s | %s' % (bad[0][0], bad[0][1], bad[0][3])))
                    few = [x for x, (_, mn) in getattr(r, 'rules', {}).items() if False]
                except BaseException as e:
                    res.append((where, t, seed, pid, 'ERROR %s: %s' % (type(e).__name__, str(e)[:100])))
            res.append(None)
    finally:
        shutil.rmtree(d)
    return res


def main():
    pids = OPT['pids'].split(',')
    only = OPT['only'].split(',') if 'only' in OPT else list(ALL)
    k = int(OPT.get('jobs', 6))
    jobs = []
    for path in PATHS:
        src = open(os.path.join(os.environ.get('MUT_REPO', '/repo'), path)).read()
        fns = []
        for x in ast.parse(src).body:
            if isinstance(x, ast.FunctionDef):
                fns.append(x.name)
            elif isinstance(x, ast.ClassDef):
                fns += [x.name + '.' + y.name for y in x.body if isinstance(y, ast.FunctionDef)]
        todo = [(f, t, int(OPT.get('seed', 1))) for f in fns if re.search(OPT.get('fn', ''), f) for t in only]
        todo = [x for x in todo if apply(src, *x)]
        size = max(1, min(15, len(todo) // k + 1))
        jobs += [(path, src, pids, todo[i:i + size]) for i in range(0, len(todo), size)]
    n = 0
    with ProcessPoolExecutor(k) as ex:
        for res in ex.map(work, jobs):
            for r in res:
                if r is None:
                    n += 1
                else:
                    print('%-38s %-4s %s %s %s' % (r[0], r[1], r[2], r[3], ' '.join(r[4].split())[:260]), flush=True)
    print(n, 'edits')


if __name__ == '__main__':
    main()
