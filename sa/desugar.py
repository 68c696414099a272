"""Counting loops written with while are read as loops over a range; a function which only hands its arguments to a private helper is read as that helper."""
import ast
import copy


def stored(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add('.' + n.attr)
    return out


def used(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add('.' + n.attr)
    return out


def plain(e):
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.operator, ast.expr_context)) for x in ast.walk(e))


def counting(loop):
    """(name, bound) of `while i < n: ...; i += 1`"""
    t = loop.test
    if loop.orelse or not loop.body or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return None
    if isinstance(t.ops[0], ast.Lt):
        v, n = t.left, t.comparators[0]
    elif isinstance(t.ops[0], ast.Gt):
        v, n = t.comparators[0], t.left
    else:
        return None
    last = loop.body[-1]
    if not isinstance(v, ast.Name) or not plain(n):
        return None
    one = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == v.id and isinstance(last.value, ast.Constant) and last.value.value == 1
    if isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == v.id and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add):
        a, b = last.value.left, last.value.right
        one = any(isinstance(x, ast.Name) and x.id == v.id and isinstance(y, ast.Constant) and y.value == 1 for x, y in ((a, b), (b, a)))
    if not one:
        return None
    body = ast.Module(loop.body[:-1], [])
    changed = stored(body)
    if v.id in changed or used(n) & changed or v.id in used(n):
        return None
    todo = list(loop.body)
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Continue):
            return None
        if not isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            todo += list(ast.iter_child_nodes(x))
    return v.id, n


def rewrite(fn):
    for holder in ast.walk(fn):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(holder, field, None)
            if not isinstance(b, list):
                continue
            for i, s in enumerate(b):
                if not isinstance(s, ast.While):
                    continue
                c = counting(s)
                if c is None:
                    continue
                v, n = c
                start = None
                for k in range(i - 1, -1, -1):
                    p = b[k]
                    if v in stored(p):
                        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and isinstance(p.value, ast.Constant) and isinstance(p.value.value, int):
                            start = p.value
                        break
                if start is None:
                    continue
                inside = {id(x) for x in ast.walk(s)}
                end = getattr(s, 'end_lineno', s.lineno)
                if any(isinstance(x, ast.Name) and x.id == v and id(x) not in inside and (isinstance(x.ctx, ast.Load) or x.lineno > end) for x in ast.walk(fn)):
                    continue
                args = [n] if start.value == 0 else [start, n]
                f = ast.For(ast.Name(v, ast.Store()), ast.Call(ast.Name('range', ast.Load()), args, []), s.body[:-1] or [ast.Pass()], [], None)
                ast.copy_location(f, s)
                for x in (f.target, f.iter, f.iter.func):
                    ast.copy_location(x, s.test)
                for x in f.body:
                    if isinstance(x, ast.Pass) and not hasattr(x, 'lineno'):
                        ast.copy_location(x, s)
                b[i] = f


def content(fn):
    """statements which do something"""
    out = []
    for s in fn.body:
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        out.append(s)
    return out


def delegated(fn, helpers, methods):
    """(helper, {its parameter: name here}) if all the function does is call a private helper with its own arguments"""
    b = content(fn)
    if len(b) != 1 or not isinstance(b[0], (ast.Return, ast.Expr)) or not isinstance(b[0].value, ast.Call):
        return None
    c = b[0].value
    a = fn.args
    if a.vararg or a.kwarg or fn.decorator_list:
        return None
    own = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    given = list(c.args)
    if isinstance(c.func, ast.Name) and c.func.id not in own:
        h = helpers.get(c.func.id)
    elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and own[:1] == [c.func.value.id]:
        h = methods.get(c.func.attr)
        given = [c.func.value] + given
    else:
        return None
    if h is None or h is fn or not h.name.startswith('_') or h.name.startswith('__') or h.decorator_list:
        return None
    ha = h.args
    if ha.vararg or ha.kwarg or ha.kwonlyargs or ha.posonlyargs or any(k.arg is None for k in c.keywords):
        return None
    names = [x.arg for x in ha.args]
    if len(given) > len(names):
        return None
    to = dict(zip(names, given))
    for k in c.keywords:
        if k.arg in to or k.arg not in names:
            return None
        to[k.arg] = k.value
    if set(to) != set(names) or not all(isinstance(v, ast.Name) and v.id in own for v in to.values()) or len({v.id for v in to.values()}) != len(to):
        return None
    to = {k: v.id for k, v in to.items()}
    inner = [x for x in ast.walk(h) if x is not h]
    if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.Lambda, ast.FunctionDef, ast.ClassDef)) for x in inner if to != {k: k for k in to}):
        return None
    if any(isinstance(x, ast.Name) and x.id == 'super' for x in inner):
        return None
    if any(isinstance(x, ast.Name) and x.id == h.name or isinstance(x, ast.Attribute) and x.attr == h.name for x in inner):
        return None
    others = {x.id for x in inner if isinstance(x, ast.Name)} - set(to)
    if others & set(own):
        return None
    if isinstance(b[0], ast.Expr) and any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)) and x.value is not None for x in inner):
        return None
    return h, to


class Rename(ast.NodeTransformer):
    def __init__(self, to):
        self.to = to

    def visit_Name(self, n):
        n.id = self.to.get(n.id, n.id)
        return n


def delegate(tree):
    count = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            count[n.name] = count.get(n.name, 0) + 1
    helpers = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef) and count[n.name] == 1}
    scopes = [(tree, {})] + [(c, {n.name: n for n in c.body if isinstance(n, ast.FunctionDef) and count[n.name] == 1}) for c in tree.body if isinstance(c, ast.ClassDef)]
    for scope, methods in scopes:
        for fn in scope.body:
            if isinstance(fn, ast.FunctionDef):
                d = delegated(fn, helpers, methods)
                if d is not None:
                    h, to = d
                    doc = fn.body[:1] if ast.get_docstring(fn) is not None else []
                    new = [Rename(to).visit(copy.deepcopy(s)) for s in h.body]
                    fn.body = doc + new


def desugar(tree):
    delegate(tree)
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            rewrite(n)
    return tree
