"""Which objects may a term alias?  (may-alias by value-flow: views, elements, pass-through calls)"""
from .terms import *

VIEW_METHODS = {'reshape', 'ravel', 'view', 'transpose', 'squeeze', 'swapaxes', 'diagonal'}
PASS_CALLS = {'numpy.asarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.ascontiguousarray', 'numpy.asanyarray',
              'numpy.ravel', 'numpy.transpose', 'numpy.reshape', 'numpy.squeeze', 'numpy.asfortranarray', 'numpy.diag',
              'numpy.swapaxes', 'numpy.broadcast_to', 'iter', 'reversed'}
FANCY_OPS = {'seq', 'cmp', 'not', 'and', 'or', 'setc'}


def is_fancy(i):
    """index expression that makes numpy copy"""
    if i.op == 'tuple':
        return any(is_fancy(x) for x in i.args)
    if i.op in FANCY_OPS:
        return True
    if i.op == 'call' and i.args[0].op == 'ext' and i.args[0].args[0].split('.')[-1] in (
            'where', 'nonzero', 'ix_', 'argsort', 'unique', 'arange', 'array', 'logical_and', 'logical_or', 'invert'):
        return True
    if i.op == 'item':
        return is_fancy(i.args[0])
    if i.op == 'meth' and i.args[1] in ('argsort', 'nonzero', 'astype'):
        return True
    if i.op == 'un' or i.op == 'inv':
        return True
    if i.op == 'bin' and (is_fancy(i.args[1]) or is_fancy(i.args[2])):
        return True
    return False


def roots(t, depth=0, seen=None):
    """set of (root term, depth) this term may alias; depth>0 when it is an element/view of the root"""
    out = set()
    stack = [(t, 0)]
    seen = set()
    while stack:
        x, d = stack.pop()
        if (x, d) in seen:
            continue
        seen.add((x, d))
        op = x.op
        if op in ('param', 'attr', 'clsattr', 'default', 'global', 'glob', 'missing'):
            if op == 'attr' and x.args[1] in ('T', 'values', 'flat', 'real', 'imag'):
                stack.append((x.args[0], d))
            else:
                out.add((x, d))
        elif op == 'ite':
            stack.append((x.args[1], d))
            stack.append((x.args[2], d))
        elif op == 'loop':
            stack.append((x.args[2], d))
            stack.append((x.args[3], d))
        elif op == 'lv':
            stack.append((x.args[2], d))
        elif op == 'item':
            if not is_fancy(x.args[1]):
                stack.append((x.args[0], d + 1))
        elif op == 'elem':
            stack.append((x.args[0], d + 1))
        elif op == 'meth':
            if x.args[1] in VIEW_METHODS:
                stack.append((x.args[0], d + 1))
            elif x.args[1] in ('get', 'setdefault') and x.args[2]:
                stack.append((x.args[0], d + 1))
                for a in x.args[2][1:]:
                    stack.append((a, d))
            elif x.args[1] in ('values', 'items', 'keys'):
                stack.append((x.args[0], d))
        elif op == 'call':
            f = x.args[0]
            if f.op in ('ext', 'builtin') and f.args[0] in PASS_CALLS and x.args[1]:
                stack.append((x.args[1][0], d + 1))
        elif op in ('bool', 'orv', 'andv'):
            for a in x.args:
                if isinstance(a, Term):
                    stack.append((a, d))
        elif op in ('zip', 'enum'):
            for a in x.args:
                stack.append((a, d))
    return out


def root_terms(t):
    return {r for r, d in roots(t)}
