"""helpers shared by the rules"""
import ast
from sa.terms import *
from sa import logic
from sa.interp import Interp, policy, State, vocabulary
from sa.project import AnalysisError
from sa.alias import roots, root_terms, is_fancy


def methods_of(p, c):
    """name -> Func for all methods visible on class c (most derived first)"""
    return p.all_methods(c)


def self_calls(func, selfname=None):
    """names x of calls self.x(...) / super().x(...) in func (syntactic)"""
    out = set()
    args = func.node.args.args
    me = selfname or (args[0].arg if args else None)
    for n in ast.walk(func.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
            out.add(n.attr)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'super':
            out.add(n.attr)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id[:1].isupper():
            out.add(n.attr)
    return out


def attr_writes(func):
    """names of attributes written (any base, incl. item stores and aug-assignments) in func"""
    out = set()

    def base(t):
        while isinstance(t, (ast.Subscript,)):
            t = t.value
        if isinstance(t, ast.Attribute):
            out.add(t.attr)
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                base(e)

    for n in ast.walk(func.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                base(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            base(n.target)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                base(t)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3:
            if isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    return out


def transitive_writers(p, cls, attrs):
    """qualified names of methods visible from cls (whole MRO) that may write one of attrs through self-calls"""
    fs = []
    for k in p.mro(cls):
        fs += list(k.methods.values())
    byname = {}
    for f in fs:
        byname.setdefault(f.name, []).append(f)
    w = {f.qual for f in fs if attr_writes(f) & set(attrs)}
    changed = True
    calls = {f.qual: self_calls(f) for f in fs}
    while changed:
        changed = False
        for f in fs:
            if f.qual in w:
                continue
            if any(g.qual in w for nm in calls[f.qual] for g in byname.get(nm, ())):
                w.add(f.qual)
                changed = True
    return w


def view_chain(t):
    """all terms passed through when following t to what it may alias"""
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in out:
            continue
        out.add(x)
        if x.op == 'ite':
            stack += [x.args[1], x.args[2]]
        elif x.op == 'loop':
            stack += [x.args[2], x.args[3]]
        elif x.op == 'lv':
            stack.append(x.args[2])
        elif x.op == 'item':
            if not is_fancy(x.args[1]):
                stack.append(x.args[0])
        elif x.op == 'elem':
            stack.append(x.args[0])
        elif x.op == 'attr' and x.args[1] in ('T', 'flat', 'real', 'imag'):
            stack.append(x.args[0])
        elif x.op == 'meth' and x.args[1] in ('reshape', 'ravel', 'view', 'transpose', 'squeeze', 'swapaxes'):
            stack.append(x.args[0])
        elif x.op == 'call' and x.args[0].op in ('ext', 'builtin') and x.args[1] and \
                x.args[0].args[0] in ('numpy.asarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.ascontiguousarray',
                                      'numpy.asanyarray', 'numpy.ravel', 'numpy.transpose', 'numpy.reshape', 'numpy.squeeze'):
            stack.append(x.args[1][0])
    return out


ARRAY_MUTATORS = {'sort', 'fill', 'put', 'resize', 'partition', 'itemset', 'setfield', 'byteswap', 'append', 'extend', 'insert', 'pop',
                  'remove', 'clear', 'update', 'setdefault', 'reverse', 'add', 'discard', 'popitem', 'difference_update',
                  'intersection_update'}
EXT_MUTATORS = {'numpy.put': 0, 'numpy.copyto': 0, 'numpy.fill_diagonal': 0, 'numpy.place': 0, 'numpy.putmask': 0,
                'numpy.random.shuffle': 0, 'random.shuffle': 0, 'numpy.add.at': 0, 'numpy.multiply.at': 0, 'numpy.subtract.at': 0}


def mutated_terms(ev):
    """terms denoting objects mutated in place by an event"""
    if ev.kind == 'setitem' or ev.kind == 'delitem':
        return [ev.base]
    if ev.kind == 'inplace':
        return [ev.base]
    if ev.kind == 'meth' and ev.name in ARRAY_MUTATORS:
        return [ev.base]
    if ev.kind == 'meth' and ev.name == 'shuffle' and ev.args:
        return [ev.args[0]]
    out = []
    if ev.kind in ('call', 'meth'):
        for k, v in ev.kwargs or ():
            if k == 'out':
                out.append(v)
        if ev.kind == 'call' and ev.fn.op == 'ext' and ev.fn.args[0] in EXT_MUTATORS and ev.args:
            out.append(ev.args[EXT_MUTATORS[ev.fn.args[0]]])
    return out


def alts(t, facts=frozenset(), limit=400):
    """(facts, leaf) for every feasible branch of a gated value; facts include the given ones"""
    out = []
    stack = [(frozenset(facts), t)]
    while stack:
        fs, x = stack.pop()
        if x.op != 'ite' or len(out) > limit:
            out.append((fs, x))
            continue
        c = x.args[0]
        d = logic.decide(c, fs) if fs else None
        if d is not True:
            stack.append((extend(fs, neg(c)), x.args[2]))
        if d is not False:
            stack.append((extend(fs, c), x.args[1]))
    return [(fs, x) for fs, x in out if not logic.contradictory(fs)]


def extend(fs, c):
    out = set(fs)
    todo = [c]
    while todo:
        x = todo.pop()
        if x.op == 'and':
            todo.extend(x.args)
        else:
            out.add(x)
    return frozenset(out)


def extremum(v):
    """('max'|'min', value term, [conditions]) for max(<over a sequence>) or a loop keeping the largest/smallest value seen"""
    if v.op == 'ite':  # max(x) if x else default
        a, b = extremum(v.args[1]), extremum(v.args[2])
        if (a is None) == (b is None):
            return None
        return a or b
    if v.op == 'call' and v.args[0].op in ('builtin', 'ext') and v.args[0].args[0] in ('max', 'min', 'numpy.max', 'numpy.min', 'numpy.amax', 'numpy.amin') and v.args[1]:
        kind = 'max' if 'max' in v.args[0].args[0] else 'min'
        reps = [x for x in walk(v.args[1][0]) if x.op == 'rep']
        if len(reps) == 1:
            b = reps[0].args[0]
            conds = []
            while b.op == 'opt':
                conds.append(b.args[0])
                b = b.args[1]
            return kind, b, conds
        if len(v.args[1]) == 1 and not reps:
            return kind, mk('elem', v.args[1][0]), []
        return None
    if v.op == 'loop':
        body = v.args[3]
        conds, kind, val = [], None, None
        islv = lambda x: x.op == 'lv'
        while body.op == 'ite':
            c, a, b = body.args
            if islv(b) and (not islv(a)):
                keep, c2, nxt = b, c, a
            elif islv(a) and not islv(b):
                keep, c2, nxt = a, neg(c), b
            else:
                return None
            if c2.op == 'cmp' and c2.args[0] in ('<', '<='):
                if c2.args[1] is keep and c2.args[2] is nxt:
                    return 'max', nxt, conds
                if c2.args[2] is keep and c2.args[1] is nxt:
                    return 'min', nxt, conds
            conds.append(c2)
            body = nxt
        if body.op == 'call' and body.args[0].op == 'builtin' and body.args[0].args[0] in ('max', 'min') and len(body.args[1]) == 2:
            a, b = body.args[1]
            if islv(a) != islv(b):
                return body.args[0].args[0], b if islv(a) else a, conds
    return None


def assume(t, facts):
    """t with every choice inside it that the facts decide taken"""
    for _ in range(20):
        m = {}
        for x in walk(t):
            if x.op == 'ite':
                d = logic.decide(x.args[0], frozenset(facts))
                if d is not None:
                    m[x] = x.args[1] if d else x.args[2]
        if not m:
            return t
        t = subst(t, m)
    return t
