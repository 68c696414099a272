"""Guard reasoning: does a set of facts (conjunction of terms) imply a goal?

Purely propositional over opaque atoms with a little theory for None/constant tests;
no path is handed to a solver, this is the boolean part of a control-dependence analysis.
"""
from .terms import *
from .terms import _K, _map


def atoms(t, out):
    if t.op in ('and', 'or'):
        for a in t.args:
            atoms(a, out)
    elif t.op == 'not':
        atoms(t.args[0], out)
    elif t.op == 'ite' and False:
        pass
    elif t.op == 'const':
        pass
    else:
        out.add(t)
    return out


def evalb(t, val):
    if t.op == 'const':
        return bool(cval(t))
    if t.op == 'not':
        r = evalb(t.args[0], val)
        return None if r is None else (not r)
    if t.op == 'and':
        r = True
        for a in t.args:
            v = evalb(a, val)
            if v is False:
                return False
            if v is None:
                r = None
        return r
    if t.op == 'or':
        r = False
        for a in t.args:
            v = evalb(a, val)
            if v is True:
                return True
            if v is None:
                r = None
        return r
    return val.get(t)


def base_assign(facts):
    val = {}
    todo = list(facts)
    ors = []
    while todo:
        f = todo.pop()
        if f.op == 'and':
            todo.extend(f.args)
        elif f.op == 'not':
            val[f.args[0]] = False
        elif f.op == 'or':
            ors.append(f)
        elif f.op == 'const':
            pass
        else:
            val[f] = True
    close(val)
    return val, ors


def close(val):
    """small theory: truthiness vs None, equality with distinct constants"""
    for a in [x for x in val if x != 'eqs']:
        v = val[a]
        if a.op == 'cmp':
            op, x, y = a.args
            if op == 'is' and y is NONE:
                if v:
                    val.setdefault(x, False)
            elif op == '==' and is_const(y) and v:
                c = cval(y)
                val.setdefault(x, bool(c))
                if c is not None:
                    val.setdefault(mk('cmp', 'is', x, NONE), False)
        elif v is True:
            val.setdefault(mk('cmp', 'is', a, NONE), False)
    # x == c1 true => x == c2 false
    eqs = [(a.args[1], a.args[2]) for a, v in val.items() if a != 'eqs' and v and a.op == 'cmp' and a.args[0] == '==' and is_const(a.args[2])]
    val['eqs'] = eqs


class Assign(dict):
    def get(self, t, d=None):
        if t in self:
            return dict.get(self, t)
        if isinstance(t, Term) and t.op == 'cmp' and t.args[0] == '==' and is_const(t.args[2]):
            for x, c in dict.get(self, 'eqs', ()):
                if x is t.args[1] and c is not t.args[2]:
                    return False
            if dict.get(self, mk('cmp', 'is', t.args[1], NONE)) and cval(t.args[2]) is not None:
                return False
            if dict.get(self, t.args[1]) is False and truth(t.args[2]) is TRUE:
                return False
        if isinstance(t, Term) and t.op == 'cmp' and t.args[0] == 'is' and t.args[2] is NONE:
            for x, c in dict.get(self, 'eqs', ()):
                if x is t.args[1] and c is not NONE:
                    return False
        return d


def propagate(val, ors):
    changed = True
    while changed:
        changed = False
        for o in list(ors):
            r = evalb(o, val)
            if r is True:
                ors.remove(o)
                changed = True
                continue
            if r is False:
                return False
            undec = [a for a in o.args if evalb(a, val) is None]
            if len(undec) == 1:
                ors.remove(o)
                changed = True
                todo = [undec[0]]
                while todo:
                    f = todo.pop()
                    if f.op == 'and':
                        todo.extend(f.args)
                    elif f.op == 'not':
                        if val.get(f.args[0]) is True:
                            return False
                        val[f.args[0]] = False
                    elif f.op == 'or':
                        ors.append(f)
                    elif f.op != 'const':
                        if val.get(f) is False:
                            return False
                        val[f] = True
                close(val)
    return True


def decide(t, facts):
    """True/False if facts decide t, else None"""
    val, ors = base_assign(facts)
    val = Assign(val)
    if not propagate(val, ors):
        return True  # contradictory facts: unreachable
    return _decide(t, val, ors, 6)


def _decide(t, val, ors, depth):
    r = evalb(t, val)
    if r is not None:
        return r
    if depth == 0 or not ors:
        if t.op == 'cmp' or t.op not in ('and', 'or', 'not'):
            return None
        return _split(t, val, depth)
    o = ors[0]
    res = set()
    for alt in o.args:
        v2 = Assign(val)
        o2 = list(ors[1:])
        todo = [alt]
        bad = False
        while todo:
            f = todo.pop()
            if f.op == 'and':
                todo.extend(f.args)
            elif f.op == 'not':
                if v2.get(f.args[0]) is True:
                    bad = True
                v2[f.args[0]] = False
            elif f.op == 'or':
                o2.append(f)
            elif f.op != 'const':
                if v2.get(f) is False:
                    bad = True
                v2[f] = True
        if bad:
            continue
        close(v2)
        if not propagate(v2, o2):
            continue
        res.add(_decide(t, v2, o2, depth - 1))
        if len(res) > 1 or None in res:
            return None
    if not res:
        return True
    return res.pop()


def _split(t, val, depth):
    ats = [a for a in atoms(t, set()) if val.get(a) is None]
    if not ats or len(ats) > 10:
        return None
    res = set()
    for bits in range(1 << len(ats)):
        v2 = Assign(val)
        for i, a in enumerate(ats):
            v2[a] = bool(bits >> i & 1)
        res.add(evalb(t, v2))
        if len(res) > 1:
            return None
    return res.pop()


def implies(facts, goal):
    return decide(goal, facts) is True


def contradictory(facts):
    val, ors = base_assign(facts)
    pos = {}
    for f in facts:
        if neg(f) in facts:
            return True
    val = Assign(val)
    return not propagate(val, ors)


def under(t, facts, memo=None, val=None):
    """simplify a term using facts (prune ite branches that the facts exclude)"""
    if val is None:
        v, ors = base_assign(facts)
        v = Assign(v)
        if not propagate(v, ors):
            return t
        val = v
        memo = {}
    if t in memo:
        return memo[t]
    r = t
    if t.op == 'ite':
        d = evalb(t.args[0], val)
        if d is True:
            r = under(t.args[1], facts, memo, val)
        elif d is False:
            r = under(t.args[2], facts, memo, val)
        else:
            r = ite(under(t.args[0], facts, memo, val), under(t.args[1], facts, memo, val), under(t.args[2], facts, memo, val))
    elif t.args and t.op not in ('const',):
        new = _map(t.args, lambda a: under(a, facts, memo, val))
        if new != t.args:
            r = rebuild(t.op, new)
    memo[t] = r
    return r
