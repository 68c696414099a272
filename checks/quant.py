"""boolean conditions with bounded quantifiers, compared for equivalence

A predicate (method returning a truth value, or the condition of an effect) is turned into a formula over atoms;
`any`, `all`, filtered comprehensions, early returns from loops and set intersections become one quantified atom
exists(collection, condition).  Two formulas are compared by case distinction over their atoms, under the given axioms.
"""
from .common import *

ANY = mk('builtin', 'any')
ALL = mk('builtin', 'all')


def exists(it, c):
    """canonical: some element of `it` satisfies c (c speaks about elem(it))"""
    el = mk('elem', it)
    c = norm(c)
    if c is FALSE:
        return FALSE
    if c.op == 'or':
        return disj([exists(it, x) for x in c.args])
    cs = list(c.args) if c.op == 'and' else [c]
    free = [x for x in cs if not contains(x, el)]
    dep = [x for x in cs if contains(x, el)]
    if not dep:
        r = truth(it)
    else:
        d = conj(dep)
        if d.op == 'cmp' and d.args[0] == 'in' and d.args[1] is el and not contains(d.args[2], el):
            o = d.args[2]
            a, b = sorted([it, o], key=lambda x: show(x, 9))
            r = mk('exists', a, mk('cmp', 'in', mk('elem', a), b))
        else:
            r = mk('exists', it, d)
    return conj(free + [r])


def parts(t):
    """[(condition, value, collection or None)] of a sequence, or None"""
    while t.op == 'call' and t.args[0] in (mk('builtin', 'list'), mk('builtin', 'set'), mk('builtin', 'tuple'), mk('builtin', 'sorted')) and len(t.args[1]) == 1:
        t = t.args[1][0]
    if t.op == 'star':
        t = t.args[0]
    if t.op in ('seq', 'setc', 'gen', 'tuple'):
        out = []
        for x in t.args:
            if x.op == 'rep':
                b, cs = x.args[0], []
                while b.op == 'opt':
                    cs.append(b.args[0])
                    b = b.args[1]
                out.append((conj(cs), b, x.args[1]))
            elif x.op == 'opt':
                out.append((x.args[0], x.args[1], None))
            elif x.op == 'star':
                p = parts(x.args[0])
                if p is None:
                    out.append((TRUE, mk('elem', x.args[0]), x.args[0]))
                else:
                    out += p
            else:
                out.append((TRUE, x, None))
        return out
    return None


def setof(t):
    """collection whose elements are those of set-like t"""
    while t.op == 'call' and t.args[0] in (mk('builtin', 'list'), mk('builtin', 'set'), mk('builtin', 'tuple'), mk('builtin', 'sorted'), mk('builtin', 'frozenset')) and len(t.args[1]) == 1:
        t = t.args[1][0]
    if t.op in ('setc', 'seq') and len(t.args) == 1:
        x = t.args[0]
        if x.op == 'star':
            return x.args[0]
        if x.op == 'rep' and x.args[0].op == 'elem' and x.args[0].args[0] is x.args[1]:
            return x.args[1]
    return t


_memo = {}


def norm(t):
    r = _memo.get(t)
    if r is None:
        r = _memo[t] = _norm(t)
    return r


def _norm(t):
    t = truth(t)
    if t.op == 'const':
        return t
    if t.op == 'and':
        return conj([norm(x) for x in t.args])
    if t.op == 'or':
        return disj([norm(x) for x in t.args])
    if t.op == 'not':
        return neg(norm(t.args[0]))
    if t.op == 'ite':
        c, a, b = [norm(x) for x in t.args]
        return disj([conj([c, a]), conj([neg(c), b])])
    if t.op in ('any', 'all') or t.op == 'call' and t.args[0] in (ANY, ALL) and len(t.args[1]) == 1:
        p = parts(t.args[0] if t.op in ('any', 'all') else t.args[1][0])
        if p is not None:
            pos = t.op == 'any' or t.args[0] is ANY
            out = []
            for c, v, it in p:
                x = conj([norm(c), norm(v) if pos else neg(norm(v))])
                out.append(x if it is None else exists(it, x))
            return disj(out) if pos else neg(disj(out))
    if t.op in ('seq', 'setc') and t.args:
        p = parts(t)
        return disj([norm(c) if it is None else exists(it, c) for c, v, it in p])
    if t.op == 'cmp' and t.args[0] == 'in':
        # x in [f(e) for e in it if c]
        p = parts(t.args[2]) if t.args[2].op in ('seq', 'setc', 'call', 'tuple') else None
        if p and all(it is not None or True for _, _, it in p):
            out = []
            for c, v, it in p:
                e = compare('==', t.args[1], v)
                if it is not None and v is mk('elem', it):
                    if c is TRUE:
                        out.append(compare('in', t.args[1], it))
                        continue
                out.append(conj([c, e]) if it is None else exists(it, conj([c, e])))
            return disj(out)
    if t.op == 'meth' and t.args[1] in ('intersection', 'isdisjoint') and len(t.args[2]) == 1:
        a, b = setof(t.args[0]), setof(t.args[2][0])
        r = exists(a, compare('in', mk('elem', a), b))
        return r if t.args[1] == 'intersection' else neg(r)
    if t.op == 'meth' and t.args[1] in ('issubset', 'issuperset') and len(t.args[2]) == 1:
        a, b = setof(t.args[0]), setof(t.args[2][0])
        if t.args[1] == 'issuperset':
            a, b = b, a
        return neg(exists(a, neg(compare('in', mk('elem', a), b))))
    if t.op == 'bin' and t.args[0] == '&':
        a, b = setof(t.args[1]), setof(t.args[2])
        return exists(a, compare('in', mk('elem', a), b))
    if t.op == 'call' and t.args[0] is mk('builtin', 'bool') and len(t.args[1]) == 1:
        return norm(t.args[1][0])
    if t.op == 'cmp' and t.args[0] == '<' and any(x.op == 'bin' and x.args[0] in '+-' for x in t.args[1:]):
        return linear(t)
    return t


def linear(t):
    """a < b with sums written as (constant) < (sum of terms with signs)"""
    co = {}

    def add(x, s):
        if x.op == 'bin' and x.args[0] in ('+', '-'):
            add(x.args[1], s)
            add(x.args[2], s if x.args[0] == '+' else -s)
        elif is_const(x) and isinstance(cval(x), (int, float)):
            co[None] = co.get(None, 0) + s * cval(x)
        else:
            co[x] = co.get(x, 0) + s
    add(t.args[2], 1)
    add(t.args[1], -1)
    c = -co.pop(None, 0)
    ts = sorted([(x, k) for x, k in co.items() if k], key=lambda z: show(z[0], 9))
    if not ts:
        return t
    if len(ts) == 2 and c == 0 and sorted(k for _, k in ts) == [-1, 1]:
        p, n = [x for x, k in ts if k == 1][0], [x for x, k in ts if k == -1][0]
        return mk('cmp', '<', n, p)
    if len(ts) == 1 and ts[0][1] == 1:
        return mk('cmp', '<', const(c), ts[0][0])
    if len(ts) == 1 and ts[0][1] == -1:
        return mk('cmp', '<', ts[0][0], const(-c))
    return mk('cmp', '<', const(c), mk('sum', *[mk('tuple', x, const(k)) for x, k in ts]))


def loop_elems(facts):
    out = {}
    for x in facts:
        for y in walk(x):
            if y.op == 'elem':
                out.setdefault(y, y.args[0])
    return out


def returns_true(I, rets, bound=()):
    """formula: the function returns a true value.  `bound`: elems that are free (not quantified)"""
    taken = []  # early returns from loops
    res = []
    for st, v in rets:
        v = I.res(v, st)
        fs = [x for x in st.facts]
        els = [e for e in loop_elems(list(fs)) if e not in bound and any(contains(f, e) and free_in(f, e) for f in fs)]
        cond = conj([norm(f) for f in fs])
        here = conj([cond, norm(v)])
        for e in els:
            here = exists(e.args[0], here)
        res.append(conj([neg(x) for x in taken] + [here]))
        if els:
            q = cond
            for e in els:
                q = exists(e.args[0], q)
            taken.append(q)
    return disj(res)


def free_in(f, e):
    """e occurs in f outside a comprehension that binds it"""
    g = norm(f)
    return any(contains(a, e) and not (a.op == 'exists' and a.args[0] is e.args[0]) for a in logic.atoms(g, set()))


class Bdd(object):
    """reduced ordered decision diagrams over the atoms of a set of formulas"""

    def __init__(self, limit):
        self.order, self.nodes, self.memo, self.limit = {}, {}, {}, limit

    def var(self, a):
        i = self.order.setdefault(a, len(self.order))
        return self.node(i, True, False)

    def node(self, i, hi, lo):
        if hi is lo:
            return hi
        k = (i, id(hi), id(lo))
        n = self.nodes.get(k)
        if n is None:
            if len(self.nodes) > self.limit:
                raise AnalysisError('condition too large')
            n = self.nodes[k] = (i, hi, lo)
        return n

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if a is True and b is False:
            return c
        k = (id(c), id(a), id(b))
        r = self.memo.get(k)
        if r is not None:
            return r[0]
        i = min(x[0] for x in (c, a, b) if x is not True and x is not False)

        def cof(x, h):
            return x if x is True or x is False or x[0] != i else x[1 if h else 2]
        r = self.node(i, self.ite(cof(c, 1), cof(a, 1), cof(b, 1)), self.ite(cof(c, 0), cof(a, 0), cof(b, 0)))
        self.memo[k] = (r, c, a, b)
        return r

    def of(self, t, seen):
        r = seen.get(t)
        if r is not None:
            return r
        if t.op == 'const':
            r = bool(cval(t))
        elif t.op == 'not':
            r = self.ite(self.of(t.args[0], seen), False, True)
        elif t.op == 'and':
            r = True
            for x in t.args:
                r = self.ite(r, self.of(x, seen), False)
        elif t.op == 'or':
            r = False
            for x in t.args:
                r = self.ite(r, True, self.of(x, seen))
        else:
            r = self.var(t)
        seen[t] = r
        return r


def satisfiable(f, axioms=(), limit=400000):
    """an assignment (dict) making f and the axioms true, or None"""
    B = Bdd(limit)
    seen = {}
    r = B.of(f, seen)
    for x in axioms:
        if r is False:
            break
        r = B.ite(r, B.of(x, seen), False)
    if r is False:
        return None
    names = {i: a for a, i in B.order.items()}
    val = {}
    while r is not True:
        i, hi, lo = r
        val[names[i]] = lo is False or hi is not False
        r = hi if val[names[i]] else lo
    return val


def theory(*formulas):
    """axioms relating the atoms: none has no truth, members or elements"""
    ats = set()
    for f in formulas:
        logic.atoms(f, ats)
    out = []
    for a in ats:
        if a.op == 'cmp' and a.args[0] == 'is' and a.args[2] is NONE:
            x = a.args[1]
            for b in ats:
                if b is x or b.op == 'exists' and contains(b, x) and b.args[0] is x:
                    out.append(disj([neg(a), neg(b)]))
                if b.op == 'cmp' and b.args[0] == 'in' and b.args[2] is x:
                    out.append(disj([neg(a), neg(b)]))
        if a.op == 'exists':
            for x in [a.args[0]] + ([a.args[1].args[2]] if a.args[1].op == 'cmp' and a.args[1].args[0] == 'in' else []):
                if x in ats:
                    out.append(disj([neg(a), x]))
        if a.op == 'cmp' and a.args[0] == 'in' and a.args[2] in ats:
            out.append(disj([neg(a), a.args[2]]))
    # equal to two different constants
    eq = [a for a in ats if a.op == 'cmp' and a.args[0] == '==' and is_const(a.args[2])]
    for i, a in enumerate(eq):
        for b in eq[:i]:
            if a.args[1] is b.args[1] and a.args[2] is not b.args[2]:
                out.append(disj([neg(a), neg(b)]))
        if a.args[1] in ats:
            out.append(disj([neg(a), a.args[1]]) if cval(a.args[2]) else disj([neg(a), neg(a.args[1])]))
    return out


def differ(f, g, axioms=()):
    """None if f and g are equivalent, else a case [(atom, bool)] in which they differ"""
    f, g = norm(f), norm(g)
    ax = list(axioms) + theory(f, g, *axioms)
    for x, y in ((f, neg(g)), (g, neg(f))):
        r = satisfiable(conj([x, y]), ax)
        if r is not None:
            return r
    return None


PLAIN = {'sum', 'attr', 'param', 'self', 'elem', 'const', 'cmp', 'exists', 'item', 'not', 'and', 'or', 'builtin', 'ext', 'len', 'func', 'tuple', 'seq', 'cls', 'star', 'rep', 'opt', 'bin', 'concat', 'hasattr', 'isinstance', 'any', 'all'}


def opaque(f, known, calls=()):
    """atoms of f that are not in known and contain something the comparison does not understand"""
    out = []
    for a in logic.atoms(norm(f), set()):
        if a in known:
            continue
        for x in walk(a):
            if x.op in PLAIN:
                continue
            if x.op == 'call' and x.args[0].op in ('ext', 'builtin', 'func') and x.args[0].args[0] in calls:
                continue
            if x.op in ('meth', 'ask') and x.args[1] in calls:
                continue
            if any(contains(k, x) for k in known):
                continue
            out.append(a)
            break
    return out


def compare_conditions(rep, rule, what, got, want, loc, axioms=(), calls=()):
    """obligation: the two conditions agree in every case"""
    got, want = norm(got), norm(want)
    d = differ(got, want, axioms)
    if d is None:
        rep.ob(rule, what, True, '', loc)
        return
    known = logic.atoms(want, set())
    bad = opaque(got, known, calls)
    if bad:
        rep.note(rule, what, 'condition not understood: %s' % [show(x, 5) for x in bad][:3])
        return
    full = conj([got, neg(want)])
    over = satisfiable(full, list(axioms) + theory(got, want, *axioms)) is not None
    case = ', '.join('%s%s' % ('' if v else 'not ', show(a, 4)) for a, v in sorted(d.items(), key=lambda x: show(x[0], 4)) if a in known or a in logic.atoms(got, set()))
    rep.ob(rule, what, False, '%s where %s' % ('true' if over else 'false', case), loc)
