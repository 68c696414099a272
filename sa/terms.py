"""Hash-consed terms: the abstract value domain of the data-flow engine.

A term denotes the *value* an expression had when it was evaluated, expressed over the
values available on entry (parameters, attributes, results of external calls).  Terms are
normalised so that syntactic variants (temporaries, inverted conditions, % versus + string
building, a loop that appends versus a comprehension) map to the same term.
"""

_table = {}


def _anyalloc(args):
    for a in args:
        if isinstance(a, Term):
            if a._free:
                return True
        elif isinstance(a, tuple) and _anyalloc(a):
            return True
    return False


class Term(object):
    __slots__ = ('op', 'args', '_h', '_free', 'uid', '_bs', '_neg')
    _n = 0

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._h = hash((op, args))
        self._free = op == 'alloc' or _anyalloc(args)
        self._bs = None
        self._neg = None
        Term._n += 1
        self.uid = Term._n

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.uid < other.uid


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = Term(op, args)
        _table[key] = t
    return t


class _K(object):
    """wrapper giving constants a type-aware identity (1, True and 1.0 differ)"""
    __slots__ = ('v', 't')

    def __init__(self, v):
        self.v = v
        self.t = type(v).__name__

    def __hash__(self):
        return hash((self.t, self.v))

    def __eq__(self, o):
        return isinstance(o, _K) and self.t == o.t and self.v == o.v

    def __repr__(self):
        return repr(self.v)


def const(v):
    return mk('const', _K(v))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0].v


def cstr(t):
    """the python string if t is a constant string, else None"""
    if t.op == 'const' and isinstance(t.args[0].v, str):
        return t.args[0].v
    return None


def walk(t, seen=None):
    """all distinct subterms"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, Term):
                if a not in seen:
                    stack.append(a)
            elif isinstance(a, tuple):
                _push(a, stack)


def _push(tup, stack):
    for b in tup:
        if isinstance(b, Term):
            stack.append(b)
        elif isinstance(b, tuple):
            _push(b, stack)


def _map(a, f):
    if isinstance(a, Term):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map(x, f) for x in a)
    return a


def contains(t, sub):
    return any(x is sub for x in walk(t))


def any_sub(t, pred):
    return any(pred(x) for x in walk(t))


def subst(t, mapping, memo=None):
    if memo is None:
        memo = {}
    if t in mapping:
        return mapping[t]
    if t in memo:
        return memo[t]
    if not t.args:
        return t
    new = _map(t.args, lambda a: subst(a, mapping, memo))
    r = rebuild(t.op, new) if new != t.args else t
    memo[t] = r
    return r


def rebuild(op, args):
    if op == 'ite':
        return ite(*args)
    if op == 'not':
        return neg(args[0])
    if op == 'and':
        return conj(args)
    if op == 'or':
        return disj(args)
    if op == 'concat':
        return concat(args)
    return mk(op, *args)


def show(t, depth=6):
    if not isinstance(t, Term):
        return repr(t)
    if depth <= 0:
        return '...'
    d = depth - 1
    a = t.args
    s = lambda x: show(x, d)
    if t.op == 'const':
        return repr(cval(t))
    if t.op == 'param':
        return str(a[-1])
    if t.op == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if t.op == 'item':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if t.op == 'slice':
        return ':'.join('' if x is NONE else s(x) for x in a)
    if t.op == 'self':
        return 'self'
    if t.op == 'ite':
        return '(%s if %s else %s)' % (s(a[1]), s(a[0]), s(a[2]))
    if t.op == 'cmp':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if t.op == 'bin':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if t.op == 'not':
        return 'not ' + s(a[0])
    if t.op in ('and', 'or'):
        return '(' + (' %s ' % t.op).join(s(x) for x in a) + ')'
    if t.op == 'call':
        return '%s(%s)' % (s(a[0]), ', '.join([s(x) for x in a[1]] + ['%s=%s' % (k, s(v)) for k, v in a[2]]))
    if t.op == 'meth':
        return '%s.%s(%s)' % (s(a[0]), a[1], ', '.join([s(x) for x in a[2]] + ['%s=%s' % (k, s(v)) for k, v in a[3]]))
    if t.op in ('ext', 'func', 'cls', 'mod', 'builtin'):
        return str(a[0])
    return '%s(%s)' % (t.op, ', '.join(s(x) for x in a))


# ---------------------------------------------------------------- booleans

_NEGCMP = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '==',
           'is': 'isnot', 'isnot': 'is', 'in': 'notin', 'notin': 'in'}
_SWAP = {'>': '<', '>=': '<='}


_NAMED = ('builtin', 'cls', 'ext', 'func')


def member(a, b):
    """membership in a collection whose contents are known, or None"""
    if b.op in ('seq', 'setc', 'tuple', 'dictc') and 0 < len(b.args) <= 6:
        out = []
        for x in b.args:
            if x.op == 'star':
                out.append(compare('in', a, x.args[0]))
            elif x.op == 'rep' and b.op != 'dictc' and x.args[0].op == 'elem' and x.args[0].args == (x.args[1],):
                out.append(compare('in', a, x.args[1]))
            elif b.op == 'dictc' and x.op == 'rep' and x.args[0].op == 'kv' and x.args[0].args[0].op == 'elem' and x.args[0].args[0].args == (x.args[1],):
                out.append(compare('in', a, x.args[1]))
            elif b.op == 'dictc' and x.op == 'kv':
                out.append(compare('==', a, x.args[0]))
            elif b.op != 'dictc' and x.op not in ('rep', 'opt', 'lvrest', 'upd', 'delk', 'kv'):
                out.append(compare('==', a, x))
            else:
                return None
        return disj(out)
    return None


def compare(op, a, b):
    if is_const(a) and is_const(b):
        try:
            x, y = cval(a), cval(b)
            if op == '==':
                return const(x == y)
            if op == '!=':
                return const(x != y)
            if op == 'is' and (x is None or y is None):
                return const(x is y)
            if op == 'isnot' and (x is None or y is None):
                return const(x is not y)
            if op == '<':
                return const(x < y)
            if op == '<=':
                return const(x <= y)
            if op == '>':
                return const(x > y)
            if op == '>=':
                return const(x >= y)
            if op == 'in':
                return const(x in y)
            if op == 'notin':
                return const(x not in y)
        except TypeError:
            pass
    if op in ('==', 'is') and a is b:
        return TRUE
    if op in ('!=', 'isnot') and a is b:
        return FALSE
    if op in ('==', 'is', '!=', 'isnot') and a.op in _NAMED and b.op in _NAMED and (a.op == 'builtin' or b.op == 'builtin' or 'cls' in (a.op, b.op)):
        return const(op in ('!=', 'isnot'))
    # a freshly allocated / literal object is never None
    if op in ('is', 'isnot') and (a is NONE or b is NONE):
        o = b if a is NONE else a
        if definitely_not_none(o):
            return const(op == 'isnot')
        if o.op == 'ite':
            return bool_ite(o.args[0], compare(op, o.args[1], NONE), compare(op, o.args[2], NONE))
        a, b = o, NONE
        if op == 'isnot':
            return neg(mk('cmp', 'is', a, NONE))
        return mk('cmp', 'is', a, NONE)
    if op in ('==', '!='):
        if is_const(a) and not is_const(b):
            a, b = b, a
        if b is TRUE or b is FALSE:
            pass
        if a.op == 'ite' and is_const(b):
            return bool_ite(a.args[0], compare(op, a.args[1], b), compare(op, a.args[2], b))
        # len(x) == 0
        if a.op == 'len' and b is const(0):
            r = neg(a.args[0])
            return r if op == '==' else neg(r)
        if not is_const(b) and b < a:
            a, b = b, a
        r = mk('cmp', '==', a, b)
        return r if op == '==' else neg(r)
    if op == 'isnot':
        return neg(compare('is', a, b))
    if op == 'notin':
        return neg(compare('in', a, b))
    if op == 'in' and b.op in ('tuple', 'seq') and len(b.args) == 1 and b.args[0].op not in ('rep', 'opt', 'star'):
        return compare('==', a, b.args[0])
    if op == 'in':
        r = member(a, b)
        if r is not None:
            return r
    if op in ('>', '>='):
        return compare(_SWAP[op], b, a)
    if op == '<=':
        # a <= b  ==  not (b < a)
        if a is const(1) and b.op == 'len':
            return b.args[0]
        return neg(compare('<', b, a))
    if op == '<':
        if a is const(0) and b.op == 'len':
            return b.args[0]
        if a.op == 'len' and b is const(1):
            return neg(a.args[0])
    return mk('cmp', op, a, b)


def definitely_not_none(o):
    if o.op == 'const':
        return cval(o) is not None
    if o.op == 'call' and o.args[0].op == 'ext' and o.args[0].args[0].split('.')[0] == 'numpy':
        return True
    if o.op == 'meth' and o.args[1] in ('transpose', 'reshape', 'copy', 'dot', 'astype', 'split', 'strip', 'replace', 'ravel', 'sum',
                                        'cumsum', 'lower', 'upper'):
        return True
    return o.op in ('new', 'seq', 'tuple', 'dictc', 'setc', 'alloc', 'concat', 'bin', 'func', 'cls', 'mod', 'closure', 'builtin',
                    'bound', 'self', 'len', 'fmt', 'lambda')


def bsize(t):
    """number of literals of a boolean formula (tree size)"""
    if t.op in ('and', 'or', 'not'):
        if t._bs is None:
            t._bs = sum(bsize(a) for a in t.args)
        return t._bs
    if t.op == 'ite':
        if t._bs is None:
            t._bs = sum(bsize(a) for a in t.args)
        return t._bs
    return 1


def neg(t):
    r = t._neg
    if r is None:
        r = t._neg = _neg(t)
    return r


def gate(t, limit=16):
    """condition usable as a merge gate: very large formulas become one opaque atom"""
    if bsize(t) > limit:
        return mk('gate', t.uid)
    return t


def _neg(t):
    if t.op == 'not':
        return t.args[0]
    if t.op == 'const':
        try:
            return const(not cval(t))
        except Exception:
            return mk('not', t)
    if t.op == 'and':
        return disj([neg(x) for x in t.args])
    if t.op == 'or':
        return conj([neg(x) for x in t.args])
    if t.op == 'ite':
        return ite(t.args[0], neg(t.args[1]), neg(t.args[2]))
    return mk('not', t)


def truth(t):
    """boolean reading of a value (used in a condition position)"""
    if t.op == 'const':
        try:
            return const(bool(cval(t)))
        except Exception:
            return t
    if t.op == 'len':
        return truth(t.args[0])
    if t.op in ('new', 'func', 'cls', 'mod', 'closure', 'bound', 'self', 'lambda'):
        return TRUE
    if t.op in ('tuple', 'seq', 'setc', 'dictc'):
        if not t.args:
            return FALSE
        if any(x.op not in ('rep', 'opt', 'star', 'upd', 'lvrest', 'delk') for x in t.args):
            return TRUE
        return t
    if t.op == 'ite':
        c, a, b = t.args
        a, b = truth(a), truth(b)
        return bool_ite(c, a, b)
    if t.op == 'call' and t.args[0].op == 'builtin' and t.args[0].args[0] == 'bool' and len(t.args[1]) == 1:
        return truth(t.args[1][0])
    if t.op == 'bin' and t.args[0] in ('%', '//', '-') and not (t.args[0] == '%' and t.args[1].op in ('const', 'concat', 'fmt')):
        return neg(compare('==', t, const(0)))
    return t


def bool_ite(c, a, b):
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    if a is TRUE:
        return disj([c, b])
    if a is FALSE:
        return conj([neg(c), b])
    if b is TRUE:
        return disj([neg(c), a])
    if b is FALSE:
        return conj([c, a])
    if a is c:
        return disj([c, b])
    if b is c:
        return conj([c, a])
    return disj([conj([c, a]), conj([neg(c), b])])


_cmemo = {}


def conj(ts):
    k = ('and',) + tuple(ts)
    r = _cmemo.get(k)
    if r is None:
        r = _cmemo[k] = _conj(k[1:])
    return r


def disj(ts):
    k = ('or',) + tuple(ts)
    r = _cmemo.get(k)
    if r is None:
        r = _cmemo[k] = _disj(k[1:])
    return r


def _conj(ts):
    out = []
    for t in ts:
        if t.op == 'and':
            xs = t.args
        else:
            xs = (t,)
        for x in xs:
            if x is TRUE:
                continue
            if x is FALSE:
                return FALSE
            out.append(x)
    out = list(dict.fromkeys(out))
    sout = set(out)
    for x in out:
        if neg(x) in sout:
            return FALSE
    # absorption: a and (not a or b) -> a and b
    res = []
    for x in out:
        if x.op == 'or':
            alts = [y for y in x.args if neg(y) not in sout]
            if any(y in sout for y in x.args):
                continue
            if len(alts) != len(x.args):
                x = disj(alts)
                if x is FALSE:
                    return FALSE
                for z in (x.args if x.op == 'and' else (x,)):
                    if z not in res:
                        res.append(z)
                continue
        if x not in res:
            res.append(x)
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    return mk('and', *sorted(res))


def _disj(ts):
    out = []
    for t in ts:
        if t.op == 'or':
            xs = t.args
        else:
            xs = (t,)
        for x in xs:
            if x is FALSE:
                continue
            if x is TRUE:
                return TRUE
            out.append(x)
    out = list(dict.fromkeys(out))
    sout = set(out)
    for x in out:
        if neg(x) in sout:
            return TRUE
    res = []
    for x in out:
        if x.op == 'and':
            if any(y in sout for y in x.args):
                continue
            keep = [y for y in x.args if neg(y) not in sout]
            if len(keep) != len(x.args):
                x = conj(keep)
                if x is TRUE:
                    return TRUE
        if x not in res:
            res.append(x)
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    # factor common conjuncts
    sets = [set(x.args) if x.op == 'and' else {x} for x in res]
    common = set.intersection(*sets)
    if common:
        rest = []
        for s in sets:
            s2 = s - common
            if not s2:
                return conj(sorted(common))
            rest.append(conj(sorted(s2)))
        return conj(sorted(common) + [disj(rest)])
    return mk('or', *sorted(res))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    # x if x is not None else None  ->  x
    if c.op == 'cmp' and c.args[0] == 'is' and c.args[2] is NONE and a is NONE and b is c.args[1]:
        return b
    return mk('ite', c, a, b)


def alternatives(t, facts=()):
    """list of (condition terms, leaf) for an ite tree"""
    if t.op == 'ite':
        c = t.args[0]
        r = []
        for cc, sub in ((c, t.args[1]), (neg(c), t.args[2])):
            for fs, leaf in alternatives(sub):
                r.append(((cc,) + fs, leaf))
        return r
    return [((), t)]


def leaves(t):
    out = []
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            stack.append(x.args[1])
            stack.append(x.args[2])
        elif x.op == 'loop':
            stack.append(x.args[2])
            stack.append(x.args[3])
        else:
            out.append(x)
    return out


# ---------------------------------------------------------------- strings

def concat(parts):
    out = []
    for p in parts:
        if p.op == 'concat':
            xs = p.args
        else:
            xs = (p,)
        for x in xs:
            if x.op == 'str':  # text made of str(x) and of x itself (%s, format) is the same
                x = x.args[0]
            if x.op == 'const' and isinstance(cval(x), str):
                if cval(x) == '':
                    continue
                if out and out[-1].op == 'const' and isinstance(cval(out[-1]), str):
                    out[-1] = const(cval(out[-1]) + cval(x))
                    continue
            out.append(x)
    if not out:
        return const('')
    if len(out) == 1 and out[0].op == 'const' and isinstance(cval(out[0]), str):
        return out[0]
    return mk('concat', *out)
