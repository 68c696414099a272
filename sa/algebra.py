"""Canonical forms of extracted values: arithmetic up to the laws of a field, the usual spellings of the same array function,
symmetric comparisons.  Used to compare the value a function computes with the value a reference formula gives."""
import hashlib
from fractions import Fraction
from itertools import product
from .terms import *
from . import logic

ONE = ()
SAME = {'numpy.amin': 'min', 'numpy.min': 'min', 'min': 'min', 'numpy.minimum': 'min', 'numpy.amax': 'max', 'numpy.max': 'max', 'max': 'max', 'numpy.maximum': 'max',
        'numpy.abs': 'abs', 'numpy.absolute': 'abs', 'numpy.fabs': 'abs', 'math.fabs': 'abs', 'abs': 'abs', 'math.sqrt': 'sqrt', 'numpy.sqrt': 'sqrt', 'math.exp': 'exp', 'numpy.exp': 'exp',
        'math.log': 'log', 'numpy.log': 'log', 'math.pow': 'pow', 'numpy.power': 'pow', 'pow': 'pow', 'numpy.square': 'square', 'numpy.sum': 'sum', 'sum': 'sum', 'numpy.cumsum': 'cumsum', 'numpy.argsort': 'argsort',
        'numpy.argmax': 'argmax', 'numpy.argmin': 'argmin', 'numpy.mean': 'mean', 'numpy.dot': 'dot', 'numpy.searchsorted': 'searchsorted', 'numpy.outer': 'outer', 'numpy.transpose': 'T',
        'numpy.diag': 'diag', 'numpy.diagonal': 'diag', 'numpy.sort': 'sort', 'sorted': 'sort', 'numpy.multiply': '*', 'numpy.add': '+', 'numpy.subtract': '-', 'numpy.divide': '/', 'numpy.reshape': 'reshape', 'numpy.ravel': 'ravel',
        'numpy.std': 'std', 'numpy.var': 'var', 'numpy.floor': 'floor', 'math.floor': 'floor', 'numpy.round': 'round', 'round': 'round', 'float': 'float', 'numpy.float64': 'float', 'int': 'int', 'numpy.array': 'array', 'numpy.asarray': 'array',
        'list': 'list', 'tuple': 'list', 'numpy.matmul': 'dot', 'numpy.linalg.inv': 'inv', 'numpy.copy': 'copy', 'len': 'len', 'str': 'str', 'bool': 'bool'}
METHODS = {'min', 'max', 'sum', 'cumsum', 'argsort', 'argmax', 'argmin', 'mean', 'dot', 'searchsorted', 'transpose', 'sort', 'reshape', 'ravel', 'std', 'var', 'round', 'astype'}


class N(tuple):
    """a canonical form which exists once: equal ones are the same object"""

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other


FORMS = {}


def K(x):
    """order and identity of a form, not looking into its parts again"""
    if type(x) is N:
        return x.k
    if isinstance(x, tuple):
        return '(' + ','.join([K(y) for y in x]) + ')'
    return repr(x)


def form(x):
    if type(x) is N or not isinstance(x, tuple):
        return x
    y = tuple(form(z) for z in x)
    s = K(y)
    r = FORMS.get(s)
    if r is None:
        r = FORMS[s] = N(y)
        r.k = hashlib.blake2b(s.encode(), digest_size=16).hexdigest()
        r.h = hash(s)
        r.varying = bool(y) and y[0] in VARYING or any(type(z) is N and z.varying for z in y)
    return r


VARYING = ('elem', 'idx', 'lv', 'loop', 'closure', 'lambda', 'unknown')


class Poly(object):
    """sum of monomials: {((atom, power), ...): coefficient}, powers may be negative or fractions"""
    __slots__ = ('m',)

    def __init__(self, m=None):
        self.m = {k: v for k, v in (m or {}).items() if v != 0}

    @staticmethod
    def num(c):
        return Poly({ONE: Fraction(c)})

    @staticmethod
    def atom(a, p=1):
        return Poly({((form(a), Fraction(p)),): Fraction(1)})

    def __add__(s, o):
        m = dict(s.m)
        for k, v in o.m.items():
            m[k] = m.get(k, 0) + v
        return Poly(m)

    def __neg__(s):
        return Poly({k: -v for k, v in s.m.items()})

    def __sub__(s, o):
        return s + (-o)

    def __mul__(s, o):
        m = {}
        for k1, v1 in s.m.items():
            for k2, v2 in o.m.items():
                d = dict(k1)
                for a, p in k2:
                    d[a] = d.get(a, 0) + p
                k = tuple(sorted(((a, p) for a, p in d.items() if p), key=K))
                m[k] = m.get(k, 0) + v1 * v2
        return Poly(m)

    def key(s):
        return form(('poly', tuple(sorted(((k, str(v)) for k, v in s.m.items()), key=K))))

    def const(s):
        if not s.m:
            return Fraction(0)
        if len(s.m) == 1 and ONE in s.m:
            return s.m[ONE]
        return None

    def lead(s):
        k = min(s.m, key=K)
        return s.m[k]

    def power(s, p):
        p = Fraction(p)
        if p == 0:
            return Poly.num(1)
        if not s.m:
            return Poly() if p > 0 else Poly.atom(('infinite',))
        if len(s.m) == 1:
            (k, c), = s.m.items()
            if p.denominator == 1:
                return Poly({tuple(sorted(((a, q * p) for a, q in k), key=K)): c ** int(p)})
            if c > 0 and all(q == 1 or q.denominator != 1 for a, q in k):
                r = Poly({tuple(sorted(((a, q * p) for a, q in k), key=K)): Fraction(1)})
                f = float(c) ** float(p)
                return r * (Poly.num(Fraction(f).limit_denominator(10 ** 9)) if abs(f - round(f)) < 1e-12 else Poly.atom(('c', str(c)), p))
            return Poly.atom(s.key(), p)
        if p.denominator == 1 and 0 < p <= 4:
            r = s
            for _ in range(int(p) - 1):
                r = r * s
            return r
        c = s.lead()
        if p.denominator == 1:
            n = s * Poly.num(1 / c)
            return Poly.num(c ** int(p)) * Poly.atom(n.key(), p)
        return Poly.atom(s.key(), p)


def mentions(key, atom):
    todo, seen = [key], set()
    while todo:
        x = todo.pop()
        if x is atom:
            return True
        if isinstance(x, tuple) and id(x) not in seen:
            seen.add(id(x))
            todo.extend(x)
    return False


def varies(key):
    """the value may differ between iterations of a loop"""
    return form(key).varying


NOTHING = mk('undef', 'element')


class Canon(object):
    flags = frozenset()  # attributes which are always true or false
    sigs = {}  # name of a function -> (argument names, constant defaults)

    def __init__(self, hook=None):
        self.memo = {}
        self.hook = hook

    def arguments(self, name, a, kw):
        """arguments by name, without those equal to the default"""
        a, kw = list(a), dict(kw)
        sig = self.sigs.get(name)
        if sig and len(a) <= len(sig[0]) and not any(x.op == 'star' for x in a) and '**' not in kw:
            for n, v in zip(sig[0], a):
                kw.setdefault(n, v)
            a = []
            kw = {k: v for k, v in kw.items() if not (k in sig[1] and v is sig[1][k])}
        while a and a[-1] is NONE:
            a.pop()
        return tuple(self.key(x) for x in a), tuple(sorted(((k, self.key(v)) for k, v in kw.items() if v is not NONE and k != '$at'), key=K))

    def key(self, t):
        """hashable canonical form"""
        if isinstance(t, tuple):
            return form(tuple(self.key(x) for x in t))
        if not isinstance(t, Term):
            return form(('v', repr(t)))
        return self.poly(t).key()

    def poly(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.hook(self, t) if self.hook else None
            if r is None:
                r = self._poly(t)
            self.memo[t] = r
        return r

    def minimum(self, ps, how=()):
        """min of several values; max is its mirror image"""
        return Poly.atom(('min', tuple(sorted(set(p.key() for p in ps), key=K)), how))

    def fn(self, name, args, kwargs=()):
        a = list(args)
        kw = tuple(sorted(((k, self.key(v)) for k, v in kwargs or () if k != '$at'), key=K))
        P = self.poly
        if name == '+' and len(a) == 2:
            return P(a[0]) + P(a[1])
        if name == '-' and len(a) == 2:
            return P(a[0]) - P(a[1])
        if name == '*' and len(a) == 2:
            return P(a[0]) * P(a[1])
        if name == '/' and len(a) == 2:
            return P(a[0]) * P(a[1]).power(-1)
        if name in ('**', 'pow') and len(a) == 2:
            e = P(a[1]).const()
            if e is not None:
                return P(a[0]).power(e)
            return Poly.atom(('pow', self.key(a[0]), self.key(a[1])))
        if name == 'square' and len(a) == 1:
            return P(a[0]).power(2)
        if name == 'sqrt' and len(a) == 1:
            return P(a[0]).power(Fraction(1, 2))
        if name == 'abs' and len(a) == 1:
            p = P(a[0])
            if p.m and p.lead() < 0:
                p = -p
            return Poly.atom(('abs', p.key()))
        if name == 'min' and a:
            return self.minimum([P(x) for x in a], kw)
        if name == 'max' and a:
            return -self.minimum([-P(x) for x in a], kw)
        if name == 'sum' and len(a) == 1 and a[0].op == 'seq' and not kw and all(isinstance(x, Term) for x in a[0].args):
            r = Poly()
            for x in a[0].args:
                r = r + (self.total(P(x.args[0])) if x.op == 'rep' else P(x))
            if not any(x.op in ('star', 'lvrest') for x in a[0].args):
                return r
        if name in ('dot', 'outer', 'T') and not kw and len(a) == (1 if name == 'T' else 2):
            # linear in each factor; products of matrices are associative
            c, ks = Fraction(1), []
            for x in a:
                q = P(x)
                if q.m:
                    l = q.lead()
                    c *= l
                    q = q * Poly.num(1 / l)
                k = q.key()
                one = len(q.m) == 1 and list(q.m.values()) == [1] and len(list(q.m)[0]) == 1 and list(q.m)[0][0][1] == 1
                at = list(q.m)[0][0][0] if one else None
                if name == 'dot' and at is not None and at[:2] == ('call', 'dot'):
                    ks += list(at[2])
                else:
                    ks.append(k)
            return Poly.num(c) * Poly.atom(('call', name, tuple(ks), kw))
        if name == 'float' and len(a) == 1:
            return P(a[0])
        if name in ('array', 'list') and len(a) == 1 and not kw and a[0].op in ('seq', 'tuple'):
            return P(mk('seq', *a[0].args))
        return Poly.atom(('call', name, tuple(self.key(x) for x in a), kw))

    def loop(self, t):
        """value carried round a loop: a sum over the iterations where that is what it is"""
        site, name, init, end = t.args
        carried = [x for x in walk(end) if x.op == 'lv' and x.args[0] == site and x.args[1] == name]
        if init.op == 'undef' and name == '$' and not carried:
            return self.poly(end)
        start = Poly() if init.op == 'call' and init.args[0].op == 'ext' and init.args[0].args[0] in ('numpy.zeros', 'numpy.zeros_like') else self.poly(init)
        if len(carried) == 1:
            lv = self.poly(carried[0])
            step = self.poly(end) - lv
            mark = next(iter(lv.m))[0][0]
            if not mentions(step.key(), mark):
                return start + self.total(step)
        return Poly.atom(('loop', start.key(), self.key(end)))

    def total(self, p):
        """sum over iterations, linear in factors which are the same in every iteration"""
        r = Poly()
        for k, v in p.m.items():
            out = tuple((a, q) for a, q in k if not varies(a))
            inside = tuple((a, q) for a, q in k if varies(a))
            r = r + Poly({out: v}) * Poly.atom(('total', inside))
        return r

    def _poly(self, t):
        op = t.op
        if op == 'const':
            v = cval(t)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                try:
                    return Poly.num(Fraction(str(v)) if isinstance(v, float) else v)
                except Exception:
                    pass
            return Poly.atom(('const', repr(v)))
        if op == 'bin':
            o = t.args[0]
            if o in ('+', '-', '*', '/', '**'):
                return self.fn(o, t.args[1:])
            if o == '@':
                return self.fn('dot', t.args[1:])
            return Poly.atom(('bin', o, self.key(t.args[1]), self.key(t.args[2])))
        if op == 'un':
            if t.args[0] == '-':
                return -self.poly(t.args[1])
            if t.args[0] == '+':
                return self.poly(t.args[1])
        if op == 'call' and t.args[0].op in ('ext', 'builtin'):
            n = t.args[0].args[0]
            return self.fn(SAME.get(n, n), t.args[1], t.args[2])
        if op == 'meth' and t.args[1] not in METHODS or op == 'call' and t.args[0].op not in ('ext', 'builtin'):
            # an argument None given or left out
            name = t.args[1] if op == 'meth' else str(t.args[0].args[-1] if t.args[0].args else '')
            a, kw = self.arguments(name.split(':')[-1].split('.')[-1], *((t.args[2], t.args[3]) if op == 'meth' else t.args[1:3]))
            return Poly.atom((op, self.key(t.args[0]), t.args[1] if op == 'meth' else '', a, kw))
        if op == 'meth' and t.args[1] in METHODS and t.args[1] != 'sort':
            n = {'transpose': 'T'}.get(t.args[1], t.args[1])
            return self.fn(n, (t.args[0],) + tuple(t.args[2]), t.args[3])
        if op == 'attr' and t.args[1] == 'T':
            return self.fn('T', (t.args[0],))
        if op == 'attr' and t.args[1] == 'size':
            return Poly.atom(('call', 'len', (self.key(t.args[0]),), ()))
        if op == 'item' and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape' and is_const(t.args[1]) and cval(t.args[1]) == 0:
            return Poly.atom(('call', 'len', (self.key(t.args[0].args[0]),), ()))
        if op == 'slice' and len(t.args) == 3:
            lo, hi, step = t.args
            if step is const(1):
                step = NONE
            if lo is const(0) and step is NONE:
                lo = NONE
            return Poly.atom(('slice', self.key(lo), self.key(hi), self.key(step)))
        if op == 'len':
            return Poly.atom(('call', 'len', (self.key(t.args[0]),), ()))
        if op == 'cmp':
            o, a, b = t.args
            d = self.poly(a) - self.poly(b)
            if d.m and d.const() is None:
                # a positive factor does not change a comparison
                d = d * Poly.num(1 / abs(d.lead()))
            if o == '==':
                if d.m and d.lead() < 0:
                    d = -d
                return Poly.atom(('==', d.key()))
            if o == '<':
                return Poly.atom(('<0', d.key()))
            return Poly.atom((o, self.key(a), self.key(b)))
        if op in ('and', 'or'):
            return Poly.atom((op, tuple(sorted(set(self.key(x) for x in t.args), key=K))))
        if op == 'not':
            return Poly.atom(('not', self.key(t.args[0])))
        if op == 'ite':
            c, a, b = t.args
            n = neg(c)
            kc, kn = self.key(c), self.key(n)
            if K(kn) < K(kc):
                kc, a, b = kn, b, a
            ka, kb = self.poly(a), self.poly(b)
            if ka.key() == kb.key():
                return ka
            return Poly.atom(('ite', kc, ka.key(), kb.key()))
        if op == 'new':
            name = str(t.args[0])
            a, kw = self.arguments(name.split(':')[-1].split('.')[-1], t.args[2], t.args[3])
            return Poly.atom(('new', name, a, kw))
        if op in ('alloc', 'lvrest', 'exc', 'excobj', 'caught', 'tryok', 'while', 'path', 'sent', 'brk'):
            # where it is in the source does not matter
            n = 1 if op == 'alloc' else 0
            rest = t.args[:n] + t.args[n + 1:]
            return Poly.atom((op,) + tuple(self.key(x) if isinstance(x, (Term, tuple)) else ('v', repr(x)) for x in rest))
        if op == 'seq' and len(t.args) > 1 and any(isinstance(x, Term) and x.op == 'rep' and x.args[0].op == 'opt' for x in t.args):
            # cases which exclude each other, in any order
            new, i = list(t.args), 0
            while i < len(new):
                j = i
                while j < len(new) and isinstance(new[j], Term) and new[j].op == 'rep' and new[j].args[0].op == 'opt' and new[j].args[1] is new[i].args[1] \
                        and all(logic.contradictory(frozenset(split_and(new[j].args[0].args[0])) | frozenset(split_and(y.args[0].args[0]))) for y in new[i:j]):
                    j += 1
                if j > i + 1:
                    new[i:j] = sorted(new[i:j], key=lambda y: K(self.key(y)))
                i = max(j, i + 1)
            if tuple(new) != tuple(t.args):
                return self.poly(mk('seq', *new))
        if op == 'seq' and any(isinstance(x, Term) and (x.op == 'star' and x.args[0].op in ('seq', 'tuple') or x.op == 'opt' and x.args[0] in (TRUE, FALSE) or x is NOTHING) for x in t.args):
            new = []
            for x in t.args:
                if x.op == 'star' and x.args[0].op in ('seq', 'tuple'):
                    new += x.args[0].args
                elif x.op == 'opt' and x.args[0] in (TRUE, FALSE):
                    new += [x.args[1]] if x.args[0] is TRUE else []
                elif x is not NOTHING:
                    new.append(x)
            return self.poly(mk('seq', *new))
        if op == 'loop':
            return self.loop(t)
        if op == 'lv':
            return Poly.atom(('lv', self.key(t.args[2]) if len(t.args) > 2 else t.args[1]))
        if op == 'item' and t.args[1].op == 'idx' and self.key(t.args[1].args[0]) == self.key(t.args[0]):
            return self.poly(mk('elem', t.args[0], *t.args[1].args[1:]))
        if op == 'item' and t.args[0].op in ('seq', 'tuple') and is_const(t.args[1]) and isinstance(cval(t.args[1]), int):
            try:
                return self.poly(t.args[0].args[cval(t.args[1])])
            except (IndexError, AttributeError):
                pass
        if op == 'item' and t.args[0].op == 'item' and t.args[0].args[1].op == 'slice' and is_const(t.args[1]):
            lo, hi, step = t.args[0].args[1].args
            i = cval(t.args[1])
            if all(is_const(x) for x in (lo, hi, step)) and cval(step) in (None, 1) and isinstance(i, int) and i >= 0 and (cval(lo) or 0) >= 0:
                j = i + (cval(lo) or 0)
                if cval(hi) is None or 0 < cval(hi) and j < cval(hi):
                    return self.poly(mk('item', t.args[0].args[0], const(j)))
        return Poly.atom((op,) + tuple(self.key(x) if isinstance(x, (Term, tuple)) else ('v', repr(x)) for x in t.args))


# ---------------------------------------------------------------------------------------------------------------- comparison
def conditions(t, out=None):
    """the elementary conditions of the choices in a term"""
    out = {} if out is None else out
    for x in walk(t):
        if x.op == 'ite':
            todo = [x.args[0]]
            while todo:
                c = todo.pop()
                if c.op in ('and', 'or', 'not'):
                    todo.extend(c.args)
                elif c.op == 'ite':
                    todo.extend(c.args)
                elif c.op != 'const':
                    out[c] = 1
    return out


def ingredients(t):
    out = set()
    for x in walk(t):
        if x.op in ('call', 'meth'):
            f = x.args[0]
            n = f.args[0] if x.op == 'call' and f.op in ('ext', 'builtin', 'func') else x.args[1] if x.op == 'meth' else f.op
            out.add(SAME.get(n, n))
        elif x.op in ('attr', 'param'):
            out.add((x.op, x.args[-1]))
        elif x.op in ('lvrest', 'lambda', 'closure', 'gate'):
            out.add(x.op)
    return out


def take(t, facts, decide):
    """t with the choices decided by decide(condition) taken"""
    memo = {}

    def rec(x):
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        if not isinstance(x, Term) or not x.args:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'ite':
            c = rec(x.args[0])
            d = True if c is TRUE else False if c is FALSE else decide(c)
            if d is None:
                r = ite(c, rec(x.args[1]), rec(x.args[2]))
            else:
                r = rec(x.args[1] if d else x.args[2])
        else:
            a = tuple(rec(y) for y in x.args)
            r = x if all(u is v for u, v in zip(a, x.args)) else rebuild(x.op, a)
        memo[x] = r
        return r
    return rec(t)


def boolean(c, env, canon):
    """value of a condition under an assignment of its elementary conditions (by canonical form)"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c.op == 'not':
        v = boolean(c.args[0], env, canon)
        return None if v is None else not v
    if c.op in ('and', 'or'):
        vs = [boolean(x, env, canon) for x in c.args]
        if c.op == 'and':
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if c.op == 'ite':
        v = boolean(c.args[0], env, canon)
        if v is None:
            return None
        return boolean(c.args[1] if v else c.args[2], env, canon)
    return env.get(canon.key(c))


def outermost(t):
    """elementary conditions of the outermost choices of a term"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop(0)
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            cs = [x.args[0]]
            while cs:
                c = cs.pop(0)
                if c.op in ('and', 'or', 'not', 'ite'):
                    cs.extend(c.args)
                elif c.op != 'const':
                    out.append(c)
            continue
        for a in x.args:
            st = [a]
            while st:
                y = st.pop(0)
                if isinstance(y, tuple):
                    st = list(y) + st
                else:
                    todo.append(y)
    return out


def choose(ts, done):
    cs = [c for t in ts for c in outermost(t) if not done(c)]
    if not cs:
        return None
    cs.sort(key=lambda c: (any(x.op == 'ite' for x in walk(c)), bsize(c)))
    c = cs[0]
    while True:
        inner = [x for x in outermost(c) if not done(x)] if any(x.op == 'ite' for x in walk(c)) else []
        if not inner:
            return c
        inner.sort(key=lambda c: (any(x.op == 'ite' for x in walk(c)), bsize(c)))
        c = inner[0]


def split_and(c):
    return [y for x in c.args for y in split_and(x)] if c.op == 'and' else [c]


def cases(a, b, facts=frozenset(), canon=None, limit=3000):
    """(facts of the case, a, b, whether they agree) for every combination of conditions that matters; None if there are too many"""
    canon = canon or Canon()
    out = []
    todo = [((a, b), {}, frozenset(facts))]
    while todo:
        xs, env, fs = todo.pop()
        xs = tuple(take(x, fs, lambda c: boolean(c, env, canon)) for x in xs)
        ok = canon.key(xs[0]) == canon.key(xs[1])
        c = None if ok else choose(xs, lambda c: canon.key(c) in env)
        if c is None and not ok:
            # values which can only be true or false
            bs = [x for x in dict.fromkeys(y for z in xs for y in walk(z)) if x.op == 'attr' and x.args[1] in canon.flags] + [x for x in xs if x.op == 'cmp']
            known = {x: TRUE if env[canon.key(x)] else FALSE for x in bs if canon.key(x) in env}
            if known:
                xs = tuple(subst(x, known) for x in xs)
                ok = canon.key(xs[0]) == canon.key(xs[1])
            if not ok:
                rest = [x for x in bs if x not in known]
                c = rest[0] if rest else None
        if c is None:
            out.append((fs, xs[0], xs[1], ok))
            if len(out) > limit:
                return [x for x in out if not x[3]] or None
            continue
        k = canon.key(c)
        d = logic.decide(c, fs) if fs else None
        for v in (True, False):
            if d is not None and d is not v:
                continue
            fs2 = fs | {c if v else neg(c)}
            if logic.contradictory(fs2):
                continue
            ys = xs
            for f in split_and(c if v else neg(c)):
                if f.op == 'cmp' and f.args[0] == 'is' and f.args[2] is NONE and f.args[1].op == 'param':
                    ys = tuple(subst(x, {f.args[1]: NONE}) for x in ys)
            todo.append((ys, {**env, k: v}, fs2))
    return out


def equal(a, b, facts=frozenset(), canon=None, limit=10000):
    """compare two values case by case.
    returns ('same', number of cases, None) or ('differ', facts of the case, (term, term)) or ('unknown', reason, None)"""
    cs = cases(a, b, facts, canon, limit)
    if cs is None:
        return 'unknown', 'too many conditions', None
    for fs, x, y, ok in cs:
        if not ok:
            return 'differ', [f for f in fs if f not in facts], (x, y)
    return 'same', len(cs), None
