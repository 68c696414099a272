"""Scaling analysis: how a computed value responds to (a) multiplying all weights of a
set of rows by a constant, (b) a change of the unit of a parameter, (c) adding a
constant to a parameter (or to the log likelihoods).

Abstract value: Dim(exps, shift, rows, raw)
  exps  : tuple of ((symbol, tag), exponent): ('W', rows) or ('U', parameter)
  shift : 0 = unaffected by adding a constant c to the parameter, (k, w) = changes by
          k*c*(sum of the weights of rows w) with w None for k*c;  TOP = otherwise
  rows  : tag of the rows a vector runs over (None for reduced values / unknown)
  raw   : True if a reduction over rows went without any weight
None = nothing known.  ANY = literal, compatible with everything.
"""
from fractions import Fraction
from .terms import *

TOP = 'top'
ALL = const('all rows')


class Dim(object):
    __slots__ = ('exps', 'shift', 'rows', 'raw')

    def __init__(self, exps=(), shift=0, rows=None, raw=False):
        if isinstance(exps, dict):
            exps = tuple(sorted(((k, v) for k, v in exps.items() if v != 0), key=repr))
        self.exps = exps
        self.shift = shift
        self.rows = rows
        self.raw = raw

    def but(self, **k):
        d = dict(exps=self.exps, shift=self.shift, rows=self.rows, raw=self.raw)
        d.update(k)
        return Dim(**d)

    def deg(self, sym):
        return sum(v for (s, t), v in self.exps if s == sym)

    def text(self):
        def tag(t):
            return 'all' if t is ALL else show(t, 3) if isinstance(t, Term) else str(t)
        names = {'W': 'weight', 'U': 'unit'}
        e = ' '.join('%s[%s]^%s' % (names[s], tag(t), v) for (s, t), v in self.exps) or 'pure number'
        return e + ('' if self.shift == 0 else ', shifted by %s' % (self.shift,) if self.shift == TOP else ', moves with the parameter') + (', unweighted' if self.raw else '')


ANY = Dim()
ONE = Dim()


def poly(t):
    """t as a polynomial in opaque terms: {sorted tuple of terms: coefficient}"""
    if t.op == 'const' and cval_num(t) is not None:
        c = cval_num(t)
        return {(): c} if c else {}
    if t.op == 'bin' and t.args[0] in '+-':
        a, b = poly(t.args[1]), poly(t.args[2])
        s = 1 if t.args[0] == '+' else -1
        return padd(a, {k: s * v for k, v in b.items()})
    if t.op == 'bin' and t.args[0] == '*':
        return pmul(poly(t.args[1]), poly(t.args[2]))
    if t.op == 'bin' and t.args[0] == '/' and cval_num(t.args[2]):
        return {k: v / cval_num(t.args[2]) for k, v in poly(t.args[1]).items()}
    if t.op == 'un' and t.args[0] == '-':
        return {k: -v for k, v in poly(t.args[1]).items()}
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.asarray', 'numpy.array', 'numpy.copy', 'numpy.float64', 'numpy.atleast_1d') and t.args[1]:
        return poly(t.args[1][0])
    if t.op == 'call' and t.args[0].op == 'ext' and len(t.args[1]) == 2:
        o = {'numpy.multiply': '*', 'numpy.add': '+', 'numpy.subtract': '-'}.get(t.args[0].args[0])
        if o:
            return poly(mk('bin', o, *t.args[1]))
    if t.op == 'meth' and t.args[1] in ('copy', 'astype'):
        return poly(t.args[0])
    return {(t,): 1}


def padd(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v != 0}


def pmul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l, key=id))
            r[m] = r.get(m, 0) + v * w
    return {k: v for k, v in r.items() if v != 0}


def frz(p):
    return tuple(sorted(p.items(), key=lambda x: (tuple(id(t) for t in x[0]), x[1])))


UNIT = frz({(): 1})


def anyunit(d):
    e = {k: v for k, v in d.exps if k[0] != 'U'}
    u = d.deg('U')
    if u:
        e[('U', '*')] = u
    return e


def compat(a, b):
    """same scaling; the unit '*' stands for that of any parameter"""
    if a.exps == b.exps:
        return True
    if any(k == ('U', '*') for k, _ in a.exps + b.exps):
        return Dim(anyunit(a)).exps == Dim(anyunit(b)).exps
    return False


def is_any(d):
    return d is ANY


def mul(a, b, sign=1):
    e = dict(a.exps)
    for k, v in b.exps:
        e[k] = e.get(k, Fraction(0)) + sign * v
    return e


class Dims(object):
    def __init__(self, base, arrays=None):
        """base(term, self) -> Dim, None (unknown) or NotImplemented (no opinion)"""
        self.base = base
        self.arrays = arrays or {}
        self.conflicts = []
        self.memo = {}
        self.open = set()

    def conflict(self, t, what):
        self.conflicts.append((t, what))

    def of(self, t):
        if t in self.memo:
            return self.memo[t]
        if t in self.open:
            return None
        self.open.add(t)
        r = self._of(t)
        self.open.discard(t)
        self.memo[t] = r
        return r

    def join(self, t, ds):
        ds = [d for d in ds if d is not None and d is not ANY]
        if not ds:
            return None
        d = ds[0]
        for x in ds[1:]:
            if x.exps != d.exps:
                if not compat(x, d):
                    return None
                d = d.but(exps=anyunit(d))
            if x.shift != d.shift or x.raw != d.raw or x.rows is not d.rows:
                d = d.but(shift=d.shift if x.shift == d.shift else TOP, raw=d.raw or x.raw, rows=d.rows if d.rows is x.rows else None)
        return d

    def _of(self, t):
        b = self.base(t, self)
        if b is not NotImplemented:
            return b
        op = t.op
        if op == 'const':
            return ANY
        if op == 'len' or op == 'idx':
            return ONE
        if t in self.arrays:
            return self.join(t, [self.of(v) for v in self.arrays[t]])
        if op == 'bin':
            return self.binop(t, *t.args)
        if op == 'neg' or op == 'unary' or op == 'un':
            x = self.of(t.args[-1])
            return None if x is None else x if x is ANY else x.but(shift=self.scale(x.shift, -1))
        if op == 'ite':
            a, b = self.of(t.args[1]), self.of(t.args[2])
            if a is None or b is None:
                return None
            if a is ANY:
                return b
            if b is ANY:
                return a
            return self.join(t, [a, b])
        if op == 'seq' or op == 'tuple':
            ds = []
            for x in t.args:
                while x.op in ('rep', 'opt', 'star'):
                    x = x.args[0] if x.op != 'opt' else x.args[1]
                ds.append(self.of(x))
            if not ds or any(d is None for d in ds):
                return None
            return self.join(t, ds)
        if op == 'elem':
            x = self.of(t.args[0])
            return x
        if op == 'item':
            return self.item(t)
        if op == 'attr':
            if t.args[1] == 'T':
                return self.of(t.args[0])
            if t.args[1] in ('size', 'shape', 'ndim'):
                return ONE
            return None
        if op == 'loop':  # value carried round a loop
            return self.join(t, [self.of(t.args[2]), self.of(t.args[3])])
        if op == 'lv':
            return self.of(t.args[2])
        if op == 'call' and t.args[0].op == 'ext':
            return self.numpy(t, t.args[0].args[0], t.args[1], dict(t.args[2]))
        if op == 'call' and t.args[0].op == 'builtin':
            n = t.args[0].args[0]
            if n in ('max', 'min', 'sum', 'abs', 'float', 'sorted', 'list', 'round', 'tuple') and t.args[1]:
                ds = [self.of(x) for x in t.args[1]]
                if len(ds) == 1:
                    return ds[0]
                return self.join(t, ds) if all(d is not None for d in ds) else None
            if n in ('range', 'len', 'int'):
                return ONE
            return None
        if op == 'meth':
            b, name, args, kw = t.args
            if b.op == 'ext':
                return None
            if name == 'dot':
                return self.dot(t, b, args[0])
            if name in ('sum', 'mean', 'max', 'min', 'cumsum'):
                return self.reduce(t, b, name)
            if name in ('copy', 'reshape', 'flatten', 'ravel', 'transpose', 'astype', 'squeeze'):
                return self.of(b)
            return None
        return None

    def scale(self, s, k):
        if s == 0 or s == TOP:
            return s
        return (frz({m: v * k for m, v in s[0]}), s[1])

    def binop(self, t, op, a, b):
        A, B = self.of(a), self.of(b)
        if op in ('+', '-'):
            if A is None or B is None:
                return None
            if A is ANY and B is ANY:
                return ANY
            if A is ANY or B is ANY:
                D, c, ct = (B, A, a) if A is ANY else (A, B, b)
                if cval_num(ct) == 0 or not is_const(ct):
                    return D.but(shift=self.scale(D.shift, -1)) if op == '-' and A is ANY else D
                if D.exps:
                    self.conflict(t, 'a constant is added to a value of %s' % D.text())
                    return None
                return D.but(shift=self.scale(D.shift, -1)) if op == '-' and A is ANY else D
            if not compat(A, B):
                self.conflict(t, '%s %s %s' % (A.text(), 'plus' if op == '+' else 'minus', B.text()))
                return None
            s = self.addshift(A.shift, B.shift if op == '+' else self.scale(B.shift, -1))
            rows = A.rows if A.rows is not None else B.rows
            if A.rows is not None and B.rows is not None and A.rows is not B.rows:
                rows = None
            return Dim(A.exps if ('U', '*') not in dict(A.exps) else B.exps, s, rows, A.raw or B.raw)
        if op in ('*', '/'):
            if A is None or B is None:
                return None
            if A is ANY and B is ANY:
                return ANY
            e = mul(A, B, 1 if op == '*' else -1)
            rows = A.rows if A.rows is not None else B.rows
            self.samerows(t, A, B)
            raw = A.raw or B.raw
            # shifts
            if A.shift == 0 and B.shift == 0:
                s = 0
            elif B.shift == 0 and A.shift != TOP:
                c = cval_num(b)
                if c is not None and c != 0:
                    s = self.scale(A.shift, c if op == '*' else 1. / c)
                elif op == '*' and not B.exps and B.rows is None:
                    s = (frz(pmul(dict(A.shift[0]), poly(b))), A.shift[1])
                elif op == '/' and B.exps and len(B.exps) == 1 and B.exps[0][0] == ('W', A.shift[1]) and B.exps[0][1] == 1:
                    s = (A.shift[0], None)
                elif op == '*' and A.shift[1] is None and isweight(B) and (B.rows is not None or True):
                    s = (A.shift[0], ('each', isweight(B))) if B.rows is not None else TOP
                else:
                    s = TOP
            elif A.shift == 0 and B.shift != TOP and op == '*':
                c = cval_num(a)
                if c is not None and c != 0:
                    s = self.scale(B.shift, c)
                elif not A.exps and A.rows is None:
                    s = (frz(pmul(dict(B.shift[0]), poly(a))), B.shift[1])
                elif B.shift[1] is None and isweight(A) and A.rows is not None:
                    s = (B.shift[0], ('each', isweight(A)))
                else:
                    s = TOP
            else:
                s = TOP
            return Dim(e, s, rows, raw)
        if op == '**':
            c = cval_num(b)
            if A is None:
                return None
            if A is ANY:
                return ANY
            if c is None:
                return None if A.exps else A
            return Dim({k: v * Fraction(c).limit_denominator(12) for k, v in A.exps}, 0 if A.shift == 0 else TOP, A.rows, A.raw)
        if op in ('//', '%'):
            return A
        return None

    def samerows(self, t, A, B):
        # rows of different selections; shifted slices of one vector are meant
        a, b = A.rows, B.rows
        if a is None or b is None or a is b:
            return
        if ALL in (a, b) and [x for x in (a, b) if x is not ALL][0].op in ('slice', 'param'):
            self.conflict(t, 'values of rows %s combined with values of rows %s' % (rtext(a), rtext(b)))

    def addshift(self, a, b):
        if a == TOP or b == TOP:
            return TOP
        if a == 0:
            return b
        if b == 0:
            return a
        if a[1] == b[1]:
            k = padd(dict(a[0]), dict(b[0]))
            return 0 if not k else (frz(k), a[1])
        return TOP

    def dot(self, t, a, b):
        A, B = self.of(a), self.of(b)
        if A is None or B is None:
            return None
        e = mul(A, B)
        self.samerows(t, A, B)
        s = TOP
        for x, y in ((A, B), (B, A)):
            if y.shift == 0 and x.shift == 0:
                s = 0
            elif x.shift == 0 and y.shift != TOP and y.shift[1] is None and isweight(x) and x.rows is not None:
                s = (y.shift[0], isweight(x))
        r = Dim(e, s, None, A.raw or B.raw)
        if (A.rows is not None or B.rows is not None) and r.deg('W') == 0:
            r.raw = True
        return r

    def reduce(self, t, x, name):
        X = self.of(x)
        if X is None or X is ANY:
            return X
        if X.rows is None or name in ('max', 'min', 'cumsum', 'amax', 'amin'):
            return X if name == 'cumsum' else X.but(rows=None)
        raw = X.raw or X.deg('W') == 0
        s = X.shift
        if s not in (0, TOP):
            if isinstance(s[1], tuple) and s[1][0] == 'each':
                s = (s[0], s[1][1])
            elif name in ('mean', 'average'):
                pass
            else:
                s = TOP
        return Dim(X.exps, s, None, raw)

    def item(self, t):
        b, i = t.args
        if b.op == 'call' and b.args[0].op == 'ext' and b.args[0].args[0] in ('numpy.linalg.eigh', 'numpy.linalg.eig') and is_const(i):
            return self.of(b.args[1][0]) if cval(i) == 0 else ONE
        B = self.of(b)
        if B is None or B is ANY:
            return B
        if B.rows is not None and not is_num(i):
            if i.op == 'slice' or i.op in ('param', 'attr', 'meth', 'bin', 'call', 'cmp', 'item', 'and', 'not'):
                if i.op == 'slice' and i.args == (NONE, NONE, NONE):
                    return B
                lag = i.op == 'slice' and (i.args[0] is NONE) != (i.args[1] is NONE)
                perm = i.op == 'meth' and i.args[1] == 'argsort' or i.op == 'call' and i.args[0].op == 'ext' and i.args[0].args[0] == 'numpy.argsort'
                if lag or perm:
                    return B.but(rows=i)
                e = {}
                for (s, tg), v in B.exps:
                    e[(s, i) if s == 'W' and tg is B.rows else (s, tg)] = v
                sh = B.shift
                return Dim(e, sh, i, B.raw)
        if B.rows is not None and is_num(i):
            return B.but(rows=None)
        return B

    def numpy(self, t, n, args, kw):
        if not n.startswith('numpy.'):
            return None
        f = n[6:]
        if not args:
            return None
        if f in ('dot', 'inner', 'vdot', 'matmul'):
            return self.dot(t, args[0], args[1])
        if f in ('sum', 'mean', 'max', 'min', 'amax', 'amin', 'nanmax', 'nanmin', 'cumsum'):
            return self.reduce(t, args[0], f)
        if f == 'average':
            X = self.of(args[0])
            w = kw.get('weights') or (args[2] if len(args) > 2 else None)
            if w is None:
                return self.reduce(t, args[0], 'mean')
            Wd = self.of(w)
            if X is None or Wd is None:
                return None
            return X.but(rows=None)
        if f in ('sqrt',):
            X = self.of(args[0])
            if X is None or X is ANY:
                return X
            return Dim({k: v / 2 for k, v in X.exps}, 0 if X.shift == 0 else TOP, X.rows, X.raw)
        if f == 'square':
            X = self.of(args[0])
            return X if X is None or X is ANY else Dim({k: v * 2 for k, v in X.exps}, 0 if X.shift == 0 else TOP, X.rows, X.raw)
        if f in ('exp', 'log', 'log10', 'tanh'):
            X = self.of(args[0])
            if X is None or X is ANY:
                return X
            if X.exps and f == 'exp':
                self.conflict(t, 'exponential of %s' % X.text())
                return None
            return None if X.exps else Dim((), 0 if X.shift == 0 else TOP, X.rows, X.raw)
        if f in ('abs', 'absolute', 'fabs', 'array', 'asarray', 'copy', 'atleast_1d', 'atleast_2d', 'ravel', 'transpose', 'diag', 'vstack', 'hstack', 'sort', 'squeeze', 'float64', 'ascontiguousarray', 'diagonal', 'flip'):
            X = self.of(args[0])
            if f in ('abs', 'absolute', 'fabs') and X is not None and X is not ANY and X.shift != 0:
                X = X.but(shift=TOP)
            return X
        if f in ('maximum', 'minimum'):
            return self.join(t, [self.of(a) for a in args])
        if f in ('multiply', 'add', 'subtract', 'divide', 'true_divide', 'power') and len(args) >= 2:
            o = {'multiply': '*', 'add': '+', 'subtract': '-', 'divide': '/', 'true_divide': '/', 'power': '**'}[f]
            return self.binop(t, o, args[0], args[1])
        if f == 'outer':
            A, B = self.of(args[0]), self.of(args[1])
            if A is None or B is None:
                return None
            return Dim(mul(A, B), 0 if A.shift == 0 and B.shift == 0 else TOP, None, A.raw or B.raw)
        if f in ('linalg.inv', 'linalg.pinv'):
            X = self.of(args[0])
            return X if X is None or X is ANY else Dim({k: -v for k, v in X.exps}, 0 if X.shift == 0 else TOP, None, X.raw)
        if f == 'searchsorted':
            A = self.of(args[0])
            for l in leaves(args[1]):
                B = self.of(l)
                if A is not None and B is not None and A is not ANY and B is not ANY and not compat(A, B):
                    self.conflict(t, '%s looked up among %s' % (B.text(), A.text()))
            return ONE
        if f in ('linalg.eigvalsh', 'linalg.eigvals'):
            return self.of(args[0])
        if f == 'concatenate':
            return self.of(args[0])
        if f in ('zeros', 'zeros_like'):
            return ANY
        if f in ('ones', 'eye', 'identity', 'arange', 'searchsorted', 'argsort', 'argmax', 'argmin', 'ones_like', 'count_nonzero'):
            return ONE
        return None


def isweight(d):
    """rows tag if the value is exactly one weight per row"""
    if len(d.exps) == 1 and d.exps[0][0][0] == 'W' and d.exps[0][1] == 1 and d.shift == 0:
        return d.exps[0][0][1]
    return None


def rtext(r):
    return 'all' if r is ALL else show(r, 3)


def is_num(t):
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.argmin', 'numpy.argmax') or t.op == 'meth' and t.args[1] in ('argmin', 'argmax'):
        return True
    return t.op == 'const' and isinstance(cval(t), int) or t.op in ('idx', 'elem', 'len') or t.op == 'lv'


def cval_num(t):
    if t.op == 'const' and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
        return cval(t)
    return None
