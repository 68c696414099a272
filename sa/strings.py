"""Abstract strings: what a text operation of the code gives for every text of a described shape.

A string is a sequence of parts: literal text, a symbolic piece (an arbitrary text without the excluded
characters) and padding (a run of blanks of at least a given length).  `evaluate` computes terms of the
interpreter on them; where the outcome is not the same for all texts of the shape it raises Unknown
(or Glued when two columns may run together).  Nothing is executed and no concrete text is chosen."""
import re
from .terms import *

WS = frozenset(' \t\n\r\f\v')


class Unknown(Exception):
    pass


class Glued(Exception):
    pass


class Sym(object):
    def __init__(self, key, exclude='', spaces=False, nonempty=True, width=None, number=False):
        self.key, self.exclude, self.spaces, self.nonempty, self.width, self.number = key, frozenset(exclude), spaces, nonempty, width, number

    def has_no(self, ch):
        if ch in self.exclude:
            return True
        if ch in WS and not self.spaces:
            return True
        if ch in '\n\r':
            return True
        if self.number:
            return ch not in '0123456789+-.eEnaifNAIF'
        return False

    def __repr__(self):
        return '<%s>' % (self.key,)


class Pad(object):
    def __init__(self, least=0):
        self.least = least

    def __repr__(self):
        return '_%d_' % self.least


class AS(object):
    """an abstract string"""

    def __init__(self, *parts):
        out = []
        for x in parts:
            if isinstance(x, AS):
                out += list(x.parts)
            else:
                out.append(x)
        res = []
        for x in out:
            if isinstance(x, str):
                if not x:
                    continue
                if res and isinstance(res[-1], str):
                    res[-1] += x
                    continue
            res.append(x)
        self.parts = tuple(res)

    def __repr__(self):
        return 'AS(%s)' % ' '.join(repr(x) for x in self.parts)

    def __eq__(self, o):
        return isinstance(o, AS) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    @property
    def literal(self):
        if not self.parts:
            return ''
        return self.parts[0] if len(self.parts) == 1 and isinstance(self.parts[0], str) else None

    def maxlen(self):
        n = 0
        for x in self.parts:
            if isinstance(x, str):
                n += len(x)
            elif isinstance(x, Sym):
                if x.width is None:
                    return None
                n += x.width
        return n

    def strip(self, chars=None, left=True, right=True):
        parts = list(self.parts)
        for end in ([0] if left else []) + ([-1] if right else []):
            while parts:
                x = parts[end]
                if isinstance(x, str):
                    y = x.lstrip(chars) if end == 0 else x.rstrip(chars)
                    if y:
                        parts[end] = y
                        break
                    parts.pop(end)
                elif isinstance(x, Pad):
                    if chars is not None and ' ' not in chars:
                        raise Unknown('strip of padding')
                    parts.pop(end)
                else:
                    if chars is not None and not all(x.has_no(c) or c in WS for c in chars):
                        raise Unknown('strip(%r) of %r' % (chars, x))
                    if not x.nonempty:
                        raise Unknown('strip next to possibly empty %r' % x)
                    break
        return AS(*parts)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        if len(sep) != 1:
            raise Unknown('split at %r' % sep)
        out, cur = [], []
        left = maxsplit
        for x in self.parts:
            if isinstance(x, str):
                while left != 0 and sep in x:
                    a, x = x.split(sep, 1)
                    out.append(AS(*(cur + [a])))
                    cur = []
                    left -= 1
                cur.append(x)
            else:
                if left != 0 and (isinstance(x, Sym) and not x.has_no(sep) or isinstance(x, Pad) and sep == ' '):
                    raise Unknown('%r may contain %r' % (x, sep))
                cur.append(x)
        return out + [AS(*cur)]

    def _split_ws(self, maxsplit):
        out, cur = [], []
        left = maxsplit
        parts = list(self.strip(left=True, right=(maxsplit < 0)).parts)
        i = 0
        while i < len(parts):
            x = parts[i]
            if left == 0 and not cur:
                # the remainder, without leading blanks
                rest = AS(*parts[i:]).strip(right=True)
                if rest.parts:
                    out.append(rest)
                return out
            if isinstance(x, str):
                j = 0
                while j < len(x) and x[j] not in WS:
                    j += 1
                if j:
                    cur.append(x[:j])
                if j < len(x):
                    k = j
                    while k < len(x) and x[k] in WS:
                        k += 1
                    if cur:
                        out.append(AS(*cur))
                        cur = []
                        left -= 1
                    if x[k:]:
                        parts[i] = x[k:]
                        continue
            elif isinstance(x, Pad):
                if x.least > 0:
                    if cur:
                        out.append(AS(*cur))
                        cur = []
                        left -= 1
                elif cur:
                    # may be empty: only harmless next to other blanks or the end
                    nxt = parts[i + 1] if i + 1 < len(parts) else None
                    if nxt is None or isinstance(nxt, Pad) or isinstance(nxt, str) and nxt[0] in WS:
                        pass
                    else:
                        raise Glued('%r and %r may run together' % (cur[-1], nxt))
            else:
                if x.spaces:
                    raise Unknown('%r may contain blanks' % x)
                if not x.nonempty:
                    raise Unknown('%r may be empty' % x)
                cur.append(x)
            i += 1
        if cur:
            out.append(AS(*cur))
        return out

    def startswith(self, s):
        return self._edge(s, 0)

    def endswith(self, s):
        return self._edge(s, -1)

    def _edge(self, s, end):
        if not s:
            return True
        if not self.parts:
            return False
        x = self.parts[end]
        if isinstance(x, str):
            if len(x) >= len(s):
                return x.startswith(s) if end == 0 else x.endswith(s)
            y = s[:len(x)] if end == 0 else s[-len(x):]
            if x != y:
                return False
            raise Unknown('edge of %r' % self)
        if isinstance(x, Sym) and x.nonempty and x.has_no(s[0] if end == 0 else s[-1]):
            return False
        if isinstance(x, Sym) and len(s) > 1 and any(x.has_no(c) for c in s):
            # s could only straddle into the next part
            if len(self.parts) == 1:
                return False
        raise Unknown('edge of %r' % self)

    def contains(self, s):
        for x in self.parts:
            if isinstance(x, str) and s in x:
                return True
        for x in self.parts:
            if isinstance(x, Sym) and not any(x.has_no(c) for c in s):
                raise Unknown('%r in %r' % (s, self))
            if isinstance(x, Pad) and not s.strip(' '):
                raise Unknown('%r in %r' % (s, self))
        if len(s) > 1:
            syms = [x for x in self.parts if isinstance(x, Sym)]
            if any(any(not x.has_no(c) for c in s) for x in syms):
                raise Unknown('%r in %r' % (s, self))
        return False

    def replace(self, a, b):
        out = []
        for x in self.parts:
            if isinstance(x, str):
                out.append(x.replace(a, b))
            elif isinstance(x, Pad):
                if not a.strip(' '):
                    raise Unknown('replace in padding')
                out.append(x)
            else:
                if not any(x.has_no(c) for c in a):
                    raise Unknown('replace %r in %r' % (a, x))
                out.append(x)
        return AS(*out)

    def equals(self, o):
        if self.literal is not None and o.literal is not None:
            return self.literal == o.literal
        if self == o:
            return True
        a, b = (self, o) if self.literal is None else (o, self)
        lit = b.literal
        if lit is not None:
            if not lit:
                if any(isinstance(x, str) or isinstance(x, Sym) and x.nonempty or isinstance(x, Pad) and x.least for x in a.parts):
                    return False
                raise Unknown('%r empty?' % a)
            for x in a.parts:
                if isinstance(x, str) and x not in lit:
                    return False
                if isinstance(x, Sym) and x.nonempty and all(x.has_no(c) for c in lit):
                    return False
                if isinstance(x, Sym) and x.number and len(a.parts) == 1 and not re.search(r'\d|nan|inf', lit.lower()):
                    return False
        raise Unknown('%r == %r' % (self, o))

    def nonempty(self):
        return not self.equals(AS(''))


class Num(object):
    """the number a symbolic value stands for (to the written precision)"""

    def __init__(self, key, zero=False):
        self.key = key
        self.zero = zero

    def __eq__(self, o):
        return isinstance(o, Num) and o.key == self.key

    def __hash__(self):
        return hash(('num', self.key))

    def __repr__(self):
        return 'Num(%r)' % (self.key,)


FMT = re.compile(r'^%([-+ 0#]*)(\d*)(?:\.(\d+))?([sdifeEgGr])$')


def fmt_width(conv, prec, width):
    p = 6 if prec is None else prec
    if conv in 'eE':
        return max(width, p + 8)
    if conv in 'gG':
        return max(width, p + 8)
    return None


def do_format(spec, v):
    if not spec.startswith('%'):
        a = re.match(r'^([<>]?)(.*)$', spec)
        body = a.group(2) or 's'
        if not body[-1].isalpha():
            body += 's'
        left = a.group(1) == '<' or not a.group(1) and isinstance(v, AS)
        spec = '%' + ('-' if left and re.match(r'\d', body) else '') + body
    m = FMT.match(spec)
    if not m:
        raise Unknown('format %s' % spec)
    flags, width, prec, conv = m.group(1), int(m.group(2) or 0), None if m.group(3) is None else int(m.group(3)), m.group(4)
    if conv in 'deEfgGi':
        if isinstance(v, bool) or not isinstance(v, (Num, int)):
            raise Unknown('%s of %r' % (spec, v))
        s = AS(spec % v) if isinstance(v, int) else AS(Sym(('text', v), number=True, width=fmt_width(conv, prec, width)))
        if isinstance(v, int):
            return s
        pad = Pad(1 if ' ' in flags else 0)
        if width or ' ' in flags:
            return AS(s, pad) if '-' in flags else AS(pad, s)
        return s
    if isinstance(v, Num):
        s = AS(Sym(('text', v), number=True))
    elif isinstance(v, int) and not isinstance(v, bool):
        s = AS(str(v))
    elif isinstance(v, AS):
        s = v
    else:
        raise Unknown('%s of %r' % (spec, v))
    if prec is not None:
        raise Unknown('truncating format')
    if width:
        if s.literal is not None:
            return AS(spec % s.literal)
        n = s.maxlen()
        pad = Pad(max(0, width - n) if n is not None else 0)
        return AS(s, pad) if '-' in flags else AS(pad, s)
    return s


def evaluate(t, env):
    """value of term t where env gives the values of some terms"""
    return _Eval(env).ev(t)


class _Eval(object):
    def __init__(self, env):
        self.env = env

    def sub(self, more):
        e = dict(self.env)
        e.update(more)
        return _Eval(e)

    def string(self, v):
        if isinstance(v, AS):
            return v
        if isinstance(v, Num):
            return AS(Sym(('text', v), number=True))
        if isinstance(v, int) and not isinstance(v, bool):
            return AS(str(v))
        raise Unknown('%r as text' % (v,))

    def ev(self, t):
        if t in self.env:
            v = self.env[t]
            if isinstance(v, Exception):
                raise v
            return v
        op = t.op
        if op == 'const':
            v = cval(t)
            return AS(v) if isinstance(v, str) else v
        if op == 'concat':
            return AS(*[self.string(self.ev(x)) for x in t.args])
        if op == 'fmt':
            return do_format(t.args[0] if isinstance(t.args[0], str) else cval(t.args[0]), self.ev(t.args[1]))
        if op == 'isinstance':
            v = self.ev(t.args[0])
            kinds = {x.args[0] for x in walk(t.args[1]) if x.op == 'builtin'}
            if not any(x.op not in ('builtin', 'tuple') for x in walk(t.args[1])):
                if isinstance(v, AS):
                    return 'str' in kinds
                if isinstance(v, list):
                    return bool(kinds & {'list', 'tuple'})
            raise Unknown('isinstance')
        if op == 'str':
            return self.string(self.ev(t.args[0]))
        if op == 'ite':
            return self.ev(t.args[1]) if self.truth(t.args[0]) else self.ev(t.args[2])
        if op == 'not':
            return not self.truth(t.args[0])
        if op == 'and':
            return self.all(t.args, False)
        if op == 'or':
            return self.all(t.args, True)
        if op == 'cmp':
            return self.cmp(*t.args)
        if op in ('seq', 'tuple'):
            return self.items(t.args)
        if op == 'len':
            v = self.ev(t.args[0])
            if isinstance(v, list):
                return len(v)
            if isinstance(v, AS) and v.literal is not None:
                return len(v.literal)
            raise Unknown('length of %r' % (v,))
        if op == 'item':
            return self.item(self.ev(t.args[0]), t.args[1])
        if op == 'join':
            sep, xs = self.ev(t.args[0]), self.ev(t.args[1])
            return self.join(sep, xs)
        if op == 'meth':
            return self.meth(t)
        if op == 'call':
            return self.call(t)
        if op == 'bin':
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            if isinstance(a, int) and isinstance(b, int):
                return {'+': a + b, '-': a - b, '*': a * b}.get(t.args[0], None)
            if t.args[0] == '+' and isinstance(a, list) and isinstance(b, list):
                return a + b
            if t.args[0] == '+' and isinstance(a, AS) and isinstance(b, AS):
                return AS(a, b)
        raise Unknown('%s' % show(t, 3))

    def join(self, sep, xs):
        if not isinstance(xs, list) or not isinstance(sep, AS):
            raise Unknown('join')
        out = []
        for i, x in enumerate(xs):
            if i:
                out.append(sep)
            out.append(self.string(x))
        return AS(*out)

    def all(self, args, stop):
        unknown = None
        for x in args:
            try:
                if self.truth(x) is stop:
                    return stop
            except Unknown as e:
                unknown = e
        if unknown is not None:
            raise unknown
        return not stop

    def truth(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return v
        if isinstance(v, AS):
            return v.nonempty()
        if isinstance(v, (list, int)):
            return bool(v)
        if v is None:
            return False
        if isinstance(v, Num):
            return not v.zero
        raise Unknown('truth of %r' % (v,))

    def items(self, args):
        out = []
        for x in args:
            if x.op == 'star':
                v = self.ev(x.args[0])
                if not isinstance(v, list):
                    raise Unknown('spread')
                out += v
            elif x.op == 'rep':
                body, it = x.args
                xs = self.ev(it)
                if not isinstance(xs, list):
                    raise Unknown('iteration over %r' % (xs,))
                for k, e in enumerate(xs):
                    s = self.sub({mk('elem', it): e, mk('idx', it): k})
                    b = body
                    out += s.items([b])
            elif x.op == 'opt':
                if self.truth(x.args[0]):
                    out.append(self.ev(x.args[1]))
            else:
                out.append(self.ev(x))
        return out

    def item(self, v, i):
        if i.op == 'slice':
            lo, hi, step = (self.ev(x) for x in i.args)
            if step not in (None, 1):
                raise Unknown('slice step')
            if isinstance(v, list):
                return v[lo:hi]
            if isinstance(v, AS):
                if v.literal is not None:
                    return AS(v.literal[lo:hi])
                if (lo is None or lo >= 0) and hi is None and v.parts and (not lo or isinstance(v.parts[0], str) and len(v.parts[0]) >= lo):
                    return AS(v.parts[0][lo or 0:], *v.parts[1:]) if isinstance(v.parts[0], str) else v
                if lo in (None, 0) and isinstance(hi, int) and hi < 0 and isinstance(v.parts[-1], str) and len(v.parts[-1]) >= -hi:
                    return AS(*(v.parts[:-1] + (v.parts[-1][:hi],)))
            raise Unknown('slice')
        k = self.ev(i)
        if isinstance(v, list) and isinstance(k, int):
            if -len(v) <= k < len(v):
                return v[k]
            raise IndexError('no item %d of %d' % (k, len(v)))
        if isinstance(v, AS) and isinstance(k, int) and v.parts:
            x = v.parts[0] if k >= 0 else v.parts[-1]
            if isinstance(x, str) and (-len(x) <= k < len(x)):
                return AS(x[k])
        raise Unknown('item')

    def cmp(self, op, a, b):
        x, y = self.ev(a), self.ev(b)
        if op == 'in':
            if isinstance(x, AS) and x.literal is not None and isinstance(y, AS):
                return y.contains(x.literal)
            if isinstance(y, list):
                return self.any_eq(x, y)
            raise Unknown('in')
        if op == 'is':
            if x is None or y is None:
                return x is None and y is None
            raise Unknown('is')
        if op == '==':
            return self.eq(x, y)
        if op in ('<', '<=', '>', '>=') and isinstance(x, int) and isinstance(y, int):
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        raise Unknown('comparison')

    def any_eq(self, x, ys):
        u = None
        for y in ys:
            try:
                if self.eq(x, y):
                    return True
            except Unknown as e:
                u = e
        if u is not None:
            raise u
        return False

    def eq(self, x, y):
        if isinstance(x, AS) and isinstance(y, AS):
            return x.equals(y)
        if type(x) in (int, bool, type(None)) and type(y) in (int, bool, type(None)):
            return x == y
        if isinstance(x, (AS, list)) != isinstance(y, (AS, list)) and not isinstance(x, Opaque) and not isinstance(y, Opaque):
            return False
        if isinstance(x, Num) and y is None or isinstance(y, Num) and x is None:
            return False
        raise Unknown('equality')

    def meth(self, t):
        b, name, args, kw = t.args
        if name == 'get' and isinstance(self.env.get(b), dict):
            d = self.env[b]
            k = self.ev(args[0])
            return d[k] if k in d else (self.ev(args[1]) if len(args) > 1 else None)
        v = self.ev(b)
        a = [self.ev(x) for x in args]
        if kw:
            kw = {k: self.ev(x) for k, x in kw}
            if name == 'split' and set(kw) <= {'maxsplit', 'sep'}:
                a = [kw.get('sep', a[0] if a else None), kw.get('maxsplit', a[1] if len(a) > 1 else -1)]
            else:
                raise Unknown('keywords')
        if isinstance(v, AS):
            lit = [x.literal if isinstance(x, AS) else x for x in a]
            if name == 'split':
                return v.split(*lit)
            if name in ('strip', 'lstrip', 'rstrip'):
                return v.strip(lit[0] if lit else None, left=name != 'rstrip', right=name != 'lstrip')
            if name == 'endswith' and isinstance(lit[0], str):
                return v.endswith(lit[0])
            if name == 'startswith' and isinstance(lit[0], str):
                return v.startswith(lit[0])
            if name == 'replace' and all(isinstance(x, str) for x in lit):
                return v.replace(*lit)
            if name == 'join':
                return self.join(v, a[0])
            if name in ('encode', 'decode'):
                return v
            if name == 'index' or name == 'find':
                raise Unknown('position in text')
            if name in ('lower', 'upper') and v.literal is not None:
                return AS(getattr(v.literal, name)())
            if name == 'partition' and len(lit) == 1 and isinstance(lit[0], str):
                r = v.split(lit[0], 1)
                return [r[0], AS(lit[0]), r[1]] if len(r) == 2 else [r[0], AS(''), AS('')]
        raise Unknown('%s of %r' % (name, v))

    def call(self, t):
        f, args = t.args[0], t.args[1]
        if f.op == 'builtin' and f.args[0] in ('float', 'int') and len(args) == 1:
            v = self.ev(args[0])
            if isinstance(v, (Num, int)):
                return v
            if isinstance(v, AS):
                s = v.strip()
                if len(s.parts) == 1 and isinstance(s.parts[0], Sym) and isinstance(s.parts[0].key, tuple) and s.parts[0].key[0] == 'text':
                    return s.parts[0].key[1]
                if any(isinstance(x, Sym) and x.key == 'name' for x in s.parts):
                    raise IndexError('%s of a name' % f.args[0])
                if any(isinstance(x, str) and set(x) & set(';,:/|<>=*#&') for x in s.parts):
                    raise IndexError('%s of %r' % (f.args[0], s))
                if s.literal is not None:
                    try:
                        return int(s.literal) if f.args[0] == 'int' else Num(float(s.literal))
                    except ValueError:
                        raise IndexError('%s(%r)' % (f.args[0], s.literal))
            raise Unknown('number from %r' % (v,))
        if f.op == 'builtin' and f.args[0] == 'str' and len(args) == 1:
            return self.string(self.ev(args[0]))
        if f.op == 'builtin' and f.args[0] == 'bool' and len(args) == 1:
            return self.truth(args[0])
        if f.op == 'builtin' and f.args[0] == 'len' and len(args) == 1:
            return self.ev(mk('len', args[0]))
        raise Unknown('call %s' % show(f))


class Opaque(object):
    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.key == self.key

    def __hash__(self):
        return hash(('opaque', self.key))

    def __repr__(self):
        return 'Opaque(%r)' % (self.key,)
