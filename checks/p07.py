"""P07: result tables and files put every value under its own heading.

 marge-file   what is written for marginalised limits is read back as the same values of the same parameters
 like-file    the same for the summary of likelihoods
 fit-file     a best fit file: each line is one parameter, each likelihood is entered under its own name
 limit        kinds of limit
 cells        every row of a table has one cell for each heading, in their order
 layout       rows, columns and formats of a table
 number       numbers are rounded to the figures asked for
 converge-file  reading of convergence statistics
"""
import re
from .refspec import *
from sa.strings import AS, Sym, Num, Pad, Unknown, Glued, _Eval, do_format

P = lambda n: mk('param', n)


class Rec(object):
    """an object with known attributes"""

    def __init__(self, key, **kw):
        self.key, self.f = key, kw

    def __repr__(self):
        return str(self.key)


class Ev(_Eval):
    """also objects, methods of objects and text put together in loops"""
    calls = {}

    def sub(self, more):
        e = Ev({**self.env, **more})
        e.calls = self.calls
        return e

    def ev(self, t):
        if t in self.env:
            return _Eval.ev(self, t)
        if t.op == 'fmt':
            spec = t.args[0] if isinstance(t.args[0], str) else cval(t.args[0])
            m = re.match(r'^%(\d+)\.(\d+)[eE]$', spec)
            v = self.ev(t.args[1])
            # exponents of two digits
            if m and isinstance(v, Num):
                return AS(Pad(max(0, int(m.group(1)) - int(m.group(2)) - 7)), Sym(('text', v), number=True))
            return do_format(spec, v)
        if t.op == 'attr':
            b = self.ev(t.args[0])
            if isinstance(b, Rec) and t.args[1] in b.f:
                return b.f[t.args[1]]
            raise Unknown('attribute %s of %r' % (t.args[1], b))
        if t.op == 'meth' and t.args[1] in self.calls:
            b = self.ev(t.args[0])
            return self.calls[t.args[1]](b, [self.ev(x) for x in t.args[2]], {k: self.ev(x) for k, x in t.args[3] or () if k != '$at'})
        if t.op == 'loop':
            return self.loop(t)
        if t.op == 'call' and t.args[0].op in ('builtin', 'ext') and t.args[0].args[0] in ('max', 'round', 'numpy.isfinite'):
            raise Unknown("call")
        if t.op == 'call' and t.args[0].op == 'builtin' and t.args[0].args[0] == 'range':
            return list(range(*[self.ev(x) for x in t.args[1]]))
        if t.op == 'len':
            v = self.ev(t.args[0])
            if isinstance(v, list):
                return len(v)
            raise Unknown('length')
        if t.op == 'times':
            n = self.ev(t.args[0])
            if isinstance(n, int):
                return list(range(n))
            raise Unknown('length')
        if t.op == 'bin' and t.args[0] == '*':
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            if isinstance(b, (AS, list)) and isinstance(a, int):
                a, b = b, a
            if isinstance(a, (AS, list)) and isinstance(b, int):
                return AS(*([a] * b)) if isinstance(a, AS) else a * b
            if isinstance(a, int) and isinstance(b, int):
                return a * b
            raise Unknown('product')
        if t.op == 'bin' and t.args[0] == '//':
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            if isinstance(a, int) and isinstance(b, int) and b:
                return a // b
        if t.op == 'bin' and t.args[0] == '%':
            f, x = t.args[1:]
            if f.op == 'meth' and f.args[1] == 'parFormat':
                return AS(self.ev(x), Pad(0))
            a = self.ev(f)
            if isinstance(a, AS) and a.literal is not None and a.literal.count('%') == 1:
                return do_format(a.literal[a.literal.index('%'):], self.ev(x)) if a.literal.startswith('%') else AS(a.literal[:a.literal.index('%')], do_format(a.literal[a.literal.index('%'):], self.ev(x)))
            if isinstance(a, AS) and any(isinstance(y, Sym) and y.key == 'wrapper' for y in a.parts):
                return AS(a, self.string(self.ev(x)))
        return _Eval.ev(self, t)

    def cmp(self, op, a, b):
        if op == '==' and a.op == 'item' and is_const(a.args[1]) and cval(a.args[1]) in (0, -1) and is_const(b) and isinstance(cval(b), str) and len(cval(b)) == 1:
            v = self.ev(a.args[0])
            if isinstance(v, AS) and v.parts and isinstance(v.parts[cval(a.args[1])], Sym) and v.parts[cval(a.args[1])].has_no(cval(b)):
                return False
        return _Eval.cmp(self, op, a, b)

    def loop(self, t):
        site, name, init, end = t.args
        srcs = []
        for x in open_elems(end):
            if x not in self.env and x.args[0] not in srcs and not any(y.op in ('elem', 'idx') and y not in self.env for y in walk(x.args[0])):
                srcs.append(x.args[0])
        if len(srcs) != 1:
            raise Unknown('loop over %d things' % len(srcs))
        v = self.ev(init)
        lvs = [x for x in walk(end) if x.op == 'lv' and x.args[0] == site and x.args[1] == name]
        xs = self.ev(srcs[0])
        if not isinstance(xs, list):
            raise Unknown('loop over %r' % (xs,))
        for k, e in enumerate(xs):
            v = self.sub({mk('elem', srcs[0]): e, mk('idx', srcs[0]): k, **{x: v for x in lvs}}).ev(end)
        return v


def open_elems(t):
    """elements the term refers to, other than those of lists it makes itself"""
    out, seen = [], set()

    def rec(x, bound):
        if isinstance(x, tuple):
            for y in x:
                rec(y, bound)
        if not isinstance(x, Term) or (x, bound) in seen:
            return
        seen.add((x, bound))
        if x.op == 'lv':
            return
        if x.op == 'rep':
            rec(x.args[1], bound)
            rec(x.args[0], bound | {x.args[1]})
            return
        if x.op in ('elem', 'idx') and x.args[0] not in bound and x not in out:
            out.append(x)
        for y in x.args:
            rec(y, bound)
    rec(t, frozenset())
    return out


def limit(k, tag):
    return Rec('limit%s' % k, lower=Num('lower%s' % k), upper=Num('upper%s' % k), twotail=tag == 'two', onetail_upper=tag == '>', onetail_lower=tag == '<')


LABELS = [AS(Sym('label', exclude='\n')), AS(Sym('label', exclude='\n'), ' ', Sym('label2', exclude='\n')), AS('')]


def marge(p, rep):
    C = p.cls('getdist.types', 'MargeStats')
    me = mk('self', C.qual)
    A = lambda n: mk('attr', me, n)
    fw, fr = p.find_method(C, '__str__'), p.find_method(C, 'loadFromFile')
    if fw is None or fr is None:
        raise AnalysisError('MargeStats reading or writing vanished')
    W = Interp(p, inline=policy('MargeStats.headerLine', 'ParamList.name'))
    rets, _ = W.run_function(fw, cls=C)
    rep.analysed(W)
    R = Interp(p, inline=policy())
    R.run_function(fr, cls=C)
    rep.analysed(R)
    tags = ('two', '>', '<', 'none')
    calls = {'limitTag': method(p, p.cls('getdist.types', 'ParamLimit'), 'limitTag')}
    for n in (1, 2, 3):
        for k, label in enumerate(LABELS):
            for derived in (False, True):
                what = '%d limits, %s, %s parameter' % (n, ('one word', 'several words', 'no label')[k], 'derived' if derived else 'sampled')
                ls = [limit(str(i), tags[(i + k + derived) % 4]) for i in range(n)]
                others = [limit('o%d' % i, tags[i]) for i in range(n)]
                pars = [Rec('par', name=AS(Sym('name', exclude='*\n')), isDerived=derived, label=label, mean=Num('mean'), err=Num('err'), limits=ls),
                        Rec('other', name=AS(Sym('othername', exclude='*\n')), isDerived=not derived, label=AS(Sym('otherlabel', exclude='\n')), mean=Num('othermean'), err=Num('othererr'), limits=others)]
                fr_ = [Num('fraction%d' % i) for i in range(n)]
                try:
                    texts = [with_calls(Ev({A('names'): pars, A('limits'): fr_}), calls).ev(strip_header(W.res(v, st))) for st, v in rets]
                    if len(texts) != 1:
                        raise Unknown('%d texts' % len(texts))
                    lines = texts[0].split('\n')
                except (Unknown, Glued) as e:
                    rep.note('marge-file', what, 'text written not recognised: %s' % e)
                    continue
                read_marge(rep, what, lines, pars, fr_, R, me, fr)


def with_calls(ev, calls):
    ev.calls = calls
    return ev


def method(p, C, name):
    """a method as a function of the object and arguments"""
    f = p.find_method(C, name)
    if f is None:
        raise AnalysisError('%s.%s vanished' % (C.name, name))
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f, cls=C)
    me = mk('self', C.qual)
    names = [a for a in f.argnames() if a != 'self']
    a = f.node.args
    dflt = {n: v.value for n, v in zip(reversed(f.argnames()), reversed(a.defaults)) if isinstance(v, ast.Constant)}

    def call(obj, args, kw):
        env = {me: obj}
        for n in names:
            v = kw.get(n, dflt.get(n))
            env[P(n)] = AS(v) if isinstance(v, str) else v
        env.update({P(n): v for n, v in zip(names, args)})
        e = call.ev(env)
        vs = [e.ev(I.res(v, st)) for st, v in rets if all(e.truth(c) for c in st.facts)]
        if len(vs) != 1:
            raise Unknown('%d results of %s' % (len(vs), name))
        return vs[0]
    call.ev = Ev
    return call


def strip_header(t):
    """headings hold no values: only their being one line matters"""
    m = {}
    for x in walk(t):
        if x.op == 'loop' and isinstance(x.args[1], str) and 'lower' in ''.join(cval(y) for y in walk(x) if y.op == 'const' and isinstance(cval(y), str)) and not any(y.op == 'attr' and y.args[1] == 'mean' for y in walk(x)):
            m[x] = const('heading')
        elif x.op == 'item' and x.args[0].op == 'meth' and x.args[0].args[1] == 'headerLine':
            m[x] = const('heading') if is_const(x.args[1]) and cval(x.args[1]) == 0 else mk('meth', x.args[0].args[0], 'parFormat', (), ())
    return subst(t, m)


def read_marge(rep, what, lines, pars, fractions, R, me, f):
    rule = 'marge-file'
    src = [e.result if e.result is not None else None for e in R.events if e.kind in ('meth', 'repocall') and e.name == 'fileList']
    fl = [x for e in R.events for a in (e.base, e.value) + tuple(e.args or ()) if isinstance(a, Term) for x in walk(a) if x.op == 'meth' and x.args[1] == 'fileList']
    if not fl:
        rep.note(rule, what, 'lines of the file not recognised')
        return
    env = {fl[0]: lines}
    ev = Ev(env)
    try:
        lim = [e for e in R.events if e.kind == 'setattr' and e.name == 'limits' and e.base is me]
        got = ev.ev(lim[0].value) if lim else None
        if got != fractions:
            rep.ob(rule, what + ': fractions', False, 'limits %r are read as %r' % (fractions, got), f.loc)
            return
        loops = [x for e in R.events if e.kind == 'setattr' and e.name == 'mean' for x in walk(e.value) if x.op == 'elem' and x.args[0].op == 'item' and x.args[0].args[0] is fl[0]]
        if not loops:
            raise Unknown('loop over the lines')
        el = loops[0]
        got = []
        for line in ev.ev(el.args[0]):
            e2 = ev.sub({el: line})
            if not line.strip().nonempty():
                break
            got.append(one_par(R, e2, el))
    except Glued as e:
        rep.ob(rule, what, False, 'written as %r: %s' % (lines[3:5], e), f.loc)
        return
    except IndexError as e:
        rep.ob(rule, what, False, 'written as %r, refused when read: %s' % (lines[3:5], e), f.loc)
        return
    except Unknown as e:
        rep.note(rule, what, 'reading not recognised: %s' % e)
        return
    bad = []
    if len(got) != len(pars):
        bad.append('%d of %d parameters read' % (len(got), len(pars)))
    for g, w in zip(got, pars):
        for n in ('name', 'mean', 'err', 'label', 'isDerived'):
            if not alike(g.get(n), w.f[n]):
                bad.append('%s %r read as %r' % (n, w.f[n], g.get(n)))
        ws = [(x.f['lower'], x.f['upper'], 'two' if x.f['twotail'] else '>' if x.f['onetail_upper'] else '<' if x.f['onetail_lower'] else 'none') for x in w.f['limits']]
        gs = [(a[0], a[1], b.literal if isinstance(b, AS) else b) if isinstance(a, list) and len(a) == 2 else (a, b) for a, b in g.get('limits', [])]
        if ws != gs:
            bad.append('limits %r read as %r' % (ws, gs))
    rep.ob(rule, what, not bad, '; '.join(bad)[:300], f.loc)


def alike(a, b):
    if isinstance(a, AS) and isinstance(b, AS):
        k = lambda s: tuple(x.key if isinstance(x, Sym) else x if isinstance(x, str) else 'pad' for x in s.strip().parts)
        return k(a) == k(b)
    return a == b


def one_par(R, ev, el):
    """what is stored for the parameter of one line"""
    out = {'isDerived': False, 'limits': []}
    for e in R.events:
        if e.kind == 'setattr' and e.base is not None and e.base.op == 'new' and 'ParamInfo' in str(e.base.args[0]) and e.name in ('name', 'mean', 'err', 'label', 'isDerived'):
            if all(ev.truth(c) for c in e.facts if any(x is el or x.op == 'elem' for x in walk(c))):
                out[e.name] = ev.ev(e.value)
        elif e.kind == 'repocall' and e.name == '__init__' and e.base is not None and e.base.op == 'new' and 'ParamLimit' in str(e.base.args[0]):
            ks = [x for a in e.args for x in open_elems(a) if x not in ev.env]
            srcs = []
            for x in ks:
                if x.args[0] not in srcs:
                    srcs.append(x.args[0])
            if len(srcs) != 1:
                raise Unknown('loop over the limits')
            for i, x in enumerate(ev.ev(srcs[0])):
                e3 = ev.sub({mk('elem', srcs[0]): x, mk('idx', srcs[0]): i})
                args = list(e.args) + [v for k, v in e.kwargs or ()]
                out['limits'].append((e3.ev(args[0]), e3.ev(args[1])))
    return out


# ------------------------------------------------------------------------------------------------------------------- likelihoods
def likes(p, rep):
    C = p.cls('getdist.types', 'LikeStats')
    me = mk('self', C.qual)
    A = lambda n: mk('attr', me, n)
    fw, fr = p.find_method(C, 'likeSummary'), p.find_method(C, 'loadFromFile')
    if fw is None or fr is None:
        raise AnalysisError('LikeStats reading or writing vanished')
    W = Interp(p, inline=policy())
    rets, _ = W.run_function(fw, cls=C)
    rep.analysed(W)
    R = Interp(p, inline=policy())
    R.run_function(fr, cls=C)
    rep.analysed(R)
    names = ('logLike_sample', 'logMeanInvLike', 'meanLogLike', 'logMeanLike')
    for some in (True, False):
        what = 'summary %s the mean of 1/likelihood' % ('with' if some else 'without')
        have = {n: Num(n) for n in names if some or n != 'logMeanInvLike'}
        try:
            text = [Ev({A(n): have.get(n) for n in names}).ev(W.res(v, st)) for st, v in rets]
            if len(text) != 1:
                raise Unknown('%d texts' % len(text))
            lines = text[0].split('\n')
            fl = [x for e in R.events for a in (e.base, e.value) + tuple(e.args or ()) if isinstance(a, Term) for x in walk(a) if x.op == 'meth' and x.args[1] == 'fileList']
            store = [e for e in R.events if e.kind == 'setitem' and e.args and any(x.op == 'elem' for x in walk(e.args[0]))]
            if not fl or len(store) != 1:
                raise Unknown('reading')
            got = {}
            el = [x for x in open_elems(store[0].args[0]) if x.args[0] is fl[0]]
            if not el:
                raise Unknown('loop over the lines')
            for line in lines:
                if not line.strip().nonempty():
                    break
                ev = Ev({fl[0]: lines, el[0]: line})
                k = ev.ev(store[0].args[0])
                if not isinstance(k, AS) or k.literal is None:
                    raise Unknown('name %r' % (k,))
                got[k.literal] = ev.ev(store[0].value)
            out = {}
            for e in R.events:
                if e.kind == 'setattr' and e.base is me and e.name in names:
                    v = e.value
                    keys = [x for x in (v.args[2][:1] if v.op == 'meth' and v.args[1] == 'get' else v.args[1:2] if v.op == 'item' else ()) if is_const(x)]
                    if len(keys) != 1:
                        raise Unknown('value of %s' % e.name)
                    out[e.name] = got.get(cval(keys[0]))
        except (Unknown, Glued, IndexError) as e:
            rep.note('like-file', what, str(e))
            continue
        for n in names:
            if n in out or have.get(n) is not None:
                rep.ob('like-file', '%s: %s' % (what, n), out.get(n) == have.get(n), '%r is read as %r' % (have.get(n), out.get(n)), fr.loc)


# ------------------------------------------------------------------------------------------------------------------------- tables
class TEv(Ev):
    def sub(self, more):
        e = TEv({**self.env, **more})
        e.calls = self.calls
        return e

    def ev(self, t):
        if t.op == 'bin' and t.args[0] == '*' and t not in self.env:
            a = self.ev(t.args[1])
            if isinstance(a, AS) and a.literal == ' ':
                return AS(' ')
        return Ev.ev(self, t)


def lines_added(p, rep, C, name, inline=()):
    f = p.find_method(C, name)
    if f is None:
        raise AnalysisError('ResultTable.%s vanished' % name)
    I = Interp(p, inline=policy(*inline))
    I.run_function(f, cls=C)
    rep.analysed(I)
    out = []
    for e in I.events:
        if e.kind == 'meth' and e.name == 'append' and e.base is not None and e.base.op == 'attr' and e.base.args[1] == 'lines':
            out.append(e)
    return f, out


def tables(p, rep):
    C = p.cls('getdist.types', 'ResultTable')
    T = p.cls('getdist.types', 'TableFormatter')
    me = mk('self', C.qual)
    column = method(p, T, 'textAsColumn')
    column.ev = lambda env: with_calls(TEv(env), {'texEquation': lambda b, a, k: AS('$', a[0], '$')})
    fmt = Rec('format', colSeparator=AS('&'), endofrow=AS('END'), headerWrapper=AS(' %s'), paramText=AS('Parameter'), noConstraint=AS('---'), spacer=AS(' '))
    row, fr = lines_added(p, rep, C, 'addFullTableRow', ('ResultTable.paramLabelColumn', 'ResultTable.paramResultsTex', 'ResultTable.paramResultTex'))[::-1]
    head, fh = lines_added(p, rep, C, 'addHeaderRow')[::-1]
    titles, ft = lines_added(p, rep, C, 'addTitlesRow')[::-1]
    for R in (1, 2, 3):
        for L in (1, 2):
            results = [Rec('result%d' % i) for i in range(R)]

            def values(b, a, k, L=L):
                a = a + [None] * 4
                if k.get('limit', a[2]) != Rec_limit:
                    return [AS('wronglimit') for _ in range(L)]
                if (b.key, a[1].key) in missing:
                    return None
                return [AS('(%s %s %s)' % (b.key, a[1].key, c)) for c in (('limits',) if L == 1 else ('limits', 'best'))]
            Rec_limit = AS('thelimit')
            names = ['limits'] if L == 1 else ['best', 'limits']
            calls = {'textAsColumn': lambda b, a, k: column(fmt, a, k), 'texValues': values, 'getLabel': lambda b, a, k: AS('[%s]' % b.key), 'texEquation': lambda b, a, k: AS('$', a[0], '$'),
                     'getColumnLabels': lambda b, a, k: [AS('%s of %s' % (c, b.key)) if (list(k.values()) + a)[:1] == [Rec_limit] else AS('wronglimit') for c in names],
                     'titleSubColumn': lambda b, a, k: AS('@%s@' % a[0], a[1])}
            for ncol in (1, 2, 3):
                self = Rec('self', format=fmt, results=results, limit=Rec_limit, ncol=ncol, colsPerParam=R * L, colsPerResult=L, refResults=None, shiftSigma_indep=False, shiftSigma_subset=False)
                for n in range(1, ncol + 1):
                    for gap in (False, True):
                        pars = [Rec('p%d' % i, isDerived=bool(i % 2), name=AS('n%d' % i)) for i in range(n)]
                        missing = {('result0', 'p0')} if gap else set()
                        what = '%d of %d parameters in a row, %d results with %d values%s' % (n, ncol, R, L, ', one missing' if gap else '')
                        want = []
                        for i in range(ncol):
                            if i >= n:
                                want += [''] * (1 + R * L)
                                continue
                            want.append('[p%d]' % i)
                            for r in range(R):
                                want += [''] * L if ('result%d' % r, 'p%d' % i) in missing else ['(result%d p%d %s)' % (r, i, c) for c in names]
                        text_row(rep, what, row, {me: self, P('row'): pars}, calls, want, fr)
                want = (['Parameter'] + ['%s of result%d' % (c, r) for r in range(R) for c in names]) * ncol
                text_row(rep, 'headings of %d columns, %d results with %d values' % (ncol, R, L), head, {me: self}, calls, want, fh)
                ts = [AS('title%d' % i) for i in range(R)]
                want = (['@1@'] + ['@%d@title%d' % (L, i) for i in range(R)]) * ncol
                text_row(rep, 'titles of %d columns, %d results with %d values' % (ncol, R, L), titles[:1], {me: self, P('titles'): ts}, calls, want, ft)
    # the order of the values of a result
    M = p.cls('getdist.types', 'MargeStats')
    f = p.find_method(M, 'getColumnLabels')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f, cls=M)
    rep.analysed(I)
    mm = mk('self', M.qual)
    for has in (False, True):
        env = {mk('attr', mm, 'hasBestFit'): has}
        calls = {'limitText': lambda b, a, k: AS('LIMIT')}
        try:
            env[mm] = Rec('stats', hasBestFit=has)
            ev = with_calls(Ev(env), calls)
            env[P('limit')] = AS('thelimit')
            vs = [ev.ev(I.res(v, st)) for st, v in rets if all(ev.truth(c) for c in st.facts)]
            if len(vs) != 1 or not isinstance(vs[0], list):
                raise Unknown('headings')
            ok = len(vs[0]) == 1 + has and 'LIMIT' in vs[0][-1].literal and (not has or 'LIMIT' not in vs[0][0].literal)
            rep.ob('cells', 'headings of results %s best fit' % ('with' if has else 'without'), ok, 'headings are %r' % vs[0], f.loc)
        except Unknown as e:
            rep.note('cells', 'headings', str(e))


def text_row(rep, what, events, env, calls, want, f):
    try:
        ev = with_calls(TEv(env), calls)
        texts = [ev.ev(e.args[0]) for e in events if all(ev.truth(c) for c in e.facts)]
        if len(texts) != 1 or not isinstance(texts[0], AS) or texts[0].literal is None:
            raise Unknown('%d lines' % len(texts))
    except Unknown as e:
        rep.note('cells', what, str(e))
        return
    except IndexError as e:
        rep.ob('cells', what, False, 'refused: %s' % e, f.loc)
        return
    t = texts[0].literal
    if not t.endswith('END'):
        rep.ob('cells', what, False, 'the row does not end as a row', f.loc)
        return
    got = [re.sub(r'\\boldmath|[${}]', '', c).strip() for c in t[:-3].split('&')]
    bad = ['%d cells where %d are wanted' % (len(got), len(want))] if len(got) != len(want) else ['cell %d is %r where %r is wanted' % (i, g, w) for i, (g, w) in enumerate(zip(got, want)) if g != w]
    rep.ob('cells', what, not bad, '; '.join(bad)[:200], f.loc)


NUM = r"""
class R:
    def numberFigs(number, sigfig, sci=False):
        assert (sigfig > 0)
        try:
            d = decimal.Decimal(number)
        except TypeError:
            d = float_to_decimal(float(number))
        if sci:
            exponent = d.adjusted()
            if abs(exponent) > _sci_tolerance:
                d = decimal.getcontext().multiply(d, float_to_decimal(10. ** -exponent))
            else:
                exponent = 0
        sign, digits = d.as_tuple()[0:2]
        if len(digits) < sigfig:
            digits = list(digits)
            digits.extend([0] * (sigfig - len(digits)))
        shift = d.adjusted()
        result = int(''.join(map(str, digits[:sigfig])))
        if len(digits) > sigfig and digits[sigfig] >= 5:
            result += 1
        result = list(str(result))
        shift += len(result) - sigfig
        result = result[:sigfig]
        if shift >= sigfig - 1:
            result += ['0'] * (shift - sigfig + 1)
        elif 0 <= shift:
            result.insert(shift + 1, '.')
        else:
            assert (shift < 0)
            result = ['0.'] + ['0'] * (-shift - 1) + result
        if sign:
            result.insert(0, '-')
        if sci:
            return ''.join(result), exponent
        return ''.join(result)

    def float_to_decimal(f):
        n, d = f.as_integer_ratio()
        numerator, denominator = decimal.Decimal(n), decimal.Decimal(d)
        ctx = decimal.Context(prec=60)
        result = ctx.divide(numerator, denominator)
        while ctx.flags[decimal.Inexact]:
            ctx.flags[decimal.Inexact] = False
            ctx.prec *= 2
            result = ctx.divide(numerator, denominator)
        return result

    def times_ten_power(exponent):
        return r'\cdot 10^{%d}' % exponent

    def texEscapeText(string):
        return string.replace('_', '{\\textunderscore}')
"""
NF = r"""
class R:
    def __init__(self, sig_figs=4, separate_limit_tol=0.1, err_sf=2):
        self.sig_figs = sig_figs
        self.separate_limit_tol = separate_limit_tol
        self.err_sf = err_sf

    def namesigFigs(self, value, limplus, limminus, wantSign=True, sci=False):
        frac = limplus / (abs(value) + limplus)
        sf = self.sig_figs
        if frac > 0.1 and 100 > value >= 20:
            sf = 2
        elif frac > 0.01 and value < 1000:
            sf = 3
        err_sf = self.err_sf
        if value >= 20 and frac > 0.1 and limplus >= 2:
            err_sf = 1
        if sci:
            exponent = self.formatNumber(max(abs(value - limminus), abs(value + limplus)), sci=True)[1]
            if exponent:
                value, limplus, limminus = [
                    (lambda x: decimal.getcontext().multiply(
                        float_to_decimal(x), float_to_decimal(10. ** -exponent)))(lim)
                    for lim in [value, limplus, limminus]]
        plus_str = self.formatNumber(limplus, err_sf, wantSign)
        minus_str = self.formatNumber(limminus, err_sf, wantSign)
        res = self.formatNumber(value, sf)
        maxdp = max(self.decimal_places(plus_str), self.decimal_places(minus_str))
        while maxdp < self.decimal_places(res):
            sf -= 1
            if sf == 0:
                res = ('%.' + str(maxdp) + 'f') % value
                if float(res) == 0.0:
                    res = ('%.' + str(maxdp) + 'f') % 0
                break
            else:
                res = self.formatNumber(value, sf)
        while self.decimal_places(plus_str) > self.decimal_places(res):
            sf += 1
            res = self.formatNumber(value, sf)
        if sci:
            return res, plus_str, minus_str, exponent
        return res, plus_str, minus_str

    def formatNumber(self, value, sig_figs=None, wantSign=False, sci=False):
        if sig_figs is None:
            sf = self.sig_figs
        else:
            sf = sig_figs
        s = numberFigs(value, sf, sci=sci)
        if sci:
            s, exponent = s
        if wantSign:
            if s[0] != '-' and float(s) < 0:
                s = '-' + s
            if float(s) > 0:
                s = '+' + s
        if sci:
            return s, exponent
        return s

    def decimal_places(self, s):
        i = s.find('.')
        if i > 0:
            return len(s) - i - 1
        return 0

    def plusMinusLimit(self, limit, upper, lower):
        return limit != 1 or abs(abs(upper / lower) - 1) > self.separate_limit_tol
"""
FMT = r"""
class R:
    def __init__(self):
        self.border = '|'
        self.endofrow = '\\\\'
        self.hline = '\\hline'
        self.paramText = 'Parameter'
        self.aboveTitles = self.hline
        self.majorDividor = '|'
        self.minorDividor = '|'
        self.colDividor = '||'
        self.belowTitles = ''
        self.headerWrapper = " %s"
        self.noConstraint = '---'
        self.spacer = ' '
        self.colSeparator = self.spacer + '&' + self.spacer
        self.numberFormatter = NumberFormatter()

    def getLine(self, position=None):
        if position is not None and hasattr(self, position):
            return getattr(self, position)
        return self.hline

    def belowTitleLine(self, colsPerParam, numResults=None):
        return self.getLine("belowTitles")

    def startTable(self, ncol, colsPerResult, numResults):
        part = self.majorDividor + (" c" + self.minorDividor) * (colsPerResult - 1) + ' c'
        return '\\begin{tabular} {' + self.border + " l " + part * numResults + (self.colDividor + " l " + part * numResults) * (ncol - 1) + self.border + '}'

    def endTable(self):
        return '\\end{tabular}'

    def titleSubColumn(self, colsPerResult, title):
        return ' \\multicolumn{' + str(colsPerResult) + '}{' + self.majorDividor + 'c' + self.majorDividor + '}{' + self.formatTitle(title) + '}'

    def formatTitle(self, title):
        return '\\bf ' + texEscapeText(title)

    def texEquation(self, txt):
        if txt and txt[0] != '$':
            return '$' + txt + '$'
        return txt

    def textAsColumn(self, txt, latex=False, separator=False, bold=False):
        wid = len(txt)
        if latex:
            wid += 2
            if bold:
                wid += 11
        res = txt + self.spacer * max(0, 28 - wid)
        if latex:
            res = self.texEquation(res)
            if bold:
                res = '{\\boldmath' + res + '}'
        if separator:
            res += self.colSeparator
        return res
"""
OPEN = r"""
class R:
    def __init__(self):
        TableFormatter.__init__(self)
        self.border = ''
        self.aboveTitles = r'\noalign{\vskip 3pt}' + self.hline + r'\noalign{\vskip 1.5pt}' + self.hline + r'\noalign{\vskip 5pt}'
        self.belowTitles = r'\noalign{\vskip 3pt}' + self.hline
        self.aboveHeader = ''
        self.belowHeader = self.hline
        self.minorDividor = ''
        self.belowFinalRow = ''

    def titleSubColumn(self, colsPerResult, title):
        return ' \\multicolumn{' + str(colsPerResult) + '}{' + 'c' + '}{' + self.formatTitle(title) + '}'
"""
NOLINE = r"""
class R:
    def __init__(self):
        OpenTableFormatter.__init__(self)
        self.aboveHeader = ''
        self.minorDividor = ''
        self.majorDividor = ''
        self.belowFinalRow = self.hline
        self.belowBlockRow = self.hline
        self.colDividor = '|'
        self.hline = ''

    def belowTitleLine(self, colsPerParam, numResults=None):
        return r'\noalign{\vskip 3pt}\cline{2-' + str(colsPerParam * numResults + 1) + r'}\noalign{\vskip 3pt}'
"""
ROWS = r"""
class R:
    def addFullTableRow(self, row):
        txt = self.format.colSeparator.join(self.paramLabelColumn(param) + self.paramResultsTex(param) for param in row)
        if not self.ncol == len(row):
            txt += self.format.colSeparator * ((1 + self.colsPerParam) * (self.ncol - len(row)))
        self.lines.append(txt + self.format.endofrow)

    def addLine(self, position):
        if self.format.getLine(position) is None:
            return self.lines
        else:
            return self.lines.append(self.format.getLine(position))

    def addTitlesRow(self, titles):
        self.addLine("aboveTitles")
        cols = [self.format.titleSubColumn(1, '')]
        cols += [self.format.titleSubColumn(self.colsPerResult, title) for title in titles]
        self.lines.append(self.format.colSeparator.join(cols * self.ncol) + self.format.endofrow)
        belowTitleLine = self.format.belowTitleLine(self.colsPerResult, self.colsPerParam // self.colsPerResult)
        if belowTitleLine:
            self.lines.append(belowTitleLine)

    def addHeaderRow(self):
        self.addLine("aboveHeader")
        cols = [self.format.headerWrapper % self.format.paramText]
        for result in self.results:
            cols += [self.format.headerWrapper % s for s in result.getColumnLabels(self.limit)]
        self.lines.append(self.format.colSeparator.join(cols * self.ncol) + self.format.endofrow)
        self.addLine("belowHeader")

    def paramResultTex(self, result, p):
        values = result.texValues(self.format, p, self.limit, self.refResults, shiftSigma_subset=self.shiftSigma_subset, shiftSigma_indep=self.shiftSigma_indep)
        if values is not None:
            if len(values) > 1:
                txt = self.format.textAsColumn(values[1], True, separator=True)
            else:
                txt = ''
            txt += self.format.textAsColumn(values[0], values[0] != self.format.noConstraint)
            return txt
        return self.format.colSeparator.join([self.format.textAsColumn('')] * len(result.getColumnLabels(self.limit)))

    def paramLabelColumn(self, param):
        return self.format.textAsColumn(param.getLabel(), True, separator=True, bold=not param.isDerived)

    def endTable(self):
        self.lines.append(self.format.endTable())

    def write(self, fname, **kwargs):
        TextFile(self.tableTex(**kwargs)).write(fname)
"""
LOADBEST = r"""
class R:
    def __init__(self, fileName=None, setParamNameFile=None, want_fixed=False, max_posterior=True):
        ParamResults.__init__(self)
        self.max_posterior = max_posterior
        if fileName is not None:
            self.loadFromFile(fileName, want_fixed=want_fixed)
        if setParamNameFile is not None:
            self.setLabelsFromParamNames(setParamNameFile)

    def getColumnLabels(self, limit=None, **kwargs):
        return ['Best fit']

    def loadFromFile(self, filename, want_fixed=False):
        textFileLines = self.fileList(filename)
        first = textFileLines[0].strip().split('=')
        if first[0].strip() == 'weight':
            self.weight = float(first[1].strip())
            del (textFileLines[0])
            first = textFileLines[0].strip().split('=')
        if first[0].strip() != '-log(Like)':
            raise Exception('Error in format of parameter (best fit) file')
        self.logLike = float(first[1].strip())
        isFixed = False
        isDerived = False
        self.chiSquareds = []
        chunks = 0
        if len(textFileLines[1].strip()) > 0:
            del (textFileLines[1])
        for ix in range(2, len(textFileLines)):
            line = textFileLines[ix]
            if len(line.strip()) == 0:
                chunks += 1
                isFixed = not isFixed
                isDerived = True
                if chunks == 3:
                    if ix + 2 >= len(textFileLines):
                        break
                    for likePart in textFileLines[ix + 2:]:
                        if len(likePart.strip()) != 0:
                            (chisq, name) = [s.strip() for s in likePart.split(None, 2)][1:]
                            name = [s.strip() for s in name.split(':', 1)]
                            if len(name) > 1:
                                (kind, name) = name
                            else:
                                kind = ''
                            chi2 = LikelihoodChi2()
                            if '=' in name:
                                chi2.tag, chi2.name = [s.strip() for s in name.split('=')]
                            else:
                                chi2.tag, chi2.name = None, name
                            chi2.chisq = float(chisq)
                            self.chiSquareds.append((kind, chi2))
                    break
                continue
            if not isFixed or want_fixed:
                param = ParamInfo()
                param.isFixed = isFixed
                param.isDerived = isDerived
                (param.number, param.best_fit, param.name, param.label) = [s.strip() for s in line.split(None, 3)]
                param.number = int(param.number)
                param.best_fit = float(param.best_fit)
                self.names.append(param)
"""
HEAD = r"""
class R:
    def headerLine(self, inc_limits=False):
        parForm = self.parFormat()
        text = ""
        text += parForm % "parameter" + "  "
        text += "%-15s" % "mean"
        text += "%-15s" % "sddev"
        for j, limit in enumerate(self.limits):
            if inc_limits:
                tag = "_%.0f%%" % (limit * 100)
                limtxt = 'type'
            else:
                tag = str(j + 1)
                limtxt = "limit" + tag
            text += "%-15s" % ("lower" + tag)
            text += "%-15s" % ("upper" + tag)
            text += "%-7s" % limtxt
        return text, parForm

    def loadFromFile(self, filename):
        textFileLines = self.fileList(filename)
        lims = textFileLines[0].split(':')[1]
        self.limits = [float(s.strip()) for s in lims.split(';')]
        self.hasBestFit = False
        for line in textFileLines[3:]:
            if len(line.strip()) == 0:
                break
            param = ParamInfo()
            items = [s.strip() for s in line.split(None, len(self.limits) * 3 + 3)]
            param.name = items[0]
            if param.name[-1] == '*':
                param.isDerived = True
                param.name = param.name[:-1]
            param.mean = float(items[1])
            param.err = float(items[2])
            param.label = items[-1] if len(items) > len(self.limits) * 3 + 3 else ''
            param.limits = []
            for i in range(len(self.limits)):
                param.limits.append(ParamLimit([float(s) for s in items[3 + i * 3:5 + i * 3]], items[5 + i * 3]))
            self.names.append(param)

    def __str__(self):
        contours_str = '; '.join([str(c) for c in self.limits])
        header, parForm = self.headerLine()
        text = "Marginalized limits: %s\n\n" % contours_str
        text += header
        text += "\n"
        for j, par in enumerate(self.names):
            text += parForm % (self.name(j, True))
            text += "%15.7E%15.7E" % (par.mean, par.err)
            for lim in par.limits:
                text += "%15.7E%15.7E  %-5s" % (lim.lower, lim.upper, lim.limitTag())
            text += "   %s\n" % par.label
        return text

    def limitText(self, limit):
        txt = str(round(self.limits[limit - 1] * 100.))
        if txt.endswith(".0"):
            txt = txt.split(".")[0]
        return txt

    def getColumnLabels(self, limit=2):
        if self.hasBestFit:
            res = ['Best fit']
        else:
            res = []
        return res + [self.limitText(limit) + '\\% limits']
"""
LIKE = r"""
class R:
    def loadFromFile(self, filename):
        textFileLines = self.fileList(filename)
        results = dict()
        for line in textFileLines:
            if len(line.strip()) == 0:
                break
            name, value = [x.strip() for x in line.split('=')]
            results[name] = float(value)
        self.logLike_sample = results.get('Best fit sample -log(Like)', None)
        self.logMeanInvLike = results.get('Ln(mean 1/like)', None)
        self.meanLogLike = results.get('mean(-Ln(like))', None)
        self.logMeanLike = results.get('-Ln(mean like)', None)
        self.complexity = results.get('complexity', None)

    def headerLine(self):
        return self.parFormat() % "parameter" + '  bestfit        lower1         upper1         lower2         upper2\n'

    def __str__(self):
        text = self.likeSummary()
        parForm = self.parFormat()
        if len(self.names):
            text += "\n"
            text += self.headerLine()
            for j, par in enumerate(self.names):
                text += parForm % (self.name(j, True))
                text += '%15.7E%15.7E%15.7E%15.7E%15.7E   %s\n' % (par.bestfit_sample, par.ND_limit_bot[0], par.ND_limit_top[0], par.ND_limit_bot[1], par.ND_limit_top[1], par.label)
        return text
"""
TEXT = r"""
class R:
    def __init__(self, lines=None):
        if isinstance(lines, str):
            lines = [lines]
        self.lines = lines or []

    def write(self, outfile, *args, **kwargs):
        with open(outfile, 'w', encoding="utf-8") as f:
            f.write("\n".join(self.lines))
"""
CONV = r"""
class R:
    def loadFromFile(self, filename):
        try:
            textFileLines = self.fileList(filename)
            self.R_eigs = []
            for i in range(len(textFileLines)):
                if textFileLines[i].find('var(mean)') >= 0:
                    for line in textFileLines[i + 1:]:
                        if len(line.strip()) == 0:
                            break
                        try:
                            self.R_eigs.append(line.split()[1])
                        except Exception:
                            self.R_eigs.append('1e30')
                elif 'Parameter auto-correlations' in textFileLines[i]:
                    self.auto_correlation_steps = [int(s) for s in textFileLines[i + 2].split()]
                    self.auto_correlations = []
                    self.auto_correlation_pars = []
                    for line in textFileLines[i + 3:]:
                        if len(line.strip()) == 0:
                            break
                        items = line.split(None, len(self.auto_correlation_steps) + 1)
                        self.auto_correlation_pars.append(items[0])
                        self.auto_correlations.append([float(s) for s in items[1:-1]])
        except:
            raise

    def worstR(self):
        return self.R_eigs[len(self.R_eigs) - 1]
"""
LIMIT = r"""
class R:
    def __init__(self, minmax, tag='two'):
        self.lower, self.upper = minmax[0], minmax[1]
        self.twotail = tag == 'two'
        self.onetail_upper = tag == '>'
        self.onetail_lower = tag == '<'

    def limitTag(self):
        if self.twotail:
            return 'two'
        if self.onetail_upper:
            return '>'
        if self.onetail_lower:
            return '<'
        return 'none'

    def limitType(self):
        if self.twotail:
            return 'two tail'
        if self.onetail_upper:
            return 'one tail upper limit'
        if self.onetail_lower:
            return 'one tail lower limit'
        return 'none'
"""
BEST = r"""
class R:
    def texValues(self, formatter, p, limit=None, refResults=None, **kwargs):
        param = self.parWithName(p.name)
        if param is None:
            return None
        return [formatter.numberFormatter.formatNumber(param.best_fit)]

    def getParamDict(self, include_derived=True):
        res = {}
        for par in self.names:
            if include_derived or not par.isDerived:
                res[par.name] = par.best_fit
        res['weight'] = 1
        res['loglike'] = self.logLike
        return res

    def sortedChiSquareds(self):
        likes = {}
        for kind, val in self.chiSquareds:
            if kind not in likes:
                likes[kind] = []
            likes[kind].append(val)
        return sorted(iter(likes.items()))

    def chiSquareForKindName(self, kind, name):
        for akind, val in self.chiSquareds:
            if akind == kind and val.name == name:
                return val.chisq
        return None
"""
ADD = r"""
class R:
    def addBestFit(self, bf):
        self.hasBestFit = True
        self.logLike = bf.logLike
        self.names = [x for x in self.names if bf.parWithName(x.name) is not None]
        for par in self.names:
            param = bf.parWithName(par.name)
            par.best_fit = param.best_fit
            par.isDerived = param.isDerived

    def texValues(self, formatter, p, limit=2, refResults=None, shiftSigma_indep=False, shiftSigma_subset=False):
        if isinstance(p, ParamInfo):
            param = self.parWithName(p.name)
        else:
            param = self.parWithName(p)
        if param is None:
            return None
        nf = formatter.numberFormatter
        lim = param.limits[limit - 1]
        if param.name.startswith('chi2'):
            res, sigma, _ = nf.namesigFigs(param.mean, param.err, param.err, wantSign=False, sci=False)
            if limit == 1:
                res += r'\pm ' + sigma
            else:
                res += r'\,({\nu\rm{:}\,%.1f})' % (param.err ** 2 / 2)
        elif lim.twotail:
            if not nf.plusMinusLimit(limit, lim.upper - param.mean, lim.lower - param.mean):
                res, plus_str, _, exponent = nf.namesigFigs(param.mean, param.err, param.err, wantSign=False, sci=True)
                res += r'\pm ' + plus_str
            else:
                res, plus_str, minus_str, exponent = nf.namesigFigs(param.mean, lim.upper - param.mean, lim.lower - param.mean, sci=True)
                res += '^{' + plus_str + '}_{' + minus_str + '}'
            if exponent:
                res = r'\left(\,%s\,\right)' % res + times_ten_power(exponent)
        elif lim.onetail_upper:
            res, exponent = nf.formatNumber(lim.upper, 3, sci=True)
            res = '< ' + res
            if exponent:
                res += times_ten_power(exponent)
        elif lim.onetail_lower:
            res, exponent = nf.formatNumber(lim.lower, 3, sci=True)
            res = '> ' + res
            if exponent:
                res += times_ten_power(exponent)
        else:
            res = formatter.noConstraint
        if refResults is not None and res != formatter.noConstraint:
            refVal = refResults.parWithName(param.name)
            if refVal is not None:
                delta = param.mean - refVal.mean
                if shiftSigma_indep or shiftSigma_subset:
                    res += r'\quad('
                    if shiftSigma_subset:
                        subset_sigma = np.sqrt(abs(param.err ** 2 - refVal.err ** 2))
                        res += '%+.1f \\sigma_s' % (delta / max(subset_sigma, refVal.err / 20))
                    if shiftSigma_indep:
                        indep_sigma = np.sqrt(param.err ** 2 + refVal.err ** 2)
                        res += ', %+.1f \\sigma_i' % (delta / indep_sigma)
                    res += ')'
                else:
                    res += r'\quad(%+.1f \sigma)' % (delta / refVal.err)
        if self.hasBestFit:
            rangew = (lim.upper - lim.lower) / 10
            bestfit, _, _, exponent = nf.namesigFigs(param.best_fit, rangew, -rangew, sci=True)
            if exponent:
                bestfit += times_ten_power(exponent)
            return [res, bestfit]
        return [res]
"""
TABLE = r"""
class R:
    def __init__(self, ncol, results, limit=2, tableParamNames=None, titles=None, formatter=None, numFormatter=None, blockEndParams=None, paramList=None, refResults=None, shiftSigma_indep=False, shiftSigma_subset=False):
        self.lines = []
        if formatter is None:
            self.format = NoLineTableFormatter()
        else:
            self.format = formatter
        self.ncol = ncol
        if tableParamNames is None:
            self.tableParamNames = results[0]
        else:
            self.tableParamNames = tableParamNames
        if paramList is not None:
            self.tableParamNames = self.tableParamNames.filteredCopy(paramList)
        if numFormatter is not None:
            self.format.numberFormatter = numFormatter
        self.results = results
        self.boldBaseParameters = True
        self.colsPerResult = len(results[0].getColumnLabels(limit))
        self.colsPerParam = len(results) * self.colsPerResult
        self.limit = limit
        self.refResults = refResults
        self.shiftSigma_indep = shiftSigma_indep
        self.shiftSigma_subset = shiftSigma_subset
        nparams = self.tableParamNames.numParams()
        numrow = nparams // ncol
        if nparams % ncol != 0:
            numrow += 1
        rows = []
        for par in self.tableParamNames.names[0:numrow]:
            rows.append([par])
        for col in range(1, ncol):
            for i in range(numrow * col, min(numrow * (col + 1), nparams)):
                rows[i - numrow * col].append(self.tableParamNames.names[i])
        self.lines.append(self.format.startTable(ncol, self.colsPerResult, len(results)))
        if titles is not None:
            self.addTitlesRow(titles)
        self.addHeaderRow()
        for row in rows[:-1]:
            self.addFullTableRow(row)
            if ncol == 1 and blockEndParams is not None and row[0].name in blockEndParams:
                self.addLine("belowBlockRow")
            else:
                self.addLine("belowRow")
        self.addFullTableRow(rows[-1])
        self.addLine("belowFinalRow")
        self.endTable()

    def tableTex(self, document=False, latex_preamble=None, packages=('amsmath', 'amssymb', 'bm')):
        if document:
            lines = ['\\documentclass{article}', '\\pagestyle{empty}']
            for package in packages:
                lines.append('\\usepackage{%s}' % package)
            lines.append('\\renewcommand{\\arraystretch}{1.5}')
            if latex_preamble:
                lines.append(latex_preamble)
            lines.append('\\begin{document}')
            lines += self.lines
            lines.append('\\end{document}')
        else:
            lines = self.lines
        return "\n".join(lines)
"""


def check(p, rep):
    for r, s in (('marge-file', 'what is written for marginalised limits is read back'), ('like-file', 'likelihood summary'), ('fit-file', 'best fit files'), ('limit', 'kinds of limit'),
                 ('cells', 'one cell for each heading, in their order'), ('layout', 'rows, columns and formats of a table'), ('number', 'digits of numbers'), ('converge-file', 'reading of convergence statistics')):
        rep.rule(r, s, 0)
    marge(p, rep)
    likes(p, rep)
    tables(p, rep)
    m = 'getdist.types'
    group(p, rep, 'limit', p.cls(m, 'ParamLimit'), LIMIT, attrs=('lower', 'upper', 'twotail', 'onetail_upper', 'onetail_lower'))
    group(p, rep, 'fit-file', p.cls(m, 'BestFit'), BEST)
    group(p, rep, 'limit', p.cls(m, 'MargeStats'), ADD, attrs=('hasBestFit', 'logLike', 'names', 'best_fit', 'isDerived'))
    group(p, rep, 'layout', p.cls(m, 'ResultTable'), TABLE, attrs=('format', 'ncol', 'tableParamNames', 'results', 'colsPerResult', 'colsPerParam', 'limit', 'refResults', 'shiftSigma_indep', 'shiftSigma_subset', 'lines'))
    group(p, rep, 'number', p.module(m), NUM)
    group(p, rep, 'number', p.cls(m, 'NumberFormatter'), NF, attrs=('sig_figs', 'separate_limit_tol', 'err_sf'))
    for c, src in (('TableFormatter', FMT), ('OpenTableFormatter', OPEN), ('NoLineTableFormatter', NOLINE)):
        group(p, rep, 'layout', p.cls(m, c), src)
    group(p, rep, 'layout', p.cls(m, 'ResultTable'), ROWS)
    group(p, rep, 'fit-file', p.cls(m, 'BestFit'), LOADBEST)
    group(p, rep, 'marge-file', p.cls(m, 'MargeStats'), HEAD)
    group(p, rep, 'like-file', p.cls(m, 'LikeStats'), LIKE)
    group(p, rep, 'layout', p.cls(m, 'TextFile'), TEXT)
    group(p, rep, 'converge-file', p.cls(m, 'ConvergeStats'), CONV)
