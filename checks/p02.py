"""P02: samples, weights and likelihoods stay paired row by row.

row-space inference: every array is given the set of rows of the chain it holds (original rows, rows selected by an index,
concatenation over chains in one order); the three arrays of a samples object must always be given the same rows, and the
offsets that split a combined chain must follow every change of rows.
"""
from .common import *

TRIPLE = ('samples', 'weights', 'loglikes')
ELEMENTWISE = {'numpy.asarray', 'numpy.array', 'numpy.exp', 'numpy.log', 'numpy.abs', 'numpy.sqrt', 'numpy.square', 'numpy.float64', 'numpy.copy',
               'numpy.atleast_2d', 'numpy.atleast_1d', 'numpy.ascontiguousarray', 'numpy.transpose', 'numpy.negative', 'numpy.multiply',
               'numpy.add', 'numpy.subtract', 'numpy.divide', 'numpy.asanyarray', 'copy.copy', 'copy.deepcopy', 'float', 'numpy.ravel', 'numpy.squeeze'}
KEEP_METHODS = {'astype', 'copy', 'reshape', 'transpose', 'flatten', 'ravel', 'view', 'squeeze'}
WILD = mk('anyrows')


def sel_norm(i):
    """selector of rows in an index expression; None: all rows"""
    if i.op == 'tuple':
        return sel_norm(i.args[0]) if i.args else None
    if i.op == 'call' and i.args[0].op == 'builtin' and i.args[0].args[0] == 'slice':
        a = list(i.args[1])
        a = [NONE] + a if len(a) == 1 else a
        i = mk('slice', *(a + [NONE] * (3 - len(a))))
    if i.op == 'slice':
        lo, hi, st = i.args
        lo = NONE if lo is const(0) else lo
        st = NONE if st is const(1) else st
        if lo is NONE and hi is NONE and st is NONE:
            return None
        return mk('slice', lo, hi, st)
    if i.op == 'const' and cval(i) is Ellipsis:
        return None
    return i


class Rows(object):
    def __init__(self, me=None):
        self.memo = {}

    def of(self, t, facts=frozenset()):
        """set of row spaces of an array value (empty: no rows / no constraint)"""
        out = set()
        for cond, leaf in alts(t, facts):
            isn = compare('is', leaf, NONE)
            if isn is TRUE or (isn.op != 'const' and logic.implies(cond, isn)):
                continue
            if logic.contradictory(cond):
                continue
            out |= self.leaf(leaf, frozenset(cond))
        return out

    def leaf(self, t, facts):
        op = t.op
        if op == 'attr':
            if t.args[1] in TRIPLE:
                return {mk('rows', t.args[0])}
            if t.args[1] == 'T':
                b = t.args[0]
                if b.op == 'call' and b.args[0].op == 'ext' and b.args[0].args[0] in ('numpy.array', 'numpy.vstack') and b.args[1] and b.args[1][0].op == 'seq' and \
                        len(b.args[1][0].args) == 1 and b.args[1][0].args[0].op == 'rep':
                    return self.of(b.args[1][0].args[0].args[0], facts)  # columns stacked and transposed
                return self.of(b, facts)
            o = t.args[0]
            if o.op in ('meth', 'call') and params_owner(o) is not None:
                return {mk('rows', params_owner(o))}
            return set()
        if op == 'dynattr' and params_owner(t.args[0]) is not None:
            return {mk('rows', params_owner(t.args[0]))}
        if op == 'elem' and t.args[0].op == 'param':
            return {mk('part', mk('idx', t.args[0]))}
        if op == 'param':
            return {mk('rowsof', t)}
        if op == 'item':
            b, i = t.args
            if b.op == 'ext' and b.args[0].split('.')[-1] in ('c_', 'column_stack'):
                out = set()
                for x in (i.args if i.op == 'tuple' else (i,)):
                    out |= self.of(x, facts)
                return {x for x in out if x.op != 'rowsof'} or out
            if b.op == 'call' and b.args[0].op == 'ext' and b.args[0].args[0] == 'numpy.unique' and i is const(1) and \
                    any(k == 'return_counts' for k, v in b.args[2]):
                return {mk('sel', WILD, mk('item', b, const(0)))}
            if i.op == 'const' and isinstance(cval(i), int):
                return set()
            if b.op == 'param' and any_sub(i, lambda x: x.op in ('idx', 'elem')):
                return {mk('part', i)}
            base = self.of(b, facts)
            s = sel_norm(i)
            if s is None:
                return base
            return {mk('sel', x, s) for x in base}
        if op == 'meth':
            b, name, args = t.args[0], t.args[1], t.args[2]
            if name == '__getitem__' and args:
                s = sel_norm(args[0])
                base = self.of(b, facts)
                return base if s is None else {mk('sel', x, s) for x in base}
            if name in KEEP_METHODS:
                return self.of(b, facts)
            return set()
        if op == 'call':
            f, args, kw = t.args[0], t.args[1], t.args[2]
            if f.op == 'builtin' and f.args[0] == 'getattr' and args and params_owner(args[0]) is not None:
                return {mk('rows', params_owner(args[0]))}
            if f.op in ('ext', 'builtin'):
                nm = f.args[0]
                if nm in ('numpy.hstack', 'numpy.vstack', 'numpy.concatenate', 'numpy.append', 'numpy.r_', 'numpy.column_stack') and args:
                    return self.cat(nm, args[0] if nm != 'numpy.append' else mk('seq', *args[:2]), facts)
                if nm == 'numpy.delete' and len(args) >= 2:
                    ax = args[2] if len(args) > 2 else dict(kw).get('axis', NONE)
                    base = self.of(args[0], facts)
                    if ax is const(1):
                        return base
                    return {mk('sel', x, mk('without', args[1])) for x in base}
                if nm == 'numpy.take' and len(args) >= 2:
                    return {mk('sel', x, args[1]) for x in self.of(args[0], facts)}
                if nm == 'numpy.compress' and len(args) >= 2:
                    return {mk('sel', x, args[0]) for x in self.of(args[1], facts)}
                if nm in ELEMENTWISE:
                    out = set()
                    for a in args:
                        out |= self.of(a, facts)
                    return out
            return set()
        if op == 'bin':
            out = self.of(t.args[1], facts) | self.of(t.args[2], facts)
            return {x for x in out if x.op != 'rowsof'} or out
        if op == 'un':
            return self.of(t.args[-1], facts)
        if op in ('loop', 'lv'):
            return set()
        return set()

    def cat(self, nm, arg, facts):
        out = set()
        for cond, leaf in alts(arg, facts):
            if leaf.op in ('seq', 'tuple'):
                if len(leaf.args) == 1 and leaf.args[0].op == 'rep':
                    body, it = leaf.args[0].args[0], leaf.args[0].args[1]
                    inner = self.of(body, frozenset(cond))
                    for x in inner:
                        if nm == 'numpy.hstack' and body.op == 'meth' and body.args[1] == 'reshape':
                            out.add(x)  # columns side by side
                        else:
                            out.add(mk('cat', x, it))
                else:
                    parts = []
                    cols = nm == 'numpy.hstack' and any(a.op == 'meth' and a.args[1] == 'reshape' for a in leaf.args)
                    for a in leaf.args:
                        parts.append(self.of(a, frozenset(cond)))
                    if cols:
                        for q in parts:
                            out |= q
                    elif all(len(q) == 1 for q in parts):
                        out.add(mk('cats', *[list(q)[0] for q in parts]))
        return out


def params_owner(o):
    """X when o is X.getParams()"""
    if o.op == 'meth' and o.args[1] == 'getParams':
        return o.args[0]
    if o.op == 'call' and o.args[0].op == 'func' and o.args[0].args[0].endswith('.getParams') and o.args[1]:
        return o.args[1][0]
    return None


def roles(t, facts=frozenset()):
    """which of an object's arrays the value is made from (through row operations, not through selectors)"""
    out = set()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'attr' and x.args[1] in TRIPLE:
            out.add(x.args[1])
        elif x.op == 'ite':
            stack += [x.args[1], x.args[2]]
        elif x.op == 'item':
            stack.append(x.args[0])
        elif x.op == 'meth' and (x.args[1] in KEEP_METHODS or x.args[1] == '__getitem__'):
            stack.append(x.args[0])
        elif x.op == 'bin':
            stack += [x.args[1], x.args[2]]
        elif x.op == 'call' and x.args[0].op == 'ext' and (x.args[0].args[0] in ELEMENTWISE or x.args[0].args[0] in ('numpy.hstack', 'numpy.vstack', 'numpy.concatenate', 'numpy.delete')):
            stack += list(x.args[1])
        elif x.op in ('seq', 'tuple'):
            stack += list(x.args)
        elif x.op == 'rep':
            stack.append(x.args[0])
        elif x.op == 'param' and x.args[0] in TRIPLE:
            out.add(x.args[0])
    return out


def role_ok(t3):
    for want, v in zip(TRIPLE, t3):
        if v is None:
            continue
        r = roles(v)
        if r and want not in r:
            return False
    return True


def same(a, b):
    """are two row-space sets compatible?"""
    if not a or not b:
        return True
    for x in a:
        if not any(match(x, y) for y in b):
            return False
    for y in b:
        if not any(match(x, y) for x in a):
            return False
    return True


def match(x, y):
    if x is y:
        return True
    if x.op == 'rowsof' or y.op == 'rowsof':
        # arrays the caller passes go together (but not with a cut of another one)
        o = y if x.op == 'rowsof' else x
        return not (o.op == 'sel' and any_sub(o, lambda z: z.op == 'rowsof'))
    if x.op == y.op == 'sel':
        return x.args[1] is y.args[1] and (x.args[0] is WILD or y.args[0] is WILD or match(x.args[0], y.args[0]))
    if x.op == y.op == 'cat':
        return x.args[1] is y.args[1] and match(x.args[0], y.args[0])
    return False


def names(s):
    return ' or '.join(sorted(show(x, 6) for x in s)) or 'any rows'


def is_sample_cls(p, k):
    return k is not None and any(c.name == 'WeightedSamples' for c in p.mro(k))


SETTERS = {'setSamples'}


def triple_of(p, I, ev):
    """(samples, weights, loglikes) handed over by an event, or None"""
    if ev.kind == 'construct' and ev.result is not None and is_sample_cls(p, I.class_of(ev.result)):
        kw = {k: ev.kw(k) for k in TRIPLE}
        kw = {k: v for k, v in kw.items() if v is not None}
        if not kw:
            return None
        return kw.get('samples'), kw.get('weights'), kw.get('loglikes')
    if ev.kind in ('repocall', 'meth') and ev.name in SETTERS:
        a = list(ev.args or ())
        kw = dict(ev.kwargs or ())
        return (a[0] if a else kw.get('samples'), a[1] if len(a) > 1 else kw.get('weights'), a[2] if len(a) > 2 else kw.get('loglikes'))
    return None


def check(p, rep):
    rep.rule('handed-over-together', 'wherever samples, weights and likelihoods are given to a samples object they select the same rows', 6)
    rep.rule('same-rows-on-exit', 'every method of a samples object leaves its three arrays holding the same rows in the same order', 15)
    rep.rule('offsets-follow-rows', 'a combined set of chains whose rows change recomputes (or drops) the offsets of the chains from the same selection', 4)
    rep.rule('offset-pairs', 'chains are cut between consecutive offsets', 0)
    rep.rule('row-output', 'every row written to a file takes weight, likelihood and parameter values from one and the same row, in the column order the reader expects', 3)
    W = p.cls('getdist.chains', 'WeightedSamples')
    C = p.cls('getdist.chains', 'Chains')
    M = p.cls('getdist.mcsamples', 'MCSamples')
    R = Rows()
    for cls in (W, C, M):
        writers = transitive_writers(p, cls, TRIPLE + ('chain_offsets',))
        allm = []
        for k in p.mro(cls):
            allm += [f.qual for f in k.methods.values()]
        setS = p.find_method(cls, 'setSamples')
        if setS is None:
            raise AnalysisError('setSamples vanished')
        for name, f in sorted(methods_of(p, cls).items()):
            if f.qual not in writers or 'staticmethod' in f.decorators or name in ('updateBaseStatistics',):
                continue
            me = mk('self', cls.qual)
            modular = name != 'setSamples'

            wnames = {q.split('.')[-1] for q in writers}

            def on_event(I, ev, st, name=name):
                """calls of other (separately checked) methods leave some new but common set of rows"""
                if ev.kind not in ('repocall', 'meth') or ev.base is not me:
                    return
                nm = ev.name or ev.fn.args[0].split('.')[-1]
                if nm in SETTERS:
                    for a, v in zip(TRIPLE, triple_of(p, I, ev)):
                        st.heap[(me, a)] = v if v is not None else NONE
                elif nm in wnames:
                    after = mk('after', me, nm, I.site(ev.node))
                    for a in TRIPLE + ('chain_offsets',):
                        st.heap[(me, a)] = mk('attr', after, a)

            pol0 = policy('WeightedSamples.thin_indices_and_weights', 'slice_or_none', 'WeightedSamples.changeSamples')

            def pol(fn, recv, name=name, modular=modular):
                if recv is not None and recv.op == 'new' and fn.qual in vocabulary():
                    return False
                return pol0(fn, recv) or fn.name == name and fn.qual in allm

            I = Interp(p, inline=pol, on_event=on_event, budget=200000)
            rets, raised = I.run_function(f, cls=cls)
            rep.analysed(I)
            changed = False
            bad = ''
            offbad = ''
            offn = 0
            for st, v in rets:
                vals = [st.heap.get((me, a)) for a in TRIPLE]
                if all(v is None for v in vals):
                    continue
                vals = [mk('attr', me, a) if v is None else v for a, v in zip(TRIPLE, vals)]
                vals = [I.res(v, st) for v in vals]
                changed = True
                for cond, leaf in alts(vals[0], st.facts):
                    if logic.contradictory(cond) or leaf is NONE or logic.implies(cond, compare('is', leaf, NONE)):
                        continue
                    sp = [R.of(v, frozenset(cond)) for v in [leaf] + vals[1:]]
                    if not (same(sp[0], sp[1]) and same(sp[0], sp[2]) and same(sp[1], sp[2])):
                        bad = 'samples: %s; weights: %s; likelihoods: %s' % tuple(names(s) for s in sp)
                # offsets
                if cls is W or name in ('__init__', 'setSamples', 'setColData', 'changeSamples'):
                    continue
                for cond, leaf in alts(I.res(vals[0], st), st.facts):
                    s = R.leaf(leaf, frozenset(cond))
                    if not s or logic.implies(cond, compare('is', leaf, NONE)):
                        continue
                    owner = [x.args[0] for y in s for x in walk(y) if x.op == 'rows' and (x.args[0] is me or x.args[0].op == 'after')]
                    off0 = mk('attr', owner[0] if owner else me, 'chain_offsets')
                    unchanged = all(x.op == 'rows' for x in s)
                    # rows changed on this path: offsets must not be the old ones
                    if not unchanged:
                        offn += 1
                    ov = I.res(st.heap.get((me, 'chain_offsets'), off0), st)
                    for c2, ol in alts(ov, frozenset(cond)):
                        if logic.contradictory(c2):
                            continue
                        if ol is NONE or logic.implies(c2, compare('is', off0, NONE)):
                            continue
                        if unchanged:
                            if ol.op == 'attr' and ol is not off0:
                                offbad = 'offsets of %s are kept for rows of %s' % (show(ol), show(off0))
                            continue
                        why = offsets_ok(ol, s, me, off0, I, st)
                        if why:
                            offbad = why
            if changed:
                rep.ob('same-rows-on-exit', '%s.%s' % (cls.name, name), not bad, bad, f.loc)
            if offn:
                rep.ob('offsets-follow-rows', '%s.%s' % (cls.name, name), not offbad, offbad, f.loc)
    # ---- callers elsewhere
    for f in p.all_funcs():
        if not any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id in ('MCSamples', 'WeightedSamples', 'Chains') or
                                                isinstance(n.func, ast.Attribute) and n.func.attr in ('setSamples',)) for n in ast.walk(f.node)):
            continue
        I = Interp(p, inline=policy('slice_or_none', 'WeightedSamples.thin_indices_and_weights'))
        I.run_function(f)
        rep.analysed(I)
        for ev in I.events:
            t = triple_of(p, I, ev) if ev.kind in ('construct', 'repocall', 'meth') else None
            if t is None:
                continue
            sp = [R.of(x, ev.facts) if x is not None else set() for x in t]
            if sum(1 for s in sp if s) < 2:
                continue
            ok = same(sp[0], sp[1]) and same(sp[0], sp[2]) and same(sp[1], sp[2]) and role_ok(t)
            for x in walk(t[0]) if t[0] is not None else ():
                if x.op == 'slice' and all(any_sub(a, lambda y: y.op == 'attr' and y.args[1] == 'chain_offsets') for a in x.args[:2] if isinstance(a, Term)):
                    rep.ob('offset-pairs', f.qual.split(':')[1], not wrong_pair(x), 'chain rows cut as %s' % show(x, 6), ev.loc)
            rep.ob('handed-over-together', 'samples built in %s' % f.qual.split(':')[1], ok, 'samples: %s; weights: %s; likelihoods: %s' % tuple(names(s) for s in sp), ev.loc)
    row_output(p, rep, W, M)


def wrong_pair(x):
    """lo:hi of a chain not taken from consecutive offsets (only forms whose offset distance is known)"""
    lo, hi = x.args[0], x.args[1]

    def pos(t):
        if t.op == 'elem' and t.args[0].op == 'item' and t.args[0].args[1].op == 'slice':
            a, b, c = t.args[0].args[1].args
            return ('elem', cval(a) if is_const(a) and a is not NONE else 0)
        if t.op == 'elem' and t.args[0].op == 'attr':
            return ('elem', 0)
        if t.op == 'item' and t.args[0].op == 'attr':
            i = t.args[1]
            if i.op == 'bin' and i.args[0] == '+' and is_const(i.args[2]):
                return (i.args[1], cval(i.args[2]))
            if i.op == 'bin' and i.args[0] == '-' and is_const(i.args[2]):
                return (i.args[1], -cval(i.args[2]))
            return (i, 0)
        if t.op == 'bin' and t.args[0] in '+-' and is_const(t.args[2]) and pos(t.args[1]) is not None:
            return ('shifted', 0)
        return None

    a, b = pos(lo), pos(hi)
    if a is None or b is None:
        return False
    if a[0] == 'shifted' or b[0] == 'shifted':
        return True
    return not (a[0] == b[0] and b[1] - a[1] == 1)


def offsets_ok(ol, spaces, me, off0, I, st):
    """new offsets must be computed from the selection that gave the new rows"""
    for s in spaces:
        if s.op == 'sel':
            sel = s.args[1]
            key = [x for x in ([sel] if sel.op != 'slice' else [a for a in sel.args if a is not NONE])]
            if contains(ol, off0) and ol is not off0 and (any(contains(ol, k) for k in key)):
                continue
            if sel.op == 'slice' and contains(ol, off0) and ol is not off0 and any_sub(ol, lambda x: x in set(walk(key[0]))):
                continue
            return 'rows are cut by %s but the chain offsets become %s' % (show(sel, 4), show(ol, 6))
        if s.op == 'cat':
            it = s.args[1]
            if contains(ol, it) or any_sub(ol, lambda x: x is it):
                if any_sub(ol, lambda x: x.op == 'ext' and x.args[0] == 'numpy.cumsum'):
                    # a leading zero and the row count of every chain
                    cs = [x for x in walk(ol) if x.op == 'seq' and any(a.op == 'rep' for a in x.args)]
                    if cs and all(x.args[0] is const(0) and len(x.args) == 2 and x.args[1].op == 'rep' and x.args[1].args[1] is it and rowcount(x.args[1].args[0]) for x in cs):
                        continue
                    return 'offsets do not start at 0 or do not count rows: %s' % show(ol, 6)
            return 'rows are joined over %s but the chain offsets become %s' % (show(it, 4), show(ol, 6))
    return ''


def rowcount(t):
    if t.op == 'attr' and t.args[1] == 'numrows':
        return True
    if t.op == 'item' and t.args[1] is const(0) and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape':
        return True
    if t.op == 'call' and t.args[0].op == 'builtin' and t.args[0].args[0] == 'len':
        return True
    return any_sub(t, lambda x: x.op == 'attr' and x.args[1] in ('numrows', 'shape')) and t.op == 'ite'


def row_output(p, rep, W, M):
    # saveAsText: [weights, -loglike, samples]; setColData reads the same columns
    f = p.find_method(W, 'saveAsText')
    I = Interp(p, inline=policy())
    I.run_function(f, cls=W)
    rep.analysed(I)
    me = mk('self', W.qual)
    R = Rows()
    sv = [e for e in I.events if e.kind == 'call' and e.fn.op == 'ext' and e.fn.args[0] == 'numpy.savetxt']
    if not sv:
        raise AnalysisError('saveAsText no longer writes with savetxt')
    for e in sv:
        data = e.args[1]
        cols = [x for x in walk(data) if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('numpy.hstack', 'numpy.column_stack', 'numpy.concatenate')]
        parts = list(cols[0].args[1][0].args) if cols else (list(data.args[1].args) if data.op == 'item' and data.args[1].op == 'tuple' else [])

        def src(t):
            return [a for a in ('weights', 'loglikes', 'samples') if any_sub(t, lambda x: x.op == 'attr' and x.args[0] is me and x.args[1] == a)]

        order = [src(x) for x in parts]
        ok = len(parts) == 3 and order[0] == ['weights'] and 'loglikes' in order[1] and order[2] == ['samples']
        rep.ob('row-output', 'saved columns are weight, -log(likelihood), parameters', ok, 'columns: %s' % [show(x) for x in parts], f.loc)
        ok = bool(parts) and all(same(R.of(parts[-1], e.facts), R.of(x, e.facts)) for x in parts)
        rep.ob('row-output', 'saved columns hold the same rows', ok, '', f.loc)
    g = p.find_method(W, 'setColData')
    I = Interp(p, inline=policy())
    I.run_function(g, cls=W)
    rep.analysed(I)
    full = mk('slice', NONE, NONE, NONE)

    def column(t):
        """the columns selected: ('one', k) or ('from', k) or 'all'"""
        if t is None or t is NONE:
            return None
        if t.op == 'param':
            return 'all'
        if t.op == 'item' and t.args[0].op == 'param' and t.args[1].op == 'tuple' and len(t.args[1].args) == 2 and sel_norm(t.args[1].args[0]) is None:
            c = t.args[1].args[1]
            if c.op == 'const':
                return ('one', cval(c))
            if c.op == 'slice' and c.args[1] is NONE and c.args[2] is NONE:
                return ('from', cval(c.args[0]) if is_const(c.args[0]) else '?')
        return show(t)

    n = 0
    for e in I.events:
        t = triple_of(p, I, e) if e.kind in ('repocall', 'meth') else None
        if t is None:
            continue
        flag = truth(mk('param', 'are_chains'))
        for fl, fact in ((True, flag), (False, neg(flag))):
            fs = extend(e.facts, fact)
            if logic.contradictory(fs) or logic.decide(fact, e.facts) is False:
                continue
            c = tuple(column(logic.under(x, fs)) if x is not None else None for x in t)
            n += 1
            if fl is True:
                ok = c == (('from', 2), ('one', 0), ('one', 1))
            elif fl is False:
                ok = c == ('all', None, None)
            else:
                ok = False
            rep.ob('row-output', 'columns read back (%s)' % ('chain files' if fl else 'plain samples'), ok, 'samples, weights, likelihoods read from %s' % (c,), g.loc)
    if n < 2:
        raise AnalysisError('setColData: expected both kinds of files to be handled')
    # row writers
    for name in ('makeSingleSamples', 'writeThinData'):
        f = p.find_method(M, name)
        if f is None:
            raise AnalysisError('MCSamples.%s vanished' % name)
        I = Interp(p, inline=policy())
        I.run_function(f, cls=M)
        rep.analysed(I)
        me2 = mk('self', M.qual)
        sel = {}
        for e in I.events:
            if e.kind == 'meth' and e.name in ('write', 'writelines') and e.args:
                for x in walk(e.args[0]):
                    if x.op == 'item' and x.args[0].op == 'attr' and x.args[0].args[0] is me2 and x.args[0].args[1] in TRIPLE:
                        sel.setdefault(sel_norm(x.args[1]), set()).add(x.args[0].args[1])
        keys = set(sel)
        ok = len(keys) == 1 and {'samples', 'loglikes'} <= set().union(*sel.values())
        rep.ob('row-output', 'rows written by %s' % name, ok, 'values taken from rows %s' % {show(k): sorted(v) for k, v in sel.items() if k is not None}, f.loc)
        ret = None
