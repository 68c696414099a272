"""P01: no statistic outlives the samples it was computed from.

typestate over every method of the sample classes: a write to samples/weights/loglikes makes every cached
statistic stale; a method may only exit once each has been reset or recomputed from the new arrays, and a
cached statistic may only be read where it is known to be current.
"""
from .common import *

DATA = ('samples', 'weights', 'loglikes')
RESET = ('means', 'mean_loglike', 'diffs', 'fullcov', 'correlationMatrix', 'vars', 'sddev', 'norm', 'needs_update')
# cached values that only a full update refreshes
UPDATED = ('density1D', 'done_1Dbins', 'likeStats', 'max_mult', 'mean_mult', 'indep_thin')
NONE_RESET = ('means', 'mean_loglike', 'fullcov', 'correlationMatrix', 'vars', 'sddev')
UPDATE = 'updateBaseStatistics'


class Stale(object):
    """client analysis: set of (object, cache) pairs that are stale"""

    def __init__(self, p):
        self.p = p
        self.writes = []

    def join(self, a, b, sa, sb):
        out = {}
        A = self.drop_empty(a.get('stale', frozenset()), sa)
        B = self.drop_empty(b.get('stale', frozenset()), sb)
        out['stale'] = A | B
        return out

    def drop_empty(self, stale, st):
        """an object without samples has no statistics"""
        if not stale:
            return stale
        objs = {o for o, c in stale}
        for o in objs:
            v = st.heap.get((o, 'samples'), mk('attr', o, 'samples'))
            c = compare('is', v, NONE)
            if c is TRUE or (c.op != 'const' and logic.implies(st.facts, c)):
                stale = frozenset(x for x in stale if x[0] is not o)
            if (o, 'norm') in stale:  # the sum of weights that do not exist yet
                v = st.heap.get((o, 'weights'), mk('attr', o, 'weights'))
                c = compare('is', v, NONE)
                if c is TRUE or (c.op != 'const' and logic.implies(st.facts, c)):
                    stale = stale - {(o, 'norm')}
        return stale

    summary = None  # name of the method that (as checked on its own) resets everything

    def on_event(self, I, ev, st):
        stale = st.client.get('stale', frozenset())
        if self.summary and ev.kind in ('repocall', 'meth') and ev.base is not None and (
                ev.name == self.summary or ev.fn is not None and ev.fn.op == 'func' and ev.fn.args[0].split('.')[-1] == self.summary):
            stale = frozenset(x for x in stale if x[0] is not ev.base)
        if ev.kind == 'setattr':
            o = ev.rawbase
            for o in leaves(o):
                if ev.name in DATA:
                    cur = st.heap.get((o, ev.name), mk('attr', o, ev.name))
                    if ev.rawvalue is cur:
                        continue
                    self.writes.append(ev)
                    stale = stale | {(o, c) for c in RESET}
                elif ev.name in RESET:
                    v = ev.value
                    ok = True
                    if ev.name == 'needs_update':
                        ok = v is TRUE or (v is FALSE and not [1 for (b, c) in stale if b is o and c not in ('needs_update', 'correlationMatrix', 'diffs', 'fullcov')])
                    else:
                        for b, c in stale:
                            if b is o and c != ev.name and contains(v, mk('attr', o, c)):
                                ok = False
                            if b is o and c == ev.name and contains(v, mk('attr', o, c)):
                                ok = False
                    if ok:
                        stale = stale - {(o, ev.name)}
        muts = mutated_terms(ev)
        if muts:
            for m in muts:
                if m is None:
                    continue
                ch = view_chain(m)
                objs = {(x.args[0], x.args[1]) for x in ch if x.op == 'attr' and x.args[1] in DATA}
                for (o, a), v in st.heap.items():
                    if a in DATA and v in ch and not v.op in ('const',):
                        objs.add((o, a))
                for o, a in objs:
                    if o.op in ('self', 'new') or o.op in ('elem', 'param', 'attr', 'item'):
                        if self.is_samples_obj(I, o):
                            self.writes.append(ev)
                            stale = stale | {(o, c) for c in RESET}
        st.client = {'stale': stale}

    def is_samples_obj(self, I, o):
        c = I.class_of(o)
        if c is None:
            return o.op not in ('self', 'new')
        return any(k.name == 'WeightedSamples' for k in self.p.mro(c))


class Fresh(object):
    """client analysis: is the object known to be up to date (an update ran, or needs_update was seen false)"""

    def __init__(self, ensures):
        self.ensures = ensures
        self.reads = []

    def fresh(self, client, st):
        if client.get('fresh'):
            return True
        s = self.me
        v = st.heap.get((s, 'needs_update'), mk('attr', s, 'needs_update'))
        return logic.implies(st.facts, neg(truth(v))) if v.op != 'const' else not cval(v)

    def join(self, a, b, sa, sb):
        fa, fb = self.fresh(a, sa), self.fresh(b, sb)
        A, B = self.known_set(a, sa), self.known_set(b, sb)
        return {'fresh': fa and fb, 'set': A & B}

    def known_set(self, c, st):
        out = set(c.get('set', ()))
        for n in NONE_RESET:
            v = mk('attr', self.me, n)
            if n not in out and neg(compare('is', v, NONE)) in st.facts:
                out.add(n)
        return frozenset(out)

    def on_event(self, I, ev, st):
        cl = dict(st.client)
        if ev.kind in ('repocall', 'enter', 'meth') and (ev.base is self.me):
            nm = ev.name or (ev.fn.args[0].split('.')[-1] if ev.fn is not None else '')
            if ev.kind != 'enter' and (nm == UPDATE or nm in self.ensures):
                cl['fresh'] = True
        if ev.kind == 'leave' and ev.base is self.me and ev.fn.args[0].split('.')[-1] == UPDATE:
            cl['fresh'] = True
        if ev.kind == 'setattr' and ev.base is self.me:
            if ev.name == 'needs_update' and ev.value is TRUE:
                cl['fresh'] = False
            cl['set'] = cl.get('set', frozenset()) | {ev.name}
        st.client = cl
        if ev.kind == 'getattr' and ev.base is self.me and not I.mute:
            ok = self.fresh(cl, st) or ev.name in cl.get('set', ())
            if not ok and ev.name in NONE_RESET:
                v = mk('attr', self.me, ev.name)
                isnone = compare('is', v, NONE)
                ok = logic.implies(st.facts, neg(isnone)) or ev.value is not v
            self.reads.append((ev, ok))


def check(p, rep):
    _tested.clear()
    rep.rule('reset-on-exit', 'every exit of a method that changed samples, weights or loglikes has reset or recomputed every cached '
             'statistic and flagged the object for update', 20)
    rep.rule('outside-writers', 'code outside the sample classes that changes the arrays of a samples object ends by calling a method that resets its statistics', 0)
    rep.rule('update-refreshes', 'the full update recomputes or clears every derived cache and only then marks the object current', 8)
    rep.rule('read-when-current', 'a cached statistic is read only where the object is known to be current or the cache to be set since the last change', 10)
    rep.rule('memo-reset-value', 'a lazily computed statistic is recomputed exactly when its cache is empty', 3)
    W = p.cls('getdist.chains', 'WeightedSamples')
    C = p.cls('getdist.chains', 'Chains')
    M = p.cls('getdist.mcsamples', 'MCSamples')
    W.methods['setSamples'], W.methods['filter']
    resetters = set()
    for cls in (W, C, M):
        writers = transitive_writers(p, cls, DATA + RESET)
        # the common resetting routine, decided on its own and then used as a summary
        summary = None
        w = p.find_method(cls, '_weightsChanged')
        if w is not None:
            S = Stale(p)
            me = mk('self', cls.qual)
            I = Interp(p, inline=policy(*writers), on_event=S.on_event, join_client=S.join, budget=200000)
            rets, raised = I.run_function(w, cls=cls, state=State(client={'stale': frozenset((me, c) for c in RESET)}))
            rep.analysed(I)
            bad = set()
            for st, v in rets:
                bad |= {c for o, c in S.drop_empty(st.client.get('stale', frozenset()), st)}
            if rep.ob('reset-on-exit', '%s.%s' % (cls.name, w.name), not bad and rets, 'may return without resetting %s' % ', '.join(sorted(bad)), w.loc):
                summary = w.name
        base_pol = policy(*[q for q in writers if w is None or summary is None or q != w.qual])

        def pol(fn, recv):
            # a new samples object is built by its own (separately checked) constructor
            return base_pol(fn, recv) and not (recv is not None and recv.op == 'new')

        for name, f in sorted(methods_of(p, cls).items()):
            if f.qual not in writers or (name.startswith('_') and name != '__init__'):
                continue
            if name == UPDATE or 'staticmethod' in f.decorators:
                continue
            S = Stale(p)
            S.summary = summary
            I = Interp(p, inline=pol, on_event=S.on_event, join_client=S.join, budget=200000)
            rets, raised = I.run_function(f, cls=cls)
            rep.analysed(I)
            bad = set()
            where = ''
            for st, v in rets:
                stale = S.drop_empty(st.client.get('stale', frozenset()), st)
                for o, c in stale:
                    bad.add((show(o), c))
            if not S.writes:
                continue
            rep.ob('reset-on-exit', '%s.%s' % (cls.name, name), not bad,
                   'may return with stale %s after changing %s' % (', '.join(sorted('%s.%s' % b for b in bad)),
                                                                   ', '.join(sorted({str(w.name if w.kind == 'setattr' else 'array contents') + ' at ' + w.loc for w in S.writes})[:6])), f.loc)
            # does the method reset from an all-stale state?
    for name in ('setSamples', 'changeSamples', '_weightsChanged', 'filter', 'reweightAddingLogLikes', 'cool', 'deleteZeros',
                 'thin', 'weighted_thin', 'removeBurn'):
        resetters.add(name)
    # writers elsewhere
    own = {W.module.name, M.module.name}
    for f in p.all_funcs():
        if f.cls is not None and f.cls in (W, C, M):
            continue
        if not (attr_writes(f) & set(DATA)):
            continue
        S = Stale(p)
        I = Interp(p, inline=policy(), on_event=S.on_event, join_client=S.join)
        rets, raised = I.run_function(f)
        ws = [w for w in S.writes]
        if not ws:
            continue
        bad = set()
        for st, v in rets:
            for o, c in st.client.get('stale', ()):
                # the owner is someone else's object: accept a later resetting call on it
                k = I.class_of(o)
                if k is not None and W not in p.mro(k):
                    continue
                last = max([e.seq for e in ws])
                if any(e.kind in ('meth', 'repocall') and e.base is o and e.name in resetters and e.seq > last for e in I.events):
                    continue
                bad.add(show(o))
        if f.cls is not None and W not in p.mro(f.cls) and all(o == 'self' for o in bad):
            continue
        rep.ob('outside-writers', f.qual, not bad, 'changes the arrays of %s without resetting its statistics' % ', '.join(bad), f.loc)

    # ---- the full update
    f = p.find_method(M, UPDATE)
    if f is None:
        raise AnalysisError('MCSamples.%s vanished' % UPDATE)
    I = Interp(p, inline=policy(*[g.qual for k in (M, C, W) for g in k.methods.values() if g.name in (UPDATE, 'getVars', 'setMeans', 'getMeans') or g.name.startswith('_')],
                                opaque=['getdist.mcsamples:MCSamples._initLimits']), budget=200000)
    rets, raised = I.run_function(f, cls=M)
    rep.analysed(I)
    me = mk('self', M.qual)
    for st, v in rets:
        h = lambda a: st.heap.get((me, a))
        d = h('density1D')
        rep.ob('update-refreshes', 'density1D cleared', d is not None and I.res(d, st).op == 'dictc' and not I.res(d, st).args, 'density cache keeps %s' % (d and show(I.res(d, st))), f.loc)
        rep.ob('update-refreshes', 'done_1Dbins cleared', h('done_1Dbins') is FALSE, 'done_1Dbins is %s' % (h('done_1Dbins') and show(h('done_1Dbins'))), f.loc)
        rep.ob('update-refreshes', 'indep_thin cleared', h('indep_thin') is const(0), '', f.loc)
        rep.ob('update-refreshes', 'needs_update cleared', h('needs_update') is FALSE, '', f.loc)
        for a in ('means', 'vars', 'sddev', 'fullcov', 'max_mult', 'mean_mult'):
            v2 = h(a)
            rep.ob('update-refreshes', a + ' recomputed', v2 is not None and not contains(v2, mk('attr', me, a)) or
                   (a == 'means' and v2 is not None and means_ok(v2, me)), '%s = %s' % (a, v2 is not None and show(v2, 5)), f.loc)
        ls = h('likeStats')
        rep.ob('update-refreshes', 'likeStats recomputed', ls is not None and not contains(ls, mk('attr', me, 'likeStats')), '', f.loc)
        ix = h('index')
        rep.ob('update-refreshes', 'index recomputed', ix is not None and not contains(I.res(ix, st), mk('attr', me, 'index')), '', f.loc)
    neff = [e for e in I.events if e.kind == 'setattr' and e.name == 'N_eff_kde' and e.value is NONE]
    rep.ob('update-refreshes', 'per-parameter effective sample number cleared',
           any(whole_names_loop(e) and not path_conditional(e) for e in neff), 'N_eff_kde must be reset for every parameter', f.loc)
    lim = [e for e in I.events if e.kind == 'repocall' and e.name == '_initLimits']
    rep.ob('update-refreshes', 'prior ranges re-read', bool(lim), '', f.loc)

    # ---- readers
    ensures = {'get1DDensity', 'get1DDensityGridData', 'get2DDensity', 'get2DDensityGridData'}
    priv = [g.qual for k in (M, C, W) for g in k.methods.values() if g.name.startswith('_') and not g.name.startswith('__') or g.name in ('setMeans', 'getVars', 'getMeans', 'getCov')]
    # which methods leave the object current
    confirmed = set()
    for name in sorted(ensures):
        g = p.find_method(M, name)
        if g is None:
            raise AnalysisError('MCSamples.%s vanished' % name)
        F = Fresh(())
        F.me = me
        I = Interp(p, inline=policy(*priv, opaque=OPAQUE_READERS), on_event=F.on_event, join_client=F.join, budget=300000)
        I.watch = ()
        rets, raised = I.run_function(g, cls=M)
        if all(F.fresh(st.client, st) for st, v in rets) and rets:
            confirmed.add(name)
    for name, g in sorted(methods_of(p, M).items()):
        if name.startswith('_') and name not in ('_makeParamvec', '_setDensitiesandMarge1D') or name in (UPDATE,):
            continue
        if 'staticmethod' in g.decorators:
            continue
        F = Fresh(confirmed)
        F.me = me
        I = Interp(p, inline=policy(*priv, opaque=OPAQUE_READERS), on_event=F.on_event, join_client=F.join, budget=300000)
        I.watch = set(UPDATED) | set(NONE_RESET)
        I.run_function(g, cls=M)
        rep.analysed(I)
        seen = {}
        for ev, ok in F.reads:
            if only_tested(ev):
                continue
            k = (ev.name, ev.func.qual)
            seen.setdefault(k, [True, ev])
            if not ok:
                seen[k] = [False, ev]
        for (a, q), (ok, ev) in sorted(seen.items()):
            rep.ob('read-when-current', 'MCSamples.%s reads %s' % (name, a) + ('' if q == g.qual else ' in ' + q.split(':')[1]), ok,
                   'reads cached %s without making sure it describes the present samples' % a, ev.loc)

    # ---- lazily computed statistics
    for name, attr in (('getCov', 'fullcov'), ('getCorrelationMatrix', 'correlationMatrix'), ('getMeans', 'means'), ('get_norm', 'norm')):
        g = p.find_method(W, name)
        if g is None:
            raise AnalysisError('WeightedSamples.%s vanished' % name)
        wself = mk('self', W.qual)
        a0 = mk('attr', wself, attr)
        I = Interp(p, inline=policy('WeightedSamples._setCov', 'WeightedSamples.setMeans'))
        rets, raised = I.run_function(g, facts=(compare('is', a0, NONE),))
        ok = bool(rets)
        for st, v in rets:
            val = logic.under(I.res(v, st), st.facts)
            if contains(val, a0):
                ok = False
        rep.ob('memo-reset-value', '%s recomputes when %s is empty' % (name, attr), ok, 'returns the empty cache', g.loc)


OPAQUE_READERS = ('getdist.mcsamples:MCSamples._setMargeLimits', 'getdist.mcsamples:MCSamples._make2Dhist', 'getdist.mcsamples:MCSamples._initLimits')


_tested = {}


def only_tested(ev):
    """the read is the operand of a None test, or only gives the value a local name: no stale number is used here"""
    m = ev.func.module
    if m.name not in _tested:
        ids = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                ids.add(id(n.left))
                ids.add(id(n.comparators[0]))
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute):
                ids.add(id(n.value))
            elif isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute):
                ids.add(id(n.value))
        _tested[m.name] = ids
    return ev.name in NONE_RESET and id(ev.node) in _tested[m.name]


def means_ok(v, me):
    """means: kept only where getVars saw them not None (they are reset on every change)"""
    from sa.terms import alternatives
    a0 = mk('attr', me, 'means')
    for cond, leaf in alternatives(v):
        if leaf is a0:
            if not logic.implies(cond, neg(compare('is', a0, NONE))):
                return False
        elif contains(leaf, a0):
            return False
    return True


def whole_names_loop(e):
    """the event sits in a loop over all parameter names (not a part of them)"""
    for site, it in e.loops:
        if any_sub(it, lambda x: x.op == 'attr' and x.args[1] == 'names'):
            if it.op == 'attr' or (it.op == 'enum' and it.args[0].op == 'attr'):
                return True
            if any_sub(it, lambda x: x.op == 'call' and x.args[0].op == 'builtin' and x.args[0].args[0] == 'range'):
                return True
    return False


def path_conditional(e):
    """is the event under a condition that varies with the loop element?"""
    return any(any_sub(f, lambda x: x.op in ('elem', 'idx')) for f in e.facts)
