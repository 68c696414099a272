"""P23: weighted statistics.

Every statistic of the sample classes is typed by how it responds to a common factor on
the weights of the rows used, to the unit of the parameter and to an offset of the
parameter (sa/dims.py).  Each method is analysed on its own, assuming the declared
types of the methods it calls, once without and once with a row selection.
"""
import ast
from .common import *
from sa import dims
from sa.dims import UNIT, poly, padd, Dims, Dim, ALL, ANY, TOP, ONE
from fractions import Fraction

F = Fraction
P = lambda n: mk('param', n)
FULL = mk('slice', NONE, NONE, NONE)


def W(r, k=1):
    return (('W', r), F(k))


def U(p, k=1):
    return (('U', p), F(k))


# declared type of each method's result: (power of the weights, power of the unit, moves with the parameter, vector over the rows)
SPEC = {
    'weighted_sum': (1, 1, 'w', False),
    'get_norm': (1, 0, 0, False),
    'mean': (0, 1, 1, False),
    'var': (0, 2, 0, False),
    'std': (0, 1, 0, False),
    'cov': (0, 2, 0, False),
    'corr': (0, 0, 0, False),
    'mean_diff': (0, 1, 0, True),
    'mean_diffs': (0, 1, 0, True),
    'getMeans': (0, 1, 1, False),
    'setMeans': (0, 1, 1, False),
    'getVars': (0, 2, 0, False),
    'getCov': (0, 2, 0, False),
    '_setCov': (0, 2, 0, False),
    'getCorrelationMatrix': (0, 0, 0, False),
    '_makeParamvec': (0, 1, 1, True),
    'confidence': (0, 1, 1, False),
    'twoTailLimits': (0, 1, 1, False),
    'getAutocorrelation': None,
    'getCorrelationLength': None,
    'getEffectiveSamples': (0, 0, 0, False),
    'getEffectiveSamplesGaussianKDE': (0, 0, 0, False),
    'getEffectiveSamplesGaussianKDE_2d': (0, 0, 0, False),
}
ATTRS = {
    'mean_loglike': (0, 0, 1, False), 'norm': (1, 0, 0, False), 'weights': (1, 0, 0, True), 'means': (0, 1, 1, False), 'vars': (0, 2, 0, False), 'sddev': (0, 1, 0, False),
    'fullcov': (0, 2, 0, False), 'correlationMatrix': (0, 0, 0, False), 'diffs': (0, 1, 0, True), 'samples': (0, 1, 1, True),
}


def bound(f, t):
    """arguments of a call by parameter name"""
    names = [a.arg for a in f.node.args.args]
    if names and names[0] == 'self':
        names = names[1:]
    out = dict(zip(names, t.args[2] if t.op == 'meth' else t.args[1]))
    out.update({k: v for k, v in (t.args[3] if t.op == 'meth' else t.args[2])})
    return out


class Typing(object):
    def __init__(self, p, cls, me, events):
        self.p, self.cls, self.me = p, cls, me
        arrays = {}
        for e in events:
            if e.kind == 'setitem' and e.base is not None and e.base.op == 'call' and any(k == '$at' for k, _ in e.base.args[2]):
                arrays.setdefault(e.base, []).append(e.value)
        self.D = Dims(self.base, arrays)

    def mk(self, spec, rows, unit):
        w, u, s, vec = spec
        e = {}
        if w:
            e[('W', rows)] = F(w)
        if u:
            e[('U', unit)] = F(u)
        sh = 0 if s == 0 else (UNIT, None) if s == 1 else (UNIT, rows)
        return Dim(e, sh, rows if vec else None)

    def rowtag(self, t):
        return ALL if t is None or t is NONE else t

    def base(self, t, D):
        if t.op == 'attr':
            o, a = t.args
            if o is self.me or self.is_samples(o):
                r = ALL if o is self.me else mk('rows of', o)
                if a == 'loglikes':
                    return Dim((), (UNIT, None), r)
                if a in ATTRS:
                    return self.mk(ATTRS[a], r, '*')
                if a in ('numrows', 'n', 'contours'):
                    return ONE
            if a in ('paramVec', 'norm', 'cumsum', 'indexes') and (o.op == 'param' or o.op == 'meth' and o.args[1] == 'initParamConfidenceData'):
                r = mk('rows of', o)
                return {'paramVec': Dim({('U', o): F(1)}, (UNIT, None), r), 'norm': Dim({('W', r): F(1)}), 'cumsum': Dim({('W', r): F(1)}, 0, r), 'indexes': ONE}[a]
            return NotImplemented
        if t.op == 'item':
            b, i = t.args
            if b.op == 'attr' and (b.args[0] is self.me or self.is_samples(b.args[0])):
                r = ALL if b.args[0] is self.me else mk('rows of', b.args[0])
                if b.args[1] == 'samples' and i.op == 'tuple' and len(i.args) == 2:
                    rows = r if i.args[0] is FULL else i.args[0]
                    return Dim({('U', i.args[1]): F(1)} if i.args[1].op != 'slice' else {('U', '*'): F(1)}, (UNIT, None), rows)
                if b.args[1] in ('means', 'sddev', 'vars') and i.op != 'slice':
                    return self.mk(ATTRS[b.args[1]], r, i)
                if b.args[1] == 'diffs' and i.op != 'slice':
                    return self.mk(ATTRS['diffs'], r, i)
            if b.op == 'meth' and b.args[0] is self.me and b.args[1] in ('mean_diffs', 'getMeans', 'getVars') and i.op != 'slice':
                d = self.D.of(b)
                return None if d is None else Dim({k if k[0] != 'U' else ('U', i): v for k, v in d.exps}, d.shift, d.rows)
            return NotImplemented
        if t.op == 'elem' and t.args[0].op == 'meth' and t.args[0].args[0] is self.me and t.args[0].args[1] in ('mean_diffs', 'getMeans', 'getVars'):
            d = self.D.of(t.args[0])
            return None if d is None else Dim({k if k[0] != 'U' else ('U', mk('idx', t.args[0])): v for k, v in d.exps}, d.shift, d.rows)
        if t.op == 'meth' and (t.args[0] is self.me or self.is_samples(t.args[0])) and t.args[1] in SPEC:
            f = self.p.find_method(self.cls, t.args[1])
            if f is None:
                return None
            b = bound(f, t)
            spec = SPEC[t.args[1]]
            if t.args[1] == 'getAutocorrelation':
                nrm, wu = b.get('normalized', TRUE), b.get('weight_units', TRUE)
                if not is_const(nrm) or not is_const(wu):
                    return None
                spec = (1 if cval(wu) else 2, 0 if cval(nrm) else 2, 0, False)
            elif t.args[1] == 'getCorrelationLength':
                wu = b.get('weight_units', TRUE)
                if not is_const(wu):
                    return None
                spec = (1 if cval(wu) else 2, 0, 0, False)
            own = ALL if t.args[0] is self.me else mk('rows of', t.args[0])
            rows = b.get('where')
            rows = own if rows is None or rows is NONE else rows
            par = b.get('paramVec', b.get('par', b.get('j')))
            unit = '*'
            if par is not None and t.args[1] not in ('mean_diffs', 'cov'):
                unit = self.unit(par)
                if par.op in ('bin', 'call') and spec[0] in (0, 1):
                    x = D.of(par)
                    if x is None or x is ANY:
                        return None
                    if spec[:2] == (0, 1) and spec[2] == 1:
                        return x.but(rows=None)
                    e = {k: v * spec[1] for k, v in x.exps}
                    if spec[0]:
                        e[('W', rows)] = e.get(('W', rows), 0) + 1
                    return Dim(e, 0 if x.shift == 0 or spec[2] == 0 and x.shift != TOP else TOP, rows if spec[3] else None)
            return self.mk(spec, rows, unit)
        if t.op == 'call' and t.args[0].op == 'func':
            n = t.args[0].args[0].split(':')[1]
            if n == 'covToCorr':
                return ONE
            if n == 'autoConvolve':
                x = D.of(t.args[1][0])
                return None if x is None else Dim({k: v * 2 for k, v in x.exps}, 0 if x.shift == 0 else TOP, None)
        if t.op == 'param':
            if t.args[0] in ('paramVec', 'par'):
                return Dim({('U', t): F(1)}, (UNIT, None), ALL)
            if t.args[0] in ('h', 'min_corr', 'sample_weights', 'maxOff', 'maxoff',  'limfrac', 'n', 'cool'):
                return ONE
            if t.args[0] == 'logLikes':
                return Dim((), (UNIT, None), ALL)
            if t.args[0] == 'scale':
                return None
        return NotImplemented

    def unit(self, par):
        """the parameter a vector belongs to"""
        if par.op == 'meth' and par.args[1] == '_makeParamvec':
            return self.unit(par.args[2][0])
        if par.op == 'item' and par.args[0].op == 'attr' and par.args[0].args[1] == 'samples' and par.args[1].op == 'tuple':
            return par.args[1].args[1]
        return par

    def is_samples(self, o):
        return o.op == 'elem' and o.args[0].op == 'attr' and o.args[0].args[1] in ('chains',) or o.op == 'elem' and o.args[0].op == 'meth' and o.args[0].args[1] == 'getSeparateChains' or \
            o in (P('samps2'), mk('elem', P('chainlist')))


def judge(rep, rule, construct, d, spec, rows, loc, conflicts, detail=''):
    """compare with the declared type; nothing is reported where nothing is known"""
    if conflicts:
        rep.ob(rule, construct, False, '; '.join(sorted({w + ' in ' + show(t, 4) for t, w in conflicts}))[:400], loc)
        return
    if d is None or d is ANY:
        rep.note(rule, construct, 'not decided: value not typed')
        return
    w, u, s, vec = spec
    got_w = {k[1]: v for k, v in d.exps if k[0] == 'W'}
    ok = got_w == ({rows: F(w)} if w else {}) and d.deg('U') == u
    why = ''
    if not ok:
        why = 'is %s; weight power %s and unit power %s expected' % (d.text(), w, u)
    elif d.raw:
        ok, why = False, 'summed over the samples without their weights'
    elif d.shift == TOP or d.shift != (0 if s == 0 else (UNIT, None) if s == 1 else (UNIT, rows)):
        ok, why = False, 'adding a constant to the parameter %s the result' % ('does not shift' if s else 'changes')
    elif vec and d.rows is not None and d.rows is not rows:
        ok, why = False, 'runs over rows %s' % dims.rtext(d.rows)
    rep.ob(rule, construct, ok, why, loc)


def check(p, rep):
    rep.rule('statistic', 'a statistic is independent of a common factor on the weights, scales with the unit of its parameter and moves with it as declared, and every sum over samples carries their weights', 12)
    rep.rule('stored', 'a stored statistic has the declared scaling', 5)
    rep.rule('selection', 'a statistic asked for a selection of the samples is computed from that selection alone: every value, weight and normalisation used is restricted to it', 8)
    rep.rule('likelihood', 'summaries of the likelihood move with a constant added to all log likelihoods; differences of them do not', 3)
    rep.rule('combine', 'combining two sets of samples does not depend on the scale of either set of weights', 0)
    rep.rule('reweight', 'a change of the log likelihoods by D multiplies the weight of each sample by exp(-D), up to a common factor', 0)
    rep.rule('binned', 'a histogram of samples counts each with its weight', 3)
    Wc = p.cls('getdist.chains', 'WeightedSamples')
    me = mk('self', Wc.qual)
    for name in sorted(SPEC):
        f = p.find_method(Wc, name)
        if f is None:
            raise AnalysisError('WeightedSamples.%s vanished' % name)
        if name == '_makeParamvec':
            continue
        params = [a.arg for a in f.node.args.args]
        cases = [('', {})]
        if 'where' in params:
            cases = [('', {'where': NONE}), (' of a selection', {})]
        for tag, args in cases:
            facts = () if args or 'where' not in params else (neg(compare('is', P('where'), NONE)),)
            if name == 'confidence':
                facts = (neg(mk('isinstance', P('paramVec'), mk('tuple', mk('glob', 'getdist.chains', 'ParamConfidenceData')))),)
            if name in ('getAutocorrelation', 'getCorrelationLength'):
                combos = [{'weight_units': TRUE}, {'weight_units': FALSE}]
                if name == 'getAutocorrelation':
                    combos = [dict(c, normalized=b) for c in combos for b in (TRUE, FALSE)]
            else:
                combos = [{}]
            for extra in combos:
                a = dict(args)
                a.update(extra)
                for x in ('weights', 'corr', 'scale'):
                    if x in params:
                        a[x] = NONE
                I = Interp(p, inline=policy(), budget=300000)
                rets, raised = I.run_function(f, args=a, cls=Wc, facts=facts)
                rep.analysed(I)
                rows = P('where') if tag else ALL
                spec = SPEC[name]
                if name == 'getAutocorrelation':
                    spec = (1 if extra['weight_units'] is TRUE else 2, 0 if extra['normalized'] is TRUE else 2, 0, False)
                elif name == 'getCorrelationLength':
                    spec = (1 if extra['weight_units'] is TRUE else 2, 0, 0, False)
                T = Typing(p, Wc, me, I.events)
                n = 0
                for st, v in rets:
                    for fs, leaf in alts(I.res(v, st), st.facts):
                        T.D.conflicts = []
                        T.D.memo = {}
                        d = T.D.of(leaf)
                        for x in walk(leaf):
                            if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] == 'numpy.searchsorted':
                                T.D.of(x)
                        cf = list(T.D.conflicts)
                        label = 'WeightedSamples.%s%s%s' % (name, tag, ' (%s)' % ', '.join('%s=%s' % (k, cval(b)) for k, b in sorted(extra.items())) if extra else '')
                        judge(rep, 'statistic' if not tag else 'selection', label, d, spec, rows, f.loc, cf)
                # stored statistics
                for e in I.events:
                    if e.kind == 'setattr' and e.base is me and e.name in ATTRS and e.value is not None and e.value is not NONE and not tag:
                        T.D.conflicts = []
                        T.D.memo = {}
                        d = T.D.of(e.value)
                        judge(rep, 'stored', '%s set by %s' % (e.name, name), d, ATTRS[e.name], ALL, e.loc, list(T.D.conflicts))
                # every statistic used for a selection is that of the selection
                if 'where' in params:
                    for e in I.events:
                        if e.kind in ('repocall', 'meth') and e.base is me and e.name in SPEC:
                            g = p.find_method(Wc, e.name)
                            if 'where' not in [x.arg for x in g.node.args.args]:
                                continue
                            b = bound(g, e.result)
                            wv = b.get('where', NONE)
                            ok = wv is P('where') if tag else wv is NONE
                            rep.ob('selection', '%s uses %s%s' % (name, e.name, tag), ok, 'computed for %s' % ('all samples' if wv is NONE else show(wv, 3)), e.loc)
    for name in ('reweightAddingLogLikes', 'cool'):
        f = p.find_method(Wc, name)
        if f is None:
            raise AnalysisError('WeightedSamples.%s vanished' % name)
        I = Interp(p, inline=policy(), budget=300000)
        I.run_function(f, cls=Wc)
        rep.analysed(I)
        T = Typing(p, Wc, me, I.events)
        for e in I.events:
            if e.kind == 'setattr' and e.base is me and e.name == 'weights':
                T.D.conflicts = []
                T.D.memo = {}
                judge(rep, 'stored', 'weights set by %s' % name, T.D.of(e.value), ATTRS['weights'], ALL, e.loc, list(T.D.conflicts))
                # importance weights: weight * exp(-log likelihood) as before
                newL = [x for x in I.events if x.kind == 'setattr' and x.base is me and x.name == 'loglikes']
                ex = [x for x in walk(e.value) if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] == 'numpy.exp']
                if newL and len(ex) == 1:
                    L = mk('attr', me, 'loglikes')
                    q = padd(poly(ex[0].args[1][0]), padd(poly(newL[0].value), {(L,): -1}))
                    vec = [m for m in q if any(T.D.of(x) is not None and T.D.of(x).rows is not None for x in m)]
                    rep.ob('reweight', name, not vec, 'weights are multiplied by exp(%s) while the log likelihoods become %s' % (show(ex[0].args[1][0], 5), show(newL[0].value, 4)), e.loc)
            if e.kind == 'inplace' and e.base is mk('attr', me, 'weights'):
                T.D.conflicts = []
                T.D.memo = {}
                d = T.D.of(e.value)
                if d is not None and d is not ANY:
                    rep.ob('stored', 'weights set by %s' % name, e.name == '*' and not d.exps and d.shift == 0, 'weights %s= %s' % (e.name, d.text()), e.loc)
    f = p.find_method(Wc, 'initParamConfidenceData')
    I = Interp(p, inline=policy())
    rets, raised = I.run_function(f, args={'weights': NONE}, cls=Wc)
    rep.analysed(I)
    T = Typing(p, Wc, me, I.events)
    for e in I.events:
        if e.kind in ('call', 'construct') and e.result is not None and e.kwargs and dict(e.kwargs).get('cumsum') is not None:
            kw = dict(e.kwargs)
            rng = mk('slice', P('start'), P('end'), NONE)
            pv, nm, cs, ix = kw.get('paramVec'), kw.get('norm'), kw.get('cumsum'), kw.get('indexes')
            for key, spec in (('norm', (1, 0, 0, False)), ('cumsum', (1, 0, 0, True)), ('paramVec', (0, 1, 1, True))):
                T.D.conflicts = []
                T.D.memo = {}
                d = T.D.of(kw[key])
                if d is None:
                    continue
                rep.ob('statistic', 'confidence data: %s' % key, d.deg('W') == spec[0] and d.deg('U') == spec[1] and not d.raw and not T.D.conflicts, 'is %s' % d.text(), e.loc)
                if key != 'cumsum' and d.rows is not None or key == 'norm':
                    r = d.rows if key != 'norm' else [k[1] for k, _ in d.exps if k[0] == 'W'][0] if d.exps else None
                    if r is not None and (r.op == 'slice' or r is ALL):
                        rep.ob('selection', 'confidence data: %s over the requested rows' % key, r is rng, 'rows %s' % show(r), e.loc)
    # histograms
    M = p.cls('getdist.mcsamples', 'MCSamples')
    mm = mk('self', M.qual)
    for nm, g in sorted(M.methods.items()):
        src = ast.dump(g.node)
        if 'thin_indices' in src or not any(x in src for x in ("attr='bincount'", "attr='histogram'", "attr='histogram2d'")):
            continue
        I = Interp(p, inline=policy(), budget=300000)
        I.run_function(g, cls=M)
        rep.analysed(I)
        T = Typing(p, M, mm, I.events)
        for e in I.events:
            if e.kind == 'call' and e.fn.op == 'ext' and e.fn.args[0] in ('numpy.bincount', 'numpy.histogram', 'numpy.histogram2d'):
                w = e.kw('weights') or (e.args[1] if e.fn.args[0] == 'numpy.bincount' and len(e.args) > 1 else None)
                if w is None:
                    rep.ob('binned', 'MCSamples.%s' % nm, False, 'samples are counted without their weights', e.loc)
                    continue
                T.D.conflicts = []
                T.D.memo = {}
                d = T.D.of(w)
                if d is None or d is ANY:
                    rep.note('binned', 'MCSamples.%s' % nm, 'not decided')
                    continue
                rep.ob('binned', 'MCSamples.%s' % nm, d.deg('W') == 1, 'counted with %s' % d.text(), e.loc)
    # likelihood summaries: adding a constant to all log likelihoods
    f = p.find_method(M, '_setLikeStats')
    I = Interp(p, inline=policy(), budget=300000)
    I.run_function(f, cls=M, facts=(neg(compare('is', mk('attr', mm, 'loglikes'), NONE)),))
    rep.analysed(I)
    T = Typing(p, M, mm, I.events)
    want = {'logLike_sample': 1, 'meanLogLike': 1, 'logMeanLike': 1, 'logMeanInvLike': 1, 'complexity': 0}
    for e in I.events:
        if e.kind == 'setattr' and e.name in want and e.value is not NONE:
            for fs, leaf in alts(e.value, e.facts):
                if leaf is NONE:
                    continue
                T.D.conflicts = []
                T.D.memo = {}
                judge(rep, 'likelihood', 'LikeStats.%s' % e.name, T.D.of(leaf), (0, 0, want[e.name], False), ALL, e.loc, list(T.D.conflicts))
        if e.kind == 'call' and e.fn.op == 'ext' and e.fn.args[0] == 'numpy.searchsorted':
            T.D.conflicts = []
            T.D.memo = {}
            T.D.of(e.result)
            rep.ob('likelihood', 'N-dimensional region', not T.D.conflicts, '; '.join(w for _, w in T.D.conflicts), e.loc)
    # combined samples
    f = p.find_method(M, 'getCombinedSamplesWithSamples')
    I = Interp(p, inline=policy(), budget=300000)
    I.run_function(f, cls=M, facts=(neg(compare('is', P('sample_weights'), NONE)),))
    rep.analysed(I)
    T = Typing(p, M, mm, I.events)
    for e in I.events:
        if e.kind == 'construct' and e.kw('weights') is not None:
            w = e.kw('weights')
            parts = [x for x in walk(w) if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('numpy.concatenate', 'numpy.hstack')]
            for c in parts:
                ds = [T.D.of(x) for x in c.args[1][0].args]
                if len(ds) == 2 and None not in ds and ANY not in ds:
                    rep.ob('combine', 'relative weight of combined samples', dims.compat(*ds), 'one set is weighted by %s, the other by %s' % (ds[0].text(), ds[1].text()), e.loc)
    C = p.cls('getdist.chains', 'Chains')
    f = p.find_method(C, 'getGelmanRubinEigenvalues')
    I = Interp(p, inline=policy(), budget=300000)
    rets, raised = I.run_function(f, cls=C, facts=(neg(compare('is', P('chainlist'), NONE)),))
    rep.analysed(I)
    T = Typing(p, C, mk('self', C.qual), I.events)
    for st, v in rets:
        for fs, leaf in alts(I.res(v, st), st.facts):
            if leaf is NONE:
                continue
            T.D.conflicts = []
            T.D.memo = {}
            judge(rep, 'statistic', 'Chains.getGelmanRubinEigenvalues', T.D.of(leaf), (0, 0, 0, False), ALL, f.loc, list(T.D.conflicts))
