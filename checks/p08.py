"""P08: marginalised limits have the probability and the direction they claim.

 kinds      which limit is given in which case, its two ends and its tag
 levels     each limit belongs to the contour level of its index; one is stored for each level, in order
 quantile   the sample quantile functions
 density    the equal-density limits of a one-dimensional density and their flags
 tags       tag and attributes of a limit determine each other
 text       the limit asked for is the one quoted, from the right side
 region     limits of the N-dimensional confidence region
 prior      lower and upper prior limits are not mixed up
"""
from .refspec import *

LIMITS = '''
def _setMargeLimits(self, par, paramConfid, max_frac_twotail=None, density1D=None):
    if max_frac_twotail is None:
        max_frac_twotail = self.max_frac_twotail
    density1D = density1D or self.get1DDensity(par.name)
    par.limits = []
    for ix, c in enumerate(self.contours):
        high_bot = par.has_limits_bot and not self.force_twotail and density1D.P[0] > max_frac_twotail[ix]
        high_top = par.has_limits_top and not self.force_twotail and density1D.P[-1] > max_frac_twotail[ix]
        if high_bot and high_top:
            lim, tag = [par.range_min, par.range_max], 'none'
        else:
            mn, mx, bot, top = density1D.getLimits(c, None)
            if bot and top:
                lim, tag = [par.range_min, par.range_max], 'none'
            elif bot:
                lim, tag = [par.range_min, self.confidence(paramConfid, 1 - c, upper=True)], '>'
            elif top:
                lim, tag = [self.confidence(paramConfid, 1 - c, upper=False), par.range_max], '<'
            else:
                lo, hi = self.confidence(paramConfid, (1 - c) / 2, upper=False), self.confidence(paramConfid, (1 - c) / 2, upper=True)
                tag = 'two'
                if math.fabs(density1D.Prob(hi) - density1D.Prob(lo)) < self.credible_interval_threshold:
                    lim = [lo, hi]
                else:
                    lim = [mn, mx]
        par.limits.append(types.ParamLimit(lim, tag))
'''


def quantile_hook(cn, t):
    """quantiles by their probability; the limits of a density without the table they are looked up in"""
    if t.op == 'meth' and t.args[1] == 'getLimits' and t.args[2]:
        return Poly.atom(('getLimits', cn.key(t.args[0]), cn.key(t.args[2][0])))
    if t.op in ('meth', 'call'):
        name = t.args[1] if t.op == 'meth' else t.args[0].args[-1] if t.args[0].op in ('bound', 'func') else None
        if isinstance(name, str) and name.split('.')[-1] in ('confidence', 'twoTailLimits'):
            a = list(t.args[2] if t.op == 'meth' else t.args[1])
            kw = dict(t.args[3] if t.op == 'meth' else t.args[2])
            name = name.split('.')[-1]
            vec = a[0] if a else kw.pop('paramVec', None)
            if vec is None:
                return None
            if name == 'confidence':
                lim = a[1] if len(a) > 1 else kw.get('limfrac')
                up = a[2] if len(a) > 2 else kw.get('upper', FALSE)
                if lim is None or truth(up) not in (TRUE, FALSE) or len(a) > 3 or set(kw) - {'limfrac', 'upper'}:
                    return None
                q = cn.poly(lim)
                if truth(up) is TRUE:
                    q = Poly.num(1) - q
                return Poly.atom(('quantile', cn.key(vec), q.key()))
    if t.op == 'item' and t.args[0].op in ('meth', 'call') and t.args[0].args[1] == 'twoTailLimits' and isinstance(cval(t.args[1]), int):
        a = t.args[0].args[2]
        if len(a) == 2:
            c, k = cn.poly(a[1]), cval(t.args[1])
            q = (Poly.num(1) - c) * Poly.num('1/2')
            return Poly.atom(('quantile', cn.key(a[0]), (q if k in (0, -2) else Poly.num(1) - q).key()))
    return None


def limits_made(I):
    return [e for e in I.events if e.kind == 'repocall' and e.name == '__init__' and e.base is not None and e.base.op == 'new' and str(e.base.args[0]).endswith(':ParamLimit')]


def two(e, names=('minmax', 'tag'), default=('two',)):
    kw = dict(e.kwargs or ())
    a = list(e.args)
    x = a[0] if a else kw.get(names[0])
    y = a[1] if len(a) > 1 else kw.get(names[1], const(default[0]))
    return mk('tuple', x, y)


def kinds(p, rep, c):
    f = p.find_method(c, '_setMargeLimits')
    if f is None:
        raise AnalysisError('MCSamples._setMargeLimits not found')
    I = run(p, rep, f, c)
    R = run(p, rep, reference(f, LIMITS), c, count=False)
    g, w = limits_made(I), limits_made(R)
    if len(g) != 1 or len(w) != 1:
        rep.note('kinds', '_setMargeLimits', '%d places make limits' % len(g))
        return
    got, want = two(g[0]), two(w[0])
    # the table the limits are looked up in does not change them
    got = subst(got, {x: mk('meth', x.args[0], 'getLimits', (x.args[2][0], NONE), ()) for x in walk(got) if x.op == 'meth' and x.args[1] == 'getLimits' and x.args[2]})
    loc = g[0].loc
    cn = Canon(quantile_hook)
    cs = cases(got, want, frozenset(), cn)
    if cs is None:
        rep.note('kinds', '_setMargeLimits', 'too many conditions')
        return
    groups = {}
    for fs, x, y, same_ in cs:
        groups.setdefault(show(y, 6), []).append((fs, x, y))
    for name, items in sorted(groups.items()):
        for k, part in ((0, 'limits'), (1, 'tag')):
            what = '%s: %s' % (name[:150], part)
            bad = [(fs, x, y) for fs, x, y in items if cn.key(x.args[k]) != cn.key(y.args[k])]
            if bad:
                fs, x, y = bad[0]
                ok, extra = understood(x, want)
                if not ok:
                    rep.note('kinds', what, 'uses %s' % sorted(map(str, extra)))
                    continue
                rep.ob('kinds', what, False, 'gives %s instead if %s' % (show(x.args[k], 6)[:250], ' and '.join(sorted(show(z, 3) for z in fs))[:300]), loc)
            else:
                rep.ob('kinds', what, True, '', loc)
    # one for each level
    ap = [e for e in I.events if e.kind == 'meth' and e.name in ('append', 'insert') and e.args and any(x is g[0].base or x.op == 'new' and x.args[0] == g[0].base.args[0] for a in e.args for x in walk(a))]
    if len(ap) == 1:
        fs = [x for x in ap[0].facts if any(s.op in ('elem', 'idx', 'lv') or s.op == 'attr' and s.args[1] in ('has_limits_bot', 'has_limits_top', 'force_twotail') for s in walk(x))]
        rep.ob('levels', 'a limit for every level', not fs, 'stored only if %s' % [show(x, 4) for x in fs], ap[0].loc)
        rep.ob('levels', 'in the order of the levels', ap[0].name == 'append', 'stored out of order', ap[0].loc)
    own = [e for e in I.events if e.kind == 'setattr' and e.name == 'limits']
    if own:
        rep.ob('levels', 'limits start from an empty list', all(e.base is mk('param', 'par') and (e.value.op == 'seq' and not any(x.op in ('attr', 'meth') and 'limits' in x.args for x in walk(e.value))) for e in own), 'limits of an earlier calculation are kept', own[0].loc)



CONFIDENCE = """
def confidence(self, paramVec, limfrac, upper=False, start=0, end=None, weights=None):
    d = paramVec if isinstance(paramVec, ParamConfidenceData) else self.initParamConfidenceData(paramVec, start, end, weights)
    target = d.norm * (1 - limfrac) if upper else d.norm * limfrac
    return d.paramVec[d.indexes[np.minimum(np.searchsorted(d.cumsum, target), d.indexes.shape[0] - 1)]]
"""
CONFDATA = """
def initParamConfidenceData(self, paramVec, start=0, end=None, weights=None):
    w = self.weights if weights is None else weights
    v = self._makeParamvec(paramVec)[start:end]
    ix = v.argsort()
    return ParamConfidenceData(paramVec=v, norm=np.sum(w[start:end]), indexes=ix, cumsum=np.cumsum(w[start + ix]))
"""
TWOTAIL = """
def twoTailLimits(self, paramVec, confidence):
    return self.confidence(paramVec, np.array([(1 - confidence) / 2, 1 - (1 - confidence) / 2]))
"""
GETLIMITS = """
def getLimits(self, p, interpGrid=None, accuracy_factor=None, LEVEL=None):
    g = interpGrid or self.initLimitGrids(accuracy_factor)
    parr = np.atleast_1d(p)
    targets = (1 - parr) * g.norm
    ixs = np.searchsorted(g.cumsum, targets)
    results = []
    for ix, target in zip(ixs, targets):
        trial = LEVEL
        fine = self.spacing / g.factor
        bot = g.grid[0] >= trial
        top = g.grid[-1] >= trial
        i = np.argmax(g.grid > trial)
        j = g.bign - np.argmax(g.grid[::-1] > trial) - 1
        mn = self.x[0] if bot else self.x[0] + (i - (g.grid[i] - trial) / (g.grid[i] - g.grid[i - 1])) * fine
        mx = self.x[-1] if top else self.x[0] + (j + (g.grid[j] - trial) / (g.grid[j] - g.grid[j + 1])) * fine
        results.append((mn, mx, bot, top))
    return results
"""
GRIDS = """
def initLimitGrids(self, factor=None):
    if self.spl is None:
        self._initSpline()
    g = InterpGridCache()
    g.factor = max(2, 20000 // self.n) if factor is None else factor
    g.bign = (self.n - 1) * g.factor + 1
    g.grid = splev(self.x[0] + np.arange(g.bign) * self.spacing / g.factor, self.spl)
    g.norm = np.sum(g.grid) - self.P[-1] / 2 - self.P[0] / 2
    g.sortgrid = np.sort(g.grid)
    g.cumsum = np.cumsum(g.sortgrid)
    return g
"""
LIKE = """
def _setLikeStats(self):
    if self.loglikes is None:
        self.likeStats = None
        return None
    m = types.LikeStats()
    best = np.argmin(self.loglikes)
    m.logLike_sample = self.loglikes[best]
    order = self.loglikes.argsort()
    inside = np.searchsorted(np.cumsum(self.weights[order]), self.norm * self.contours[0:2])
    m.ND_cont1, m.ND_cont2 = inside
    for j, par in enumerate(self.paramNames.names):
        r1 = self.samples[order[:m.ND_cont1], j]
        r2 = self.samples[order[:m.ND_cont2], j]
        par.ND_limit_bot = np.array([np.min(r1), np.min(r2)])
        par.ND_limit_top = np.array([np.max(r1), np.max(r2)])
        par.bestfit_sample = self.samples[best][j]
    self.likeStats = m
    return m
"""
INIT = """
def __init__(self, minmax, tag='two'):
    self.lower = minmax[0]
    self.upper = minmax[1]
    self.twotail = tag == 'two'
    self.onetail_upper = tag == '>'
    self.onetail_lower = tag == '<'
"""
TAG = """
def limitTag(self):
    if self.twotail:
        return 'two'
    if self.onetail_upper:
        return '>'
    if self.onetail_lower:
        return '<'
    return 'none'
"""
INITLIMITS = """
def _initLimits(self, ini=None):
    for par in self.paramNames.names:
        par.limmin = self.ranges.getLower(par.name)
        par.limmax = self.ranges.getUpper(par.name)
        par.has_limits_bot = par.limmin is not None
        par.has_limits_top = par.limmax is not None
"""
UPPER = """
def getUpper(self, name):
    par = self.paramNames.parWithName(name)
    if par:
        return getattr(par, 'limmax', None)
    return None
"""
LOWER = UPPER.replace('getUpper', 'getLower').replace('limmax', 'limmin')
RANGES = """
def _initParamRanges(self, j, paramConfid=None):
    if isinstance(j, str):
        j = self.index[j]
    paramVec = self.samples[:, j]
    par = self.paramNames.names[j]
    par.err = self.sddev[j]
    par.mean = self.means[j]
    par.param_min = np.min(paramVec)
    par.param_max = np.max(paramVec)
    paramConfid = paramConfid or self.initParamConfidenceData(paramVec)
    points = np.linspace(0.1, 0.9, 9)
    confids = self.confidence(paramConfid, np.array([self.range_confidence, 1 - self.range_confidence] + list(points)))
    par.range_min, par.range_max = confids[0:2]
    return par
"""


def compare_attrs(p, rep, rule, f, src, c, names, what=None, hook=None):
    """final attribute values against the reference, object by object"""
    I = run(p, rep, f, c)
    R = run(p, rep, reference(f, src), c, count=False)
    ref = mk('tuple', *[final(R, n) for n in names if final(R, n) is not None])
    for n in names:
        g = [e for e in I.events if e.kind == 'setattr' and e.name == n]
        w = [e for e in R.events if e.kind == 'setattr' and e.name == n]
        if not g or not w:
            rep.note(rule, '%s: %s' % (f.name, n), 'not assigned here')
            continue
        same(rep, rule, '%s: %s' % (f.name, n), final(I, n), final(R, n), g[-1].loc, Canon(hook), ref=ref)


def functions(p, rep, c):
    ws = p.cls('getdist.chains', 'WeightedSamples')
    for rule, cl, name, src in (('quantile', ws, 'confidence', CONFIDENCE), ('quantile', ws, 'twoTailLimits', TWOTAIL), ('tags', p.cls('getdist.types', 'ParamLimit'), 'limitTag', TAG)):
        f = p.find_method(cl, name)
        if f is None:
            rep.note(rule, name, 'not found')
            continue
        same(rep, rule, name, returned(run(p, rep, f, cl)), returned(run(p, rep, reference(f, src), cl, count=False)), f.loc, Canon(quantile_hook if name == 'twoTailLimits' else None))
    f = p.find_method(ws, 'initParamConfidenceData')
    if f is not None:
        I, R = run(p, rep, f, ws), run(p, rep, reference(f, CONFDATA), ws, count=False)
        g, w = (returned(x) for x in (I, R))
        fields = []
        for x in (g, w):
            new = [y for y in walk(x) if y.op in ('new', 'call') and 'ParamConfidenceData' in show(y, 2)]
            fields.append(dict(new[0].args[-1]) if new and isinstance(new[0].args[-1], tuple) and all(isinstance(z, tuple) for z in new[0].args[-1]) else None)
        if fields[0] and fields[1]:
            for k in sorted(fields[1]):
                if k in fields[0]:
                    same(rep, 'quantile', 'initParamConfidenceData: %s' % k, fields[0][k], fields[1][k], f.loc)
        else:
            rep.note('quantile', 'initParamConfidenceData', 'value not understood')
    pl = p.cls('getdist.types', 'ParamLimit')
    f = p.find_method(pl, '__init__')
    compare_attrs(p, rep, 'tags', f, INIT, pl, ('lower', 'upper', 'twotail', 'onetail_upper', 'onetail_lower'))
    f = p.find_method(c, '_setLikeStats')
    compare_attrs(p, rep, 'region', f, LIKE, c, ('ND_limit_bot', 'ND_limit_top', 'bestfit_sample', 'logLike_sample'))
    d1 = p.cls('getdist.densities', 'Density1D')
    f = p.find_method(d1, 'initLimitGrids')
    compare_attrs(p, rep, 'density', f, GRIDS, d1, ('bign', 'grid', 'norm', 'sortgrid', 'cumsum'))


def equal_density(p, rep):
    d1 = p.cls('getdist.densities', 'Density1D')
    f = p.find_method(d1, 'getLimits')
    I, R = run(p, rep, f, d1), run(p, rep, reference(f, GETLIMITS), d1, count=False)
    level = mk('param', 'LEVEL')

    def found(I):
        for e in I.events:
            if e.kind == 'meth' and e.name == 'append' and e.args and e.args[0].op == 'tuple' and len(e.args[0].args) == 4:
                return e.args[0], e.loc
        for st, v in I.rets:
            x = I.res(v, st)
            if x.op == 'tuple' and len(x.args) == 4:
                return x, f.loc
        return None, None
    g, loc = found(I)
    w, _ = found(R)
    if g is None:
        rep.note('density', 'getLimits', 'limits not found')
        return
    flag = g.args[2]
    trial = list({a for x in walk(flag) if x.op == 'cmp' for a in x.args[1:] if any(y.op == 'attr' and y.args[1] == 'sortgrid' for y in walk(a))})
    # the level itself, not a condition inside it
    trial = [a for a in trial if not any(a is not b and any(y is a for y in walk(b)) for b in trial)]
    if len(trial) != 1:
        rep.note('density', 'getLimits', 'density level not found')
        return
    for k, what in enumerate(('lower end', 'upper end', 'flag of the lower end', 'flag of the upper end')):
        m = {trial[0]: level}
        same(rep, 'density', 'getLimits: %s' % what, subst(g.args[k], m), w.args[k], loc)
    # the level follows from the fraction outside
    outside = mk('bin', '*', mk('bin', '-', const(1), mk('elem', mk('param', 'parr'))), mk('param', 'norm'))
    used = [x for x in walk(trial[0]) if x.op == 'call' and show(x.args[0], 2).endswith('searchsorted') or x.op == 'meth' and x.args[1] == 'searchsorted']
    for x in used:
        tg = x.args[1][1] if x.op == 'call' else x.args[2][0]
        cn = Canon(lambda cn, t: Poly.atom('p') if t is mk('param', 'p') or t.op == 'call' and show(t.args[0], 2).endswith('atleast_1d') else Poly.atom('norm') if t.op == 'attr' and t.args[1] == 'norm' else None)
        want = (Poly.num(1) - Poly.atom('p')) * Poly.atom('norm')
        rep.ob('density', 'getLimits: fraction outside', cn.poly(tg).key() == want.key(), 'the density level is where the sum of lower densities is %s' % show(tg, 4), loc)
        break
    for st, v in I.rets:
        x = I.res(v, st)
        if x.op == 'tuple' and len(x.args) == 4:
            fs = set(getattr(st, 'facts', ()) or ())
            ident = [z for z in fs for y in walk(z) if y.op == 'cmp' and y.args[0] == 'is' and mk('param', 'p') in y.args and not any(a is NONE for a in y.args)]
            rep.ob('density', 'getLimits: limits for each of several levels', not ident, 'only the limits of the first level are returned for a list of levels', f.loc)


def prior(p, rep, c):
    for name, src in (('getUpper', UPPER), ('getLower', LOWER)):
        f = p.find_method(c, name)
        same(rep, 'prior', name, returned(run(p, rep, f, c)), returned(run(p, rep, reference(f, src), c, count=False)), f.loc)
    f = p.find_method(c, '_initLimits')
    compare_attrs(p, rep, 'prior', f, INITLIMITS, c, ('limmin', 'limmax', 'has_limits_bot', 'has_limits_top'))
    f = p.find_method(c, 'getBounds')
    I = run(p, rep, f, c)
    for e in I.events:
        if e.kind == 'setitem' and e.base is not None and e.base.op in ('attr', 'dictc', 'alloc') or e.kind == 'repocall' and e.name in ('setFixed', 'setRange'):
            side = e.rawbase.args[1] if getattr(e, 'rawbase', None) is not None and e.rawbase.op == 'attr' else e.base.args[1] if e.base is not None and e.base.op == 'attr' else None
            if side not in ('lower', 'upper') or e.value is None or e.value.op != 'attr':
                continue
            at, fl = {'lower': ('limmin', 'has_limits_bot'), 'upper': ('limmax', 'has_limits_top')}[side]
            par = e.value.args[0]
            rep.ob('prior', 'getBounds: %s' % side, e.value.args[1] == at, 'is %s' % show(e.value, 3), e.loc)
            rep.ob('prior', 'getBounds: %s only where samples reach it' % side, mk('attr', par, fl) in e.facts, 'not conditional on %s' % fl, e.loc)
            rep.ob('prior', 'getBounds: %s of the parameter' % side, e.args[0] is mk('attr', par, 'name'), 'stored for %s' % show(e.args[0], 3), e.loc)


def text(p, rep, c):
    ms = p.cls('getdist.types', 'MargeStats')
    f = p.find_method(ms, 'texValues')
    I = run(p, rep, f, ms)
    cn = Canon()
    limit = mk('param', 'limit')
    one = mk('bin', '-', limit, const(1))
    vals = [I.res(v, st) for st, v in I.rets] + [x for e in I.events for x in list(e.args or ()) + ([e.value] if e.value is not None else [])]
    lims = {x.args[0] for v in vals for x in walk(v) if x.op == 'attr' and x.args[1] in ('upper', 'lower', 'twotail', 'onetail_upper', 'onetail_lower')}
    for l in lims:
        ok = l.op == 'item' and all(a.op == 'attr' and a.args[1] == 'limits' for _, a in alts(l.args[0])) and cn.key(l.args[1]) == cn.key(one)
        rep.ob('text', 'texValues: limit quoted', ok, 'quotes %s' % show(l, 4), f.loc)
    for e in I.events:
        a = list(e.args or ())
        if e.kind in ('meth', 'repocall') and e.name == 'formatNumber' and a and a[0].op == 'attr' and a[0].args[0] in lims and a[0].args[1] in ('upper', 'lower'):
            side = a[0].args[1]
            rep.ob('text', 'texValues: %s limit quoted' % side, logic.implies(e.facts, mk('attr', a[0].args[0], 'onetail_' + side)), 'the %s end is quoted for another kind of limit' % side, e.loc)
        if e.kind in ('meth', 'repocall') and e.name == 'namesigFigs' and len(a) >= 3 and any(x in lims for y in a[1:3] for x in walk(y)) and not any(x.op == 'attr' and x.args[1] == 'best_fit' for x in walk(a[0])):
            l = [x for x in lims if any(z is x for y in a[1:3] for z in walk(y))][0]
            for k, side in ((1, 'upper'), (2, 'lower')):
                want = mk('bin', '-', mk('attr', l, side), a[0])
                rep.ob('text', 'texValues: %s error' % side, cn.key(a[k]) == cn.key(want), 'quotes %s' % show(a[k], 4), e.loc)
            rep.ob('text', 'texValues: two-tail limit quoted as errors', logic.implies(e.facts, mk('attr', l, 'twotail')), 'errors are quoted for another kind of limit', e.loc)
    seen = set()
    for v in vals:
        for x in walk(v):
            if x.op != 'concat' or x in seen:
                continue
            seen.add(x)
            ps = list(x.args)
            for i in range(1, len(ps)):
                t, before = ps[i], cstr(ps[i - 1])
                if before is None:
                    continue
                y = t.args[0] if t.op == 'item' else t
                fa = None
                if y.op in ('meth', 'call') and (y.args[1] if y.op == 'meth' else show(y.args[0], 2)) == 'formatNumber':
                    fa = y.args[2] if y.op == 'meth' else y.args[1]
                if fa and fa[0].op == 'attr' and fa[0].args[0] in lims:
                    side = fa[0].args[1]
                    sign = {'upper': '<', 'lower': '>'}[side]
                    rep.ob('text', 'texValues: sign of the %s limit' % side, sign in before and {'<': '>', '>': '<'}[sign] not in before, 'is written as %r' % before, f.loc)
                if y.op == 'meth' and y.args[1] == 'namesigFigs' and t.op == 'item' and isinstance(cval(t.args[1]), int) and ('^{' in before or '_{' in before):
                    k = cval(t.args[1]) % 4
                    up = before.rfind('^{') > before.rfind('_{')
                    rep.ob('text', 'texValues: %s error position' % ('upper' if up else 'lower'), k == (1 if up else 2), 'the wrong error is written there', f.loc)
    # the limit asked for is passed on
    def passes(cl, name, callee, k, kwname, want, what):
        g = p.find_method(cl, name)
        if g is None:
            rep.note('text', name, 'not found')
            return
        J = run(p, rep, g, cl)
        n = 0
        for e in J.events:
            if e.kind in ('meth', 'repocall') and e.name == callee and (cl.name != 'GetDistPlotter' or True):
                kw = dict(e.kwargs or ())
                a = list(e.args or ())
                v = kw.get(kwname, a[k] if len(a) > k else None)
                if any(x == '**' for x in kw):
                    continue
                n += 1
                rep.ob('text', '%s: %s' % (name, what), v is not None and want(v), 'passes %s' % ('nothing' if v is None else show(v, 4)), e.loc)
        if not n:
            rep.note('text', name, '%s is not called' % callee)
    isl = lambda v: v is limit
    passes(c, 'getLatex', 'texValues', 2, 'limit', isl, 'limit passed on')
    passes(c, 'getInlineLatex', 'getLatex', 1, 'limit', isl, 'limit passed on')
    passes(ms, 'getColumnLabels', 'limitText', 0, 'limit', isl, 'limit passed on')
    rt = p.cls('getdist.types', 'ResultTable')
    mine = lambda v: v.op == 'attr' and v.args[1] == 'limit' and v.args[0].op == 'self'
    passes(rt, 'paramResultTex', 'texValues', 2, 'limit', mine, 'limit of the table')
    passes(rt, 'addHeaderRow', 'getColumnLabels', 0, 'limit', mine, 'limit of the table')
    gp = p.cls('getdist.plots', 'GetDistPlotter')
    tl = lambda v: any(x is mk('param', 'title_limit') for x in walk(v)) and not any(x.op == 'bin' for x in walk(v))
    passes(gp, 'add_1d', 'getInlineLatex', 1, 'limit', tl, 'limit of the title')
    passes(gp, 'add_1d', 'getLatex', 1, 'limit', tl, 'limit of the title')
    g = p.find_method(ms, 'limitText')
    if g is not None:
        v = returned(run(p, rep, g, ms))
        ix = [x for x in walk(v) if x.op == 'item' and x.args[0].op == 'attr' and x.args[0].args[1] == 'limits']
        for x in ix:
            rep.ob('text', 'limitText: level of the limit', cn.key(x.args[1]) == cn.key(one), 'labelled with %s' % show(x, 4), g.loc)
    g = p.find_method(c, 'getMargeStats')
    if g is not None:
        J = run(p, rep, g, c)
        for e in J.events:
            if e.kind == 'setattr' and e.name == 'limits':
                rep.ob('text', 'getMargeStats: levels of the limits', e.value is mk('attr', mk('self', c.qual), 'contours'), 'labelled with %s' % show(e.value, 3), e.loc)
    # the limits of a parameter come from its own samples
    g = p.find_method(c, '_setDensitiesandMarge1D')
    if g is not None:
        J = run(p, rep, g, c)
        for e in J.events:
            if e.kind == 'repocall' and e.name == '_setMargeLimits' and len(e.args) >= 2:
                par, conf = e.args[0], e.args[1]
                pi = par.args[1] if par.op == 'item' else mk('idx', par.args[0]) if par.op == 'elem' else None
                cols = [x.args[1] for x in walk(conf) if x.op == 'item' and x.args[0].op == 'attr' and x.args[0].args[1] == 'samples']
                cols = [x.args[-1] for x in cols if x.op == 'tuple']
                if pi is None or len(cols) != 1:
                    rep.note('levels', '_setDensitiesandMarge1D', 'columns not understood')
                    continue
                rep.ob('levels', 'limits from the samples of the parameter', cols[0] is pi or par.op == 'elem' and cols[0].op == 'idx', 'limits of %s from %s' % (show(par, 4), show(conf, 5)), e.loc)


def check(p, rep):
    rep.rule('kinds', 'which limit is given in which case', 6)
    rep.rule('quantile', 'sample quantiles', 0)
    rep.rule('density', 'equal-density limits', 0)
    rep.rule('tags', 'tag and attributes of a limit determine each other', 0)
    rep.rule('text', 'the limit asked for is the one quoted, from the right side', 0)
    rep.rule('region', 'limits of the N-dimensional confidence region', 0)
    rep.rule('prior', 'lower and upper prior limits are not mixed up', 0)
    rep.rule('levels', 'one limit for each contour level, in their order', 0)
    c = p.cls('getdist.mcsamples', 'MCSamples')
    kinds(p, rep, c)
    functions(p, rep, c)
    equal_density(p, rep)
    prior(p, rep, c)
    text(p, rep, c)
