"""P24: batch commands act on exactly the runs selected by the options and the state of the runs."""
from .quant import *
from sa.project import AnalysisError

P = lambda n: mk('param', n)
A = 'paramgrid.batchjob_args'
B = 'paramgrid.batchjob'


def meth(b, n, *args):
    return mk('meth', b, n, tuple(args), ())


def hasattr_(b, n):
    return mk('hasattr', b, n)


class Select(object):
    """what each option means, for the run J and options given by opt()"""

    def __init__(self, J, opt, inline=True):
        self.J, self.opt = J, opt

    def none(self, n):
        return compare('is', self.opt(n), NONE)

    def wantImportance(self):
        o, J = self.opt, self.J
        tag, imp = o('importancetag'), o('importance')
        return conj([disj([self.none('importancetag'), neg(tag), compare('in', mk('attr', J, 'importanceTag'), tag)]),
                     disj([self.none('importance'), neg(imp), exists(imp, compare('in', mk('elem', imp), mk('attr', mk('attr', J, 'data_set'), 'importanceNames')))])])

    def jobItemWanted(self, want=None):
        im = mk('attr', self.J, 'isImportanceJob')
        return disj([conj([neg(im), self.none('importance')]), conj([im, want if want is not None else self.wantImportance()])])

    def nameMatches(self):
        n = self.opt('name')
        return disj([self.none('name'), exists(n, mk('call', mk('ext', 'fnmatch.fnmatch'), (mk('attr', self.J, 'name'), mk('elem', n)), ()))])

    def groupMatches(self):
        g = mk('attr', self.J, 'group')
        return conj([disj([self.none('group'), compare('in', g, self.opt('group'))]), disj([self.none('skip_group'), neg(compare('in', g, self.opt('skip_group')))])])

    def dataMatches(self):
        d = mk('attr', self.J, 'data_set')
        o = self.opt
        byname = conj([disj([self.none('skip_data'), neg(self.hasName(d, o('skip_data')))]), disj([self.none('data'), self.hasName(d, o('data'))])])
        return conj([disj([self.none('musthave_data'), self.hasAll(d, o('musthave_data'))]),
                     disj([conj([self.none('datatag'), byname]), conj([neg(self.none('datatag')), compare('in', mk('attr', self.J, 'datatag'), o('datatag'))])])])

    def paramsMatch(self):
        o, J = self.opt, self.J
        ps = mk('attr', J, 'param_set')
        pr = o('param')
        skip = disj([neg(o('skip_param')), neg(exists(o('skip_param'), compare('in', mk('elem', o('skip_param')), ps)))])
        bypar = conj([skip, disj([self.none('param'), exists(pr, compare('in', mk('elem', pr), ps))])])
        return disj([conj([self.none('paramtag'), bypar]), conj([neg(self.none('paramtag')), compare('in', mk('attr', J, 'paramtag'), o('paramtag'))])])

    def hasName(self, d, ns):
        return exists(ns, compare('in', mk('elem', ns), mk('attr', d, 'names')))

    def hasAll(self, d, ns):
        return neg(exists(ns, neg(compare('in', mk('elem', ns), mk('attr', d, 'names')))))


def lists(t):
    """calls asking a data set or run for any or all of several names, written as quantified conditions"""
    def one(x):
        if x.op == 'meth' and len(x.args[2]) == 1 and not x.args[3]:
            b, n, (a,), _ = x.args
            if n == 'hasName':
                return exists(a, compare('in', mk('elem', a), mk('attr', b, 'names')))
            if n == 'hasAll':
                return neg(exists(a, neg(compare('in', mk('elem', a), mk('attr', b, 'names')))))
            if n == 'hasParam':
                return exists(a, compare('in', mk('elem', a), mk('attr', b, 'param_set')))
        return None

    for _ in range(10):
        m = {}
        for x in walk(t):
            y = one(x)
            if y is not None:
                m[x] = y
        if not m:
            return t
        t = subst(t, m)
    return t


HELPERS = ('wantImportance', 'jobItemWanted', 'nameMatches', 'groupMatches', 'dataMatches', 'paramsMatch')
CALLS = ('fnmatch.fnmatch', 'chainExists', 'os.path.exists', 'hasName', 'hasAll', 'hasParam', 'fnmatch.fnmatchcase')


def check(p, rep):
    rep.rule('option', 'each selection option means what it says', 5)
    rep.rule('filter', 'a run is selected exactly if it meets every option', 2)
    rep.rule('list', 'each run of the grid, and each importance run if wanted, is listed exactly once', 3)
    rep.rule('find', 'a run is found by its own name', 2)
    rep.rule('state', 'the state of a run is read from its own files', 8)
    rep.rule('submit', 'jobs are submitted for exactly the runs whose state asks for it, each once', 3)
    rep.rule('analyse', 'analysis and listing act on exactly the runs asked for', 2)
    options(p, rep)
    listing(p, rep)
    find(p, rep)
    state(p, rep)
    runbatch(p, rep)
    analyse(p, rep)


def options(p, rep):
    C = p.cls(A, 'batchArgs')
    me = mk('self', C.qual)
    args = mk('attr', me, 'args')
    opt = lambda n: mk('attr', args, n)
    present = {}
    for h in HELPERS:
        f = p.find_method(C, h)
        if f is None:
            continue
        present[h] = f
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=C)
        rep.analysed(I)
        J = P(f.argnames()[1])
        S = Select(J, opt)
        got = lists(returns_true(I, rets))
        want = getattr(S, h)()
        if h == 'jobItemWanted':
            want = S.jobItemWanted(meth(me, 'wantImportance', J)) if p.find_method(C, 'wantImportance') and contains(got, meth(me, 'wantImportance', J)) else S.jobItemWanted()
        compare_conditions(rep, 'option', h, got, want, f.loc, calls=CALLS)
    # data sets and runs answering for several names
    for cls, m, attr, every in (('dataSet', 'hasName', 'names', False), ('dataSet', 'hasAll', 'names', True), ('jobItem', 'hasParam', 'param_set', False)):
        D = p.cls(B, cls)
        f = p.find_method(D, m)
        if f is None:
            continue
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=D)
        rep.analysed(I)
        n = P(f.argnames()[1])
        tb = mk('attr', mk('self', D.qual), attr)
        el = compare('in', mk('elem', n), tb)
        many = neg(exists(n, neg(el))) if every else exists(n, el)
        one = compare('in', n, tb)
        got = returns_true(I, rets)
        text = [a for a in logic.atoms(norm(got), set()) if a.op == 'isinstance']
        if len(text) == 1:
            want = disj([conj([text[0], one]), conj([neg(text[0]), many])])
            compare_conditions(rep, 'option', '%s.%s' % (cls, m), got, want, f.loc)
        else:
            rep.note('option', '%s.%s' % (cls, m), 'not recognised')
    f = p.find_method(C, 'filteredBatchItems')
    if f is None:
        raise AnalysisError('filteredBatchItems vanished')
    for sub in (True,):
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=C)
        rep.analysed(I)
        n = 0
        for cond, item, loc in produced(I, rets):
            if item.op != 'elem':
                rep.note('filter', 'selected', show(item, 3))
                continue
            n += 1
            it = item.args[0]
            src = it
            ok = src.op == 'meth' and src.args[1] == 'items' and src.args[0] is mk('attr', me, 'batch')
            rep.ob('filter', 'runs of the batch', ok, 'selects from %s' % show(it, 4), loc)
            if ok:
                b = bind(p, p.cls(B, 'batchJob'), src)
                ni = opt('noimportance')
                rep.ob('filter', 'importance runs unless excluded', differ(b.get('wantImportance', FALSE), neg(ni)) is None, 'importance runs %s' % show(b.get('wantImportance', FALSE), 4), loc)
                rep.ob('filter', 'sub-grids as asked', b.get('wantSubItems') is P('wantSubItems'), 'sub-grids %s' % show(b.get('wantSubItems', NONE), 4), loc)
            S = Select(item, opt)
            want = [disj([neg(P('chainExist')), meth(item, 'chainExists')])]
            for h in HELPERS[1:]:
                want.append(meth(me, h, item) if h in present and contains(cond, meth(me, h, item)) else getattr(S, h)())
            compare_conditions(rep, 'filter', 'selection', lists(cond), conj(want), loc, calls=CALLS + HELPERS)
        if not n:
            rep.note('filter', 'filteredBatchItems', 'not recognised')
    f = p.find_method(C, 'sortedParamtagDict')
    if f is not None:
        I = Interp(p, inline=policy())
        I.run_function(f, cls=C)
        rep.analysed(I)
        for e in I.events:
            if e.kind == 'meth' and e.name in ('append', 'add') and e.args and e.args[0].op == 'elem':
                it = e.args[0]
                fs = conj([x for x in e.facts if not (x.op in ('not', 'cmp') and any_sub(x, lambda y: y.op == 'attr' and y.args[1] == 'paramtag'))])
                compare_conditions(rep, 'filter', 'selected runs by parameter tag', fs, disj([neg(P('chainExist')), meth(it, 'chainExists')]), e.loc, calls=CALLS)
                tag = mk('attr', it, 'paramtag')
                rep.ob('filter', 'grouped under its own tag', contains(e.base, tag), 'grouped under %s' % show(e.base, 4), e.loc)


def produced(I, rets):
    """[(condition, item, loc)] of the values a generator yields or the elements of the sequence returned"""
    out = []
    for e in I.events:
        if e.kind == 'yield':
            v = e.value
            ps = parts(v) if v.op == 'star' else None
            if ps:
                for c, x, it in ps:
                    out.append((conj(list(e.facts) + [c]), x, e.loc))
            elif v.op == 'star':
                out.append((conj(list(e.facts)), mk('elem', v.args[0]), e.loc))
            else:
                out.append((conj(list(e.facts)), v, e.loc))
    if not out:
        for st, v in rets:
            for c, x, it in parts(I.res(v, st)) or ():
                out.append((conj(list(st.facts) + [c]), x, None))
    return out


def bind(p, cls, call):
    """argument name -> term of a method call term, defaults included"""
    f = p.find_method(cls, call.args[1])
    names = f.argnames()[1:]
    out = dict(zip(names, call.args[2]))
    out.update({k: v for k, v in call.args[3]})
    d = f.node.args.defaults
    for n, v in zip(names[len(names) - len(d):], d):
        if n not in out and isinstance(v, ast.Constant):
            out[n] = const(v.value)
    return out


def listing(p, rep):
    C = p.cls(B, 'batchJob')
    me = mk('self', C.qual)
    f = p.find_method(C, 'items')
    if f is None:
        raise AnalysisError('batchJob.items vanished')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f, cls=C)
    rep.analysed(I)
    jobs = mk('elem', mk('attr', me, 'jobItems'))
    sub = mk('elem', mk('attr', me, 'subBatches'))
    kinds = {'run': [], 'importance': [], 'sub': []}
    imp = mk('elem', meth(jobs, 'importanceJobsRecursive'))
    other = []
    for c, x, loc in produced(I, rets):
        if x is jobs:
            kinds['run'].append((c, x, loc))
        elif x is imp:
            kinds['importance'].append((c, x, loc))
        elif x.op == 'elem' and x.args[0].op == 'meth' and x.args[0].args[0] is sub and x.args[0].args[1] == 'items':
            kinds['sub'].append((c, x, loc))
        else:
            other.append((c, x, loc))
    if other:
        rep.note('list', 'items', 'not recognised: %s' % show(other[0][1], 4))
    want = {'run': TRUE, 'importance': conj([P('wantImportance'), neg(compare('in', mk('attr', imp, 'name'), mk('attr', me, 'skip')))]), 'sub': P('wantSubItems')}
    for k in kinds:
        if not kinds[k]:
            if not other:
                rep.ob('list', k, False, 'never listed', f.loc)
            continue
        if len(kinds[k]) > 1:
            for i, (c, _, loc) in enumerate(kinds[k]):
                for c2, _, _ in kinds[k][:i]:
                    both = satisfiable(norm(conj([c, c2])), theory(norm(c), norm(c2)))
                    rep.ob('list', '%s: listed once' % k, both is None, 'listed twice', loc)
        compare_conditions(rep, 'list', k, disj([c for c, _, _ in kinds[k]]), want[k], kinds[k][0][2])
    for c, x, loc in kinds['sub']:
        b = bind(p, C, x.args[0])
        rep.ob('list', 'sub: passes the wishes on', b.get('wantSubItems') in (P('wantSubItems'), TRUE) and b.get('wantImportance') is P('wantImportance'), 'sub-grids listed with %s' % {k: show(v) for k, v in b.items()}, loc)
    # importance runs of importance runs
    J = p.cls(B, 'jobItem')
    f = p.find_method(J, 'importanceJobsRecursive')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=J)
        rep.analysed(I)
        own = mk('attr', mk('self', J.qual), 'importanceItems')
        deep = meth(mk('elem', own), 'importanceJobsRecursive')
        for st, v in rets:
            v = I.res(v, st)
            ok = any_sub(v, lambda x: x is deep)
            init = v.op == 'loop' and any_sub(v.args[2], lambda x: x is own)
            seq = v.op == 'seq' and any_sub(v, lambda x: x is own)
            acc = v.op != 'loop' or any_sub(v.args[3], lambda x: x.op == 'lv')
            rep.ob('list', 'importance runs of importance runs', ok and (init or seq or contains(v, own)) and acc, 'gives %s' % show(v, 4), f.loc)
            alias = v is own or v.op == 'loop' and v.args[2] is own
            grows = any(e.kind in ('inplace', 'meth') and getattr(e, 'base', None) is own for e in I.events)
            rep.ob('list', 'the stored list is not extended', not (alias and v.op == 'loop') and not grows, 'listing extends the list of importance runs', f.loc)


def find(p, rep):
    C = p.cls(B, 'batchJob')
    me = mk('self', C.qual)
    for m, attr in (('hasName', 'name'), ('normed_name_item', 'normed_name'), ('resolveRoot', 'name')):
        f = p.find_method(C, m)
        if f is None:
            continue
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=C)
        rep.analysed(I)
        nm = P(f.argnames()[1])
        n = 0
        for st, v in rets:
            v = I.res(v, st)
            els = [e for e in loop_elems(st.facts) if e.args[0].op == 'meth' and e.args[0].args[1] == 'items' and e.args[0].args[0] is me]
            if len(els) != 1:
                continue
            n += 1
            el = els[0]
            cond = conj([norm(x) for x in st.facts])
            want = [compare('==', mk('attr', el, attr), nm)]
            if m == 'normed_name_item':
                want.append(neg(compare('is', el, P('exclude'))))
            compare_conditions(rep, 'find', '%s: the run of that name' % m, cond, conj(want), f.loc)
            if m == 'hasName':
                rep.ob('find', m, truth(v) is TRUE, 'gives %s' % show(v, 3), f.loc)
            else:
                rep.ob('find', '%s: gives the run found' % m, v is el, 'gives %s' % show(v, 4), f.loc)
            b = bind(p, C, el.args[0])
            for k, v2 in b.items():
                if m == 'resolveRoot':
                    rep.ob('find', '%s: all runs' % m, truth(v2) is TRUE, '%s=%s' % (k, show(v2)), f.loc)
                elif k in f.argnames():
                    rep.ob('find', '%s: %s as asked' % (m, k), v2 is P(k), '%s=%s' % (k, show(v2)), f.loc)
        if not n:
            rep.note('find', m, 'not recognised')


def ext(name, *args):
    return mk('call', mk('ext', name), tuple(args), ())


def state(p, rep):
    J = p.cls(B, 'jobItem')
    me = mk('self', J.qual)
    root, dist = mk('attr', me, 'chainRoot'), mk('attr', me, 'distRoot')
    cat = lambda *a: concat([const(x) if isinstance(x, str) else x for x in a])
    ask = lambda n, *a: meth(me, n, *a)
    file_ = lambda t: mk('call', mk('func', B + ':nonEmptyFile'), (t,), ())
    now = ext('time.time')
    parent = mk('attr', me, 'parent')
    item = lambda b, i: mk('item', b, const(i))
    stat, pstat = ask('convergeStat'), meth(parent, 'convergeStat')
    im = mk('attr', me, 'isImportanceJob')
    isnone = lambda t: compare('is', t, NONE)
    R = ask('R')

    def want(m, f):
        a = [P(x) for x in f.argnames()[1:]]
        if m == 'chainExists':
            return file_(ask('chainName', a[0]))
        if m == 'notRunning':
            return conj([ask('chainExists'), compare('<', ask('chainFileDate'), mk('bin', '-', now, const(300)))])
        if m == 'chainMinimumExists':
            return file_(cat(root, '.minimum'))
        if m == 'chainMinimumConverged':
            return conj([neg(isnone(ask('chainBestfit'))), compare('<', mk('attr', ask('chainBestfit'), 'logLike'), const(1e29))])
        if m == 'chainFinished':
            return disj([conj([im, neg(isnone(item(pstat, 1))), neg(ask('parentChanged')), ask('notRunning'), item(pstat, 1)]),
                         conj([neg(im), neg(isnone(item(stat, 1))), item(stat, 1)])])
        if m == 'wantCheckpointContinue':
            return conj([neg(isnone(item(stat, 0))), ext('os.path.exists', cat(root, '_1.chk')), neg(item(stat, 1)), compare('<', a[0], item(stat, 0))])
        if m == 'getDistExists':
            return ext('os.path.exists', cat(dist, '.margestats'))
        if m == 'getDistNeedsUpdate':
            return conj([ask('chainExists'), disj([neg(ask('getDistExists')), compare('<', ext('os.path.getmtime', cat(dist, '.margestats')), ask('chainFileDate'))])])
        if m == 'parentChanged':
            return disj([neg(ask('chainExists')), compare('<', ask('chainFileDate'), meth(parent, 'chainFileDate'))])
        if m == 'hasConvergeBetterThan':
            return disj([conj([neg(isnone(R)), neg(compare('<', a[0], R))]), conj([isnone(R), a[1]])])

    for m in ('chainExists', 'notRunning', 'chainMinimumExists', 'chainMinimumConverged', 'chainFinished', 'wantCheckpointContinue', 'getDistExists', 'getDistNeedsUpdate', 'parentChanged', 'hasConvergeBetterThan'):
        f = p.find_method(J, m)
        if f is None:
            rep.note('state', m, 'no longer there')
            continue
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=J)
        rep.analysed(I)
        bad = [(st, v) for st, v in rets if any(x.op == 'caught' for x in st.facts)]
        rets = [(st, v) for st, v in rets if (st, v) not in bad]
        compare_conditions(rep, 'state', m, returns_true(I, rets), want(m, f), f.loc,
                           calls=('os.path.exists', 'os.path.getmtime', 'time.time', 'chainExists', 'chainFileDate', 'convergeStat', 'R', 'parentChanged', 'notRunning', 'chainBestfit', 'getDistExists', 'chainName', B + ':nonEmptyFile', 'os.path.getsize', 'chainFinished'))
        for st, v in bad:
            v = I.res(v, st)
            if m == 'hasConvergeBetterThan':
                rep.ob('state', 'convergence that cannot be read counts as unknown', truth(v) is truth(P(f.argnames()[2])), 'gives %s' % show(v, 3), f.loc)
    for m, want_ in (('chainName', lambda a: cat(root, '_', a[0], '.txt')), ('chainFileDate', lambda a: ext('os.path.getmtime', ask('chainName', a[0])))):
        f = p.find_method(J, m)
        if f is None:
            continue
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=J)
        rep.analysed(I)
        for st, v in rets:
            v = strip_str(I.res(v, st))
            w = strip_str(want_([P(x) for x in f.argnames()[1:]]))
            if v is w or not any_sub(v, lambda x: x.op in ('meth', 'call') and not contains(w, x)):
                rep.ob('state', m, v is w, 'gives %s' % show(v, 4), f.loc)
            else:
                rep.note('state', m, show(v, 4))
    f = p.func(B, 'nonEmptyFile')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f)
    rep.analysed(I)
    n = P(f.argnames()[0])
    compare_conditions(rep, 'state', 'nonEmptyFile', returns_true(I, rets), conj([ext('os.path.exists', n), compare('<', const(0), ext('os.path.getsize', n))]), f.loc,
                       axioms=[iff(compare('==', ext('os.path.getsize', n), const(0)), neg(compare('<', const(0), ext('os.path.getsize', n)))), mk('or', mk('not', compare('<', const(0), ext('os.path.getsize', n))), ext('os.path.getsize', n)), mk('or', mk('not', ext('os.path.getsize', n)), compare('<', const(0), ext('os.path.getsize', n)))],
                       calls=('os.path.exists', 'os.path.getsize', 'os.path.isfile'))
    f = p.find_method(J, 'convergeStat')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=J)
        rep.analysed(I)
        fn = cat(root, '.converge_stat')
        for st, v in rets:
            v = I.res(v, st)
            if v.op != 'tuple' or len(v.args) != 2:
                rep.note('state', 'convergeStat', show(v, 3))
                continue
            have = logic.decide(file_(fn), st.facts)
            if v.args[0] is NONE:
                rep.ob('state', 'convergeStat: unknown', v.args[1] is NONE and have is False, 'unknown where %s' % [show(x, 3) for x in st.facts], f.loc)
                continue
            rep.ob('state', 'convergeStat: read from its own file', have is True and all(not (x.op == 'call' and x.args[0] is mk('builtin', 'open')) or x.args[1][0] is fn for x in walk(v)), 'read from %s' % show(v, 4), f.loc)
            l0 = [x for x in walk(v.args[0]) if x.op == 'item' and x.args[1] is const(0)]
            rep.ob('state', 'convergeStat: value of the first line', bool(l0) and v.args[0].op == 'call' and v.args[0].args[0] is mk('builtin', 'float'), 'value %s' % show(v.args[0], 4), f.loc)
            done = [x for x in walk(v.args[1]) if x.op == 'cmp' and x.args[0] == '==' and x.args[2] is const('Done')]
            ok = len(done) == 1 and logic.implies([norm(v.args[1])], done[0]) and any_sub(done[0], lambda x: x.op == 'item' and x.args[1] is const(1))
            rest = [x for x in logic.atoms(norm(v.args[1]), set()) if x is not done[0]] if done else []
            ok2 = all(x.op == 'cmp' and x.args[0] == '<' and (x.args[1] is const(1) or x.args[2] is const(2)) for x in rest)
            rep.ob('state', 'convergeStat: finished exactly if the second line says so', ok and ok2, 'finished if %s' % show(v.args[1], 4), f.loc)
    for m in ('R', 'chainBestfit'):
        f = p.find_method(J, m)
        if f is None:
            continue
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=J)
        rep.analysed(I)
        fn = cat(dist, '.converge') if m == 'R' else cat(root, '.minimum')
        for st, v in rets:
            v = I.res(v, st)
            if v is NONE:
                rep.ob('state', '%s: unknown only without its file' % m, logic.implies(st.facts, neg(file_(fn))), 'unknown where %s' % [show(x, 3) for x in st.facts], f.loc)
            else:
                for x in walk(v):
                    if x.op == 'new':
                        rep.ob('state', '%s: read from its own file' % m, x.args[2] and x.args[2][0] is fn, 'read from %s' % [show(y, 3) for y in x.args[2]], f.loc)
                    if x.op == 'meth' and x.args[1].startswith('worst'):
                        rep.ob('state', '%s: worst value' % m, x.args[1] == 'worstR', x.args[1], f.loc)
    f = p.find_method(J, 'chainNames')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=J)
        rep.analysed(I)
        k = P(f.argnames()[1])
        for st, v in rets:
            v = I.res(v, st)
            if v.op != 'seq' or len(v.args) != 1 or v.args[0].op != 'rep':
                rep.note('state', 'chainNames', show(v, 4))
                continue
            body, it = v.args[0].args
            if it.op == 'while':
                c = [x for x in walk(body) if x.op == 'lv']
                ok = body.op == 'meth' and body.args[1] == 'chainName' and len(c) == 1 and c[0].args[2] is const(1) and body.args[2] == (c[0],)
                rep.ob('state', 'chainNames: from chain 1', ok, 'names %s' % show(body, 4), f.loc)
                stop = neg(meth(me, 'chainExists', *body.args[2])) if body.op == 'meth' else FALSE
                rep.ob('state', 'chainNames: up to the first missing chain', stop in st.facts, 'stops where %s' % [show(x, 3) for x in st.facts], f.loc)
            else:
                first, last = span(body, it)
                if any_sub(it, lambda x: x.op in ('loop', 'lv')):
                    rep.note('state', 'chainNames', show(it, 4))
                    continue
                rep.ob('state', 'chainNames: as many as asked, from chain 1', first is not None and first == 1 and last is k, 'names %s over %s' % (show(body, 4), show(it, 4)), f.loc)
    f = p.find_method(J, 'allChainExists')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=J)
        rep.analysed(I)
        k = P(f.argnames()[1])
        q = returns_true(I, rets)
        ex = [a for a in logic.atoms(norm(q), set()) if a.op == 'exists']
        if len(ex) == 1 and ex[0].args[1].op == 'not':
            body = ex[0].args[1].args[0]
            first, last = span(body, ex[0].args[0])
            rep.ob('state', 'allChainExists', norm(q) is neg(ex[0]) and body.op == 'meth' and body.args[1] == 'chainExists' and first == 1 and last is k, 'asks %s over %s' % (show(body, 4), show(ex[0].args[0], 3)), f.loc)
        elif len(ex) == 1:
            rep.ob('state', 'allChainExists', False, 'is %s' % show(q, 5), f.loc)
        else:
            rep.note('state', 'allChainExists', show(q, 4))


def span(body, it):
    """(first, last) chain number for a call f(elem(range..)+c), last as a term"""
    if not (it.op == 'call' and it.args[0] is mk('builtin', 'range') and body.op == 'meth' and len(body.args[2]) == 1):
        return None, None
    a = it.args[1]
    lo, hi = (const(0), a[0]) if len(a) == 1 else (a[0], a[1])
    x, off = body.args[2][0], 0
    el = mk('elem', it)
    if x.op == 'bin' and x.args[0] == '+' and el in x.args[1:]:
        o = x.args[2] if x.args[1] is el else x.args[1]
        if not is_const(o):
            return None, None
        off = cval(o)
    elif x is not el:
        return None, None
    if not is_const(lo) or len(a) > 2:
        return None, None
    # last = hi - 1 + off
    d = off - 1
    if hi.op == 'bin' and hi.args[0] == '+' and is_const(hi.args[2]):
        d += cval(hi.args[2])
        hi = hi.args[1]
    elif hi.op == 'bin' and hi.args[0] == '+' and is_const(hi.args[1]):
        d += cval(hi.args[1])
        hi = hi.args[2]
    return cval(lo) + off, hi if d == 0 else mk('bin', '+', hi, const(d))


def strip_str(t):
    m = {}
    for x in walk(t):
        if x.op == 'call' and x.args[0] is mk('builtin', 'str') and len(x.args[1]) == 1:
            m[x] = x.args[1][0]
        if x.op == 'str':
            m[x] = x.args[0]
    return subst(t, m) if m else t


# scripts ---------------------------------------------------------------------------------------------------


def is_args(t):
    return t.op == 'item' and t.args[0].op == 'meth' and t.args[0].args[1] == 'parseForBatch' and t.args[1] is const(1) or \
        t.op == 'attr' and t.args[1] == 'args' or t.op == 'meth' and t.args[1] == 'parse_args'


RUN = P('$run')


def canon(p, t):
    """options as opt.X, the run as $run, questions asked of runs with their arguments written out"""
    J = p.cls(B, 'jobItem')
    for _ in range(6):
        m = {}
        for x in walk(t):
            if x.op == 'attr' and is_args(x.args[0]):
                m[x] = P('opt.' + x.args[1])
            elif x.op == 'elem' and x.args[0].op == 'meth' and x.args[0].args[1] == 'filteredBatchItems':
                m[x] = RUN
        if not m:
            break
        t = subst(t, m)
    for _ in range(6):
        m = {}
        for x in walk(t):
            if x.op == 'meth' and x.args[0] in (RUN, mk('attr', RUN, 'parent')) and p.find_method(J, x.args[1]) is not None:
                f = p.find_method(J, x.args[1])
                b = bind(p, J, x)
                a = tuple(b.get(n, NONE) for n in f.argnames()[1:])
                y = mk('ask', x.args[0], x.args[1], a)
                m[x] = y
        if not m:
            break
        t = subst(t, m)
    return t


def ask(b, n, *a):
    return mk('ask', b, n, tuple(a))


def script(p, rep, name):
    m = p.modules.get(name)
    if m is None:
        raise AnalysisError('script %s vanished' % name)
    I = Interp(p, inline=policy(), budget=400000)
    I.run_module(m)
    rep.functions.add('%s:<module>' % name)
    rep.analysed(I)
    return I


O = lambda n: P('opt.' + n)
ONE = const(1)


def iff(a, b):
    return disj([conj([a, b]), conj([neg(a), neg(b)])])


# numbers with a default of 0
NUMERIC = [iff(compare('==', O(n), const(0)), neg(O(n))) for n in ('converge', 'parent_converge')]


ASKED = ('hasattr', 'chainExists', 'allChainExists', 'hasConvergeBetterThan', 'chainMinimumExists', 'chainMinimumConverged', 'wantCheckpointContinue', 'notRunning', 'chainFinished', 'parentChanged',
         'getDistExists', 'getDistNeedsUpdate')


def goes_on(rep, rule, I, e):
    """the loop around an effect is not left before all runs have been looked at"""
    sites = {l for l, _ in e.loops}
    bad = [b for b in I.events if b.kind == 'break' and b.loops and b.loops[-1][0] in sites and any_sub(b.loops[-1][1], lambda x: x.op == 'meth' and x.args[1] in ('filteredBatchItems', 'sortedParamtagDict'))]
    rep.ob(rule, 'all runs are looked at', not bad, 'stops at the first run where %s' % [show(x, 3) for x in bad[0].facts][:3] if bad else '', bad[0].loc if bad else e.loc)


def runbatch(p, rep):
    I = script(p, rep, 'runbatch')
    sel = [e for e in I.events if e.kind == 'meth' and e.name == 'append' and any_sub(e.args[0], lambda x: x.op == 'meth' and x.args[1] == 'iniFile')]
    ini = [e for e in I.events if e.kind == 'meth' and e.name == 'iniFile']
    at = sel or ini
    par = mk('attr', RUN, 'parent')
    ismin = disj([O('importance_minimize'), O('minimize')])
    im = mk('attr', RUN, 'isImportanceJob')
    q = lambda n, *a: ask(RUN, n, *a)
    pq = lambda n, *a: ask(par, n, *a)
    isnone = lambda t: compare('is', t, NONE)
    want0 = [
        disj([neg(O('notexist')), conj([ismin, neg(q('chainMinimumExists'))]), conj([neg(ismin), neg(q('chainExists', ONE))])]),
        disj([neg(O('minimize_failed')), neg(q('chainMinimumConverged'))]),
        disj([ismin, isnone(O('notall')), neg(q('allChainExists', O('notall')))]),
        disj([neg(ismin), mk('attr', RUN, 'want_minimize'), neg(hasattr_(RUN, 'want_minimize'))]),
        disj([neg(O('parent_converge')), neg(im), pq('hasConvergeBetterThan', O('parent_converge'), FALSE)]),
        disj([compare('==', O('converge'), const(0)), neg(q('hasConvergeBetterThan', O('converge'), TRUE))]),
        disj([isnone(O('checkpoint_run')), conj([q('wantCheckpointContinue', O('checkpoint_run')), q('notRunning')])]),
        disj([neg(im), ismin, conj([disj([conj([O('importance_ready'), pq('chainFinished')]), conj([neg(O('importance_ready')), disj([O('filters'), pq('chainExists', ONE)])])]),
                                    disj([neg(O('importance_changed')), q('parentChanged')]), disj([neg(O('parent_stopped')), pq('notRunning')])])]),
        disj([neg(O('chain_exists')), q('chainExists', ONE)]),
        disj([neg(im), neg(hasattr_(RUN, 'importanceFilter'))]), neg(O('filters')),
    ]
    if not at:
        rep.note('submit', 'runbatch', 'submitted runs not recognised')
    for e in at[:1]:
        facts = [canon(p, x) for x in e.facts]
        v = canon(p, e.args[0] if sel else mk('meth', e.base, 'iniFile', e.args, e.kwargs or ()))
        qd = [x for f in facts for x in walk(f) if x.op == 'cmp' and x.args[0] == 'in' and any_sub(x.args[1], lambda y: y is mk('attr', RUN, 'name'))]
        got = conj(facts)
        want = list(want0)
        if qd:
            want.append(disj([neg(O('not_queued')), neg(qd[0])]))
        else:
            rep.ob('submit', 'queued jobs are recognised', False, 'runs already in the queue are submitted again', e.loc)
        # the option may have been given through another one
        compare_conditions(rep, 'submit', 'runs submitted', got, conj(want), e.loc, axioms=NUMERIC, calls=ASKED)
        goes_on(rep, 'submit', I, e)
        inis = [x for x in walk(v) if x.op == 'ask' and x.args[1] == 'iniFile']
        rep.ob('submit', 'the settings file of the run', len(inis) == 1 and inis[0].args[0] is RUN, 'submits %s' % show(v, 4), e.loc)
        if inis and qd:
            var = inis[0].args[2][0]
            nm = qd[0].args[1]
            rep.ob('submit', 'queued jobs are recognised by the name they are submitted under', nm is concat([mk('attr', RUN, 'name'), var]), 'compares %s for variant %s' % (show(nm, 5), show(var, 5)), e.loc)
            lst = qd[0].args[2]
            b = [x for x in walk(lst) if x.op == 'call' and x.args[0].op == 'func' and x.args[0].args[0].endswith(':queue_job_names')]
            for x in b:
                rep.ob('submit', 'running and waiting jobs count as queued', x.args[1] == (O('batchPath'), TRUE, TRUE) and not x.args[2] or dict(x.args[2]) == {'running': TRUE, 'queued': TRUE}, 'queue of %s' % show(x, 4), e.loc)
        if inis:
            var = inis[0].args[2][0]
            for fs, l in alts(var):
                m = logic.decide(ismin, fs)
                if m is None:
                    m = False if logic.implies(fs, conj([neg(O('importance_minimize')), neg(O('minimize'))])) else True if logic.implies(fs, ismin) else None
                rep.ob('submit', 'minimization uses its own settings file', m is not None and l is const('_minimize' if m else ''), 'variant %s where %s' % (show(l), [show(x, 3) for x in fs]), e.loc)
    # every collected run is in exactly one job
    calls = [e for e in I.events if e.kind == 'repocall' and e.fn is not None and e.fn.args[0] == 'paramgrid.jobqueue:submitJob']
    inloop = [e for e in calls if e.args[1].op == 'lv']
    after = [e for e in calls if e.args[1].op == 'loop']
    if sel and calls:
        rep.ob('submit', 'runs left over are submitted', bool(after), 'runs collected at the end are never submitted', calls[-1].loc)
        for e in after:
            extra = [x for x in e.facts if not logic.implies([truth(e.args[1])], x) and not (x.op == 'loop' and x.args[:2] == e.args[1].args[:2])]
            rep.ob('submit', 'runs left over are always submitted', not extra, 'only if %s' % [show(x, 3) for x in extra], e.loc)
            kw = dict(e.kwargs or ())
            seqn = e.kw('sequential') if e.kw('sequential', None) is not None else (e.args[2] if len(e.args) > 2 else None)
            if seqn is not None:
                rep.ob('submit', 'a combined job runs one after another', differ(canon(p, seqn), neg(isnone(O('combineOneJobName')))) is None, 'sequential %s' % show(seqn, 4), e.loc)
            else:
                rep.ob('submit', 'a combined job runs one after another', False, 'the runs of a combined job are started together', e.loc)
            nm = canon(p, e.args[0])
            rep.ob('submit', 'a combined job has the name given', any(l is O('combineOneJobName') for fs, l in alts(nm) if logic.decide(O('combineOneJobName'), fs) is True), 'named %s' % show(nm, 4), e.loc)
        for e in inloop:
            fs = [canon(p, x) for x in e.facts]
            rep.ob('submit', 'a combined job is not submitted piecewise', logic.implies(fs, neg(O('combineOneJobName'))), 'submitted although runs are combined', e.loc)
        for e in calls:
            kw = [k for k, v in e.kwargs or () if k == '**']
            rep.ob('submit', 'with the options given', bool(kw) and any(k == '**' and v.op == 'attr' and v.args[1] == '__dict__' and is_args(v.args[0]) or k == '**' and any_sub(v, lambda x: is_args(x)) for k, v in e.kwargs), 'submitted without the options', e.loc)
    m = p.modules['runbatch']
    f = m.funcs.get('submitJob')
    if f is None:
        rep.note('submit', 'runbatch.submitJob', 'no longer there')
    else:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f)
        rep.analysed(I)
        key = (('g', 'runbatch'), 'iniFiles')
        ap = [e for e in I.events if e.kind == 'meth' and e.name == 'append' and e.base is mk('glob', 'runbatch', 'iniFiles')]
        sb = [e for e in I.events if e.kind == 'repocall' and e.fn is not None and e.fn.args[0] == 'paramgrid.jobqueue:submitJob']
        if not ap:
            rep.note('submit', 'collected runs', 'kept elsewhere')
        else:
            rep.ob('submit', 'each run is collected once', len(ap) == 1 and not ap[0].facts and contains(ap[0].args[0], P(f.argnames()[0])), 'collected %d times or only if %s' % (len(ap), [show(x, 3) for x in ap[0].facts]), ap[0].loc)
            for e in sb:
                rep.ob('submit', 'submitted after it is collected', e.seq > ap[0].seq and e.args[1] is mk('glob', 'runbatch', 'iniFiles'), 'submits %s' % show(e.args[1], 3), e.loc)
            for st, v in rets:
                g = st.env.get(key)
                for fs, l in alts(g if g is not None else mk('undef', 'x'), st.facts):
                    l = I.res(l, st)
                    emptied = l.op == 'seq' and not l.args
                    subm = [e for e in sb if all(logic.implies(fs, x) for x in e.facts)]
                    rep.ob('submit', 'submitted runs are not submitted again', bool(subm) == emptied, 'the collected runs are %s although they were %ssubmitted' % ('dropped' if emptied else 'kept', '' if subm else 'not '), f.loc)


def analyse(p, rep):
    I = script(p, rep, 'runGridGetdist')
    q = lambda n, *a: ask(RUN, n, *a)
    for e in I.events:
        if e.kind == 'call' and e.fn.op == 'ext' and e.fn.args[0].startswith('subprocess.'):
            facts = conj([canon(p, x) for x in e.facts if not any_sub(x, lambda y: y.op == 'ext' and y.args[0].startswith('getdist.'))])
            # earlier conditions on the location of the default settings end in an error
            drop = [a for a in logic.atoms(norm(facts), set()) if any_sub(a, lambda y: y.op == 'param' and y.args[0] == 'opt.base_ini')]
            fs = [x for x in (facts.args if facts.op == 'and' else (facts,)) if not logic.atoms(norm(x), set()) & set(drop)]
            want = conj([neg(O('norun')), disj([neg(O('notexist')), neg(q('getDistExists'))]), disj([neg(O('update_only')), q('getDistNeedsUpdate')]), q('chainExists', ONE)])
            compare_conditions(rep, 'analyse', 'runs analysed', conj(fs), want, e.loc, calls=ASKED)
            goes_on(rep, 'analyse', I, e)
            sv = [x for x in I.events if x.kind in ('meth', 'repocall') and x.name == 'saveFile']
            arg = canon(p, e.args[0])
            if sv:
                rep.ob('analyse', 'with the settings just written', any(contains(e.args[0], x.args[0]) for x in sv if x.args) and contains(arg, mk('attr', RUN, 'name')), 'runs %s' % show(arg, 4), e.loc)
        if e.kind == 'setitem' and cstr(e.args[0]) in ('file_root', 'out_dir', 'compare1'):
            w = {'file_root': mk('attr', RUN, 'chainRoot'), 'out_dir': mk('attr', RUN, 'distPath'), 'compare1': mk('attr', mk('attr', RUN, 'parent'), 'chainRoot')}[cstr(e.args[0])]
            rep.ob('analyse', '%s of the run' % cstr(e.args[0]), canon(p, e.value) is w, 'is %s' % show(e.value, 4), e.loc)
    I = script(p, rep, 'listGrid')
    n = 0
    for e in I.events:
        if e.kind == 'call' and e.fn is mk('builtin', 'print'):
            vals = [canon(p, a) for a in e.args]
            els = {y for a in e.args for y in walk(a) if y.op == 'attr' and y.args[1] in ('name', 'normed_name')}
            if len(els) != 1:
                continue
            n += 1
            el = list(els)[0].args[0]
            fs = [canon(p, subst(x, {el: mk('elem', mk('meth', mk('self', 'x'), 'filteredBatchItems', (), ()))})) for x in e.facts]
            fs = [x for x in fs if not any_sub(x, lambda y: y is O('normed') or y.op == 'hasattr')]
            compare_conditions(rep, 'analyse', 'runs listed', conj(fs), conj([disj([neg(O('notexist')), neg(ask(RUN, 'chainExists', ONE))]), disj([compare('==', O('converge'), const(0)), ask(RUN, 'hasConvergeBetterThan', O('converge'), FALSE)])]), e.loc, axioms=NUMERIC, calls=ASKED)
            goes_on(rep, 'analyse', I, e)
    if not n:
        rep.note('analyse', 'listGrid', 'not recognised')
