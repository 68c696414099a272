"""P15: every run of a grid has its own name, files and settings."""
from .quant import *
from sa.project import AnalysisError

P = lambda n: mk('param', n)
B = 'paramgrid.batchjob'
G = 'paramgrid.gridconfig'
SEP = mk('ext', 'os.sep')


def attr(b, *ns):
    for n in ns:
        b = mk('attr', b, n)
    return b


def meth(b, n, *args):
    return mk('meth', b, n, tuple(args), ())


def cat(*a):
    return concat([const(x) if isinstance(x, str) else x for x in a])


ENDS = ('batchPath', 'chainPath', 'distPath', 'commonPath', 'basePath', 'relativePath')


def path(t):
    """path written as a flat text with / between parts; folders known to end in a separator keep it"""
    def flat(x):
        if x is SEP or x is mk('ext', 'os.path.sep'):
            return [const('/')]
        if x.op == 'concat' or x.op == 'bin' and x.args[0] == '+':
            out = []
            for y in (x.args if x.op == 'concat' else x.args[1:]):
                out += flat(y)
            return out
        if x.op == 'join' and cstr(x.args[0]) is not None and x.args[1].op == 'seq' and x.args[1].args and all(y.op in ('star', 'rep') or True for y in x.args[1].args):
            return [mk('join', x.args[0], x.args[1])]
        if x.op == 'call' and x.args[0] is mk('ext', 'os.path.join'):
            out = []
            for i, y in enumerate(x.args[1]):
                if i:
                    out.append(const('/'))
                out += flat(y)
            return out
        return [x]
    ps = flat(t)
    out = []
    for x in ps:
        if cstr(x) is not None and out and cstr(x).startswith('/') and (out[-1].op == 'attr' and out[-1].args[1] in ENDS or cstr(out[-1]) is not None and cstr(out[-1]).endswith('/')):
            x = const(cstr(x).lstrip('/'))
            if not cstr(x):
                continue
        out.append(x)
    return concat(out) if len(out) != 1 else out[0]


def same(a, b, facts=(), depth=8):
    """None if the two texts agree in every case, else a case in which they differ"""
    a, b = path(logic.under(a, frozenset(facts))), path(logic.under(b, frozenset(facts)))
    if a is b:
        return None
    for t in (a, b):
        for x in walk(t):
            if x.op == 'ite' and depth:
                c = x.args[0]
                for y in (c, neg(c)):
                    fs = extend(facts, y)
                    if logic.contradictory(fs):
                        continue
                    r = same(subst(a, {x: x.args[1] if y is c else x.args[2]}), subst(b, {x: x.args[1] if y is c else x.args[2]}), fs, depth - 1)
                    if r is not None:
                        return r
                return None
    return (a, b)


def check(p, rep):
    rep.rule('name', 'name, tags, folders and files of a run are made from its own base, parameters and data', 6)
    rep.rule('importance', 'an importance run is made for each setting wanted, extends the names of its parent and refers to it', 8)
    rep.rule('data', 'adding to a data set extends names, tag and parameters together, in the order of precedence', 3)
    rep.rule('normed', 'the order-independent name is made and looked up in the same way', 3)
    rep.rule('items', 'each combination of group, data set and parameters gives one run, with the settings of its group, unless skipped', 4)
    rep.rule('settings', 'the settings of each run are its own, in the order of precedence, and saved under its own file', 6)
    names(p, rep)
    importance(p, rep)
    data(p, rep)
    normed(p, rep)
    items(p, rep)
    settings(p, rep)


def last_set(I, base, name, upto=None):
    evs = [e for e in I.events if e.kind == 'setattr' and e.name == name and e.base is base and (upto is None or e.seq < upto)]
    return evs[-1] if evs else None


def names(p, rep):
    J = p.cls(B, 'jobItem')
    D = p.cls(B, 'dataSet')
    me = mk('self', J.qual)
    f = p.find_method(J, '__init__')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f, cls=J, facts=(mk('isinstance', P('data_set'), mk('tuple', mk('cls', D.qual))),))
    rep.analysed(I)
    ds = P('data_set')
    base, ps, pth = P('base'), P('param_set'), P('path')
    ptag = mk('join', const('_'), mk('seq', base, mk('star', ps)))
    dtag = attr(ds, 'tag')
    name = cat(ptag, '_', dtag)
    chain = cat(pth, ptag, '/', dtag, '/')
    want = {'paramtag': ptag, 'datatag': dtag, 'name': name, 'batchPath': pth, 'relativePath': cat(ptag, '/', dtag, '/'), 'chainPath': chain, 'chainRoot': cat(chain, name),
            'distPath': cat(chain, 'dist', '/'), 'distRoot': cat(chain, 'dist', '/', name), 'data_set': ds, 'param_set': ps, 'base': base, 'isImportanceJob': FALSE, 'want_minimize': P('minimize')}
    if not rets:
        raise AnalysisError('jobItem.__init__ does not return')
    for n, w in want.items():
        e = last_set(I, me, n)
        if e is None:
            rep.note('name', n, 'not set in the constructor')
            continue
        r = same(e.value, w)
        rep.ob('name', n, r is None, 'is %s' % show(e.value, 6), e.loc)
    e = last_set(I, me, 'importanceItems')
    if e is not None:
        rep.ob('name', 'no importance runs at first, in a list of its own', e.value.op == 'seq' and not e.value.args, 'is %s' % show(e.value, 4), e.loc)
    e = last_set(I, me, 'dist_settings')
    if e is not None:
        rep.ob('name', 'analysis settings of its data set, copied', contains(e.value, attr(ds, 'dist_settings')) and e.value is not attr(ds, 'dist_settings'), 'is %s' % show(e.value, 4), e.loc)
    constructors(p, rep)
    for m, want in (('iniFile', None), ('propertiesIniFile', cat(attr(me, 'chainRoot'), '.properties.ini'))):
        f = p.find_method(J, m)
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=J)
        rep.analysed(I)
        for st, v in rets:
            v = I.res(v, st)
            if m == 'iniFile':
                folder = ite(attr(me, 'isImportanceJob'), const('postIniFiles'), const('iniFiles'))
                w = cat(attr(me, 'batchPath'), folder, '/', attr(me, 'name'), P(f.argnames()[1]), '.ini')
            else:
                w = want
            r = same(v, w, st.facts)
            rep.ob('name', m, r is None, 'gives %s' % show(r[0] if r else v, 6), f.loc)


def constructors(p, rep):
    """what a group, a data set and an importance setting are made from is what they hold"""
    def run(cname):
        C = p.modules[B].classes.get(cname)
        f = p.find_method(C, '__init__') if C is not None else None
        if f is None:
            return None
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=C)
        rep.analysed(I)
        return C, f, I, [(st, lambda n, st=st: I.res(st.heap[(mk('self', C.qual), n)], st) if (mk('self', C.qual), n) in st.heap else None) for st, v in rets]
    for cname, fields in (('jobGroup', {'params': ('params', NONE), 'groupName': ('name', None), 'importanceRuns': ('importanceRuns', NONE), 'datasets': ('datasets', NONE)}),
                          ('importanceSetting', {'names': ('names', None), 'inis': ('inis', FALSE), 'dist_settings': ('dist_settings', FALSE), 'want_minimize': ('minimize', None)}),
                          ('importanceFilter', {'names': ('names', None), 'dist_settings': ('dist_settings', FALSE), 'want_minimize': ('minimize', None)})):
        r = run(cname)
        if r is None:
            continue
        C, f, I, sts = r
        for st, g in sts:
            for n, (a, absent) in fields.items():
                if a not in f.argnames():
                    continue
                v = g(n)
                if v is None:
                    rep.note('name', '%s.%s' % (cname, n), 'not set')
                    continue
                given = st.facts if absent is None else extend(st.facts, neg(compare('is', P(a), NONE)) if absent is NONE else P(a))
                bad = [l for fs, l in cases(v, given) if strip(l) is not P(a) and not (l.op == 'call' and l.args[1] == (P(a),))]
                rep.ob('name', '%s keeps the %s given' % (cname, n), not bad, 'keeps %s' % show(bad[0] if bad else v, 4), f.loc)
                if absent is not None:
                    for fs, l in cases(v, extend(st.facts, compare('is', P(a), NONE) if absent is NONE else neg(P(a)))):
                        rep.ob('name', '%s has %s of its own if none is given' % (cname, n), not contains(l, P(a)) and l.op in ('seq', 'dictc', 'tuple', 'new'), 'has %s' % show(l, 4), f.loc)
    r = run('dataSet')
    if r is not None:
        C, f, I, sts = r
        nm = P(f.argnames()[1])
        for st, g in sts:
            for fs, l in cases(g('tag'), st.facts) if g('tag') is not None else ():
                one = [x for x in fs if x.op == 'isinstance' and x.args[0] is nm]
                if l.op != 'join':
                    rep.ob('name', 'tag of a data set', l is nm and bool(one), 'is %s' % show(l, 4), f.loc)
                    continue
                x = strip(l.args[1])
                rep.ob('name', 'tag of a data set', l.args[0] is const('_') and (x is nm or x is mk('seq', nm) and bool(one)), 'is %s' % show(l, 4), f.loc)
            d = g('dist_settings')
            if d is not None:
                ds = P('dist_settings')
                bad = [l for fs, l in cases(d, extend(st.facts, ds)) if l is ds or not contains(l, ds)]
                rep.ob('name', 'a data set has a copy of the analysis settings given', not bad, 'has %s' % show(bad[0] if bad else d, 4), f.loc)


def importance(p, rep):
    J = p.cls(B, 'jobItem')
    S = p.cls(B, 'importanceSetting')
    F = p.cls(B, 'importanceFilter')
    me = mk('self', J.qual)
    f = p.find_method(J, 'makeImportance')
    if f is None:
        raise AnalysisError('makeImportance vanished')
    I = Interp(p, inline=policy('importanceSetting.__init__', 'jobItem.__init__'))
    I.run_function(f, cls=J)
    rep.analysed(I)
    app = [e for e in I.events if e.kind == 'meth' and e.name in ('append', 'add') and e.base is attr(me, 'importanceItems')]
    if len(app) != 1:
        if app:
            rep.ob('importance', 'one run per setting', False, 'added %d times' % len(app), app[1].loc)
        else:
            rep.note('importance', 'makeImportance', 'not recognised')
        return
    e = app[0]
    job = e.args[0]
    imp = mk('elem', P(f.argnames()[1]))
    isS = mk('isinstance', imp, mk('tuple', mk('cls', S.qual)))
    item = lambda i: mk('item', imp, const(i))
    nm = ite(isS, attr(imp, 'names'), item(0))
    inis = [ite(isS, attr(imp, 'inis'), item(1)), ite(isS, attr(imp, 'inis'), ite(truth(item(1)), item(1), mk('seq'))), ite(isS, attr(imp, 'inis'), ite(neg(truth(item(1))), mk('seq'), item(1)))]
    ds = attr(me, 'data_set')
    both = exists(nm, compare('in', mk('elem', nm), attr(ds, 'names')))
    wants = conj([disj([conj([isS, meth(imp, 'wantImportance', me)]), conj([neg(isS), disj([neg(compare('<', const(2), mk('len', imp))), meth(item(2), 'wantImportance', me)])])]), neg(both)])
    facts = [x for x in e.facts]
    # conditions on the names in the two forms a setting may have
    def split(t):
        return disj([conj([isS, norm(logic.under(t, frozenset([isS])))]), conj([neg(isS), norm(logic.under(t, frozenset([neg(isS)])))])])
    compare_conditions(rep, 'importance', 'made exactly for the settings wanted that add data', split(conj(facts)), split(wants), e.loc, calls=('wantImportance',))
    for b in I.events:
        if b.kind == 'break' and b.loops and b.loops[-1][1] is P(f.argnames()[1]):
            rep.ob('importance', 'made exactly for the settings wanted that add data', False, 'the remaining settings are left out where %s' % [show(x, 3) for x in b.facts], b.loc)
    tag = cat(ite(compare('in', const('_post_'), attr(me, 'name')), const('_'), const('_post_')), mk('join', const('_'), nm))
    a = lambda n: attr(me, n)
    ptags = [a('paramtag'), mk('join', const('_'), mk('seq', a('base'), mk('star', a('param_set'))))]
    want = {'name': [cat(a('name'), tag)], 'chainRoot': [cat(a('chainRoot'), tag)], 'distRoot': [cat(a('distRoot'), tag)], 'distPath': [a('distPath')], 'chainPath': [a('chainPath')],
            'relativePath': [a('relativePath')], 'datatag': [cat(a('datatag'), tag)], 'isImportanceJob': [TRUE], 'parent': [me], 'group': [a('group')], 'param_set': [a('param_set')], 'batchPath': [a('batchPath')],
            'paramtag': ptags, 'base': [a('base')], 'importanceTag': [mk('join', const('_'), nm)], 'importanceSettings': inis, 'want_minimize': [ite(isS, attr(imp, 'want_minimize'), TRUE)],
            'data_set': [meth(ds, 'extendForImportance', nm, i) for i in inis]}
    if job.op != 'new':
        rep.note('importance', 'makeImportance', 'run made by %s' % show(job, 3))
        return
    # what the constructor is given stands for what it stores
    for n, ws in want.items():
        ev = last_set(I, job, n)
        if ev is None:
            rep.ob('importance', n, False, 'never set', e.loc)
            continue
        v = ev.value
        oks = []
        if n == 'data_set':
            # the data set extended for the run, with the names and settings of the run
            for fs0 in (isS, neg(isS)):
                ext = [x for x in walk(v) if x.op == 'meth' and x.args[1] == 'extendForImportance']
                oks.append(bool(ext) and all(x.args[0] is ds and len(x.args[2]) + len(x.args[3]) == 2 and same((x.args[2] + tuple(y for _, y in x.args[3]))[0], nm, extend(e.facts, fs0)) is None for x in ext))
            oks = [all(oks)]
        else:
            for w in ws:
                r = [same(v, w, extend(e.facts, c)) for c in (isS, neg(isS)) if not logic.contradictory(extend(e.facts, c))]
                oks.append(all(x is None for x in r))
        cond = [x for x in ev.facts if not logic.implies(e.facts, x)]
        rep.ob('importance', n, any(oks) and not cond, 'is %s%s' % (show(v, 6), ' only where %s' % show(cond[0], 3) if cond else ''), ev.loc)
    ev = last_set(I, job, 'importanceFilter')
    isF = None
    if ev is None:
        rep.ob('importance', 'filters are kept with their run', False, 'never set', e.loc)
    else:
        new = [x for x in ev.facts if x not in e.facts]
        tst = [x for x in new if x.op == 'isinstance' and x.args[0] is imp and contains(x, mk('cls', F.qual))]
        v = logic.under(ev.value, frozenset(list(ev.facts) + [isS]))
        ok = v is imp or all(l is imp for fs, l in alts(v, ev.facts))
        rep.ob('importance', 'filters are kept with their run', ok and len(tst) == 1 and len([x for x in new if x is not tst[0] and not logic.implies(list(e.facts) + tst + [isS], x)]) == 0, 'set to %s where %s' % (show(ev.value, 4), [show(x, 3) for x in new]), ev.loc)
    up = [x for x in I.events if x.kind == 'meth' and x.name == 'update' or x.kind == 'setattr' and x.base is job and x.name == 'dist_settings' and not contains(x.value, mk('ext', 'copy.copy'))]
    okd = [x for x in up if any(any_sub(y, lambda z: z.op == 'attr' and z.args[1] == 'dist_settings' and z.args[0] is imp) for y in (x.args or ()) + ((x.value,) if x.value is not None else ()))]
    rep.ob('importance', 'analysis settings of the importance run are added', bool(okd), 'not added', e.loc)
    # importance runs taken away
    f = p.find_method(J, 'removeImportance')
    if f is not None:
        I = Interp(p, inline=policy())
        I.run_function(f, cls=J)
        rep.analysed(I)
        own = a('importanceItems')
        x = P(f.argnames()[1])
        rm = [e for e in I.events if e.kind == 'meth' and e.name == 'remove']
        deep = [e for e in I.events if e.kind in ('meth', 'repocall') and e.name == 'removeImportance']
        for e in rm:
            rep.ob('importance', 'the run given is taken away', e.base is own and e.args == (x,), 'removes %s from %s' % (show(e.args[0], 3), show(e.base, 3)), e.loc)
        if rm or deep:
            rep.ob('importance', 'the run given is taken away', bool(rm), 'never removed', f.loc)
            rep.ob('importance', 'taken away wherever it is', bool(deep) and all(e.base is mk('elem', own) and e.args == (x,) and logic.implies([neg(compare('in', x, own))], conj(list(e.facts))) for e in deep), 'importance runs of importance runs are not looked at', f.loc)


def data(p, rep):
    D = p.cls(B, 'dataSet')
    me = mk('self', D.qual)
    f = p.find_method(D, 'extendForImportance')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=D)
        rep.analysed(I)
        nm, pr = [P(x) for x in f.argnames()[1:3]]
        for st, v in rets:
            d = I.res(v, st)
            copied = d.op == 'call' and d.args[0] is mk('ext', 'copy.deepcopy') and d.args[1] == (me,) or d.op == 'meth' and d.args[1] == 'copy' and d.args[0] is me
            if d is me:
                rep.ob('data', 'the data set of the parent is not changed', False, 'extends the data set of the parent', f.loc)
                continue
            if d.op == 'call' and d.args[0] is mk('ext', 'copy.copy') and d.args[1] == (me,):
                for e in I.events:
                    if e.kind in ('inplace', 'setitem', 'meth') and e.base is not None and e.base.op == 'attr' and e.base.args[0] is d and (e.kind != 'meth' or e.name in ('append', 'extend', 'insert', 'update', 'remove', 'pop')) and not any(x.kind == 'setattr' and x.base is d and x.name == e.base.args[1] and x.seq < e.seq for x in I.events):
                        rep.ob('data', 'the data set of the parent is not changed', False, 'the %s of the parent are extended with those of the importance run' % e.base.args[1], e.loc)
                copied = True
            if not copied:
                rep.note('data', 'extendForImportance', show(d, 3))
                continue
            g = lambda n: st.heap.get((d, n))
            joined = mk('join', const('_'), nm)
            old = attr(d, 'tag')
            w = cat(old, ite(compare('in', const('_post_'), old), const('_'), const('_post_')), joined)
            t = g('tag')
            if t is not None:
                r = same(subst(I.res(t, st), {attr(me, 'tag'): old}), w, st.facts)
                rep.ob('data', 'tag of an importance run', r is None, 'is %s' % show(t, 5), f.loc)
            else:
                rep.ob('data', 'tag of an importance run', False, 'not changed', f.loc)
            for n, add in (('names', nm), ('params', None)):
                v2 = g(n)
                v2 = I.res(v2, st) if v2 is not None else None
                grown = [e for e in I.events if e.kind in ('inplace', 'meth') and e.base is attr(d, n) and (e.kind == 'inplace' or e.name in ('extend', 'append'))]
                src = [x for x in ([v2] if v2 is not None else []) + [y for e in grown for y in (e.args or ()) + ((e.value,) if e.value is not None else ())]]
                ok = bool(src) and any(contains(x, add if add is not None else pr) or any_sub(x, lambda y: y.op == 'attr' and y.args[1] in ('importanceNames' if n == 'names' else 'importanceParams',) and y.args[0] is d) for x in src)
                rep.ob('data', '%s of an importance run' % n, ok, 'not extended' if not src else 'extended by %s' % show(src[0], 4), f.loc)
            v2 = g('importanceNames')
            rep.ob('data', 'importance names', v2 is not None and (I.res(v2, st) is nm or strip(I.res(v2, st)) is nm), 'are %s' % (show(v2, 3) if v2 is not None else 'not set'), f.loc)
    f = p.find_method(D, 'add')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=D)
        rep.analysed(I)
        nm = P(f.argnames()[1])
        over = P('overrideExisting')
        for st, v in rets:
            t = st.heap.get((me, 'tag'))
            ns = st.heap.get((me, 'names'))
            has = logic.decide(neg(compare('is', nm, NONE)), st.facts)
            joined = [x for x in walk(I.res(t, st)) if x.op == 'join'] if t is not None else []
            if t is not None:
                tcases = alts(I.res(t, st), st.facts)
            else:
                tcases = []
            n = 0
            for fs, l in tcases:
                if logic.decide(compare('is', nm, NONE), fs) is True:
                    rep.ob('data', 'tag without a new name', not contains(l, nm), 'is %s' % show(l, 4), f.loc)
                else:
                    n += 1
                    ok = l.op == 'join' and l.args[0] is const('_') and (any_sub(l, lambda x: x is attr(me, 'names')))
                    grown = [e for e in I.events if e.kind == 'meth' and e.name == 'append' and e.base is attr(me, 'names') and e.args == (nm,) and not any(x.kind == 'setattr' and x.name == 'tag' and x.seq < e.seq for x in I.events)]
                    rep.ob('data', 'the tag names all data', ok and (last_is(l.args[1], nm) or bool(grown) and l.args[1] is attr(me, 'names')), 'is %s' % show(l, 4), f.loc)
            if not n:
                rep.ob('data', 'the tag names all data', False, 'the tag is not changed', f.loc)
            ps = st.heap.get((me, 'params'))
            if ps is None:
                rep.note('data', 'add: params', 'not recognised')
                continue
            old = attr(me, 'params')
            for yes in (TRUE, FALSE):
                for fs, l in cases(I.res(ps, st), extend(st.facts, over if yes is TRUE else neg(over))):
                    order = flat(l)
                    pos = [i for i, x in enumerate(order) if x is old]
                    new = [i for i, x in enumerate(order) if x is not old]
                    if not pos or not new:
                        ok = False
                    elif len(pos) == 1 and len(new) == 1:
                        ok = (new[0] < pos[0]) == (yes is TRUE)
                    else:
                        rep.note('data', 'add: params', show(l, 4))
                        continue
                    rep.ob('data', 'new settings %s existing ones' % ('override' if yes is TRUE else 'follow'), ok, 'settings become %s' % show(l, 4), f.loc)
    f = p.find_method(D, 'standardizeParams')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=D)
        rep.analysed(I)
        raw = P(f.argnames()[1])
        for st, v in rets:
            for fs0, lst in cases_outer(I.res(v, st), st.facts):
                ps = parts(lst)
                if not ps:
                    rep.note('data', 'standardizeParams', show(lst, 4))
                    continue
                for c, x, it in ps:
                    el = raw
                    if it is not None:
                        el = P('$el')
                        x, c = subst(x, {mk('elem', it): el}), subst(c, {mk('elem', it): el})
                    for fs, l in cases(x, extend(frozenset(), c) if it is not None else extend(fs0, c)):
                        ini = logic.decide(norm(compare('in', const('.ini'), el)), fs)
                        istext = [y for y in fs if (y.op == 'isinstance' and y.args[0] is el)]
                        if l is el:
                            rep.ob('data', 'names of files end in .ini', ini is True or not istext and (any(z.op == 'not' and z.args[0].op == 'isinstance' and z.args[0].args[0] is el for z in fs) or any(z.op == 'or' for z in fs)), 'kept where %s' % [show(z, 3) for z in fs], f.loc)
                        elif l is cat(el, '.ini'):
                            rep.ob('data', 'names of files end in .ini', ini is False and bool(istext), 'added where %s' % [show(z, 3) for z in fs], f.loc)
                        else:
                            rep.note('data', 'standardizeParams', show(l, 4))
    f = p.find_method(D, 'addEnd')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=D)
        rep.analysed(I)
        for e in I.events:
            if e.kind == 'repocall' and e.name == 'add':
                ok = e.kw('overrideExisting') is FALSE or len(e.args) > 2 and e.args[2] is FALSE
                rep.ob('data', 'settings added at the end do not override', ok, 'override', e.loc)
    f = p.find_method(D, 'namesReplacing')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=D)
        rep.analysed(I)
        dic = P(f.argnames()[1])
        nm = attr(me, 'names')
        el = mk('elem', nm)
        for st, v in rets:
            v = I.res(v, st)
            none = logic.decide(compare('is', dic, NONE), st.facts)
            if none is True:
                rep.ob('data', 'names without replacement', strip(v) is nm, 'are %s' % show(v, 4), f.loc)
                continue
            ps = parts(v)
            if not ps or any(it is not nm for _, _, it in ps):
                rep.note('data', 'namesReplacing', show(v, 4))
                continue
            val = mk('item', dic, el)
            inn = compare('in', el, dic)
            got = {'val': [], 'own': []}
            for c, x, it in ps:
                for fs, l in alts(x):
                    k = 'own' if l is el else 'val' if l in (val, meth(dic, 'get', el)) else None
                    if k is None:
                        k = 'other'
                    got.setdefault(k, []).append(conj([c] + list(fs)))
            if 'other' in got:
                rep.note('data', 'namesReplacing', show(v, 4))
                continue
            sub = lambda t: subst(t, {meth(dic, 'get', el): val})
            rep.ob('data', 'names not replaced are kept', differ(disj([sub(x) for x in got['own']]), neg(inn)) is None, 'kept where %s' % show(disj(got['own']), 5), f.loc)
            rep.ob('data', 'replaced names are replaced, or dropped if empty', differ(disj([sub(x) for x in got['val']]), conj([inn, val])) is None, 'replaced where %s' % show(disj(got['val']), 5), f.loc)


def strip(t):
    while True:
        if t.op == 'call' and t.args[0].op in ('builtin', 'ext') and t.args[0].args[0] in ('list', 'tuple', 'copy.copy', 'copy.deepcopy') and len(t.args[1]) == 1:
            t = t.args[1][0]
        elif t.op == 'seq' and len(t.args) == 1 and t.args[0].op == 'star':
            t = t.args[0].args[0]
        elif t.op == 'seq' and len(t.args) == 1 and t.args[0].op == 'rep' and t.args[0].args[0] is mk('elem', t.args[0].args[1]):
            t = t.args[0].args[1]
        else:
            return t


def flat(t):
    if t.op == 'bin' and t.args[0] == '+':
        return flat(t.args[1]) + flat(t.args[2])
    if t.op in ('seq', 'concat'):
        out = []
        for x in t.args:
            out += flat(x.args[0]) if x.op == 'star' else [x]
        return out
    return [t]


def last_is(t, x):
    fl = flat(t)
    return bool(fl) and (fl[-1] is x or contains(fl[-1], x))


def normed(p, rep):
    J = p.cls(B, 'jobItem')
    me = mk('self', J.qual)
    f = p.find_method(J, 'makeNormedName')
    US = const('_')
    srt = lambda x: mk('call', mk('builtin', 'sorted'), (x,), ())
    ps = attr(me, 'param_set')
    pj = mk('join', US, srt(ps))
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=J)
        rep.analysed(I)
        nd = meth(attr(me, 'data_set'), 'makeNormedDatatag', P(f.argnames()[1]))
        for st, v in rets:
            v = I.res(v, st)
            if v.op != 'tuple' or len(v.args) != 3:
                rep.note('normed', 'makeNormedName', show(v, 3))
                continue
            for some in (True, False):
                # with and without added parameters
                c = [truth(ps), pj] if some else [neg(truth(ps)), neg(pj)]
                for fs, l in cases(v.args[0], extend(st.facts, conj(c))):
                    g = unjoin(l, {srt(ps): some})
                    w = cat(attr(me, 'base'), '_', pj, '_', nd) if some else cat(attr(me, 'base'), '_', nd)
                    rep.ob('normed', 'name of sorted parameters and data', g is w, 'is %s' % show(l, 5), f.loc)
            rep.ob('normed', 'parameters', v.args[1] is pj, 'are %s' % show(v.args[1], 4), f.loc)
            rep.ob('normed', 'data', v.args[2] is nd, 'are %s' % show(v.args[2], 4), f.loc)
    f = p.find_method(J, 'makeIDs')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=J)
        rep.analysed(I)
        for st, v in rets:
            for i, n in enumerate(('normed_name', 'normed_params', 'normed_data')):
                t = st.heap.get((me, n))
                ok = t is not None and I.res(t, st).op == 'item' and I.res(t, st).args[1] is const(i) and any_sub(t, lambda x: x.op in ('meth', 'call') and 'makeNormedName' in show(x, 2))
                rep.ob('normed', 'stored %s' % n, ok, 'is %s' % (show(t, 4) if t is not None else 'not set'), f.loc)
    D = p.cls(B, 'dataSet')
    f = p.find_method(D, 'makeNormedDatatag')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=D)
        rep.analysed(I)
        nr = meth(mk('self', D.qual), 'namesReplacing', P(f.argnames()[1]))
        for st, v in rets:
            v = I.res(v, st)
            rep.ob('normed', 'data in sorted order', v is mk('join', US, srt(nr)), 'is %s' % show(v, 5), f.loc)
    C = p.cls(B, 'batchJob')
    cm = mk('self', C.qual)
    f = p.find_method(C, 'normalizeDataTag')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=C)
        rep.analysed(I)
        t = P(f.argnames()[1])
        for st, v in rets:
            v = I.res(v, st)
            w = mk('join', US, srt(meth(meth(t, 'replace', const('_post'), const('')), 'split', US)))
            rep.ob('normed', 'data tag looked up in sorted order, as importance runs are', v is w, 'is %s' % show(v, 5), f.loc)
    f = p.find_method(C, 'normed_name_item')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=C)
        rep.analysed(I)
        nm, exc = P(f.argnames()[1]), P('exclude')
        hit = False
        for st, v in rets:
            for fs, v1 in alts(I.res(v, st), st.facts):
                if v1 is NONE:
                    continue
                run = v1.op == 'elem' and v1.args[0].op == 'meth' and v1.args[0].args[1] == 'items'
                if not run:
                    rep.ob('normed', 'the run of that name is found', v1.op in ('lv', 'loop', 'call', 'item', 'meth') and not any_sub(v1, lambda x: x is exc), 'gives %s' % show(v1, 4), f.loc)
                    continue
                hit = True
                rep.ob('normed', 'the run of that name is found', logic.implies(fs, norm(compare('==', attr(v1, 'normed_name'), nm))) or logic.implies(fs, compare('==', nm, attr(v1, 'normed_name'))), 'gives a run where %s' % [show(x, 3) for x in fs], f.loc)
                rep.ob('normed', 'the run excluded is not found', logic.implies(fs, neg(compare('is', v1, exc))) or logic.implies(fs, neg(compare('is', exc, v1))) or logic.implies(fs, neg(compare('==', v1, exc))), 'gives a run where %s' % [show(x, 3) for x in fs], f.loc)
                rep.ob('normed', 'looked for among the runs asked for', v1.args[0].args[2] == (P('wantSubItems'), P('wantImportance')) or dict(v1.args[0].args[3]) == {'wantSubItems': P('wantSubItems'), 'wantImportance': P('wantImportance')}, 'among %s' % show(v1.args[0], 4), f.loc)
    f = p.find_method(C, 'resolveName')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f, cls=C)
        rep.analysed(I)
        pt, base = P('paramtag'), P('base')
        n = 0
        for e in I.events:
            if e.kind == 'repocall' and e.name in ('normed_name_item', 'has_normed_name'):
                n += 1
                for fs, l in cases(e.args[0], e.facts):
                    given = logic.decide(pt, fs)
                    istext = [x for x in fs if x.op == 'isinstance']
                    dt = meth(cm, 'normalizeDataTag', P('datatag'))
                    src = meth(pt, 'split', US) if istext and logic.decide(istext[0], fs) is True else pt
                    w = cat(base, '_', mk('join', US, srt(src)), '_', dt) if given is not False else cat(base, '_', dt)
                    g = unjoin(l, {srt(src): given is not False})
                    rep.ob('normed', 'looked up under the order-independent name', g is w, 'looks up %s' % show(l, 6), e.loc)
                for k in ('wantSubItems', 'wantImportance'):
                    v = e.kw(k) if e.kw(k, None) is not None else e.args[1 + ('wantSubItems', 'wantImportance').index(k)] if len(e.args) > 1 + ('wantSubItems', 'wantImportance').index(k) else None
                    rep.ob('normed', 'looked up among the runs asked for (%s)' % k, v is P(k), '%s=%s' % (k, show(v, 3) if v is not None else 'default'), e.loc)
        if not n:
            rep.note('normed', 'resolveName', 'not recognised')


def cases_outer(t, facts=()):
    t = logic.under(t, frozenset(facts))
    return alts(t, facts)


def unjoin(t, some):
    """text with each join of a list written out; some: which of the lists joined have elements"""
    for _ in range(8):
        m = {}
        for x in walk(t):
            if x.op == 'seq' and any(y.op == 'star' and y.args[0].op == 'seq' for y in x.args):
                out = []
                for y in x.args:
                    out += list(y.args[0].args) if y.op == 'star' and y.args[0].op == 'seq' else [y]
                m[x] = mk('seq', *out)
        if m:
            t = subst(t, m)
            continue
        for x in walk(t):
            if x.op == 'join' and x.args[1].op == 'seq' and all(y.op not in ('rep', 'opt') and (y.op != 'star' or y.args[0] in some) for y in x.args[1].args):
                out = []
                for y in x.args[1].args:
                    if y.op == 'star':
                        if not some[y.args[0]]:
                            continue
                        y = mk('join', x.args[0], y.args[0])
                    out += [x.args[0], y] if out else [y]
                m[x] = concat(out) if len(out) > 1 else out[0] if out else const('')
        if not m:
            return t
        t = subst(t, m)
    return t


def cases(t, facts=(), depth=6):
    """(facts, value) with every choice inside t decided"""
    t = logic.under(t, frozenset(facts))
    for x in walk(t):
        if x.op == 'ite' and depth:
            out = []
            for c, y in ((x.args[0], x.args[1]), (neg(x.args[0]), x.args[2])):
                fs = extend(facts, c)
                if not logic.contradictory(fs):
                    out += cases(subst(t, {x: y}), fs, depth - 1)
            return out
    return [(frozenset(facts), t)]


def items(p, rep):
    C = p.cls(B, 'batchJob')
    me = mk('self', C.qual)
    f = p.find_method(C, 'makeItems')
    if f is None:
        raise AnalysisError('makeItems vanished')
    I = Interp(p, inline=policy())
    I.run_function(f, cls=C)
    rep.analysed(I)
    S = P(f.argnames()[1])
    grp = mk('elem', attr(S, 'groups'))
    ds, ps = mk('elem', attr(grp, 'datasets')), mk('elem', attr(grp, 'params'))
    new = [e for e in I.events if e.kind == 'construct' and e.fn is not None and show(e.fn, 2).endswith('jobItem')]
    news = [e for e in I.events if e.kind == 'repocall' and e.name == '__init__' and e.base is not None and e.base.op == 'new' and e.base.args[0].endswith(':jobItem')]
    apps = [e for e in I.events if e.kind == 'meth' and e.name == 'append' and e.rawbase is not None]
    made = {e.base for e in news}
    if len(made) != 1:
        rep.note('items', 'makeItems', '%d kinds of runs made' % len(made))
    for job in made:
        ev = [e for e in news if e.base is job][0]
        a = list(job.args[2]) + [None] * 3
        kw = dict(job.args[3])
        got = (a[0] or kw.get('path'), a[1] or kw.get('param_set'), a[2] or kw.get('data_set'))
        rep.ob('items', 'folder, parameters and data of the run', got == (attr(me, 'batchPath'), ps, ds), 'made of %s' % [show(x, 3) for x in got if x is not None], ev.loc)
        rep.ob('items', 'one run per combination', {it for _, it in ev.loops} == {attr(S, 'groups'), attr(grp, 'datasets'), attr(grp, 'params')} and len(ev.loops) == 3, 'made for %s' % [show(it, 3) for _, it in ev.loops], ev.loc)
        add = [e for e in apps if e.args == (job,)]
        nm = attr(job, 'name')
        rep.ob('items', 'listed once', len(add) == 1, 'listed %d times' % len(add), ev.loc)
        for e in add[:1]:
            fs = [x for x in e.facts if not x.op == 'hasattr' and not (x.op == 'not' and x.args[0].op == 'hasattr')]
            compare_conditions(rep, 'items', 'listed unless skipped', conj(fs), neg(compare('in', nm, attr(me, 'skip'))), e.loc)
        for n, src in (('group', 'groupName'), ('extra_opts', 'extra_opts'), ('param_extra_opts', 'param_extra_opts')):
            e = last_set(I, job, n)
            if e is None:
                rep.ob('items', '%s of its group' % n, False, 'never set', ev.loc)
                continue
            v = [l for fs, l in alts(e.value, e.facts)]
            rep.ob('items', '%s of its group' % n, attr(grp, src) in v, 'is %s' % show(e.value, 4), e.loc)
        calls = [e for e in I.events if e.kind in ('meth', 'repocall') and e.name == 'makeImportance' and e.base is job]
        got = [e.args[0] for e in calls]
        own = attr(grp, 'importanceRuns')
        rep.ob('items', 'importance runs of its group', own in got, 'not made', ev.loc)
        rep.ob('items', 'importance runs of all groups', any(any_sub(x, lambda y: y is attr(S, 'importanceRuns')) for x in got), 'not made', ev.loc)
        for e in calls:
            if add:
                cond = [x for x in e.facts if not any(logic.implies(a.facts, x) for a in add) and x.op != 'hasattr']
                rep.ob('items', 'importance runs of every listed run', not cond, 'only where %s' % [show(x, 3) for x in cond][:2], e.loc)
    # runs replaced
    rem = [e for e in I.events if e.kind in ('meth', 'repocall') and e.name == 'removeImportance']
    seen = set()
    for e in rem:
        x = e.args[0]
        if not (x.op == 'elem' and x.args[0].op == 'meth' and x.args[0].args[1] == 'importanceJobsRecursive' and x.args[0].args[0] is e.base):
            rep.note('items', 'replaced importance runs', show(x, 4))
            continue
        hs = [h for fct in e.facts for h in walk(fct) if h.op == 'meth' and h.args[0] is me and h.args[1] in ('has_normed_name', 'normed_name_item')]
        for h in hs:
            hf = p.find_method(C, h.args[1])
            ns = hf.argnames()[1:]
            b = dict(zip(ns, h.args[2]))
            b.update(dict(h.args[3]))
            imp = b.get('wantImportance', FALSE)
            seen.add(imp)
            rep.ob('items', 'replaced by a run of the same order-independent name', b.get(ns[0]) is attr(x, 'normed_name'), 'compares %s' % show(b.get(ns[0]), 4), e.loc)
            if imp is TRUE:
                rep.ob('items', 'not replaced by itself', b.get('exclude') is x, 'excludes %s' % show(b.get('exclude', NONE), 3), e.loc)
            pos = truth(h) if h.args[1] == 'has_normed_name' else neg(compare('is', h, NONE))
            rep.ob('items', 'removed where there is another run', logic.implies(e.facts, pos), 'removed where %s' % [show(y, 4) for y in e.facts], e.loc)
    if rem:
        for k, n in ((FALSE, 'full runs replace importance runs'), (TRUE, 'duplicate importance runs are removed')):
            rep.ob('items', n, k in seen, 'missing', f.loc)
    elif not rem:
        rep.ob('items', 'full runs replace importance runs', False, 'missing', f.loc)
    # other runs given by the settings
    extra = mk('elem', attr(S, 'jobItems'))
    lst = [e for e in apps if any(l is extra for fs, l in alts(e.args[0]))] or [e for e in I.events if e.kind in ('meth', 'inplace') and any_sub(mk('tuple', *(list(e.args or ()) + ([e.value] if e.value is not None else []))), lambda x: x is attr(S, 'jobItems'))]
    e2 = [e for e in apps if any_sub(e.args[0], lambda x: x is attr(S, 'jobItems'))]
    rep.ob('items', 'runs given by the settings are listed', bool(lst or e2), 'not listed', f.loc)


RUN, IMP, BATCH, SET = P('$run'), P('$imp'), P('$batch'), P('settings')


def canon(t):
    def one(x):
        if x.op == 'new' and x.args[0] == B + ':batchJob':
            return BATCH
        if x.op == 'elem' and x.args[0].op == 'meth' and x.args[0].args[0] is BATCH and x.args[0].args[1] == 'items':
            return RUN
        if x.op == 'elem' and x.args[0] is attr(BATCH, 'jobItems'):
            return RUN
        if x.op == 'elem' and x.args[0].op == 'meth' and x.args[0].args[0] is RUN and x.args[0].args[1] in ('importanceJobs',):
            return IMP
        if x.op == 'elem' and x.args[0] is attr(RUN, 'importanceItems'):
            return IMP
        return None
    for _ in range(8):
        m = {}
        for x in walk(t):
            y = one(x)
            if y is not None:
                m[x] = y
        if not m:
            return t
        t = subst(t, m)
    return t


def layers(t):
    """[(condition, 'kv'|'upd', key, value, collection)] in the order applied"""
    if t.op != 'dictc':
        return None
    out = []
    for x in t.args:
        it, cs = None, []
        while x.op in ('rep', 'opt'):
            if x.op == 'rep':
                it, x = x.args[1], x.args[0]
            else:
                cs.append(x.args[0])
                x = x.args[1]
        if x.op == 'kv':
            out.append((conj(cs), 'kv', x.args[0], x.args[1], it))
        elif x.op == 'upd':
            out.append((conj(cs), 'upd', None, x.args[0], it))
        else:
            return None
    return out


def settings(p, rep):
    f = p.func(G, 'makeGrid')
    # reading an existing grid changes nothing but the stored grid
    I = Interp(p, inline=policy())
    I.run_function(f, facts=(SET,), args={'readOnly': TRUE})
    rep.analysed(I)
    bad = [e for e in I.events if e.name in ('saveFile', 'makeDirectories', 'makeChainPath', 'writeIniLines')]
    rep.ob('settings', 'a grid only read writes no settings', not bad, 'calls %s' % (bad[0].name if bad else ''), bad[0].loc if bad else f.loc)
    for e in I.events:
        if e.kind == 'meth' and e.name == 'remove' and canon(e.base) is attr(BATCH, 'jobItems'):
            x = canon(e.args[0])
            fs = conj([canon(y) for y in e.facts if y is not SET])
            compare_conditions(rep, 'settings', 'a grid only read keeps exactly the runs that exist', fs, neg(meth(RUN, 'chainExists')), e.loc, calls=('chainExists',))
            rep.ob('settings', 'a grid only read keeps exactly the runs that exist', x is RUN, 'removes %s' % show(x, 3), e.loc)
    I = Interp(p, inline=policy('IniFile.__init__', 'setMinimize', 'updateIniParams'), budget=400000)
    saved = []

    def cb(I, e, st):
        if not I.mute and e.kind in ('meth', 'repocall') and e.name == 'saveFile' and e.base.op == 'new' and e.base.args[0].endswith(':IniFile'):
            g = lambda n: canon(I.res(st.heap[(e.base, n)], st)) if (e.base, n) in st.heap else None
            saved.append((e, g('params'), g('defaults'), canon(e.args[0]) if e.args else None, [canon(x) for x in e.facts], e.base))
    I.on_event_cb = cb
    I.run_function(f, facts=(SET,), args={'readOnly': FALSE})
    rep.analysed(I)
    if not saved:
        raise AnalysisError('makeGrid saves no settings')
    kinds = {}
    fresh = {}
    for e, params, defaults, name, facts, base in saved:
        which = None
        if name is not None and name.op == 'meth' and name.args[1] == 'iniFile':
            var = name.args[2][0] if name.args[2] else dict(name.args[3]).get('variant', const(''))
            which = (name.args[0], var)
        if which is None or which[0] not in (RUN, IMP) or which[1] not in (const(''), const('_minimize')):
            ok = which is not None and which[0] in (RUN, IMP)
            if ok:
                rep.note('settings', 'saved file', show(name, 4))
            else:
                rep.ob('settings', 'saved under its own file', False, 'saved under %s' % (show(name, 4) if name is not None else 'no name'), e.loc)
            continue
        k = (which[0] is IMP, which[1] is const('_minimize'))
        kinds.setdefault(k, []).append(e)
        fresh.setdefault(base, set()).add(which[0])
        one_file(p, rep, k, e, params, defaults, facts)
    for k, n in (((False, False), 'each run'), ((False, True), 'minimization of each run'), ((True, False), 'each importance run'), ((True, True), 'minimization of importance runs')):
        rep.ob('settings', 'settings are written for %s' % n, k in kinds, 'never written', f.loc)
    for b, ws in fresh.items():
        rep.ob('settings', 'settings of runs and importance runs are separate', len(ws) == 1, 'one set of settings for both', f.loc)
    for e in I.events:
        if e.kind == 'construct' and e.fn is not None and show(e.fn, 2).endswith('IniFile'):
            loops = [canon(it) for _, it in e.loops]
            rep.ob('settings', 'each run has settings of its own', bool(loops), 'one set of settings for all runs', e.loc)
    # updateIniParams: dictionaries are settings, texts are files, lists are looked into
    f = p.modules[G].funcs.get('updateIniParams')
    if f is not None:
        I = Interp(p, inline=policy())
        I.run_function(f)
        rep.analysed(I)
        ini, ps, pth = [P(x) for x in f.argnames()[:3]]
        el = mk('elem', ps)
        done = [e for e in I.events if e.kind == 'meth' and e.name == 'update' and e.base is attr(ini, 'params')]
        weak = [e for e in I.events if e.kind == 'meth' and e.name == 'setdefault' and e.base is attr(ini, 'params')]
        if done or weak:
            rep.ob('settings', 'settings given are applied', not weak, 'settings already there are kept', (weak or done)[0].loc)
        for e in I.events:
            if e.kind == 'meth' and e.name == 'insert' and e.base is attr(ini, 'defaults'):
                rep.ob('settings', 'files given are read in the order given', e.args[0] is not const(0), 'the last file given comes first', e.loc)
            if e.kind == 'meth' and e.name == 'update' and e.base is attr(ini, 'params'):
                rep.ob('settings', 'settings given are applied', e.args == (el,), 'applies %s' % show(e.args[0], 3), e.loc)
            if e.kind == 'meth' and e.name == 'append' and e.base is attr(ini, 'defaults'):
                rep.ob('settings', 'files given are read from the common folder', same(e.args[0], cat(pth, el)) is None, 'reads %s' % show(e.args[0], 3), e.loc)
            if e.kind == 'repocall' and e.name == 'updateIniParams':
                rep.ob('settings', 'lists are looked into', tuple(e.args[:3]) == (ini, el, pth), 'looks into %s' % [show(x, 3) for x in e.args], e.loc)


def index_of(ls, pred):
    return [i for i, l in enumerate(ls) if pred(l)]


def one_file(p, rep, k, e, params, defaults, facts):
    imp, mini = k
    own = IMP if imp else RUN
    what = '%s%s' % ('importance run' if imp else 'run', ', minimization' if mini else '')
    ls = layers(params) if params is not None else None
    if ls is None:
        rep.note('settings', what, 'settings not understood: %s' % (show(params, 3) if params is not None else None))
        return
    opaque_ = [l for l in ls if l[1] == 'upd' and any_sub(l[3], lambda x: x.op in ('lv', 'loop'))]
    key = lambda s: index_of(ls, lambda l: l[1] == 'kv' and l[2] is const(s))
    upd = lambda pred: index_of(ls, lambda l: l[1] == 'upd' and pred(l[3]))

    def always(i, cond=TRUE):
        c = norm(ls[i][0])
        return differ(c, norm(cond)) is None or logic.implies(facts, c)

    def final(name, val):
        ix = key(name)
        ok = bool(ix) and ls[ix[-1]][3] is val and ls[ix[-1]][4] is None and always(ix[-1])
        rep.ob('settings', '%s: %s' % (what, name), ok, 'is %s' % (show(ls[ix[-1]][3], 4) if ix else 'not set'), e.loc)
        return ix[-1] if ix else None

    order = []
    if not imp:
        el = mk('elem', attr(RUN, 'param_set'))
        A = index_of(ls, lambda l: l[1] == 'kv' and l[2] is cat('param[', el, ']'))
        rep.ob('settings', '%s: parameters' % what, len(A) == 1 and ls[A[0]][4] is attr(RUN, 'param_set') and all(l.op == 'item' and l.args[1] is el and l.args[0] is (attr(SET, 'params') if y else mk('glob', G, 'default_params')) for y in (True, False) for fs, l in cases(ls[A[0]][3], extend(frozenset(), hasattr_(SET, 'params') if y else neg(hasattr_(SET, 'params'))))) and always(A[0]), 'param[] settings %s' % (show(ls[A[0]][3], 4) if A else 'missing'), e.loc)
        src = lambda v, s: v.op == 'item' and v.args[1] is el and s(v.args[0])
        hasS = lambda v: any_sub(v, lambda x: x is attr(SET, 'param_extra_opts'))
        hasR = lambda v: any_sub(v, lambda x: x is attr(RUN, 'param_extra_opts'))
        Bs = upd(lambda v: src(v, hasS) or hasS(v) and contains(v, el))
        Cs = upd(lambda v: src(v, hasR) or hasR(v) and contains(v, el))
        Ds = upd(lambda v: any_sub(v, lambda x: x is attr(SET, 'extra_opts')))
        Es = upd(lambda v: any_sub(v, lambda x: x is attr(RUN, 'extra_opts')))
        Gs = upd(lambda v: v is mk('elem', attr(RUN, 'data_set', 'params')))
        for n, ix in (('options of its parameters', Bs), ('options of its parameters in its group', Cs), ('options of the grid', Ds), ('options of its group', Es), ('settings of its data set', Gs)):
            rep.ob('settings', '%s: %s' % (what, n), len(ix) == 1, 'applied %d times' % len(ix), e.loc)
        for ix in (Bs, Cs):
            for i in ix:
                rep.ob('settings', '%s: options belong to its own parameters' % what, ls[i][4] is attr(RUN, 'param_set'), 'options for %s' % (show(ls[i][4], 3) if ls[i][4] is not None else 'one'), e.loc)
                # applied wherever there are options for the parameter
                holder = [x.args[0] for x in walk(ls[i][3]) if x.op == 'item' and x.args[1] is el]
                if len(set(holder)) == 1:
                    c = norm(conj([neg(compare('is', holder[0], NONE)), compare('in', el, holder[0])]))
                    rep.ob('settings', '%s: options of a parameter applied wherever there are any' % what, logic.implies(extend(facts, c), norm(ls[i][0])), 'only where %s' % show(ls[i][0], 5), e.loc)
        for i in Ds:
            rep.ob('settings', '%s: options of the grid, if any' % what, logic.implies([norm(hasattr_(SET, 'extra_opts'))] + facts, norm(ls[i][0])), 'only where %s' % show(ls[i][0], 4), e.loc)
        for i in Es:
            rep.ob('settings', '%s: options of its group, if any' % what, logic.implies([norm(hasattr_(RUN, 'extra_opts'))] + facts, norm(ls[i][0])), 'only where %s' % show(ls[i][0], 4), e.loc)
        F = final('file_root', attr(RUN, 'chainRoot'))
        act = final('action', const(2 if mini else 0))
        chain = [A, Bs, Cs, Ds, Es, [F] if F is not None else []]
        txt = ['parameters', 'options of parameters', 'options of parameters in the group', 'options of the grid', 'options of the group', 'output of the run']
        for i in range(len(chain) - 1):
            if chain[i] and chain[i + 1]:
                rep.ob('settings', '%s: %s override %s' % (what, txt[i + 1], txt[i]), max(chain[i]) < min(chain[i + 1]), 'overridden by %s' % txt[i], e.loc)
        for ix, n in ((Ds, 'the grid'), (Es, 'the group')):
            if ix and Gs:
                rep.ob('settings', '%s: settings of its data set override options of %s' % (what, n), max(ix) < min(Gs), 'overridden', e.loc)
        if Gs and act is not None:
            rep.ob('settings', '%s: the action overrides all settings' % what, max(Gs) < act, 'overridden', e.loc)
        exact = mk('call', mk('ext', 'os.path.join'), (P('$dir'), cat(attr(RUN, 'name'), '.covmat')), ())
        for i in key('propose_matrix'):
            c, _, _, v, _ = ls[i]
            if any_sub(c, lambda x: x.op == 'brk'):
                continue
            ex = [x for x in walk(c) if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('os.path.exists', 'os.path.isfile')]
            rep.ob('settings', '%s: a proposal matrix given exists' % what, any(x.args[1] == (v,) and logic.implies(extend(facts, norm(c)), x) for x in ex), 'given without looking for it', e.loc)
            own_ = [x for x in walk(v) if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('os.path.exists', 'os.path.isfile') and x.args[1] and path(x.args[1][0]).op == 'concat' and path(x.args[1][0]).args[-2:] == (attr(RUN, 'name'), const('.covmat'))]
            if own_:
                v2 = logic.under(v, frozenset([own_[0]]))
                rep.ob('settings', '%s: the proposal matrix of the run itself is preferred' % what, v2 is own_[0].args[1][0], 'prefers %s' % show(v2, 4), e.loc)
    else:
        if mini:
            final('file_root', attr(IMP, 'chainRoot'))
            final('action', const(2))
            rep.ob('settings', '%s: only if wanted' % what, any_sub(mk('tuple', *facts), lambda x: x is attr(IMP, 'want_minimize')) and not logic.implies(facts, neg(attr(IMP, 'want_minimize'))) or logic.implies(facts, attr(IMP, 'want_minimize')), 'written where %s' % [show(x, 3) for x in facts][:4], e.loc)
        else:
            final('redo_outroot', attr(IMP, 'chainRoot'))
            final('action', const(1))
        rep.ob('settings', '%s: filters have no settings file' % what, logic.implies(facts, neg(attr(IMP, 'importanceFilter'))) or logic.implies(facts, neg(hasattr_(IMP, 'importanceFilter'))) or any(x.op in ('or', 'not') and contains(x, attr(IMP, 'importanceFilter')) for x in facts), 'written for filters', e.loc)
    # default files
    if defaults is None:
        return
    common = attr(BATCH, 'commonPath')
    rank = {}
    for fs, l in alts(defaults, facts):
        seqs = flatd(l)
        pos = {}
        for i, x in enumerate(seqs):
            b = x
            it = None
            while b.op in ('rep', 'opt'):
                if b.op == 'rep':
                    it = b.args[1]
                b = b.args[0] if b.op == 'rep' else b.args[1]
            b = path(b)
            if it is not None and it.op == 'attr':
                ok = b is path(cat(common, mk('elem', it)))
                pos[it] = i
                rep.ob('settings', '%s: default files from the common folder' % what, ok, 'reads %s' % show(b, 4), e.loc)
            elif b.op == 'meth' and b.args[1] == 'iniFile':
                pos['ini'] = i
                rep.ob('settings', '%s: defaults of its parent' % what, b.args[0] is RUN and (not b.args[2] or b.args[2][0] is const('')), 'reads %s' % show(b, 4), e.loc)
        if imp:
            rep.ob('settings', '%s: falls back to the settings of its parent last' % what, pos.get('ini') == len(seqs) - 1, 'settings of the parent %s' % ('are not read' if 'ini' not in pos else 'are read before other defaults'), e.loc)
            if not mini:
                rep.ob('settings', '%s: importance defaults' % what, attr(SET, 'importanceDefaults') in pos, 'not read', e.loc)
            srcs = attr(IMP, 'importanceSettings')
            rep.ob('settings', '%s: its own settings first' % what, pos.get(srcs) == 0, 'not read or after others', e.loc)
        else:
            d, o, s = pos.get(attr(RUN, 'data_set', 'params')), pos.get(attr(SET, 'override_defaults')), pos.get(attr(SET, 'defaults'))
            rep.ob('settings', '%s: files of the data set before the defaults' % what, d is not None and s is not None and d < s, 'in another order', e.loc)
            if logic.decide(hasattr_(SET, 'override_defaults'), fs) is not False:
                rep.ob('settings', '%s: overriding defaults first' % what, o is not None and d is not None and o < d, 'not first', e.loc)


def hasattr_(b, n):
    return mk('hasattr', b, n)


def flatd(t):
    if t.op == 'bin' and t.args[0] == '+':
        return flatd(t.args[1]) + flatd(t.args[2])
    if t.op == 'seq':
        out = []
        for x in t.args:
            out += flatd(x.args[0]) if x.op == 'star' else [x]
        return out
    return [t]
