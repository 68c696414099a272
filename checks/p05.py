"""P05: burn-in is removed exactly once from every chain, and never from chains that have none."""
from .common import *
from sa.project import AnalysisError

P = lambda n: mk('param', n)
ZERO = {const(0), const(0.)}


def need(p, c, name):
    f = p.find_method(c, name)
    if f is None:
        raise AnalysisError('%s.%s vanished' % (c.name, name))
    return f


def holds(fs, f):
    return logic.implies(fs, f)


def check(p, rep):
    rep.rule('options', 'a setting of at least one row counts rows, a smaller one is a fraction; never both and never neither', 2)
    rep.rule('rows-skipped', 'loading skips the configured number of rows once, at the start of every chain, for values, weights and likelihoods alike', 4)
    rep.rule('fraction', 'the configured fraction is removed once, from every chain, after loading and before the chains are joined, unless the chain is an importance-sampled one or already had it removed', 6)
    rep.rule('recorded', 'what was removed is recorded with the samples, and chains so recorded (or nested) are left alone', 3)
    rep.rule('grid', 'batch scripts do not remove burn-in again and record it when they do', 3)
    W = p.cls('getdist.chains', 'WeightedSamples')
    C = p.cls('getdist.chains', 'Chains')
    M = p.cls('getdist.mcsamples', 'MCSamples')
    me = mk('self', M.qual)
    A = lambda n: mk('attr', me, n)
    # ---- options
    f = need(p, M, '_setBurnOptions')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f, cls=M)
    rep.analysed(I)
    rows = A('ignore_rows')
    irows = mk('call', mk('builtin', 'int'), (rows,), ())
    for st, v in rets:
        lt, ft = st.heap.get((me, 'ignore_lines')), st.heap.get((me, 'ignore_frac'))
        if lt is None or ft is None:
            rep.ob('options', 'MCSamples._setBurnOptions', False, 'ignore_lines or ignore_frac not set', f.loc)
            continue
        for f1, l in alts(I.res(lt, st), st.facts):
            for f2, g in alts(I.res(ft, st), f1):
                lzero = l in ZERO or holds(f2, neg(truth(irows))) and l is irows
                small = l in ZERO and any(any_sub(x, lambda y: y is rows) for x in f2) or lzero
                if g is rows:
                    ok = small
                elif g in ZERO:
                    ok = l is irows and not holds(f2, neg(truth(irows)))
                else:
                    ok = False
                rep.ob('options', 'MCSamples._setBurnOptions', ok, 'rows %s together with fraction %s' % (show(l, 3), show(g, 3)), f.loc)
    got = [e for e in I.events if e.kind in ('meth', 'repocall') and e.name == 'setAttr' and e.args and e.args[0] is const('ignore_rows')]
    rep.ob('options', 'setting read', bool(got) or any(e.kind == 'setattr' and e.name == 'ignore_rows' for e in I.events), 'ignore_rows is not read from the settings', f.loc)
    # ---- number of rows for a fraction
    f = need(p, W, '_numBurnRows') if p.find_method(W, '_numBurnRows') else need(p, W, 'removeBurn')
    I = Interp(p, inline=policy('WeightedSamples._numBurnRows'))
    wme = mk('self', W.qual)
    rets, _ = I.run_function(need(p, W, 'removeBurn'), cls=W)
    rep.analysed(I)
    R = P('remove')
    n = 0
    sets = [(e, e.name, e.value) for e in I.events if e.kind == 'setattr' and e.base is wme and e.name in ('samples', 'weights', 'loglikes')] + \
        [(e, 'samples', e.arg(0)) for e in I.events if e.kind in ('repocall', 'meth') and e.name in ('changeSamples', 'setSamples') and e.base is wme]
    rep.ob('fraction', 'removeBurn changes samples, weights and likelihoods', {x[1] for x in sets} >= {'samples', 'weights', 'loglikes'}, 'only changes %s' % sorted({x[1] for x in sets}), f.loc)
    for e, what, t in sets:
        for fs, leaf in alts(t, e.facts):
            if leaf is NONE or leaf is mk('attr', wme, what):
                continue
            ix = first_row(leaf, mk('attr', wme, what))
            if ix is None:
                rep.ob('fraction', 'removeBurn keeps the end of the %s' % what, False, '%s become %s' % (what, show(leaf, 5)), e.loc)
                continue
            for f2, k in alts(ix, fs):
                big = compare('>=', R, const(1))
                n += 1
                count = k is mk('call', mk('builtin', 'int'), (R,), ())
                frac = contains(k, R) and any_sub(k, lambda x: x is mk('attr', wme, 'numrows') or x.op == 'len' or x.op == 'attr' and x.args[1] == 'shape') and \
                    any_sub(k, lambda x: x.op == 'bin' and x.args[0] == '*' and R in x.args[1:]) and \
                    not any_sub(k, lambda x: x.op == 'bin' and x.args[0] in '+-')
                ok = count and not holds(f2, neg(big)) or frac and not holds(f2, big)
                if count and not any(x is big or x is neg(big) or any_sub(x, lambda y: y is R) for x in f2):
                    ok = False
                rep.ob('fraction', 'rows dropped by removeBurn', ok, 'drops %s where %s' % (show(k, 5), [show(x, 3) for x in f2 if contains(x, R)]), f.loc)
    # ---- removeBurnFraction
    f = need(p, C, 'removeBurnFraction')
    cme = mk('self', C.qual)
    I = Interp(p, inline=policy())
    I.run_function(f, cls=C)
    rep.analysed(I)
    joined = neg(compare('is', mk('attr', cme, 'samples'), NONE))
    calls = [e for e in I.events if e.kind in ('repocall', 'meth') and e.name == 'removeBurn']
    own = [e for e in calls if e.base is cme]
    each = [e for e in calls if e.base is not cme]
    rep.ob('fraction', 'joined samples', len(own) == 1 and own[0].arg(0) is P('ignore_frac') and not own[0].loops and holds(own[0].facts, joined), 'removed %d times from the joined samples' % len(own), f.loc)
    ok = len(each) == 1 and each[0].arg(0) is P('ignore_frac') and len(each[0].loops) == 1 and each[0].loops[0][1] is mk('attr', cme, 'chains') and each[0].base is mk('elem', mk('attr', cme, 'chains')) and holds(each[0].facts, neg(joined)) and \
        len([x for x in each[0].facts if x is not neg(joined)]) == 0
    rep.ob('fraction', 'separate chains', ok, 'not removed once from each chain', f.loc)
    # ---- readChains
    f = need(p, M, 'readChains')
    I = Interp(p, inline=policy())
    I.run_function(f, cls=M)
    rep.analysed(I)
    J = A('jobItem')
    E = conj([truth(A('ignore_frac')), disj([neg(truth(J)), neg(mk('hasattr', J, const('isImportanceJob'))), conj([neg(truth(mk('attr', J, 'isImportanceJob'))), neg(truth(mk('meth', J, 'isBurnRemoved', (), ())))])])])
    hs = [x for e in I.events for x in e.facts for y in [x] if any_sub(x, lambda z: z.op == 'call' and z.args[0] is mk('builtin', 'hasattr') or z.op == 'hasattr')]
    H = None
    for e in I.events:
        for x in e.facts:
            for z in walk(x):
                if z.op == 'hasattr' or z.op == 'call' and z.args[0] is mk('builtin', 'hasattr'):
                    H = z
    if H is not None:
        E = conj([truth(A('ignore_frac')), disj([neg(truth(J)), neg(truth(H)), conj([neg(truth(mk('attr', J, 'isImportanceJob'))), neg(truth(mk('meth', J, 'isBurnRemoved', (), ())))])])])
    rb = [e for e in I.events if e.kind in ('repocall', 'meth') and e.name in ('removeBurnFraction', 'removeBurn')]
    rep.ob('fraction', 'readChains removes once', len(rb) == 1 and not rb[0].loops, '%d removals' % len(rb), f.loc)
    for e in rb:
        rep.ob('fraction', 'readChains removes the configured fraction', e.args and e.args[0] is A('ignore_frac'), 'removes %s' % (e.args and show(e.args[0], 3)), e.loc)
        need_not = conj([truth(A('ignore_frac')), disj([neg(truth(J)), neg(truth(H)) if H is not None else FALSE, conj([neg(truth(mk('attr', J, 'isImportanceJob'))), neg(truth(mk('meth', J, 'isBurnRemoved', (), ())))])])])
        rep.ob('fraction', 'not removed from importance-sampled or already treated chains', holds(e.facts, need_not), 'removed where %s' % [show(x, 4) for x in e.facts], e.loc)
        rest = [x for x in e.facts if not holds((E,), x)]
        rep.ob('fraction', 'removed from all other chains', not rest, 'only removed if %s' % [show(x, 4) for x in rest], e.loc)
        ld = [x for x in I.events if x.kind in ('repocall', 'meth') and x.name == 'loadChains']
        mkS = [x for x in I.events if x.kind in ('repocall', 'meth') and x.name in ('makeSingle', 'updateBaseStatistics')]
        rep.ob('fraction', 'removed after loading and before joining', bool(ld) and ld[0].seq < e.seq and all(x.seq > e.seq for x in mkS), '', e.loc)
    for e in I.events:
        if e.kind in ('repocall', 'meth') and e.name == 'loadChains':
            il = e.kw('ignore_lines')
            rep.ob('rows-skipped', 'readChains leaves the number of rows to the configuration', (il is None or il is A('ignore_lines')) and len(e.args) < 5, 'skips %s' % (il is not None and show(il, 3)), e.loc)
    # ---- loading
    f = need(p, C, 'loadChains')
    I = Interp(p, inline=policy())
    cfg = mk('attr', cme, 'ignore_lines')
    I.run_function(f, cls=C, args={'ignore_lines': NONE})
    rep.analysed(I)
    for e in I.events:
        if e.kind == 'construct' and (e.result is not None and e.result.op == 'new' and e.result.args[0].endswith(':WeightedSamples')):
            k = e.kw('ignore_rows') or (e.args[1] if len(e.args) > 1 else None)
            rep.ob('rows-skipped', 'chain loaded from %s' % ('array' if e.kw('samples') is not None else 'file'), k is cfg, 'skips %s rows' % (k is not None and show(k, 3)), e.loc)
            if e.kw('samples') is not None:
                for nm in ('samples', 'weights', 'loglikes'):
                    x = e.kw(nm)
                    if x is not None:
                        rep.ob('rows-skipped', 'chain array %s not cut twice' % nm, not any_sub(x, lambda y: y is cfg), 'already cut', e.loc)
        if e.kind in ('repocall', 'meth') and e.name == 'setSamples' and e.base is cme:
            for i, a in enumerate(e.args[:3]):
                cuts = [x for x in walk(a) if x is cfg]
                ok = cut_once(a, cfg)
                rep.ob('rows-skipped', 'single array, argument %d' % (i + 1), ok, 'rows skipped: %s' % show(a, 4), e.loc)
    f = need(p, W, '__init__')
    I = Interp(p, inline=policy())
    I.run_function(f, cls=W)
    rep.analysed(I)
    for e in I.events:
        if e.kind in ('repocall', 'call') and e.name == 'loadNumpyTxt' or e.kind == 'call' and e.fn is not None and e.fn.op == 'ext' and 'loadtxt' in e.fn.args[0]:
            k = e.kw('skiprows') or (e.args[1] if len(e.args) > 1 else None)
            rep.ob('rows-skipped', 'WeightedSamples from file', k is P('ignore_rows'), 'skips %s' % (k is not None and show(k)), e.loc)
        if e.kind in ('repocall', 'meth') and e.name == 'setColData':
            rep.ob('rows-skipped', 'file rows not cut twice', not contains(e.args[0], P('ignore_rows')) or not any_sub(e.args[0], lambda x: x.op == 'item'), 'cut again', e.loc)
        if e.kind in ('repocall', 'meth') and e.name == 'setSamples' and e.base is wme:
            for i, a in enumerate(e.args[:3]):
                rep.ob('rows-skipped', 'WeightedSamples from arrays, argument %d' % (i + 1), cut_once(a, P('ignore_rows')), 'rows skipped: %s' % show(a, 4), e.loc)
    f = p.func('getdist.chains', 'slice_or_none')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f)
        rep.analysed(I)
        for st, v in rets:
            for fs, leaf in alts(I.res(v, st), st.facts):
                if leaf is NONE:
                    continue
                sl = [x for x in walk(leaf) if x.op == 'slice' or x.op == 'call' and x.args[0] is mk('builtin', 'slice')]
                ok = len(sl) == 1 and (sl[0].args[:2] == (P('start'), P('end')) if sl[0].op == 'slice' else sl[0].args[1][:2] == (P('start'), P('end')))
                rep.ob('rows-skipped', 'slice_or_none', ok, 'takes %s' % show(leaf, 4), f.loc)
    # ---- recorded
    f = need(p, M, '__init__')
    I = Interp(p, inline=policy('MCSamples._setBurnOptions'), budget=400000)
    states = []
    I.run_function(f, cls=M)
    rep.analysed(I)
    rd = [e for e in I.events if e.kind in ('repocall', 'meth') and e.name == 'readChains' and e.base is me]
    if not rd:
        raise AnalysisError('MCSamples.__init__: readChains call vanished')
    sets = {n: [e for e in I.events if e.kind == 'setattr' and e.base is me and e.name == n] for n in ('ignore_frac', 'ignore_lines')}
    cond = {}
    for e in I.events:
        if e.kind in ('meth', 'repocall') and e.name == 'bool' and e.args and e.args[0] is const('burn_removed'):
            cond['properties file'] = (e, truth(e.result))
        if e.kind in ('repocall', 'call', 'meth') and e.name == 'get_burn_removed':
            cond['Cobaya information'] = (e, truth(e.result))
    for src in ('properties file', 'Cobaya information'):
        if src not in cond:
            rep.ob('recorded', 'burn-in recorded in %s' % src, False, 'not looked at', f.loc)
            continue
        ev, c = cond[src]
        for n, es in sorted(sets.items()):
            ok = any(s.value in ZERO and s.seq > ev.seq and all(x is c or x in ev.facts or holds(ev.facts | {c}, x) for x in s.facts) and s.seq < rd[0].seq for s in es)
            # nothing sets it again afterwards
            last = [s for s in es if s.value in ZERO and s.seq > ev.seq]
            again = [s for s in es if last and s.seq > last[0].seq and s.value not in ZERO and not logic.contradictory(s.facts | last[0].facts)]
            rep.ob('recorded', '%s: %s cleared' % (src, n), ok and not again, 'burn-in would be removed again', ev.loc)
    nested = compare('==', A('sampler'), const('nested'))
    for n, es in sorted(sets.items()):
        ok = any(s.value in ZERO and any(is_nested(x) for x in s.facts) and s.seq < rd[0].seq for s in es)
        rep.ob('recorded', 'nested samples: %s cleared' % n, ok, 'burn-in removed from nested samples', f.loc)
    refuse = [e for e in I.events if e.kind == 'raise' and any(is_nested(x) for x in e.facts)]
    rep.ob('recorded', 'burn-in of nested samples is refused', bool(refuse), '', f.loc)
    marks = [e for e in I.events if e.kind == 'setitem' and e.args and e.args[0] is const('burn_removed') and e.value is TRUE]
    okm = any(any(contains(x, A('ignore_frac')) or any_sub(x, lambda y: y.op == 'attr' and y.args[1] in ('ignore_frac', 'ignore_rows')) or any_sub(x, lambda y: contains(y, rows)) for x in e.facts) for e in marks)
    free = [e for e in marks if not any('Cobaya' in k and v[1] in e.facts for k, v in cond.items())]
    rep.ob('recorded', 'removal is recorded in the properties saved with the samples', bool(free) and okm, 'not recorded', f.loc)
    f = need(p, M, 'saveTextMetadata')
    I = Interp(p, inline=policy())
    I.run_function(f, cls=M)
    rep.analysed(I)
    pr = mk('attr', mk('attr', me, 'properties'), 'params')
    ok = any(e.kind in ('meth', 'repocall') and e.name == 'update' and any(contains(a, pr) for a in e.args) for e in I.events) or any(e.kind == 'setitem' and contains(e.value, pr) for e in I.events if e.value is not None)
    rep.ob('recorded', 'saved properties include those of the samples', ok, '', f.loc)
    f = p.func('getdist.cobaya_interface', 'get_burn_removed')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f)
        rep.analysed(I)
        for st, v in rets:
            v = I.res(v, st)
            bad = any_sub(v, lambda x: x.op == 'call' and x.args[0].op == 'func' and x.args[0].args[0].endswith(':get_info_params'))
            rep.ob('recorded', 'Cobaya: information on removed burn-in', not bad and any_sub(v, lambda x: x is const('skip')), 'looked up in %s' % show(v, 5), f.loc)
    f = need(p, p.cls('paramgrid.batchjob', 'jobItem'), 'isBurnRemoved')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f)
    rep.analysed(I)
    for st, v in rets:
        v = I.res(v, st)
        ok = v.op == 'meth' and v.args[1] == 'bool' and v.args[2] and v.args[2][0] is const('burn_removed') and (len(v.args[2]) < 2 or v.args[2][1] is FALSE)
        bad = [x for x in walk(v) if x.op == 'meth' and x.args[1] == 'bool' and x.args[2][:1] == (const('burn_removed'),) and x.args[2][1:2] not in ((), (FALSE,), (const(False),))]
        rep.ob('recorded', 'jobItem.isBurnRemoved reads the properties', ok or contains(v, const('burn_removed')) and not v.op == 'not' and not bad, 'returns %s' % show(v, 4), f.loc)
    # ---- scripts
    scripts(p, rep)


def is_nested(x):
    return x.op == 'cmp' and x.args[0] == '==' and const('nested') in x.args[1:] and any(y.op == 'attr' and y.args[1] == 'sampler' for y in x.args[1:] if isinstance(y, Term)) or \
        x.op == 'cmp' and x.args[0] == 'in' and any_sub(x.args[2], lambda y: y is const('nested')) or x.op == 'cmp' and x.args[0] == '==' and const('nested') in x.args[1:]


def first_row(t, arr):
    """k for arr[k:] and arr[k:, :]"""
    if t.op == 'item' and t.args[0] is arr:
        i = t.args[1]
        if i.op == 'tuple' and len(i.args) == 2 and i.args[1] is mk('slice', NONE, NONE, NONE):
            i = i.args[0]
        if i.op == 'slice' and i.args[1] is NONE and i.args[2] in (NONE, const(1)):
            return i.args[0]
    return None


def cut_once(a, rows):
    """the rows from number `rows` on, exactly once (or nothing)"""
    for fs, l in alts(a, ()):
        if l is NONE:
            continue
        n = 0
        while True:
            if l.op == 'call' and l.args[0].op == 'func' and l.args[0].args[0].endswith(':slice_or_none'):
                if len(l.args[1]) < 2 or l.args[1][1] is not rows or len(l.args[1]) > 2:
                    return False
                n += 1
                l = l.args[1][0]
            elif l.op == 'item' and l.args[1].op == 'slice':
                if l.args[1].args[0] is not rows or l.args[1].args[1] is not NONE:
                    return False
                n += 1
                l = l.args[0]
            else:
                break
        if n != 1:
            return False
    return True


def scripts(p, rep):
    m = p.modules.get('runGridGetdist')
    if m is not None:
        I = Interp(p, inline=policy(), budget=300000)
        I.run_module(m)
        rep.functions.add('runGridGetdist:<module>')
        sets = [e for e in I.events if e.kind == 'setitem' and e.args and e.args[0] is const('ignore_rows')]
        done = []
        for e in sets:
            imp = [x for x in walk(mk('tuple', *sorted(e.facts, key=lambda t: t.id if hasattr(t, 'id') else id(t)))) if x.op == 'attr' and x.args[1] == 'isImportanceJob' or x.op == 'meth' and x.args[1] == 'isBurnRemoved' or x.op == 'attr' and x.args[1] == 'burn_removed']
            kinds = {x.args[1] for x in imp}
            if e.value in ZERO:
                fs = e.facts
                ok = {'isImportanceJob', 'isBurnRemoved'} <= kinds and all(not holds(fs, neg(truth(x))) for x in imp)
                # holds for each of the reasons alone
                for x in imp:
                    rest = [y for y in fs if any_sub(y, lambda z: z in imp) and not holds((truth(x),), y)]
                    ok = ok and not rest
                done.append(e)
                rep.ob('grid', 'runGridGetdist: no removal for importance or already treated chains', ok, 'only where %s' % [show(x, 4) for x in fs][:3], e.loc)
                upd = [u for u in I.events if u.kind in ('meth', 'repocall') and u.name == 'update' and any(any_sub(a, lambda z: z.op == 'attr' and z.args[1] == 'getdist_options') for a in u.args)]
                rep.ob('grid', 'runGridGetdist: not overridden by the common options', all(u.seq < e.seq for u in upd), 'common options applied afterwards', e.loc)
            else:
                ok = all(holds(e.facts, neg(truth(x))) for x in imp) and {'isImportanceJob', 'isBurnRemoved'} <= kinds
                rep.ob('grid', 'runGridGetdist: removal only from other chains', ok, 'fraction set where %s' % [show(x, 4) for x in e.facts][:3], e.loc)
        rep.ob('grid', 'runGridGetdist: burn-in setting', bool(done), 'ignore_rows is not cleared for importance or already treated chains', 'python/runGridGetdist.py')
    m = p.modules.get('copyGridFiles')
    if m is not None:
        I = Interp(p, inline=policy('copyGridFiles:doCopy', 'copyGridFiles:writeIni'), budget=300000)
        I.run_module(m)
        rep.functions.add('copyGridFiles:<module>')
        cut = []
        for e in I.events:
            if e.kind not in ('meth', 'call'):
                continue
            for a in e.args or ():
                for fs, l in alts(a, e.facts):
                    t = [x for x in walk(l) if x.op == 'item' and x.args[1].op == 'slice' and x.args[0].op == 'meth' and x.args[0].args[1] == 'readlines']
                    if t and e.name in ('writelines', 'writestr', 'write'):
                        cut.append((e, fs, t[0]))
        flag = [e for e in I.events if e.kind == 'setitem' and e.args and e.args[0] is const('burn_removed') and e.value is TRUE]

        def prot(fs):
            al = mk('tuple', *list(fs))
            imp = [x for x in walk(al) if x.op == 'attr' and x.args[1] == 'isImportanceJob']
            br = [x for x in walk(al) if x.op == 'meth' and x.args[1] == 'isBurnRemoved']
            rf = [x for x in walk(al) if x.op == 'attr' and x.args[1] == 'remove_burn_fraction']
            return any(holds(fs, neg(truth(x))) for x in imp), any(holds(fs, neg(truth(x))) for x in br), any(holds(fs, truth(x)) for x in rf)
        for e, fs, t in cut:
            a, b, c = prot(fs)
            rep.ob('grid', 'copyGridFiles: not from importance chains', a, 'also removed from importance-sampled chains', e.loc)
            rep.ob('grid', 'copyGridFiles: not twice', b, 'also removed where it had been removed before', e.loc)
            lo = t.args[1].args[0]
            rep.ob('grid', 'copyGridFiles: start of the chain removed', t.args[1].args[1] is NONE and any_sub(lo, lambda x: x.op == 'len') and any_sub(lo, lambda x: x.op == 'attr' and x.args[1] == 'remove_burn_fraction'), 'keeps %s' % show(t.args[1], 4), e.loc)
        for e in flag:
            rep.ob('grid', 'copyGridFiles: recorded only where removed', all(prot(e.facts)), 'recorded where %s' % [show(x, 3) for x in e.facts][:4], e.loc)
        if cut:
            rep.ob('grid', 'copyGridFiles: removal recorded', bool(flag), 'removed but not recorded', cut[0][0].loc)
            # recorded for every chain that was cut
            for e in flag[:1]:
                base = frozenset.intersection(*[frozenset(fs) for _, fs, _ in cut])
                E = [x for fs in [cut[0][1]] for x in fs]
                rest = [x for x in e.facts if not holds(E, x) and not any_sub(x, lambda y: y.op in ('lv', 'loop'))]
                rep.ob('grid', 'copyGridFiles: recorded wherever removed', not rest, 'recorded only if %s' % [show(x, 4) for x in rest], e.loc)
