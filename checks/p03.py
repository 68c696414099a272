"""P03: a parameter name always refers to its own column.

provenance of column indices: wherever a name (element of the list of parameters) meets a column of the samples or an entry of a
per-parameter array, the position must come from the same enumeration; wherever columns are added or removed the names follow
in the same way, and the name-to-column table is rebuilt before it is used.
"""
from .common import *
from .p01 import Fresh, OPAQUE_READERS
from . import p01

PER_PARAM = ('means', 'sddev', 'vars')


def P(n):
    return mk('param', n)


def is_names(t):
    return t.op == 'attr' and t.args[1] == 'names' and t.args[0].op == 'attr' and t.args[0].args[1] == 'paramNames' or \
        t.op == 'meth' and t.args[1] == 'list' and t.args[0].op == 'attr' and t.args[0].args[1] == 'paramNames'


def owner(t):
    """the samples object whose parameter list t is"""
    return t.args[0].args[0]


def columns(t):
    """(owner, column index, term) of every column (or per-parameter entry) mentioned in t"""
    out = []
    for x in walk(t):
        if x.op == 'item':
            b, i = x.args
            if b.op == 'attr' and b.args[1] == 'samples' and i.op == 'tuple' and len(i.args) == 2:
                out.append((b.args[0], i.args[1], x))
            elif b.op == 'item' and b.args[0].op == 'attr' and b.args[0].args[1] == 'samples' and b.args[1].op != 'tuple':
                out.append((b.args[0].args[0], i, x))
            elif b.op == 'attr' and b.args[1] in PER_PARAM:
                out.append((b.args[0], i, x))
    return out


def names_in(t):
    """parameter-list elements mentioned in t"""
    return [x for x in walk(t) if x.op == 'elem' and is_names(x.args[0])] + \
        [x for x in walk(t) if x.op == 'item' and is_names(x.args[0]) and x.args[1].op not in ('slice', 'tuple')]


def pos_of(n):
    """the position term a name element stands for"""
    if n.op == 'elem':
        return [mk('idx', n.args[0])]
    return [n.args[1]]


def same_list(i, n):
    """is i the position of the element n"""
    if n.op == 'item':
        return i is n.args[1]
    if i.op == 'idx' and len(i.args) == 1:
        a, b = i.args[0], n.args[0]
        return is_names(a) and is_names(b) and owner(a) is owner(b)
    if i.op == 'item' and i.args[0].op == 'attr' and i.args[0].args[1] == 'index':
        return i.args[1] is mk('attr', n, 'name') or i.args[1] is n
    if i.op == 'meth' and i.args[1] == 'get' and i.args[0].op == 'attr' and i.args[0].args[1] == 'index':
        return bool(i.args[2]) and (i.args[2][0] is mk('attr', n, 'name') or i.args[2][0] is n)
    if i.op == 'meth' and i.args[1] == 'numberOfName':
        return bool(i.args[2]) and i.args[2][0] is mk('attr', n, 'name')
    return False


def related(i):
    return any_sub(i, lambda x: x.op == 'idx' and is_names(x.args[0]))


def check(p, rep):
    rep.rule('index-table', 'the name-to-column table maps the name at each position of the parameter list to that position, for the whole list, and a list of another length than the columns is refused', 2)
    rep.rule('lookup', 'looking up a name gives the column (and information) at the position the table holds for that very name; an unknown name is an error or nothing, never another column', 4)
    rep.rule('append', 'adding a parameter puts its column and its name last, and refuses a name already present', 4)
    rep.rule('delete', 'columns, names and fixed values removed belong to the same positions, in every chain', 6)
    rep.rule('pairing', 'where a value of a column is stored under or on a parameter of the list, the column is that parameter\'s', 3)
    rep.rule('table-current', 'the table is read only after it was rebuilt for the present columns', 3)
    rep.rule('names-set', 'replacing the parameter list rebuilds the table', 1)
    W = p.cls('getdist.chains', 'WeightedSamples')
    C = p.cls('getdist.chains', 'Chains')
    M = p.cls('getdist.mcsamples', 'MCSamples')
    L = p.cls('getdist.paramnames', 'ParamList')
    me = mk('self', C.qual)
    N = mk('attr', mk('attr', me, 'paramNames'), 'names')
    # ---- table
    f = need(p, C, '_getParamIndices')
    I = Interp(p, inline=policy())
    rets, raised = I.run_function(f, cls=C)
    rep.analysed(I)
    n = 0
    for st, v in rets:
        t = st.heap.get((me, 'index'))
        t = I.res(t, st) if t is not None else None
        ok = t is not None and t.op == 'dictc' and len(t.args) == 1 and t.args[0].op == 'rep'
        if ok:
            kv = t.args[0].args[0]
            ok = kv.op == 'kv' and (kv.args[1].op == 'idx' and len(kv.args[1].args) == 1)
            if ok:
                X = kv.args[1].args[0]
                ok = X in (N, mk('meth', mk('attr', me, 'paramNames'), 'list', (), ())) and kv.args[0] in (mk('attr', mk('elem', X), 'name'), mk('elem', X))
        elif t is not None and t.op == 'call' and t.args[0] is mk('builtin', 'dict'):
            ok = True
        n += 1
        rep.ob('index-table', 'table built by Chains._getParamIndices', ok, 'table is %s' % (t is not None and show(t, 6)), f.loc)
    refuse = [e for e in I.events if e.kind == 'raise' and any(x.op in ('cmp', 'not') and any_sub(x, lambda y: y.op == 'len') and any_sub(x, lambda y: y is mk('attr', me, 'n') or y.op == 'attr' and y.args[1] == 'shape') for x in e.facts)]
    rep.ob('index-table', 'wrong number of names is refused', bool(refuse), 'a list of another length than the columns is accepted', f.loc)
    # ---- lookups
    f = need(p, C, '_parAndNumber')
    strname = lambda x: mk('isinstance', x, mk('tuple', mk('builtin', 'str')))
    I = Interp(p, inline=policy())
    rets, raised = I.run_function(f, cls=C)
    rep.analysed(I)
    for st, v in rets:
        for fs, leaf in alts(I.res(v, st), st.facts):
            if leaf.op != 'tuple' or len(leaf.args) != 2:
                rep.ob('lookup', 'Chains._parAndNumber', False, 'returns %s' % show(leaf, 4), f.loc)
                continue
            a, b = leaf.args
            ok = a is NONE and b is NONE or b.op == 'item' and is_names(b.args[0]) and b.args[1] is a
            rep.ob('lookup', 'Chains._parAndNumber', ok, 'position %s with information %s' % (show(a, 4), show(b, 4)), f.loc)
            for i in leaves(a):
                if i.op == 'meth' and i.args[1] == 'get' or i.op == 'item' and i.args[0] is mk('attr', me, 'index'):
                    k = i.args[2][0] if i.op == 'meth' else i.args[1]
                    dflt = i.args[2][1] if i.op == 'meth' and len(i.args[2]) > 1 else NONE
                    okk = all(l in (P('name'), mk('attr', P('name'), 'name')) for l in leaves(k)) and dflt is NONE
                    rep.ob('lookup', 'Chains._parAndNumber uses the given name', okk, 'looks up %s' % show(i, 5), f.loc)
    f = need(p, C, '_makeParamvec')
    I = Interp(p, inline=policy('WeightedSamples._makeParamvec'))
    rets, raised = I.run_function(f, cls=C)
    rep.analysed(I)
    for st, v in rets:
        for fs, leaf in alts(I.res(v, st), st.facts):
            cols = columns(leaf)
            if cols:
                i = cols[0][1]
                given = {P('par'), mk('attr', P('par'), 'name')}
                if i.op == 'meth' and i.args[1] == 'get':
                    ok = i.args[0] is mk('attr', me, 'index') and all(l in given for l in leaves(i.args[2][0])) and len(i.args[2]) < 2 and logic.implies(fs, neg(compare('is', i, NONE)))
                elif i.op == 'item':
                    ok = i.args[0] is mk('attr', me, 'index') and all(l in given for l in leaves(i.args[1]))
                else:
                    ok = all(l in given for l in leaves(i))
                rep.ob('lookup', 'Chains._makeParamvec column', ok, 'returns %s' % show(leaf, 5), f.loc)
            elif leaf in (mk('attr', me, 'weights'), mk('attr', me, 'loglikes')):
                want = 'weight' if leaf.args[1] == 'weights' else 'loglike'
                num = -2 if want == 'weight' else -1
                eq = [x for x in fs if x.op == 'cmp' and x.args[0] == '==']
                words = {cval(y) for x in eq for y in walk(x) if is_const(y) and isinstance(cval(y), str)}
                nums = {cval(y) for x in eq for y in walk(x) if is_const(y) and isinstance(cval(y), int) and not isinstance(cval(y), bool)}
                # a parameter of that name takes precedence
                free = any(x.op == 'cmp' and x.args[0] == 'is' and x.args[2] is NONE and contains(x, mk('attr', me, 'index')) for x in fs) or \
                    any(x.op == 'not' and x.args[0].op == 'cmp' and x.args[0].args[0] == 'in' and contains(x, mk('attr', me, 'index')) for x in fs)
                if not words and not nums:
                    continue
                ok = words == {want} and free or not words and nums == {num}
                rep.ob('lookup', 'Chains._makeParamvec(%r)' % want, ok, 'returned for %s' % sorted(map(str, words | nums)), f.loc)
            else:
                ok = all(l in (P('par'), mk('attr', P('par'), 'name')) for l in leaves(leaf)) or leaf.op in ('call', 'meth')
                rep.ob('lookup', 'Chains._makeParamvec vector', ok, 'returns %s' % show(leaf, 4), f.loc)
    rep.ob('lookup', 'unknown name is an error', bool(raised), 'no error for an unknown name', f.loc)
    # ---- add
    f = need(p, C, 'addDerived')
    I = Interp(p, inline=policy('getdist.paramnames:ParamList.addDerived', 'WeightedSamples.changeSamples'), type_of=None)
    rets, raised = I.run_function(f, cls=C)
    rep.analysed(I)
    ch = [e for e in I.events if e.kind in ('repocall', 'enter') and (e.name or '') in ('changeSamples', 'setSamples')] or [e for e in I.events if e.kind == 'setattr' and e.name == 'samples']
    if not ch:
        raise AnalysisError('addDerived does not change the samples')
    for e in ch:
        if not e.args and e.value is None:
            continue
        v = e.args[0] if e.kind != 'setattr' else e.value
        got = appended(v)
        if got is None:
            rep.ob('append', 'column added', False, 'samples become %s' % show(v, 5), e.loc)
            continue
        rep.ob('append', 'column added last', got[0] is mk('attr', me, 'samples') and contains(got[1], P('paramVec')) and not contains(got[1], mk('attr', me, 'samples')), 'samples become %s' % show(v, 5), e.loc)
    dupc = [mk('meth', mk('attr', me, 'paramNames'), m, (P('name'),), ()) for m in ('parWithName', 'hasParam')]
    isdup = disj([truth(d) for d in dupc] + [compare('isnot', dupc[0], NONE), compare('in', P('name'), mk('attr', me, 'index'))])
    guard = any(any(any_sub(x, lambda y: y in dupc or y.op == 'meth' and y.args[1] in ('parWithName', 'hasParam', 'numberOfName', 'list') or y is mk('attr', me, 'index')) for x in e.facts)
                for e in I.events if e.kind == 'raise')
    rep.ob('append', 'name already present is refused', guard, 'no error for a name that exists', f.loc)
    nm = [e for e in I.events if e.kind in ('meth', 'repocall', 'enter') and e.name == 'addDerived' and e.base is not None and e.base is not me]
    rep.ob('append', 'name added', any(e.args and e.args[0] is P('name') or e.kw('name') is P('name') for e in nm), 'no name added for the new column', f.loc)
    f = need(p, M, 'addDerived')
    I = Interp(p, inline=policy())
    I.run_function(f, cls=M)
    rep.analysed(I)
    mself = mk('self', M.qual)
    sup = [e for e in I.events if e.kind in ('repocall', 'meth') and e.name == 'addDerived']
    rep.ob('append', 'MCSamples.addDerived adds the given vector under the given name', any(len(e.args) >= 2 and e.args[0] is P('paramVec') and e.args[1] is P('name') for e in sup), '', f.loc)
    for e in I.events:
        if e.kind in ('repocall', 'meth') and e.name == 'setRange':
            rep.ob('append', 'range set for the new name', e.args[0] is P('name') and e.args[1] is P('range'), 'sets range of %s' % show(e.args[0]), e.loc)
    f = need(p, L, 'addDerived')
    I = Interp(p, inline=policy())
    rets, raised = I.run_function(f, cls=L)
    rep.analysed(I)
    ls = mk('self', L.qual)
    for st, v in rets:
        t = st.heap.get((ls, 'names'))
        adds = [e for e in I.events if e.kind == 'meth' and e.base is mk('attr', ls, 'names') and e.name in ('append', 'insert', 'extend')]
        ok = any(e.name in ('append', 'extend') for e in adds) and all(e.name != 'insert' for e in adds)
        if not adds and t is not None:
            t = I.res(t, st)
            ok = t.op == 'seq' and len(t.args) == 2 and t.args[0].op == 'star' or t.op == 'bin' and t.args[1] is mk('attr', ls, 'names')
        rep.ob('append', 'name added last', ok, 'names not appended', f.loc)
    # ---- delete
    f = need(p, L, 'deleteIndices')
    I = Interp(p, inline=policy())
    rets, raised = I.run_function(f, cls=L)
    rep.analysed(I)
    X = mk('attr', ls, 'names')
    for st, v in rets:
        t = st.heap.get((ls, 'names'))
        t = I.res(t, st) if t is not None else None
        ok = False
        if t is not None and t.op == 'seq' and len(t.args) == 1 and t.args[0].op == 'rep':
            b = t.args[0].args[0]
            ok = b.op == 'opt' and b.args[1] in (mk('elem', X), mk('item', X, mk('idx', X))) and b.args[0] is neg(compare('in', mk('idx', X), P('indices')))
            if not ok and b.op == 'opt':  # membership through a set
                c = b.args[0]
                ok = c.op == 'not' and c.args[0].op == 'cmp' and c.args[0].args[0] == 'in' and c.args[0].args[1] is mk('idx', X) and contains(c.args[0].args[2], P('indices')) and b.args[1] is mk('elem', X)
        elif t is None or t is X:
            de = [e for e in I.events if e.kind == 'delitem']
            # one by one, later positions first
            ok = bool(de) and all(any(it.op == 'call' and it.args[0] is mk('builtin', 'reversed') or it.op == 'call' and it.args[0] is mk('builtin', 'sorted') and dict(it.args[2]).get('reverse') is TRUE for _, it in e.loops) for e in de)
        rep.ob('delete', 'ParamList.deleteIndices keeps the others in order', ok, 'names become %s' % (t is not None and show(t, 6)), f.loc)
    f = need(p, W, 'deleteFixedParams')
    I = Interp(p, inline=policy())
    ws = mk('self', W.qual)
    rets, raised = I.run_function(f, cls=W)
    rep.analysed(I)
    dels = [e for e in I.events if e.kind in ('repocall', 'meth') and e.name in ('changeSamples', 'setSamples') and e.base is ws]
    for st, v in rets:
        v = I.res(v, st)
        ok = v.op in ('tuple', 'seq') and len(v.args) == 2
        rep.ob('delete', 'WeightedSamples.deleteFixedParams removes the columns it reports', ok and len(dels) == 1 and deleted(dels[0].args[0]) == (mk('attr', ws, 'samples'), v.args[0]),
               'removes %s and reports %s' % ([show(e.args[0], 4) for e in dels], show(v, 4)), f.loc)
        if ok:
            a, b = v.args
            pair = rep_of(a), rep_of(b)
            if None not in pair:
                (xa, ca), (xb, cb) = pair
                cols = columns(xb)
                okp = ca == cb and bool(cols) and all(c[1] is xa for c in cols)
                rep.ob('delete', 'fixed value reported is that of the removed column', okp, 'column %s with value %s' % (show(xa, 3), show(xb, 5)), f.loc)
                allrows = any(c[1] is xa and c[2].args[1].args[0] in (mk('slice', NONE, NONE, NONE),) for k in ca for c in columns(k) if c[2].args[1].op == 'tuple')
                rep.ob('delete', 'a column is removed only if all its rows agree', allrows, 'removal decided from %s' % [show(k, 5) for k in ca], f.loc)
    f = need(p, C, 'deleteFixedParams')
    I = Interp(p, inline=policy())
    rets, raised = I.run_function(f, cls=C)
    rep.analysed(I)
    nd = [e for e in I.events if e.kind in ('meth', 'repocall') and e.name == 'deleteIndices']
    own = [e for e in I.events if e.kind in ('repocall', 'meth', 'call') and e.name == 'deleteFixedParams']
    if not nd or not own:
        raise AnalysisError('Chains.deleteFixedParams: removal of names or columns not found')
    removed = [mk('item', e.result, const(0)) for e in own if e.result is not None]
    for e in nd:
        fl = [l for fs, l in alts(e.args[0], e.facts)]
        rep.ob('delete', 'names removed are those of the columns removed', all(l in removed for l in fl), 'names removed: %s' % show(e.args[0], 4), e.loc)
        after = [x for x in I.events if x.kind in ('repocall', 'meth') and x.name == '_getParamIndices' and x.seq > e.seq] or \
            [x for x in I.events if x.kind == 'setattr' and x.name == 'index' and x.seq > e.seq]
        rep.ob('delete', 'table rebuilt after names are removed', bool(after), '', e.loc)
    for e in I.events:
        if e.kind in ('repocall', 'meth') and e.name == 'changeSamples' and e.base is not me:
            d = deleted(e.args[0])
            ok = d is not None and d[0] is mk('attr', e.base, 'samples') and all(l in removed for _, l in alts(d[1], e.facts))
            src = [o for o in own if o.base is not None and any(mk('item', o.result, const(0)) is l for _, l in alts(d[1], e.facts))] if d else []
            rep.ob('delete', 'same columns removed from every chain', ok, 'chain samples become %s' % show(e.args[0], 5), e.loc)
            whole = any(it is mk('attr', me, 'chains') for _, it in e.loops)
            part = any(it.op == 'item' and it.args[0] is mk('attr', me, 'chains') and it.args[1].op == 'slice' and it.args[1].args[0] is const(1) for _, it in e.loops)
            onfirst = any(o.base is not None and o.base is mk('item', mk('attr', me, 'chains'), const(0)) for o in own)
            rep.ob('delete', 'all chains are treated', whole and not onfirst or part and onfirst, 'loop over %s' % [show(it, 3) for _, it in e.loops], e.loc)
    for o in own:
        b = o.base
        if b is None or b is me:
            continue
        # a fixed parameter must be fixed in all chains
        ok = not any_sub(b, lambda x: x.op == 'item' and x.args[0] is mk('attr', me, 'chains') and is_const(x.args[1]))
        rep.ob('delete', 'a parameter is fixed only if all chains agree', ok, 'decided on %s alone' % show(b, 4), o.loc)
    sf = [e for e in I.events if e.kind in ('repocall', 'meth') and e.name == 'setFixed']
    for e in sf:
        before = all(e.seq < x.seq for x in nd)
        rep.ob('delete', 'fixed values recorded before the names are removed', before, 'positions refer to the list before removal', e.loc)
        k, v = e.args[0], e.args[1]
        ok = k.op == 'attr' and k.args[1] == 'name' and k.args[0].op == 'item' and is_names(k.args[0].args[0])
        if ok:
            i = k.args[0].args[1]
            ci, cv = stepped(i, v)
            ok = ci is not None and all(any(l1 is mk('item', r.result, const(0)) and l2 is mk('item', r.result, const(1)) for r in own) for l1, l2 in zip([l for _, l in alts(ci)], [l for _, l in alts(cv)]))
        rep.ob('delete', 'fixed value recorded under the name of its column', ok, 'records %s = %s' % (show(k, 5), show(v, 5)), e.loc)
    # ---- pairing
    npair = 0
    for cls, only in ((C, None), (M, None)):
        for name, g in sorted(cls.methods.items()):
            src = ast.dump(g.node)
            if "'samples'" not in src and "'means'" not in src and "'sddev'" not in src or "'paramNames'" not in src:
                continue
            I = Interp(p, inline=policy(), budget=200000)
            I.run_function(g, cls=cls)
            rep.analysed(I)
            seen = {}
            todo = []
            for e in I.events:
                if e.kind == 'meth' and e.name == 'update' and e.args:
                    todo += [(e, x.args[0], x.args[1]) for x in walk(e.args[0]) if x.op == 'kv']
                elif e.kind == 'return' and e.value is not None:
                    todo += [(e, x.args[0], x.args[1]) for x in walk(e.value) if x.op == 'kv']
                else:
                    todo.append((e, None, None))
            for e, key, val in todo:
                if key is not None:
                    pass
                elif e.kind == 'setitem':
                    key, val = mk('tuple', *e.args), e.value
                elif e.kind == 'setattr':
                    key, val = mk('tuple', e.base, *(e.args or ())), e.value
                elif e.kind in ('repocall', 'meth', 'call') and e.args and e.name not in ('append',):
                    key = val = mk('tuple', *[a for a in e.args])
                else:
                    continue
                if val is None:
                    continue
                ns = names_in(key)
                cs = [c for c in columns(val) if related(c[1]) or c[1].op == 'idx']
                cs += [c for c in columns(val) if (any(x.op == 'item' for x in ns) or e.kind == 'setitem') and c not in cs]
                if not ns or not cs:
                    continue
                for o, i, t in cs:
                    ok = any(same_list(i, x) for x in ns)
                    k = (e.func.qual.split(':')[1], 'store' if e.kind in ('setitem', 'setattr', 'return') or e.name == 'update' else e.name)
                    seen.setdefault(k, [True, e, i])
                    if not ok:
                        seen[k] = [False, e, i]
            for (q, w), (ok, e, i) in sorted(seen.items(), key=lambda z: z[0]):
                npair += 1
                rep.ob('pairing', '%s (%s)' % (q, w), ok, 'column position %s paired with another parameter' % show(i, 4), e.loc)
    # ---- replacing the list
    f = need(p, C, 'setParamNames')
    I = Interp(p, inline=policy())
    rets, raised = I.run_function(f, cls=C)
    rep.analysed(I)
    sets = [e for e in I.events if e.kind == 'setattr' and e.name == 'paramNames' and e.value is not NONE]
    calls = [e for e in I.events if e.kind in ('repocall', 'meth') and e.name == '_getParamIndices']
    rep.ob('names-set', 'Chains.setParamNames rebuilds the table', bool(sets) and bool(calls) and max(e.seq for e in calls) > max(e.seq for e in sets), '', f.loc)
    # ---- table current
    mm = mk('self', M.qual)
    ensures = {'get1DDensity', 'get1DDensityGridData', 'get2DDensity', 'get2DDensityGridData'}
    priv = [g.qual for k in (M, C, W) for g in k.methods.values() if g.name.startswith('_') and not g.name.startswith('__')]
    ms = methods_of(p, M)
    readers = {nm for nm, g in ms.items() if any(isinstance(x, ast.Attribute) and x.attr == 'index' and isinstance(x.value, ast.Name) and x.value.id == 'self' for x in ast.walk(g.node))}
    changed = True
    trans = set(readers)
    while changed:
        changed = False
        for nm, g in ms.items():
            if nm not in trans and any(c in trans and (c.startswith('_')) for c in self_calls(g)):
                trans.add(nm)
                changed = True
    skip = {'_getParamIndices', p01.UPDATE}
    for nm in sorted(trans - skip):
        g = ms[nm]
        if nm.startswith('_') and nm not in ('_makeParamvec',) or 'staticmethod' in g.decorators:
            continue
        F = Fresh(())
        F.me = mm
        I = Interp(p, inline=policy(*priv, opaque=OPAQUE_READERS), on_event=F.on_event, join_client=F.join, budget=300000)
        I.watch = {'index'}
        I.run_function(g, cls=M)
        rep.analysed(I)
        if not F.reads:
            continue
        ok = all(k for _, k in F.reads)
        rep.ob('table-current', 'MCSamples.%s' % nm, ok, 'reads the name-to-column table without making sure it is current', [e for e, k in F.reads if not k or ok][0].loc)


def need(p, c, name):
    f = p.find_method(c, name)
    if f is None:
        raise AnalysisError('%s.%s vanished' % (c.name, name))
    return f


def stepped(i, v):
    """the two collections that i and v go through in step"""
    if i.op == 'elem' and v.op == 'elem':
        return i.args[0], v.args[0]
    if v.op == 'ite' and any(l.op == 'item' for l in leaves(v)):
        c = [unitem(l) for l in leaves(v)]
        if i.op == 'elem' and all(x is not None and x[1] is mk('idx', i.args[0]) for x in c):
            return i.args[0], subst_leaves(v, lambda l: unitem(l)[0])
    if i.op == 'elem' and v.op == 'item' and v.args[1] is mk('idx', i.args[0]):
        return i.args[0], v.args[0]
    if v.op == 'elem' and i.op == 'item' and i.args[1] is mk('idx', v.args[0]):
        return i.args[0], v.args[0]
    if i.op == 'item' and v.op == 'item' and i.args[1] is v.args[1]:
        return i.args[0], v.args[0]
    return None, None


def unitem(l):
    return (l.args[0], l.args[1]) if l.op == 'item' else None


def subst_leaves(t, fn):
    if t.op == 'ite':
        return mk('ite', t.args[0], subst_leaves(t.args[1], fn), subst_leaves(t.args[2], fn))
    return fn(t)


def appended(v):
    """(first, rest) of a column-wise concatenation of two arrays"""
    if v.op == 'item' and v.args[0].op == 'ext' and v.args[0].args[0] == 'numpy.c_' and v.args[1].op == 'tuple' and len(v.args[1].args) == 2:
        return v.args[1].args
    if v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] in ('numpy.hstack', 'numpy.column_stack', 'numpy.concatenate', 'numpy.append'):
        a = v.args[1]
        if v.args[0].args[0] == 'numpy.append':
            return a[0], a[1]
        if a and a[0].op in ('tuple', 'seq') and len(a[0].args) == 2:
            return a[0].args
    return None


def deleted(v):
    """(array, columns) of numpy.delete(array, columns, axis=1)"""
    if v.op == 'call' and v.args[0].op == 'ext' and v.args[0].args[0] == 'numpy.delete':
        ax = v.args[1][2] if len(v.args[1]) > 2 else dict(v.args[2]).get('axis')
        if ax is const(1) or ax is const(-1):
            return v.args[1][0], v.args[1][1]
    return None


def rep_of(s):
    """(value, conditions) of a list built by one loop"""
    if s.op == 'seq' and len(s.args) == 1 and s.args[0].op == 'rep':
        b = s.args[0].args[0]
        cs = []
        while b.op == 'opt':
            cs.append(b.args[0])
            b = b.args[1]
        return b, tuple(cs)
    return None
