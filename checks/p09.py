"""P09: .ini settings: precedence, missing and malformed values, saving.

path facts at every store into the settings table, every recursive read of an included file, and every value a getter can return.
"""
from .common import *

GETTERS = 'IniFile.asType IniFile.isSet IniFile.hasKey IniFile._undefined IniFile.bool IniFile.split IniFile.string IniFile.float IniFile.int IniFile.ndarray IniFile.list'.split()


def P(n):
    return mk('param', n)


def atoms(c, pos=True):
    """(term, polarity) of the conjuncts of c"""
    out = []
    todo = [c]
    while todo:
        x = todo.pop()
        if x.op == 'and':
            todo.extend(x.args)
        elif x.op == 'not':
            out.append((x.args[0], False))
        else:
            out.append((x, True))
    return out


def markers(t):
    """which of INCLUDE( / DEFAULT( lines the file name comes from"""
    out = set()
    for x in walk(t):
        if x.op == 'opt':
            for a, pol in atoms(x.args[0]):
                if not pol:
                    continue
                for y in walk(a) if a.op != 'or' else ():
                    if is_const(y) and cval(y) in ('INCLUDE(', 'DEFAULT(', 'INCLUDE', 'DEFAULT'):
                        out.add(cval(y).rstrip('('))
    return out


def check(p, rep):
    rep.rule('no-overwrite', 'reading never replaces a setting already defined: the value is stored only under a name not yet present', 1)
    rep.rule('duplicate-error', 'a name defined twice (outside DEFAULT files) is an error', 1)
    rep.rule('precedence', 'DEFAULT files are read after the file\'s own and included settings and only fill in missing names; INCLUDE files keep the mode of the including file', 1)
    rep.rule('relative-include', 'a relative file name is resolved against the directory of the file that names it', 0)
    rep.rule('key-value', 'name and value are split at the first = of the same line', 1)
    rep.rule('own-file', 'the remembered file name is that of the file asked for, not of a file it includes', 1)
    rep.rule('defined-value', 'a setting that is defined is returned, converted to the requested type, never the default', 4)
    rep.rule('missing', 'a setting that is not defined gives the caller\'s default, or an error when there is none', 10)
    rep.rule('boolean', 'T… is true, F… is false, anything else is an error', 3)
    rep.rule('list-entries', 'every entry of a list setting is converted, in order', 4)
    rep.rule('array-key', 'indexed settings are looked up as name(index)', 4)
    rep.rule('saved-once', 'saving writes every setting exactly once with its current value, includes and defaults first', 3)
    cls = p.cls('getdist.inifile', 'IniFile')
    me = mk('self', cls.qual)
    f = p.find_method(cls, 'readFile')
    I = Interp(p, inline=policy(), budget=300000)
    rets, raised = I.run_function(f, cls=cls)
    rep.analysed(I)
    params = mk('attr', me, 'params')
    stores = [e for e in I.events if e.kind == 'setitem' and e.base is params]
    other = [e for e in I.events if e.kind == 'meth' and e.base is params and e.name in ('update', 'setdefault', '__setitem__')]
    if not stores and not any(e.name == 'setdefault' for e in other):
        raise AnalysisError('readFile stores no settings')
    for e in other:
        rep.ob('no-overwrite', 'params.%s' % e.name, e.name == 'setdefault', 'settings already defined may be replaced', e.loc)
    for e in stores:
        k = e.args[0]
        rep.ob('no-overwrite', 'store of a setting', logic.implies(e.facts, neg(compare('in', k, params))), 'an existing value can be overwritten', e.loc)
        bad = [x for x in walk(mk('tuple', k, e.value)) if x.op == 'meth' and (x.args[1] in ('rfind', 'rindex', 'rpartition', 'rsplit') or
               x.args[1] == 'split' and x.args[2] and len(x.args[2]) < 2) and x.args[2] and x.args[2][0] is const('=')]
        lines = [x for x in walk(k) if x.op == 'elem' and any_sub(x.args[0], lambda y: y.op == 'call' and y.args[0].op == 'builtin' and y.args[0].args[0] == 'open')]
        same = lines and all(contains(l, lines[0]) for fs, l in alts(e.value, e.facts))
        firsteq = not bad and any(x.op == 'meth' and x.args[2] and x.args[2][0] is const('=') for x in walk(k))
        rep.ob('key-value', 'split of a settings line', bool(same) and firsteq, 'name %s value %s' % (show(k, 6), show(e.value, 6)), e.loc)
        sl = [x for x in walk(e.value) if x.op == 'slice']
        for x in sl:
            lo = x.args[0]
            if lo.op == 'bin' and lo.args[0] == '+' and any_sub(lo, lambda y: y.op == 'meth' and y.args[1] in ('find', 'index')):
                rep.ob('key-value', 'value starts after =', lo.args[2] is const(1) and x.args[1] is NONE, 'value is %s' % show(e.value, 6), e.loc)
    ind = P('if_not_defined')
    dup = [e for e in I.events if e.kind == 'raise' and not any(x.op == 'caught' for x in e.facts) and any(x.op == 'cmp' and x.args[0] == 'in' and x.args[2] is params for x in e.facts)]
    rep.ob('duplicate-error', 'duplicate definition raises', any(logic.implies(e.facts, neg(truth(ind))) for e in dup), 'no error is raised for a repeated name', f.loc)
    for e in dup:
        rep.ob('duplicate-error', 'no error in DEFAULT mode', logic.implies(e.facts, neg(truth(ind))), 'repeats in DEFAULT files must be ignored, not rejected', e.loc)
    # the raise must be reached for every duplicate: on continuing paths the name was new, or DEFAULT mode
    rec = [e for e in I.events if e.kind in ('repocall', 'meth') and e.name == 'readFile']
    byk = {'INCLUDE': [], 'DEFAULT': []}
    mixed = False
    smax = max([e.seq for e in stores] or [0])
    sloops = set(x for e in stores for x in e.loops)
    for e in rec:
        ks = markers(e.args[0])
        if len(ks) == 2:  # one list holding both kinds
            mixed = True
            for x in walk(e.args[0]):
                if x.op == 'elem' and x.args[0].op == 'seq' and len(x.args[0].args) > 1:
                    first = [sorted(m)[0] for m in map(markers, x.args[0].args) if len(m) == 1]
                    if set(first) == {'INCLUDE', 'DEFAULT'}:
                        rep.ob('precedence', 'INCLUDE files before DEFAULT files', first[0] == 'INCLUDE', 'files are read in the order %s' % first, e.loc)
                        break
        if len(ks) != 1:
            continue
        kind = ks.pop()
        byk[kind].append(e)
        mode = e.kw('if_not_defined')
        if mode is None and len(e.args) > 2:
            mode = e.args[2]
        if mode is None:
            mode = FALSE
        if kind == 'DEFAULT':
            rep.ob('precedence', 'DEFAULT file only fills in missing names', mode is TRUE, 'mode is %s' % show(mode), e.loc)
        else:
            rep.ob('precedence', 'INCLUDE file keeps the mode of the including file', mode is ind, 'mode is %s' % show(mode), e.loc)
        rep.ob('precedence', '%s files are read after the file itself' % kind, e.seq > smax and not (set(e.loops) & sloops), 'read before the settings of the including file', e.loc)
        if e.kw('keep_includes') is not None:
            rep.ob('precedence', 'nested includes of %s files are followed' % kind, e.kw('keep_includes') is FALSE or logic.implies(e.facts, neg(truth(e.kw('keep_includes')))), '', e.loc)
        rep.ob('precedence', '%s files followed only when not kept' % kind, logic.implies(e.facts, neg(truth(P('keep_includes')))), '', e.loc)
        d = mk('call', mk('ext', 'os.path.dirname'), (P('filename'),), ())
        d2 = mk('item', mk('call', mk('ext', 'os.path.split'), (P('filename'),), ()), const(0))
        for fs, a in alts(e.args[0], e.facts):
            raw = a.op == 'elem' or a.op == 'item'
            if a.op == 'call' and a.args[0].op == 'ext' and a.args[0].args[0] == 'os.path.join':
                ok = a.args[1][0] in (d, d2) and len(a.args[1]) == 2
            else:
                ab = mk('call', mk('ext', 'os.path.isabs'), (a,), ())
                ok = logic.implies(fs, truth(ab))
            rep.ob('relative-include', '%s file name' % kind, ok, 'reads %s' % show(a, 4), e.loc)
    if rec and not mixed and not (byk['INCLUDE'] or byk['DEFAULT']):
        raise AnalysisError('included files not recognised')
    if byk['INCLUDE'] and byk['DEFAULT']:
        rep.ob('precedence', 'INCLUDE files before DEFAULT files', max(e.seq for e in byk['INCLUDE']) < min(e.seq for e in byk['DEFAULT']), 'a default could be taken before an included setting', f.loc)
    for k in byk:
        if rec and not mixed:
            rep.ob('precedence', '%s files are read' % k, bool(byk[k]), 'no read of %s files found' % k, f.loc)
    own = [e for e in I.events if e.kind == 'setattr' and e.name == 'original_filename' and e.base is me]
    rep.ob('own-file', 'file name is remembered', bool(own), 'never set', f.loc)
    lastrec = max([e.seq for e in rec] or [0])
    if own:
        e = own[-1]
        rep.ob('own-file', 'outermost file remembered', e.value is P('filename') and (e.seq > lastrec), 'an included file replaces the file that was read: saveFile() would overwrite it', e.loc)
    getters(p, rep, cls, me, params)
    saving(p, rep, cls, me, params)


def run(p, rep, cls, name, args=None, facts=()):
    f = p.find_method(cls, name)
    I = Interp(p, inline=policy(*GETTERS), budget=200000)
    rets, raised = I.run_function(f, cls=cls, args=args, facts=facts)
    rep.analysed(I)
    out = []
    for st, v in rets:
        out += alts(I.res(v, st), st.facts)
    return f, out, raised, I


def getters(p, rep, cls, me, params):
    key = P('name')
    val = mk('item', params, key)
    isin = compare('in', key, params)
    nonempty = neg(compare('==', val, const('')))
    D = P('default')
    have = compare('isnot', D, NONE)
    conv = {'string': 'str', 'float': 'float', 'int': 'int'}
    notlist = neg(mk('isinstance', val, mk('tuple', *sorted([mk('builtin', 'list'), mk('builtin', 'tuple')]))))
    for g in ('string', 'float', 'int', 'bool'):
        args = {'allowEmpty': TRUE} if g == 'string' else None
        f, out, raised, I = run(p, rep, cls, g, args, (isin, nonempty))
        for fs, v in out:
            if g == 'bool':
                continue
            want = mk('str', val) if g == 'string' else mk('call', mk('builtin', conv[g]), (val,), ())
            rep.ob('defined-value', '%s()' % g, v is want or (g == 'string' and v is val), 'returns %s' % show(v, 5), f.loc)
        if g == 'bool':
            tv = [(fs, v) for fs, v in out]
            for fs, v in tv:
                if v is D:
                    rep.ob('defined-value', 'bool()', False, 'the default is returned for a defined setting', f.loc)
                    continue
                rep.ob('defined-value', 'bool()', v in (TRUE, FALSE) or contains(v, val), 'returns %s' % show(v, 5), f.loc)
            lits = {TRUE: 'T', FALSE: 'F'}
            seen = set()
            for fs, v in tv:
                if v in lits:
                    words = {cval(y) for x in fs for a, pol in atoms(x) if pol for y in walk(a) if is_const(y) and isinstance(cval(y), str) and cval(y)}
                    seen.add(v)
                    rep.ob('boolean', '%s means %s' % (lits[v], cval(v)), bool(words) and all(w[0] == lits[v] for w in words), 'returned where the text matches %s' % sorted(words), f.loc)
                elif v.op == 'cmp' and contains(v, val):  # s[0] == 'T'
                    words = {cval(y) for y in walk(v) if is_const(y) and isinstance(cval(y), str)}
                    rep.ob('boolean', 'T means True', words == {'T'}, show(v), f.loc)
                    words = {cval(y) for x in fs for y in walk(x) if is_const(y) and isinstance(cval(y), str) and cval(y)}
                    rep.ob('boolean', 'F means False', 'F' in words, 'anything but T taken as False', f.loc)
            rep.ob('boolean', 'other text is an error', bool(raised), 'text that is neither T nor F is accepted', f.loc)
        # missing with a default
        f, out, raised, I = run(p, rep, cls, g, {'allowEmpty': TRUE} if g == 'string' else None, (neg(isin), have))
        for fs, v in out:
            rep.ob('missing', '%s() with default' % g, v is D, 'returns %s' % show(v, 4), f.loc)
        rep.ob('missing', '%s() with default does not fail' % g, bool(out) and not raised, 'raises although a default is given', f.loc)
        a = {'default': NONE}
        if g == 'string':
            a['allowEmpty'] = TRUE
        f, out, raised, I = run(p, rep, cls, g, a, (neg(isin),))
        rep.ob('missing', '%s() without default' % g, not out and bool(raised), 'returns %s instead of raising an error' % [show(v, 3) for _, v in out][:2], f.loc)
        if g != 'string':
            f, out, raised, I = run(p, rep, cls, g, None, (isin, neg(nonempty), have))
            for fs, v in out:
                rep.ob('missing', '%s() of an empty value' % g, v is D, 'returns %s' % show(v, 4), f.loc)
            rep.ob('missing', '%s() of an empty value with default does not fail' % g, bool(out) and not raised, '', f.loc)
    f = p.find_method(cls, 'setAttr')
    I = Interp(p, inline=policy())
    I.run_function(f, cls=cls)
    rep.analysed(I)
    cur = [e for e in I.events if e.kind in ('repocall', 'meth') and e.name == 'asType']
    for e in cur:
        d = e.args[2] if len(e.args) > 2 else e.kw('default')
        t = e.args[1] if len(e.args) > 1 else e.kw('tp')
        ok = e.args[0] is P('name') and d is not None and any_sub(d, lambda x: x.op == 'call' and x.args[0] is mk('builtin', 'getattr') or x.op in ('getattr', 'attr', 'dynattr')) and contains(t, d)
        rep.ob('defined-value', 'setAttr keeps the type of the present value and keeps the value when unset', ok, 'asType(%s)' % ', '.join(show(a, 4) for a in e.args), e.loc)
    f = p.find_method(cls, 'saveFile')
    I = Interp(p, inline=policy())
    I.run_function(f, cls=cls)
    rep.analysed(I)
    opens = [e for e in I.events if e.kind == 'call' and e.fn is mk('builtin', 'open')]
    for e in opens:
        ok = all(l is P('filename') and logic.decide(truth(l), fs) is not False or l is mk('attr', me, 'original_filename') for fs, l in alts(e.args[0], e.facts))
        rep.ob('saved-once', 'saved under the given or remembered name', ok, 'opens %s' % show(e.args[0], 4), e.loc)
    wr = [e for e in I.events if e.kind == 'meth' and e.name in ('write', 'writelines')]
    rep.ob('saved-once', 'whole settings text is written', any(e.args and any_sub(e.args[0], lambda x: x is mk('str', me) or x.op == 'meth' and x.args[1] in ('fileLines', '__str__') and x.args[0] is me or
                                                                                            x.op == 'call' and x.args[0].op == 'func' and x.args[0].args[0].endswith(('IniFile.fileLines', 'IniFile.__str__'))) for e in wr),
           'writes %s' % [show(e.args[0], 4) for e in wr if e.args], f.loc)
    for g, tp in (('list', None), ('float_list', 'float'), ('int_list', 'int'), ('bool_list', 'bool')):
        a = {'tp': NONE} if g == 'list' else {}
        f, out, raised, I = run(p, rep, cls, g, a, (neg(isin), truth(D)))
        for fs, v in out:
            if v.op == 'seq' and len(v.args) == 1 and v.args[0].op == 'rep' and v.args[0].args[1] is D:
                v = D  # entries of the default
            rep.ob('missing', '%s() with default' % g, contains(v, D) and not contains(v, val) or logic.contradictory(fs), 'returns %s' % show(v, 4), f.loc)
        f, out, raised, I = run(p, rep, cls, g, a, (isin, nonempty, notlist))
        for fs, v in out:
            strs = mk('meth', mk('str', val), 'split', (), ())
            got = None
            if v is strs or v is mk('meth', val, 'split', (), ()):
                got = 'str'
            elif v.op == 'seq' and len(v.args) == 1 and v.args[0].op == 'rep':
                b = v.args[0].args[0]
                while b.op == 'opt':
                    got = 'filtered'
                    break
                if b.op == 'call' and b.args[0].op == 'builtin' and b.args[1] and b.args[1][0].op == 'elem':
                    got = b.args[0].args[0]
                elif b.op == 'elem':
                    got = 'str'
                elif tp == 'bool' and got is None:
                    words = {cval(y) for y in walk(b) if is_const(y) and isinstance(cval(y), str)}
                    got = 'bool_text' if {'T', 'F'} & words else None
            elif not contains(v, val):
                got = 'default'
            want = {'float': ('float',), 'int': ('int',), None: ('str',), 'bool': ('bool_text',)}[tp]
            rep.ob('list-entries', '%s() of text' % g, got in want, 'returns %s' % show(v, 6), f.loc)
    for g, base in (('array_int', 'int'), ('array_string', 'string'), ('array_bool', 'bool'), ('array_float', 'float')):
        f = p.find_method(cls, g)
        I = Interp(p, inline=policy())
        rets, raised = I.run_function(f, cls=cls)
        rep.analysed(I)
        want = concat([P('name'), const('('), mk('fmt', 'd', P('index')), const(')')])
        want2 = concat([P('name'), const('('), P('index'), const(')')])
        calls = [e for e in I.events if e.kind in ('repocall', 'meth') and e.base is me and e.args]
        def norm(t):
            return show(t, 8).replace("fmt('d', index)", 'index').replace('str(index)', 'index').replace("fmt('', index)", 'index').replace("fmt('s', index)", 'index')
        rep.ob('array-key', g, any(norm(e.args[0]) == norm(want2) and e.name in (base, 'asType') and (len(e.args) > 1 and e.args[1] is P('default') or e.kw('default') is P('default') or e.name == 'asType') for e in calls),
               'looks up %s' % [(e.name, show(e.args[0], 5)) for e in calls], f.loc)


def saving(p, rep, cls, me, params):
    f = p.find_method(cls, 'fileLines')
    I = Interp(p, inline=policy())
    rets, raised = I.run_function(f, cls=cls)
    rep.analysed(I)
    order = mk('attr', me, 'readOrder')
    for st, v in rets:
        v = I.res(v, st)
        if v.op != 'seq':
            raise AnalysisError('fileLines: result not understood')
        lines = []
        for x in v.args:
            r = x
            conds = []
            if r.op == 'rep':
                b = r.args[0]
                while b.op == 'opt':
                    conds.append(b.args[0])
                    b = b.args[1]
                lines.append((b, r.args[1], conds))
            else:
                lines.append((r, None, conds))
        inc = [i for i, (b, it, c) in enumerate(lines) if it is mk('attr', me, 'includes')]
        dfl = [i for i, (b, it, c) in enumerate(lines) if it is mk('attr', me, 'defaults')]
        par = [i for i in range(len(lines)) if i not in inc and i not in dfl]
        for nm, ix in (('INCLUDE', inc), ('DEFAULT', dfl)):
            ok = len(ix) == 1 and not lines[ix[0]][2] and show(lines[ix[0]][0], 4) == show(concat([const(nm + '('), mk('elem', lines[ix[0]][1]), const(')')]), 4)
            rep.ob('saved-once', nm + ' lines', ok, 'lines %s' % [show(lines[i][0], 4) for i in ix], f.loc)
            rep.ob('saved-once', nm + ' lines first', not ix or not par or max(ix) < min(par), '', f.loc)
        # parameter lines: key = value(key)
        its = []
        for i in par:
            b, it, conds = lines[i]
            parts = b.args if b.op == 'concat' else (b,)
            k = parts[0]
            ok = len(parts) == 3 and parts[1] is const('=') and all(any_sub(l, lambda x: x.op == 'item' and x.args[0] is params and (x.args[1] is k or k.op == 'elem' and x.args[1].op == 'elem')) for _, l in alts(parts[2]))
            rep.ob('saved-once', 'line of a setting', ok, 'line is %s' % show(b, 5), f.loc)
            its.append((k, it, conds))
        if len(its) == 2:
            (k1, it1, c1), (k2, it2, c2) = its
            # first the read order (members only), each removed from the remaining names; then what remains
            rest = I.res(it2, st) if it2 is not None else None
            removed = rest is not None and any_sub(rest, lambda x: x.op in ('delk', 'del', 'removed', 'remove')) or k2 is not None and any_sub(k2, lambda x: x.op == 'delk')
            excl = any(a.op == 'cmp' and a.args[0] == 'in' and a.args[1] is k2 and pol is False for c in c2 for a, pol in atoms(c))
            guarded = any(a.op == 'cmp' and a.args[0] == 'in' and a.args[1] is k1 and pol for c in c1 for a, pol in atoms(c))
            rep.ob('saved-once', 'settings in read order, once', guarded and it1 is order, 'first group iterates %s under %s' % (show(it1, 3), [show(c, 3) for c in c1]), f.loc)
            rep.ob('saved-once', 'remaining settings, not repeated', removed or excl, 'second group iterates %s' % show(it2, 5), f.loc)
            uses = any_sub(mk('tuple', k2, it2 if it2 is not None else NONE), lambda x: x is params)
            rep.ob('saved-once', 'all settings', uses, 'second group does not cover the settings table', f.loc)
        elif len(its) == 1:
            uses = any_sub(mk('tuple', its[0][0], its[0][1] if its[0][1] is not None else NONE), lambda x: x is params)
            rep.ob('saved-once', 'all settings', uses and not its[0][2], 'does not cover the settings table', f.loc)
        else:
            rep.ob('saved-once', 'all settings', False, 'no settings lines', f.loc)
