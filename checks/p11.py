"""P11: parameter names and ranges survive writing and reading."""
import ast
import itertools
from .common import *
from sa.project import AnalysisError
from sa.strings import AS, Sym, Num, Unknown, Glued, evaluate

P = lambda n: mk('param', n)


def need(p, c, name):
    f = p.find_method(c, name)
    if f is None:
        raise AnalysisError('%s.%s vanished' % (c.name, name))
    return f


def NAME(key='name'):
    return AS(Sym(key, exclude='*?'))


# any label or comment is words separated by blanks: one word or more than one
# (with and without characters that are special in names)
LABELS = [AS(''), AS(Sym('label', exclude='#!*?')), AS(Sym('label', exclude='#!*?'), ' ', Sym('label2', exclude='#!*?')), AS(Sym('label', exclude='#!')), AS(Sym('label', exclude='#!'), ' ', Sym('label2', exclude='#!'))]
COMMENTS = [AS(''), AS(Sym('comment', exclude='#!')), AS(Sym('comment', exclude='#!'), ' ', Sym('comment2', exclude='#!'))]
KIND = {0: 'no', 1: 'one word', 3: 'several words'}


def check(p, rep):
    rep.rule('name-line', 'the line written for a parameter is read back as the same name, label, comment and derived flag', 4)
    rep.rule('name-file', 'every parameter is written as one line in order and every line read becomes one parameter in order', 2)
    rep.rule('range-line', 'the line written for a range is read back as the same limits, a missing limit staying missing', 4)
    rep.rule('range-file', 'every range is written as one line and every line read sets one range', 2)
    rep.rule('limits', 'limits are stored and returned under their own name and end', 3)
    rep.rule('yaml', 'parameters of a yaml file: sampled first, then derived (and marked so), each with its own label', 2)
    writers = name_lines(p, rep)
    name_files(p, rep, writers)
    ranges(p, rep)
    limits(p, rep)
    yaml(p, rep)


def run_path(sts, I, env, me, names):
    """the values of attributes on the path taken for env; None if it cannot be decided"""
    for st, _ in sts:
        try:
            if all(_truth(x, env) for x in st.facts):
                out = {}
                for n in names:
                    t = st.heap.get((me, n))
                    out[n] = evaluate(I.res(t, st), env) if t is not None else None
                return out
        except IndexError as e:
            return 'fails: %s' % e
    return None


def _truth(x, env):
    v = evaluate(x, env)
    if isinstance(v, bool):
        return v
    if isinstance(v, AS):
        return v.nonempty()
    return bool(v)


def comments_wanted(p, fw):
    """the argument of string() where a whole list is written"""
    names = [a for a in fw.argnames() if a != 'self']
    if not names:
        return {}
    n = names[0]
    out = TRUE
    d = fw.node.args.defaults
    if d:
        try:
            out = const(ast.literal_eval(d[0]))
        except ValueError:
            pass
    C = p.cls('getdist.paramnames', 'ParamNames')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(need(p, C, '__str__'), cls=C)
    for st, v in rets:
        for x in walk(I.res(v, st)):
            if x.op == 'meth' and x.args[1] == 'string':
                if x.args[2]:
                    out = x.args[2][0]
                for k, y in x.args[3]:
                    if k == n:
                        out = y
    return {n: truth(out)}


def name_lines(p, rep):
    C = p.cls('getdist.paramnames', 'ParamInfo')
    me = mk('self', C.qual)
    fw, fr = need(p, C, 'string'), need(p, C, '__init__')
    wanted = comments_wanted(p, fw)
    Iw = Interp(p, inline=policy())
    wr, _ = Iw.run_function(fw, cls=C, args=wanted)
    rep.analysed(Iw)
    Ir = Interp(p, inline=policy('ParamInfo.setFromString', 'ParamInfo.setName', 'makeList'))
    rr, raised = Ir.run_function(fr, cls=C, args={'name': const(''), 'label': const(''), 'comment': const(''), 'derived': FALSE, 'renames': NONE, 'number': NONE},
                                 facts=(neg(compare('is', P('line'), NONE)),))
    rep.analysed(Ir)
    A = lambda n: mk('attr', me, n)
    lines = {}
    for d, l, c in itertools.product((False, True), LABELS, COMMENTS):
        tag = '%sparameter with label of %s and comment of %s' % ('derived ' if d else '', KIND[len(l.parts)], KIND[len(c.parts)])
        env = {A('name'): NAME(), A('isDerived'): d, A('label'): l, A('comment'): c}
        try:
            texts = [evaluate(Iw.res(v, st), env) for st, v in wr if all(_truth(x, env) for x in st.facts)]
        except (Unknown, Glued) as e:
            rep.note('name-line', tag, 'text written not recognised: %s' % e)
            continue
        if len(texts) != 1 or not isinstance(texts[0], AS):
            rep.note('name-line', tag, '%d texts' % len(texts))
            continue
        lines[(d, l, c)] = texts[0]
        back(rep, tag, texts[0], (d, l, c), rr, raised, Ir, me, fr)
    rep.extra = (rr, raised, Ir, me, fr)
    return lines


def back(rep, tag, text, want, rr, raised, Ir, me, fr, rule='name-line'):
    d, l, c = want
    env = {P('line'): text, mk('call', mk('builtin', 'isinstance'), (P('line'), mk('builtin', 'str')), ()): True}
    try:
        try:
            env2 = dict(env)
            got = run_path(rr, Ir, env2, me, ('name', 'isDerived', 'label', 'comment'))
        except Glued as e:
            rep.ob(rule, tag, False, 'written as %r: %s' % (text, e), fr.loc)
            return
    except Unknown as e:
        rep.note(rule, tag, 'reading %r not recognised: %s' % (text, e))
        return
    if isinstance(got, str):
        rep.ob(rule, tag, False, 'written as %r, reading %s' % (text, got), fr.loc)
        return
    if got is None:
        rep.ob(rule, tag, False, 'written as %r, refused when read' % text, fr.loc)
        return
    exp = {'name': NAME(), 'isDerived': d, 'label': l, 'comment': c}
    bad = ['%s read as %r' % (k, got[k]) for k in exp if not same(got[k], exp[k])]
    rep.ob(rule, tag, not bad, 'written as %r: %s' % (text, '; '.join(bad)), fr.loc)


def same(a, b):
    if isinstance(a, AS) and isinstance(b, AS):
        return keyed(a) == keyed(b)
    return a == b


def keyed(a):
    return tuple(x.key if isinstance(x, Sym) else x if isinstance(x, str) else ('pad',) for x in a.parts)


def lines_of(t):
    """(line, collection) of a text made of one piece per element, or None; line is a string if the order or selection is wrong"""
    if t.op == 'loop' and t.args[3].op == 'concat' and t.args[3].args[-1].op == 'lv':
        return 'each line is put before the previous ones', None
    if t.op == 'loop' and t.args[3].op == 'ite' and any(x.op == 'lv' for x in t.args[3].args[1:]):
        return 'only where %s' % show(t.args[3].args[0], 4), None
    if any_sub(t, lambda x: x.op == 'rep' and x.args[0].op == 'opt'):
        return 'only some: %s' % show(t, 4), None
    if t.op == 'loop' and cstr(t.args[2]) == '' and t.args[3].op == 'concat' and t.args[3].args[0].op == 'lv':
        return mk('concat', *t.args[3].args[1:]) if len(t.args[3].args) > 2 else t.args[3].args[1], None
    if t.op == 'join' and t.args[1].op in ('seq', 'tuple') and len(t.args[1].args) == 1 and t.args[1].args[0].op == 'rep':
        b, it = t.args[1].args[0].args
        return (concat([b, t.args[0]]) if cstr(t.args[0]) != '' else b), it
    if t.op == 'concat' and len(t.args) == 2 and t.args[0].op == 'join' and cstr(t.args[1]) == cstr(t.args[0].args[0]):
        return lines_of(t.args[0])
    return None


def one_line(a):
    return a.parts and isinstance(a.parts[-1], str) and a.parts[-1].endswith('\n') and sum(x.count('\n') for x in a.parts if isinstance(x, str)) == 1


def elem_bases(t):
    return {x.args[0] for x in walk(t) if x.op == 'elem'}


def name_files(p, rep, writers):
    C = p.cls('getdist.paramnames', 'ParamNames')
    me = mk('self', C.qual)
    names = mk('attr', me, 'names')
    f = need(p, C, '__str__')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f, cls=C)
    rep.analysed(I)
    line = None
    for st, v in rets:
        v = I.res(v, st)
        r = lines_of(v)
        if r is None:
            rep.note('name-file', 'ParamList.__str__', 'text not recognised: %s' % show(v, 4))
            continue
        body, it = r
        if isinstance(body, str):
            rep.ob('name-file', 'all parameters are written in order', False, body, f.loc)
            continue
        ok = elem_bases(body) == {names} and not any_sub(body, lambda x: x.op in ('ite', 'opt')) and (it is None or it is names)
        rep.ob('name-file', 'one line for each parameter in order', ok, 'text has %s for each of %s' % (show(body, 4), [show(x) for x in elem_bases(body)]), f.loc)
        if it is None:
            lp = [e for e in I.events if e.loops and e.loops[-1][1] is names]
            rep.ob('name-file', 'the whole list is written', bool(lp) and all(not e.facts for e in lp), '', f.loc)
        line = body
    # what is written to the file
    f = need(p, C, 'saveAsText')
    I = Interp(p, inline=policy())
    I.run_function(f, cls=C)
    rep.analysed(I)
    wr = [e for e in I.events if e.kind == 'meth' and e.name == 'write']
    if wr:
        t = wr[0].args[0]
        ok = len(wr) == 1 and not wr[0].facts and (t in (mk('str', me), mk('meth', me, '__str__', (), ()), mk('call', mk('builtin', 'str'), (me,), ())))
        if not ok and any_sub(t, lambda x: x.op == 'meth' and x.args[1] == 'string') :
            rep.note('name-file', 'saveAsText', 'writes %s' % show(t, 4))
        else:
            rep.ob('name-file', 'saveAsText writes all parameters', ok, 'writes %s' % show(t, 4), f.loc)
    else:
        rep.note('name-file', 'saveAsText', 'no write')
    # reading
    f = need(p, C, 'loadFromFile')
    I = Interp(p, inline=policy())
    ext = mk('item', mk('call', mk('ext', 'os.path.splitext'), (P('fileName'),), ()), const(-1))
    rets, _ = I.run_function(f, cls=C)
    rep.analysed(I)
    done = 0
    for e in I.events:
        if e.kind == 'construct' and e.fn.args[0].endswith(':ParamInfo') and e.arg(0, 'line') is not None and (e.args or e.kw('line') is not None):
            arg = e.args[0] if e.args else e.kw('line')
            bases = {x for x in walk(arg) if x.op == 'elem'}
            bases = {x for x in bases if not any(y is not x and contains(y, x) for y in bases)}
            if len(bases) != 1:
                continue
            el = bases.pop()
            done += 1
            if line is not None:
                for (d, l, c), text in writers.items():
                    strs = [x for x in walk(line) if x.op == 'meth' and x.args[1] in ('string', '__str__') or x.op == 'str']
                    env = {x: text for x in strs}
                    tag = 'parameter line %r' % text
                    try:
                        full = evaluate(line, env)
                        if not one_line(full):
                            rep.ob('name-file', tag, False, 'written as %r, not one line' % full, e.loc)
                            continue
                        env2 = {el: full}
                        keep = all(_truth(x, env2) for x in e.facts if contains(x, el))
                        if not keep:
                            rep.ob('name-file', tag, False, 'line is skipped when reading', e.loc)
                            continue
                        got = evaluate(arg, env2)
                    except Glued as ex:
                        rep.ob('name-file', tag, False, str(ex), e.loc)
                        continue
                    except Unknown as ex:
                        rep.note('name-file', tag, str(ex))
                        continue
                    rr, raised, Ir, pme, fr = rep.extra
                    back(rep, tag, got, (d, l, c), rr, raised, Ir, pme, fr, 'name-file')
                try:
                    env2 = {el: AS('\n')}
                    blank = all(_truth(x, env2) for x in e.facts if contains(x, el))
                    rep.ob('name-file', 'blank lines are not parameters', not blank, 'a blank line is read as a parameter', e.loc)
                except (Unknown, IndexError):
                    pass
            it = el.args[0]
            whole = it.op == 'call' and it.args[0] is mk('builtin', 'open') or it.op == 'meth' and it.args[1] in ('readlines', 'fileList') or it.op == 'meth' and it.args[1] in ('split', 'splitlines')
            if it.op == 'item' and it.args[1].op == 'slice':
                rep.ob('name-file', 'all lines are read', False, 'reads %s' % show(it, 4), e.loc)
            elif any_sub(it, lambda x: x.op in ('sorted', 'reversed') or x.op == 'call' and x.args[0].op == 'builtin' and x.args[0].args[0] in ('sorted', 'reversed', 'set')):
                rep.ob('name-file', 'parameters are kept in file order', False, 'reads %s' % show(it, 4), e.loc)
            elif whole:
                rep.ob('name-file', 'all lines are read', True, '', e.loc)
                st = [s for s in I.events if s.kind == 'setattr' and s.name == 'names' and s.base is me and contains(s.value, el)]
                app = [s for s in I.events if s.kind == 'meth' and s.name == 'append' and s.base is names]
                if st:
                    v = st[0].value
                    ok = v.op == 'seq' and len(v.args) == 1 and v.args[0].op == 'rep' and v.args[0].args[1] is it
                    rep.ob('name-file', 'parameters are kept in file order', ok, 'names become %s' % show(v, 3), e.loc)
                elif not app:
                    rep.note('name-file', 'order', 'list built in another way')
    if not done:
        rep.note('name-file', 'reading', 'construction of parameters from lines not recognised')


def ranges(p, rep):
    C = p.cls('getdist.parampriors', 'ParamBounds')
    me = mk('self', C.qual)
    names = mk('attr', me, 'names')
    f = need(p, C, '__str__')
    Iw = Interp(p, inline=policy())
    rets, _ = Iw.run_function(f, cls=C)
    rep.analysed(Iw)
    fl = need(p, C, 'loadFromFile')
    Ir = Interp(p, inline=policy())
    Ir.run_function(fl, cls=C)
    rep.analysed(Ir)
    fs = need(p, C, 'setRange')
    Is = Interp(p, inline=policy('ParamBounds._check_name'))
    Is.run_function(fs, cls=C)
    rep.analysed(Is)
    sargs = [a for a in fs.argnames() if a != 'self']
    for st, v in rets:
        v = Iw.res(v, st)
        r = lines_of(v)
        if r is None:
            rep.note('range-file', 'ParamBounds.__str__', 'text not recognised: %s' % show(v, 4))
            continue
        body, it = r
        if isinstance(body, str):
            rep.ob('range-file', 'all ranges are written', False, body, f.loc)
            continue
        els = {x for x in walk(body) if x.op == 'elem'}
        rep.ob('range-file', 'one line for each range', els == {mk('elem', names)} and (it is None or it is names), 'lines for %s' % [show(x) for x in els], f.loc)
        el = mk('elem', names)
        for lo, hi in itertools.product((Num('lower'), Num('zero', True), None), (Num('upper'), Num('zero', True), None)):
            tag = 'range %s to %s' % (lo and lo.key or 'none', hi and hi.key or 'none')
            env = {el: AS(Sym('name', exclude='*?N'))}
            for nm, val in (('Lower', lo), ('Upper', hi)):
                env[mk('meth', me, 'get' + nm, (el,), ())] = val
                at = mk('attr', me, nm.lower())
                env[mk('meth', at, 'get', (el, NONE), ())] = val
                env[mk('meth', at, 'get', (el,), ())] = val
                env[compare('in', el, at)] = val is not None
                if val is not None:
                    env[mk('item', at, el)] = val
            try:
                text = evaluate(body, env)
                if not one_line(text):
                    rep.ob('range-line', tag, False, 'written as %r, not one line' % text, f.loc)
                    continue
            except (Unknown, Glued) as e:
                rep.note('range-line', tag, 'text written not recognised: %s' % e)
                continue
            read_range(rep, tag, text, lo, hi, Ir, Is, me, sargs, fl)
    f = need(p, C, 'saveToFile')
    I = Interp(p, inline=policy())
    I.run_function(f, cls=C)
    rep.analysed(I)
    wr = [e for e in I.events if e.kind == 'meth' and e.name == 'write']
    ok = len(wr) == 1 and not wr[0].facts and wr[0].args[0] in (mk('str', me), mk('meth', me, '__str__', (), ()), mk('call', mk('builtin', 'str'), (me,), ()))
    if not wr:
        rep.note('range-file', 'saveToFile', 'no write')
    else:
        rep.ob('range-file', 'saveToFile writes all ranges', ok, 'writes %s' % show(wr[0].args[0], 4), f.loc)


def is_line(x):
    return x.op == 'elem' and (x.args[0].op == 'call' and x.args[0].args[0] is mk('builtin', 'open') or x.args[0].op == 'meth' and x.args[0].args[1] in ('readlines', 'splitlines', 'split'))


def read_range(rep, tag, text, lo, hi, Ir, Is, me, sargs, fl):
    calls = [e for e in Ir.events if e.kind in ('repocall', 'meth') and e.name == 'setRange' and any(is_line(x) for a in e.args for x in walk(a))]
    if not calls:
        rep.note('range-line', tag, 'no range set from a line')
        return
    for e in calls:
        el = [x for a in e.args for x in walk(a) if is_line(x)][0]
        env = {el: text}
        try:
            if not all(_truth(x, env) for x in e.facts if contains(x, el)):
                rep.ob('range-line', tag, False, 'line %r is skipped when reading' % text, e.loc)
                continue
            a = [evaluate(x, env) for x in e.args]
        except Glued as ex:
            rep.ob('range-line', tag, False, 'line %r: %s' % (text, ex), e.loc)
            continue
        except IndexError as ex:
            rep.ob('range-line', tag, False, 'line %r: %s' % (text, ex), e.loc)
            continue
        except Unknown as ex:
            rep.note('range-line', tag, str(ex))
            continue
        try:
            got = effect(Is, me, sargs, a)
        except IndexError as ex:
            rep.ob('range-line', tag, False, 'written as %r: %s' % (text, ex), e.loc)
            continue
        except Unknown as ex:
            rep.note('range-line', tag, str(ex))
            continue
        want = {'lower': lo, 'upper': hi}
        bad = ['%s read as %r' % (k, got[k][1]) for k in want if got[k][1] != want[k]]
        bad += ['%s stored under %r' % (k, got[k][0]) for k in want if want[k] is not None and got[k][0] is not None and not same(got[k][0], NAME())]
        rep.ob('range-line', tag, not bad, 'written as %r: %s' % (text, '; '.join(bad)), e.loc)


def effect(Is, me, sargs, a):
    env = {P(n): v for n, v in zip(sargs, a)}
    inf = mk('ext', 'numpy.inf')
    for t in (inf, mk('un', '-', inf)):
        env[t] = Num(show(t))
    got = {'lower': (None, None), 'upper': (None, None)}
    for e in Is.events:
        if e.kind == 'setitem' and e.base.op == 'attr' and e.base.args[0] is me and e.base.args[1] in got:
            if all(guard(x, env) for x in e.facts):
                got[e.base.args[1]] = (evaluate(e.args[0], env), evaluate(e.value, env))
        if e.kind == 'meth' and e.name == 'update':
            raise Unknown('limits updated')
    return got


def guard(x, env):
    if x.op == 'call' and x.args[0] is mk('builtin', 'isinstance'):
        return True
    if x.op == 'not' and x.args[0].op == 'call' and x.args[0].args[0] is mk('builtin', 'isinstance'):
        return False
    try:
        return _truth(x, env)
    except Unknown:
        inf = [y for y in walk(x) if y is mk('ext', 'numpy.inf') or y.op == 'isinstance']
        if inf:
            # written limits are finite
            return x.op == 'not' or x.op == 'isinstance'
        raise


def limits(p, rep):
    C = p.cls('getdist.parampriors', 'ParamBounds')
    me = mk('self', C.qual)
    for nm in ('lower', 'upper'):
        f = need(p, C, 'get' + nm.capitalize())
        I = Interp(p, inline=policy('ParamBounds._check_name'))
        rets, _ = I.run_function(f, cls=C)
        rep.analysed(I)
        n = P(f.argnames()[1])
        at = mk('attr', me, nm)
        for st, v in rets:
            for fs, l in alts(I.res(v, st), st.facts):
                ok = l in (mk('meth', at, 'get', (n, NONE), ()), mk('meth', at, 'get', (n,), ()), mk('item', at, n)) or l is NONE and logic.implies(fs, neg(compare('in', n, at)))
                rep.ob('limits', 'get%s' % nm.capitalize(), ok, 'returns %s' % show(l, 4), f.loc)
    f = need(p, C, 'setRange')
    I = Interp(p, inline=policy('ParamBounds._check_name'))
    I.run_function(f, cls=C)
    n, s = (P(a) for a in f.argnames()[1:3])
    inf = mk('ext', 'numpy.inf')
    seen = set()
    for e in I.events:
        if e.kind == 'setitem' and e.base.op == 'attr' and e.base.args[0] is me and e.base.args[1] in ('lower', 'upper'):
            k = e.base.args[1]
            i = 0 if k == 'lower' else 1
            src = mk('item', s, const(i))
            v = e.value
            ok = e.args[0] is n and v in (mk('call', mk('builtin', 'float'), (src,), ()), src)
            rep.ob('limits', 'setRange %s' % k, ok, '%s[%s] = %s' % (k, show(e.args[0]), show(v, 4)), e.loc)
            no = [compare('==', src, const('N')), compare('is', src, NONE), compare('==', src, mk('un', '-', inf) if i == 0 else inf)]
            for x, what in zip(no[:2], ("'N'", 'None')):
                rep.ob('limits', 'setRange %s: %s means no limit' % (k, what), logic.contradictory(set(e.facts) | {x}), 'a limit %s is stored' % what, e.loc)
            E = [neg(x) for x in no]
            rest = [x for x in e.facts if contains(x, s) and not logic.implies(E, x)]
            rep.ob('limits', 'setRange %s: other limits are stored' % k, not rest, 'only if %s' % [show(x, 4) for x in rest], e.loc)
            seen.add(k)
    if seen != {'lower', 'upper'}:
        rep.note('limits', 'setRange', 'limits stored in another way')
    app = [e for e in I.events if e.kind == 'meth' and e.name == 'append' and e.base is mk('attr', me, 'names')]
    if app:
        e = app[0]
        fresh = neg(compare('in', n, mk('attr', me, 'names')))
        rest = [x for x in e.facts if not logic.implies([fresh], x) and not x.op == 'isinstance' and not any_sub(x, lambda y: y is mk('builtin', 'isinstance'))]
        rep.ob('limits', 'setRange lists each name once', e.args[0] is n and logic.implies(e.facts, fresh) and not rest, 'name listed where %s' % [show(x, 3) for x in e.facts], e.loc)
    else:
        rep.note('limits', 'setRange', 'names listed in another way')
    f = need(p, C, 'setFixed')
    I = Interp(p, inline=policy())
    I.run_function(f, cls=C)
    rep.analysed(I)
    n, v = (P(a) for a in f.argnames()[1:3])
    for e in I.events:
        if e.kind in ('repocall', 'meth') and e.name == 'setRange':
            ok = e.args[0] is n and len(e.args) > 1 and e.args[1].op in ('tuple', 'seq') and e.args[1].args == (v, v)
            rep.ob('limits', 'setFixed', ok, 'sets %s' % [show(x, 3) for x in e.args], e.loc)
    f = need(p, C, 'fixedValue')
    I = Interp(p, inline=policy('ParamBounds.getLower', 'ParamBounds.getUpper', 'ParamBounds._check_name'))
    rets, _ = I.run_function(f, cls=C)
    rep.analysed(I)
    n = P(f.argnames()[1])
    g = [[mk('meth', mk('attr', me, k), 'get', a, ()) for a in ((n, NONE), (n,))] + [mk('item', mk('attr', me, k), n)] for k in ('lower', 'upper')]
    for st, v in rets:
        for fs, l in alts(I.res(v, st), st.facts):
            if l is NONE:
                continue
            ok = l in g[0] + g[1] and any(logic.implies(fs, compare('==', a, b)) for a in g[0] for b in g[1])
            rep.ob('limits', 'fixedValue', ok, 'returns %s where %s' % (show(l, 3), [show(x, 3) for x in fs]), f.loc)


def yaml(p, rep):
    C = p.cls('getdist.paramnames', 'ParamNames')
    me = mk('self', C.qual)
    f = need(p, C, 'loadFromFile')
    I = Interp(p, inline=policy())
    I.run_function(f, cls=C)
    order = {}
    for e in I.events:
        if e.kind == 'construct' and e.fn.args[0].endswith(':ParamInfo') and e.kw('name') is not None and not (e.kw('name') is const('')):
            nm = e.kw('name')
            if nm.op != 'elem':
                continue
            info = mk('item', nm.args[0], nm)
            sampled = any(x.op == 'call' and x.args[0].op == 'func' and x.args[0].args[0].endswith(':is_sampled_param') and x.args[1] == (info,) for x in e.facts)
            derived = any(x.op == 'call' and x.args[0].op == 'func' and x.args[0].args[0].endswith(':is_derived_param') and x.args[1] == (info,) for x in e.facts)
            d = e.kw('derived') or FALSE
            kind = 'sampled' if sampled else 'derived' if derived else None
            if kind is None:
                rep.note('yaml', 'parameter kind', 'condition not recognised')
                continue
            order.setdefault(kind, e.seq)
            rep.ob('yaml', '%s parameters are marked correctly' % kind, (truth(d) is TRUE) == (kind == 'derived') and (truth(d) in (TRUE, FALSE)), 'derived=%s' % show(d), e.loc)
            lb = e.kw('label')
            if lb is not None:
                bad = any_sub(lb, lambda x: x.op == 'elem' and x is not nm)
                rep.ob('yaml', '%s parameters have their own label' % kind, (contains(lb, info) or contains(lb, nm)) and not bad, 'label %s' % show(lb, 4), e.loc)
    if set(order) == {'sampled', 'derived'}:
        rep.ob('yaml', 'sampled parameters come first', order['sampled'] < order['derived'], 'derived parameters are listed first', f.loc)
    else:
        rep.note('yaml', 'order', 'kinds %s' % sorted(order))
