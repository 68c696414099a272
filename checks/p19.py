"""P19: settings act under their own names.

 loaded     every setting of the default settings file is read, under its own name, when settings are set
 names      a value read from the settings under a name goes to the attribute of that name
 types      a setting documented as a real number has a real default (its type decides how text is converted)
 last       no default assigned in the constructor after the settings were applied
 overrides  every documented per-call setting is taken from the call, else from the samples, under the same name
 overridden a function which allows a setting to be overridden does not also use the value of the samples
 fallback   an argument whose default comes from the settings can be left out
 used       every setting which is read has an effect
 merged     settings given in the call take preference over those of the file, and the statistics follow
 scale      the meaning of the smoothing scales
 chains     the settings of a folder apply to the chains found there, in the documented order of preference
 plots      every plot setting which is used or documented exists
"""
import ast
import os
import re
from .common import *
from .p16 import allargs, scope
from sa.project import AnalysisError

GET = ('int', 'float', 'bool', 'string', 'split', 'array_int', 'array_float', 'array_bool', 'array_string', 'list', 'asType', 'ndfloat', 'get')


def default_settings_file(p):
    """names of the settings in the default settings file of the package"""
    fn = 'analysis_defaults.ini'
    path = os.path.join(p.repo, 'python/getdist', fn)
    if not os.path.exists(path):
        raise AnalysisError('default settings file not found')
    keys = []
    for line in open(path):
        line = line.strip()
        if line and line[0] not in '#;[' and '=' in line:
            keys.append(line.split('=')[0].strip())
    return keys, 'python/getdist/' + fn


def is_ini(t):
    return any(s.op == 'param' or s.op == 'attr' and s.args[1] == 'ini' for s in walk(t)) and t.op not in ('const',)


def reads(t):
    """(name, default) of the settings read in a term"""
    for s in walk(t):
        if s.op == 'meth' and s.args[1] in GET and s.args[2]:
            k = s.args[2][0]
            if cstr(k) is not None:
                yield cstr(k), s
            else:
                while k.op in ('bin', 'binop', 'add', 'concat', 'fmt', 'mod') and cstr(k) is None:
                    ts = [a for a in k.args if isinstance(a, Term)]
                    if not ts:
                        break
                    k = ts[0]
                if cstr(k):
                    yield re.split('[%{]', cstr(k))[0] + '*', s


def number_at(t, k, events):
    """value of a term at iteration k of its loop, None if not known"""
    if t.op == 'const':
        v = cval(t)
        return v if isinstance(v, (int, str)) else None
    if t.op == 'call' and t.args[0].op == 'builtin' and t.args[0].args[0] in ('str', 'int') and len(t.args[1]) == 1:
        return number_at(t.args[1][0], k, events)
    if t.op == 'idx':
        s = 0 if len(t.args) == 1 else cval(t.args[1])
        return k + s if isinstance(s, int) else None
    if t.op == 'elem' and len(t.args) == 1:
        r = t.args[0]
        if r.op == 'call' and show(r.args[0], 2) == 'range':
            a = r.args[1]
            st = 0 if len(a) == 1 else cval(a[0])
            step = 1 if len(a) < 3 else cval(a[2])
            return st + step * k if isinstance(st, int) and isinstance(step, int) else None
        return None
    if t.op == 'ite':
        c = number_at(mk('len', t.args[0]) if t.args[0].op == 'seq' else t.args[0], k, events)
        return None if c is None else number_at(t.args[1] if c else t.args[2], k, events)
    if t.op == 'len':
        # a list which grows by one for each value
        b = t.args[0]
        if any(s.op in ('lvrest', 'lv') for s in walk(b)) and sum(e.kind == 'meth' and e.name == 'append' and e.base is b for e in events) == 1:
            return k
        return None
    if t.op in ('bin', 'add', 'sub') or len(t.args) >= 2 and t.args[0] in ('+', '-', '*'):
        ts = [a for a in t.args if isinstance(a, Term)]
        op = {'add': '+', 'sub': '-'}.get(t.op, t.args[0] if isinstance(t.args[0], str) else None)
        vs = [number_at(a, k, events) for a in ts]
        if op not in ('+', '-', '*') or any(not isinstance(v, int) for v in vs):
            return None
        r = vs[0]
        for v in vs[1:]:
            r = r + v if op == '+' else r - v if op == '-' else r * v
        return r
    return None


def loaded(p, rep, c):
    me = mk('self', c.qual)
    f = p.find_method(c, 'initParameters')
    I = Interp(p, inline=policy('_setBurnOptions', 'MCSamples._setBurnOptions'))
    I.run_function(f, cls=c)
    rep.analysed(I)
    got = {}
    for e in I.events:
        if e.kind in ('meth', 'repocall') and e.name == 'setAttr' and e.args and len(e.args) >= 2 and cstr(e.args[0]) is not None:
            rep.ob('names', 'setAttr %s' % cstr(e.args[0]), e.args[1] is me, 'the setting is set on another object', e.loc)
            got.setdefault(cstr(e.args[0]), e)
        elif e.kind == 'setattr' and e.base is me and e.value is not None:
            rs = [k for k, s in reads(e.value) if is_ini(s.args[0])]
            plain = [k for k in rs if not k.endswith('*') and k != 'num_contours']
            if plain:
                rep.ob('names', '%s read as %s' % (e.name, ', '.join(sorted(set(plain)))), e.name in plain, 'the setting %s is kept as %s' % (plain[0], e.name), e.loc)
                for k in plain:
                    got.setdefault(k, e)
            if any(k.rstrip('*') in (e.name, e.name[:-1]) for k in rs):
                got.setdefault(e.name, e)
        elif e.kind in ('meth', 'repocall') and e.name in GET and e.args and cstr(e.args[0]) is None and e.base is not None and is_ini(e.base):
            me_ = mk('meth', e.base, e.name, tuple(e.args), ())
            for k, s in reads(me_):
                if k.endswith('*') and s is me_:
                    got.setdefault(k.rstrip('*'), e)
                    key = e.args[0]
                    tail = [a for a in key.args if isinstance(a, Term)][-1]
                    vals = [number_at(tail, n, I.events) for n in range(4)]
                    if any(v is None for v in vals):
                        rep.note('names', k, 'the numbers of the settings are not understood')
                        continue
                    one = vals == [1, 2, 3, 4]
                    rep.ob('names', '%s counted from one' % k, one, 'the numbered settings are not read as number 1, 2, 3 for the first, second, third value', e.loc)
        elif e.kind == 'repocall' and e.name == 'setattr':
            rep.note('names', e.loc, 'settings set in a loop')
    # settings set in a loop over a table of names
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and isinstance(n.iter, (ast.Tuple, ast.List)):
            v = n.target.id if isinstance(n.target, ast.Name) else None
            for call in ast.walk(n):
                if isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr == 'setAttr' and call.args and isinstance(call.args[0], ast.Name) and call.args[0].id == v:
                    for el in n.iter.elts:
                        if isinstance(el, ast.Constant):
                            got.setdefault(el.value, None)
                            rep.ob('names', 'setAttr %s' % el.value, isinstance(call.args[1], ast.Name) and call.args[1].id == 'self', 'the setting is set on another object', '%s:%d' % (f.module.rel, call.lineno))
    keys, path = default_settings_file(p)
    for k in keys:
        ok = k in got or any(g.rstrip('*') == k for g in got)
        rep.ob('loaded', k, ok, 'the setting of the default settings file is never read', path)
    return set(x.rstrip('*') for x in got) | set(keys), set(keys)


def literal_type(n):
    if isinstance(n, ast.UnaryOp):
        return literal_type(n.operand)
    if isinstance(n, ast.Constant):
        return type(n.value).__name__
    return None


def initial(p, rep, c, settings):
    f = p.find_method(c, '__init__')
    if f is None:
        raise AnalysisError('MCSamples.__init__ not found')
    n = 0
    for s in ast.walk(f.node):
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute) and s.target.attr in settings and s.value is not None:
            ann = s.annotation.id if isinstance(s.annotation, ast.Name) else None
            t = literal_type(s.value)
            if ann in ('float', 'int', 'bool') and t:
                n += 1
                rep.ob('types', s.target.attr, t == ann, 'the default of a %s setting is %s: text is converted to %s' % (ann, ast.unparse(s.value), t), '%s:%d' % (f.module.rel, s.lineno))
    if not n:
        rep.note('types', 'MCSamples.__init__', 'no annotated defaults')
    # order: defaults before the settings are applied
    I = Interp(p, inline=policy())
    I.run_function(f, cls=c)
    rep.analysed(I)
    me = mk('self', c.qual)
    at = None
    for k, e in enumerate(I.events):
        if e.kind in ('repocall', 'meth') and e.name == 'updateSettings' and (e.base is None or e.base is me or e.base.op == 'self'):
            at = k if at is None else at
    if at is None:
        rep.note('last', '__init__', 'the settings are not applied by the constructor')
        return
    e = I.events[at]
    kw = dict(e.kwargs or ())
    pos = list(e.args or ())
    want = {'settings': 0, 'ini': 1}
    for nm, i in want.items():
        v = kw.get(nm, pos[i] if i < len(pos) else None)
        ok = v is not None and any(s is mk('param', nm) for s in walk(v))
        rep.ob('merged', '__init__ passes %s' % nm, ok, 'the %s given to the constructor are not applied' % nm, e.loc)
    late = [x for x in I.events[at + 1:] if x.kind == 'setattr' and x.base is me and x.name in settings and x.name not in ('ignore_rows', 'min_weight_ratio')]
    rep.ob('last', '__init__: nothing assigned after the settings', not late, 'the value of %s given in the settings is replaced' % (late[0].name if late else ''), late[0].loc if late else '')


def documented(f):
    """settings documented as overriding those of the instance"""
    doc = ast.get_docstring(f.node) or ''
    i = doc.find('override instance settings')
    if i < 0:
        return []
    out = []
    for line in doc[i:].split('\n')[1:]:
        m = re.match(r'\s*- \*\*(\w+)\*\*', line)
        if m:
            out.append(m.group(1))
        elif line.strip().startswith(':'):
            break
    return out


def kwreads(t, kw):
    """(name, fallback term or None, the term) read from the keyword arguments in a term"""
    for s in walk(t):
        if s.op == 'meth' and s.args[1] in ('get', 'pop') and s.args[0] is kw and s.args[2] and cstr(s.args[2][0]) is not None:
            yield cstr(s.args[2][0]), (s.args[2][1] if len(s.args[2]) > 1 else None), s
        elif s.op == 'ite':
            for cond, a, b in ((s.args[0], s.args[1], s.args[2]), (s.args[0], s.args[2], s.args[1])):
                if a.op == 'item' and a.args[0] is kw and cstr(a.args[1]) is not None:
                    yield cstr(a.args[1]), b, s


def own_settings(I, t, me, kw, settings):
    """attributes of the samples used in a term other than as the fallback of an override"""
    out = set()
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen or not isinstance(x, Term):
            continue
        seen.add(x)
        if x.op == 'attr' and x.args[0] is me and x.args[1] in settings:
            out.add(x.args[1])
            continue
        if x.op == 'meth' and x.args[1] in ('get', 'pop') and x.args[0] is kw:
            continue
        if x.op == 'ite':
            names = {cstr(a.args[1]) for a in (x.args[1], x.args[2]) if a.op == 'item' and a.args[0] is kw}
            if names:
                continue
        for a in x.args:
            if isinstance(a, Term):
                todo.append(a)
            elif isinstance(a, tuple):
                st = list(a)
                while st:
                    y = st.pop()
                    if isinstance(y, Term):
                        todo.append(y)
                    elif isinstance(y, tuple):
                        st.extend(y)
    return out


def event_terms(e):
    out = [e.base, e.value]
    out += list(e.args or ())
    out += [v for _, v in (e.kwargs or ())]
    return [t for t in out if isinstance(t, Term)]


def selfreads(p, c, f, K, seen=None, depth=5):
    """reads of self.K in a method and the methods of the object it calls: (function, node, guard parameter or None)"""
    seen = set() if seen is None else seen
    if f.qual in seen or depth < 0:
        return []
    seen.add(f.qual)
    out = []
    parents = {}
    for n in ast.walk(f.node):
        for ch in ast.iter_child_nodes(n):
            parents[ch] = n
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == K and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load):
            out.append((f, n, guard(f, n, parents)))
    return out


def none_branch(test, pars):
    """(parameter, whether the body is the case without it) for a test of a parameter being given"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        r = none_branch(test.operand, pars)
        return r and (r[0], not r[1])
    if isinstance(test, ast.Name) and test.id in pars:
        return test.id, False
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id in pars and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
        return test.left.id, isinstance(test.ops[0], (ast.Is, ast.Eq))
    return None


def guard(f, n, parents):
    """the parameter whose absence makes the function use the setting"""
    pars = [a for a in sum(allargs(f)[:2], [])]
    x = n
    while x in parents:
        up = parents[x]
        if isinstance(up, ast.IfExp) and x is not up.test:
            for t in ast.walk(up.test):
                if isinstance(t, ast.Name) and t.id in pars:
                    return t.id
        if isinstance(up, ast.BoolOp) and isinstance(up.op, ast.Or):
            for t in up.values:
                if isinstance(t, ast.Name) and t.id in pars:
                    return t.id
        if isinstance(up, ast.If) and x is not up.test:
            ts = [t.id for t in ast.walk(up.test) if isinstance(t, ast.Name) and t.id in pars]
            asg = x if isinstance(x, ast.Assign) else None
            if ts and asg is not None and any(isinstance(t, ast.Name) and t.id in ts for t in asg.targets):
                return ts[0]
            absent = none_branch(up.test, ts)
            if absent is not None and (x in up.body) == absent[1]:
                return absent[0]
        if isinstance(up, ast.Call) and isinstance(up.func, ast.Attribute) and up.func.attr == 'get' and x in up.args[1:]:
            return '**'
        x = up
    return None


def passes(call, g, name):
    """does the call give the parameter a value"""
    names = [a for a in allargs(g)[0] if a != 'self']
    for k in call.keywords:
        if k.arg == name:
            return k.value
        if k.arg is None:
            return k.value
    if name in names:
        i = names.index(name)
        if i < len(call.args):
            return call.args[i]
    return None


def overrides(p, rep, c, settings):
    me = mk('self', c.qual)
    n = 0
    for m, cc, f in scope(p):
        if cc is None or not m.startswith('getdist') or allargs(f)[3] is None or f.name == '__init__':
            continue
        docs = documented(f)
        kw = mk('param', '**' + allargs(f)[3])
        uses = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == allargs(f)[3] and x.func.attr in ('get', 'pop')
                   and x.args and isinstance(x.args[0], ast.Constant) and x.args[0].value in settings for x in ast.walk(f.node)) or \
            any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == allargs(f)[3] for x in ast.walk(f.node))
        if not docs and not (uses and cc is c):
            continue
        I = Interp(p, inline=policy(), budget=300000)
        try:
            rets, _ = I.run_function(f, cls=cc)
        except Exception as ex:
            rep.note('overrides', f.qual, str(ex))
            continue
        rep.analysed(I)
        self_ = mk('self', cc.qual)
        terms = []
        for e in I.events:
            if not (e.kind in ('meth', 'getitem') and e.base is kw):
                for t in event_terms(e):
                    terms.append((t, e.loc))
            for t in (e.facts or ()):
                terms.append((t, e.loc))
        for st, v in rets:
            terms.append((I.res(v, st), f.module.rel))
        found = {}
        for t, loc in terms:
            for k, fb, s in kwreads(t, kw):
                found.setdefault(k, set()).add((fb, loc))
        who = f.qual.split(':')[-1]
        for k in docs:
            n += 1
            if k not in found and any(s is kw for t, _ in terms for s in walk(t) if False):
                continue
            rep.ob('overrides', '%s: %s' % (who, k), k in found, 'the documented argument %s has no effect' % k, f.module.rel)
        for k, fbs in found.items():
            if k not in settings:
                continue
            n += 1
            wrong = [(fb, loc) for fb, loc in fbs if fb is not None and not fallback_ok(fb, k, settings)]
            rep.ob('overrides', '%s: %s falls back to the setting' % (who, k), not wrong, 'without %s in the call the value of %s is used' % (k, show(wrong[0][0], 3) if wrong else ''), wrong[0][1] if wrong else '')
        over = set(found) & settings
        bad = {}
        for t, loc in terms:
            for a in own_settings(I, t, self_, kw, over):
                bad.setdefault(a, loc)
        for k in sorted(over):
            rep.ob('overridden', '%s: %s' % (who, k), k not in bad, 'the value of the samples is used although %s may be overridden' % k, bad.get(k, ''))
        # methods called
        for call in ast.walk(f.node):
            if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id == 'self'):
                continue
            g = p.find_method(cc, call.func.attr)
            if g is None or g is f:
                continue
            for k in sorted(over):
                for h, node, gp in selfreads(p, cc, g, k):
                    if gp == '**':
                        v = passes(call, g, k)
                    else:
                        v = passes(call, g, gp) if gp else None
                    rep.ob('overridden', '%s -> %s: %s' % (who, g.name, k), v is not None, '%s uses the value of the samples although %s may be overridden' % (g.name, k), '%s:%d' % (f.module.rel, call.lineno))
    if not n:
        rep.note('overrides', 'MCSamples', 'no function takes settings')


def fallback_ok(fb, k, settings):
    """the fallback is the attribute of the same name (or a conversion of it), or no setting at all"""
    at = {s.args[1] for s in walk(fb) if s.op == 'attr'} & settings
    return not at or at == {k}


def fallbacks(p, rep, settings):
    """argument left out -> setting: the default of the argument must be what the test takes as left out"""
    n = 0
    for m, cc, f in scope(p):
        if cc is None or not m.startswith('getdist'):
            continue
        a = f.node.args
        pos = a.posonlyargs + a.args
        dflt = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        parents = {}
        for x in ast.walk(f.node):
            for ch in ast.iter_child_nodes(x):
                parents[ch] = x
        for x in ast.walk(f.node):
            isown = isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and ((isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr in settings) or
                                                                                     (isinstance(x.value, ast.Attribute) and x.value.attr == 'settings'))
            if not isown:
                continue
            up = parents.get(x)
            par = None
            if isinstance(up, ast.IfExp) and x is not up.test and isinstance(up.test, ast.Compare) and len(up.test.ops) == 1 and isinstance(up.test.ops[0], (ast.Is, ast.IsNot)) \
                    and isinstance(up.test.left, ast.Name) and isinstance(up.test.comparators[0], ast.Constant) and up.test.comparators[0].value is None:
                want_body = isinstance(up.test.ops[0], ast.Is)
                par = up.test.left.id
                other = up.orelse if x is up.body else up.body
                if par in dflt and isinstance(other, ast.Name) and other.id == par:
                    n += 1
                    d = dflt[par]
                    rep.ob('fallback', '%s: %s' % (f.qual.split(':')[-1], par), isinstance(d, ast.Constant) and d.value is None, 'the setting %s is never used: the argument is not None by default' % x.attr, '%s:%d' % (f.module.rel, x.lineno))
                    rep.ob('fallback', '%s: %s given' % (f.qual.split(':')[-1], par), (x is up.body) == want_body, 'the setting %s replaces an argument which is given' % x.attr, '%s:%d' % (f.module.rel, x.lineno))
            elif isinstance(up, ast.BoolOp) and isinstance(up.op, ast.Or) and isinstance(up.values[0], ast.Name) and up.values[0].id in dflt and x is not up.values[0]:
                n += 1
                d = dflt[up.values[0].id]
                falsy = isinstance(d, ast.Constant) and not d.value or isinstance(d, (ast.Tuple, ast.List, ast.Dict)) and not getattr(d, 'elts', getattr(d, 'keys', None))
                rep.ob('fallback', '%s: %s' % (f.qual.split(':')[-1], up.values[0].id), bool(falsy), 'the setting %s is never used: the argument is not empty by default' % x.attr, '%s:%d' % (f.module.rel, x.lineno))
            elif isinstance(up, ast.Assign) and isinstance(parents.get(up), ast.If):
                i = parents[up]
                t = i.test
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id in dflt and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None \
                        and any(isinstance(y, ast.Name) and y.id == t.left.id for y in up.targets) and isinstance(t.ops[0], (ast.Is, ast.IsNot)):
                    n += 1
                    d = dflt[t.left.id]
                    rep.ob('fallback', '%s: %s' % (f.qual.split(':')[-1], t.left.id), isinstance(d, ast.Constant) and d.value is None, 'the setting %s is never used: the argument is not None by default' % x.attr, '%s:%d' % (f.module.rel, x.lineno))
                    here = up in i.body
                    rep.ob('fallback', '%s: %s given' % (f.qual.split(':')[-1], t.left.id), here == isinstance(t.ops[0], ast.Is), 'the setting %s replaces an argument which is given' % x.attr, '%s:%d' % (f.module.rel, x.lineno))
    rep.count('arguments which default to a setting', n)


def used(p, rep, c, settings):
    """read outside the functions which set it"""
    got = set()
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in settings:
                got.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                got.add(n.args[1].value)
    derived = {'contours', 'ignore_rows'}
    keys, path = default_settings_file(p)
    for k in keys:
        rep.ob('used', k, k in got or k in derived, 'the setting is read but nothing depends on it', path)


def merged(p, rep, c):
    me = mk('self', c.qual)
    f = p.find_method(c, 'updateSettings')
    I = Interp(p, inline=policy())
    I.run_function(f, cls=c)
    rep.analysed(I)
    ps, pi, pd = mk('param', 'settings'), mk('param', 'ini'), mk('param', 'doUpdate')
    if not {'settings', 'ini'} <= set(sum(allargs(f)[:2], [])):
        raise AnalysisError('updateSettings: arguments not found')
    upd = init = kept = None
    stats = []
    for k, e in enumerate(I.events):
        if e.kind == 'meth' and e.name == 'update' and any(a is ps for a in (e.args or ())):
            upd = k if upd is None else upd
        elif e.kind in ('meth', 'repocall') and e.name == 'initParameters':
            init = k
        elif e.kind == 'setattr' and e.base is me and e.name == 'ini':
            kept = k
        elif e.kind in ('meth', 'repocall') and e.name == 'updateBaseStatistics':
            stats.append(e)
    loc = f.module.rel + ':MCSamples.updateSettings'
    rep.ob('merged', 'updateSettings: settings over the file', upd is not None and init is not None and upd < init, 'the settings given are not merged into those of the file before they are applied', loc)
    if upd is not None:
        fs = frozenset(I.events[upd].facts or ())
        rest = [t for t in fs if any(s.op in ('param', 'attr') and s is not ps and not is_typing(s) for s in walk(t))]
        rep.ob('merged', 'updateSettings: settings always', logic.decide(ps, fs) is not False and not rest, 'the settings given are merged only in some cases', loc)
    rep.ob('merged', 'updateSettings: kept', kept is not None, 'the settings applied are not kept with the samples', loc)
    ok = False
    for e in stats:
        fs = frozenset(e.facts or ())
        if logic.decide(pd, fs) is True or not any(s is pd for t in fs for s in walk(t)):
            ok = True
    rep.ob('merged', 'updateSettings: statistics', ok, 'the statistics are not computed again with the new settings', loc)
    # what is applied is what was merged
    if upd is not None and init is not None:
        a = {y.args[0] if y.op == 'attr' and y.args[1] == 'params' else y for _, y in alts(I.events[upd].base)}
        b = (I.events[init].args or (None,))[0]
        rep.ob('merged', 'updateSettings: applied', b is None or bool(a & {y for _, y in alts(b)}), 'the settings applied are not the merged ones', loc)
        if kept is not None and I.events[kept].value is not None:
            rep.ob('merged', 'updateSettings: kept settings', bool(a & {y for _, y in alts(I.events[kept].value)}), 'the settings kept are not the merged ones', loc)


def scales(p, rep, c):
    """what the smoothing scale means for negative values, between zero and one, and from one up (documented in the default settings file)"""
    for name, key, auto, bins, site in (('get1DDensityGridData', 'smooth_scale_1D', 'getAutoBandwidth1D', 'num_bins', 'kernel'), ('get2DDensityGridData', 'smooth_scale_2D', 'getAutoBandwidth2D', 'num_bins_2D', 'inv')):
        f = p.find_method(c, name)
        I = Interp(p, inline=policy(), budget=300000)
        I.run_function(f, cls=c)
        rep.analysed(I)
        t = None
        for e in I.events:
            if site == 'kernel' and e.kind == 'repocall' and e.base is not None and e.base.op == 'new' and 'Kernel1D' in str(e.base.args[0]):
                t = t or mk('tuple', *[a for a in e.args])
            if site == 'inv' and e.kind == 'call' and e.args and show(e.fn, 3).endswith('linalg.inv') and mentions(e.args[0], lambda s: key in setting_names(s)):
                t = t or e.args[0]
        if t is None:
            rep.note('scale', name, 'the width of the kernel was not found')
            continue
        isS = lambda x: key in setting_names(strip_float(x))
        cmps = [x for x in walk(t) if x.op == 'cmp' and ((isS(x.args[1]) and x.args[2].op == 'const') or (isS(x.args[2]) and x.args[1].op == 'const'))]
        for case, v in (('negative', -0.7), ('below one', 0.6), ('from one', 3.0)):
            fs = []
            for x in cmps:
                a = v if isS(x.args[1]) else cval(x.args[1])
                b = v if isS(x.args[2]) else cval(x.args[2])
                try:
                    r = {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[x.args[0]]
                except Exception:
                    continue
                fs.append(x if r else neg(x))
            u = assume(t, fs)
            has = {'auto': mentions(u, lambda s: s.op in ('meth', 'call') and auto in (s.args[1] if s.op == 'meth' else show(s.args[0], 2))),
                   'err': mentions(u, lambda s: s.op == 'attr' and s.args[1] == 'err'),
                   'bins': mentions(u, lambda s: bins in setting_names(s)),
                   'scale': mentions(u, lambda s: key in setting_names(s))}
            want = {'negative': {'auto'}, 'below one': {'err'}, 'from one': {'bins'}}[case]
            got = {k for k in ('auto', 'err', 'bins') if has[k]}
            rep.ob('scale', '%s %s' % (key, case), got == want, 'the width depends on %s, not on %s' % (sorted(got) or 'nothing', sorted(want)), f.module.rel)
            rep.ob('scale', '%s %s: used' % (key, case), has['scale'], 'the width does not depend on the setting', f.module.rel)
            if case == 'negative' and has['auto']:
                at = [s for s in walk(u) if s.op in ('meth', 'call') and auto in (s.args[1] if s.op == 'meth' else show(s.args[0], 2))]
                for order in ('mult_bias_correction_order',) + (('boundary_correction_order',) if auto.endswith('1D') else ()):
                    rep.ob('scale', '%s: %s' % (auto, order), any(mentions(s, lambda y: order in setting_names(y)) for s in at), 'the automatic width does not depend on the %s used for the density' % order, f.module.rel)


def strip_float(x):
    while x.op == 'call' and x.args[0].op == 'builtin' and x.args[0].args[0] in ('float', 'abs') and len(x.args[1]) == 1:
        x = x.args[1][0]
    return x


def setting_names(x):
    """name of the setting a term is the value of"""
    if x.op == 'attr' and x.args[0].op == 'self':
        return {x.args[1]}
    if x.op == 'meth' and x.args[1] in ('get', 'pop') and x.args[0].op == 'param' and x.args[2] and cstr(x.args[2][0]):
        return {cstr(x.args[2][0])}
    if x.op == 'ite':
        for a in (x.args[1], x.args[2]):
            if a.op == 'item' and a.args[0].op == 'param' and cstr(a.args[1]):
                return {cstr(a.args[1])}
    return set()


def mentions(t, pred):
    return any(pred(s) for s in walk(t))


def chains(p, rep):
    """the plotter: settings of a folder or grid are those of the chains found there; order of preference"""
    c = p.cls('getdist.plots', 'MCSampleAnalysis')
    f = p.find_method(c, 'samples_for_root')
    I = Interp(p, inline=policy(), budget=200000)
    I.run_function(f, cls=c)
    rep.analysed(I)
    me = mk('self', c.qual)
    ps = mk('param', 'settings')
    pri = mk('attr', me, 'chain_settings_have_priority')
    ini = lambda s: s.op == 'attr' and s.args[0] is me and s.args[1] == 'ini'
    place = lambda s: s.op == 'elem' or s.op == 'attr' and s.args[0] is me and s.args[1] == 'chain_dirs'
    found = lambda s: s.op == 'meth' and s.args[1] in ('resolve_root', 'resolveRoot') or s.op == 'call' and 'findChainFileRoot' in show(s.args[0], 2)
    seq = []
    for k, e in enumerate(I.events):
        if e.kind == 'meth' and e.name == 'update' and e.args:
            a = e.args[0]
            fs = frozenset(e.facts or ())
            kind = 'chain' if mentions(a, place) else 'ini' if mentions(a, ini) else 'given' if a is ps or mentions(a, lambda s: s is ps) else None
            if kind:
                seq.append((k, kind, logic.decide(pri, fs), e))
                if kind == 'chain':
                    ok = any(mentions(t, found) and t.op != 'not' for t in fs)
                    rep.ob('chains', 'settings of %s' % show(a, 2)[:60], ok, 'settings of a folder are used for a chain which was not found there', e.loc)
    load = [(k, e) for k, e in enumerate(I.events) if e.kind in ('repocall', 'call') and e.name == 'loadMCSamples' or e.kind == 'repocall' and 'loadMCSamples' in str(e.fn and e.fn.qual if hasattr(e.fn, 'qual') else e.fn)]
    if not load or not any(x[1] == 'chain' for x in seq):
        rep.note('chains', 'samples_for_root', 'the settings are put together otherwise')
        return
    k, e = load[0]
    kw = dict(e.kwargs or ())
    st = kw.get('settings', e.args[4] if e.args and len(e.args) > 4 else None)
    it = kw.get('ini', e.args[1] if e.args and len(e.args) > 1 else None)
    rep.ob('chains', 'loaded with the settings of the plotter', it is not None and mentions(it, ini), 'the settings of the plotter are not used for loading', e.loc)
    rep.ob('chains', 'loaded with the settings given', st is not None and (mentions(st, lambda s: s is ps)), 'the settings put together are not used for loading', e.loc)
    last = lambda kind, flag: max([i for i, kd, d, _ in seq if kd == kind and d is not (not flag)] or [-1])
    # settings of the chains have priority: what is given comes first
    late = [x for x in seq if x[1] in ('given', 'ini') and x[2] is not False and x[0] > min(i for i, kd, _, _ in seq if kd == 'chain')]
    rep.ob('chains', 'priority of the chain', not late, 'the settings of the chain are replaced although they have priority', late[0][3].loc if late else f.module.rel)
    # otherwise the settings of the plotter, then those given
    n_ini, n_given, n_chain = last('ini', False), last('given', False), last('chain', False)
    rep.ob('chains', 'priority of the plotter', n_ini > n_chain, 'the settings of the chain replace those of the plotter although these have priority', f.module.rel)
    rep.ob('chains', 'priority of the call', n_given > max(n_ini, n_chain), 'the settings given do not take preference', f.module.rel)


def is_typing(s):
    return s.op == 'attr' and s.args[1] in ('Mapping',)


def plots(p, rep):
    c = p.cls('getdist.plots', 'GetDistPlotSettings')
    init = p.find_method(c, '__init__')
    have = set()
    for k in p.mro(c):
        for f in k.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                    have.add(n.attr)
        have |= set(k.methods)
        for n in k.node.body:
            if isinstance(n, ast.Assign):
                have |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    doc = ast.get_docstring(c.node) or ''
    for m in re.finditer(r':ivar (\w+):', doc):
        rep.ob('plots', 'documented: %s' % m.group(1), m.group(1) in have, 'the documented plot setting does not exist', c.module.rel if hasattr(c, 'module') else 'python/getdist/plots.py')
    g = p.cls('getdist.plots', 'GetDistPlotter')
    seen = set()
    for f in g.methods.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr == 'settings' and isinstance(n.value.value, ast.Name) and n.value.value.id == 'self' and isinstance(n.ctx, ast.Load):
                if n.attr in seen:
                    continue
                seen.add(n.attr)
                rep.ob('plots', 'used: %s' % n.attr, n.attr in have or n.attr.startswith('__'), 'a plot setting is used which does not exist', '%s:%d' % (f.module.rel, n.lineno))


def check(p, rep):
    rep.rule('loaded', 'every setting of the default settings file is read when the settings are applied', 5)
    rep.rule('names', 'a setting is kept under the name it is read by', 5)
    rep.rule('types', 'the default of a setting has its documented type', 0)
    rep.rule('last', 'the constructor assigns no default after the settings were applied', 0)
    rep.rule('overrides', 'settings given in a call are used under their own name, else those of the samples', 4)
    rep.rule('overridden', 'where a setting can be overridden the value of the samples is used only as the default', 1)
    rep.rule('fallback', 'an argument which defaults to a setting can be left out, and is used when given', 1)
    rep.rule('used', 'a setting which is read has an effect', 5)
    rep.rule('merged', 'settings given take preference over those of the file and are applied to the samples', 4)
    rep.rule('scale', 'a smoothing scale below zero scales the automatic width, below one the standard deviation, otherwise the bin width', 0)
    rep.rule('chains', 'settings of a folder are used for the chains found in it; order of preference of chain, plotter and call', 0)
    rep.rule('plots', 'every plot setting used or documented exists', 5)
    c = p.cls('getdist.mcsamples', 'MCSamples')
    settings, _ = loaded(p, rep, c)
    initial(p, rep, c, settings)
    overrides(p, rep, c, settings)
    fallbacks(p, rep, settings)
    used(p, rep, c, settings)
    merged(p, rep, c)
    scales(p, rep, c)
    chains(p, rep)
    plots(p, rep)
