"""P16: inputs are left alone.

An effect analysis.  Every function of the library is summarised by the parameters whose
containers or arrays it may change in place (item assignment and deletion, the mutating
methods of lists, dictionaries, sets and arrays, in-place operators, out=), following
views, elements and attributes of the parameter, and the calls it makes to other
functions of the library (least fixed point).  On top of the summaries:
 - no public function changes what a caller passed in, apart from the named outputs;
 - a field which holds what the caller passed in is not changed in place by the class;
 - mutable default values and shared default tables are not changed.
"""
from .common import *
from sa.alias import VIEW_METHODS, PASS_CALLS, is_fancy
from sa.project import AnalysisError

# parameters through which a function returns its result, by contract
OUTPUT = {
    ('*', 'cache'),  # work space of the convolutions: documented as being filled
    ('*', 'ax'),  # axes are drawn on
    ('*', 'density'),  # contour levels are attached to the density
    ('Chains.setParams', 'obj'),
    ('IniFile.setAttr', 'instance'),
    ('GetDistPlotter._make_param_object', 'obj'),
    ('setMinimize', 'ini'), ('updateIniParams', 'ini'),  # the functions which write settings into a given ini file
    ('getdist_script', 'args'),
    ('*', 'par'), ('*', 'parx'), ('*', 'pary'),  # parameter objects of the samples, which cache properties of the parameter
}
FLAGS = {'copy': True, 'in_place': False}
ARRAYFUNS = {'numpy.' + x for x in ('min', 'max', 'sum', 'mean', 'argmin', 'argmax', 'dot', 'any', 'all', 'sort', 'argsort', 'cumsum', 'asarray', 'average')}


def scope(p):
    out = []
    for m in sorted(p.modules):
        if not (m.split('.')[0] in ('getdist', 'paramgrid')) or 'tests' in m or 'gui' in m or m.endswith('_test'):
            continue
        M = p.modules[m]
        for f in M.funcs.values():
            out.append((m, None, f))
        for c in M.classes.values():
            for f in c.methods.values():
                out.append((m, c, f))
    return out


def allargs(f):
    a = f.node.args
    names = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
    return names, [x.arg for x in a.kwonlyargs], a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None


def containerlike(I, r):
    """is there evidence, in this function, that the object r is a container or an array (a number or a string is not changed by +=)?"""
    for e in I.events:
        if e.kind in ('setitem', 'delitem', 'getitem') and e.base is r:
            return True
        if e.kind == 'meth' and e.base is r and e.name in ('copy', 'reshape', 'dot', 'sum', 'append', 'items', 'keys', 'values', 'update', 'astype', 'flatten', 'ravel', 'transpose', 'any', 'all', 'max', 'min', 'mean', 'sort', 'tolist', 'fill'):
            return True
        for t in [x for x in (e.value,) if isinstance(x, Term)] + [a for a in (e.args or ()) if isinstance(a, Term)] + [v for _, v in (e.kwargs or ()) if isinstance(v, Term)] + [l for l in (e.loops or ()) if isinstance(l, Term)]:
            for s in walk(t):
                if s.op in ('item', 'elem', 'len') and (s.args[0] is r or s.args[0].op == 'bin' and r in s.args[0].args):
                    return True
                if s.op == 'attr' and s.args[0] is r and s.args[1] in ('shape', 'size', 'ndim', 'T', 'dtype'):
                    return True
                if s.op == 'call' and s.args[0].op == 'builtin' and s.args[0].args[0] in ('len', 'enumerate', 'zip', 'sorted', 'sum', 'max', 'min', 'list', 'dict') and r in s.args[1]:
                    return True
                if s.op == 'call' and s.args[0].op == 'ext' and s.args[0].args[0] in ARRAYFUNS and s.args[1] and s.args[1][0] is r:
                    return True
    return False


def fieldlike(I, t):
    """evidence about a field of self, from any method of the classes which share it"""
    name = t.args[1]
    for q, (m, c, f, J) in ALLRUNS.items():
        if c is not None and J is not I and c in FAMILY.get(t.args[0].args[0], ()) and containerlike(J, mk('attr', mk('self', c.qual), name)):
            return True
    return False


ALLRUNS, FAMILY = {}, {}


def listlike(v):
    return isinstance(v, Term) and v.op in ('seq', 'tuple')


def mutations(I):
    """(event, object changed in place) of a run, without the operators which only rebind a plain value"""
    for e in I.events:
        for t in mutated_terms(e):
            if t is None:
                continue
            if e.kind == 'inplace':
                if e.args and e.args[0].op == 'tgt' and e.args[0].args[0] == 'Subscript':
                    continue  # reported as an item assignment as well
                if not (listlike(e.value) or containerlike(I, t) or t.op == 'attr' and t.args[0].op == 'self' and fieldlike(I, t)):
                    continue
            yield e, t
        if e.kind == 'call' and e.args and any(k and (k.startswith('overwrite_') and v is TRUE or k == 'copy' and v is FALSE and e.fn.op == 'ext') for k, v in e.kwargs or () if isinstance(k, str)):
            yield e, e.args[0]
        if e.kind in ('meth', 'repocall') and e.base is not None and e.base.op != 'self' and (
                e.name in SELFMUT or e.name in SELFMUT2 and e.base.op in ('attr', 'param') and e.base.args[-1] in HINTS):
            yield e, e.base


# classes whose objects describe parameters, ranges or settings: they are passed around like values
DESCRIPTION = ('ParamList', 'ParamNames', 'ParamBounds', 'IniFile')
SELFMUT = set()  # methods only these classes have
SELFMUT2 = set()  # methods which other classes have as well: taken when the receiver is named as one of these objects
HINTS = ('paramNames', 'ranges', 'ini', 'names', 'bounds')


def selfmutators(runs):
    """names of methods which change the description object they are called on (and which no other class of the library has)"""
    SELFMUT.clear()
    SELFMUT2.clear()
    owners = {}
    for q, (m, c, f, I) in runs.items():
        if c is not None:
            owners.setdefault(f.name, set()).add(c.name)
    found = set()
    while True:
        n = len(found)
        for q, (m, c, f, I) in runs.items():
            if c is None or c.name not in DESCRIPTION or f.name.startswith('__') or f.qual in found:
                continue
            for e in I.events:
                ts = [t for t in mutated_terms(e) if t is not None] if e.kind != 'inplace' else []
                if e.kind == 'setattr' and e.base is not None and e.base.op == 'self':
                    found.add(f.qual)
                if any(r.op == 'attr' and r.args[0].op == 'self' for t in ts for r, ch, k in origin(t, e)):
                    found.add(f.qual)
                if e.kind in ('meth', 'repocall') and e.base is not None and e.base.op == 'self' and any(g.split(':')[-1].split('.')[-1] == e.name for g in found):
                    found.add(f.qual)
        if len(found) == n:
            break
    for q in found:
        name = q.split('.')[-1]
        if owners[name] <= set(DESCRIPTION):
            SELFMUT.add(name)
        else:
            SELFMUT2.add(name)


LISTOPS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard'}


def sliced(i):
    return i.op == 'slice'


def origin(t, e=None, rets=None):
    """the owners of an object: set of (parameter, field of self, default or global; attributes passed; element steps)"""
    out = set()
    todo = [(t, 0, (), None)]
    seen = set()
    while todo:
        x, k, ch, key = todo.pop()
        if (x, k, ch, key) in seen or len(ch) > 6 or k > 8:
            continue
        seen.add((x, k, ch, key))
        op = x.op

        def go(y, kk=k, kw=key):
            if isinstance(y, Term):
                todo.append((y, kk, ch, kw))

        if op in ('param', 'default', 'global', 'glob', 'clsattr', 'missing'):
            if op == 'param' and x.args[0].startswith('**') and (k or ch) and key:
                out.add((mk('param', key), ch, k - 1))  # the keyword argument of that name
            else:
                out.add((x, ch, k))
        elif op == 'attr':
            if x.args[1] in ('T', 'values', 'flat', 'real', 'imag'):
                go(x.args[0])
            elif x.args[0].op == 'self':
                out.add((x, ch, k))
            else:
                todo.append((x.args[0], 0, (x.args[1],) + ch, None))
        elif op == 'ite':
            go(x.args[1])
            go(x.args[2])
        elif op == 'loop':
            go(x.args[2])
            go(x.args[3])
        elif op == 'lv':
            go(x.args[2])
        elif op == 'item':
            b, i = x.args[0], x.args[1]
            if i.op == 'tuple' and not is_fancy(i):
                go(b, k + (0 if any(sliced(y) for y in i.args) else 1))
            elif sliced(i):
                if k or not (e is not None and (e.name in LISTOPS or all(y is NONE for y in i.args[:2]))):
                    go(b)
            elif not is_fancy(i):
                go(b, k + 1, keyof(i))
        elif op == 'elem':
            go(x.args[0], k + 1, None)
        elif op in ('seq', 'tuple', 'dictc', 'setc'):
            if k:
                for y in x.args:
                    content(y, k, ch, key, todo)
        elif op == 'meth':
            if x.args[1] in VIEW_METHODS or x.args[1] in ('values', 'items', 'keys'):
                go(x.args[0])
            elif x.args[1] in ('get', 'setdefault', 'pop') and x.args[2]:
                go(x.args[0], k + 1, keyof(x.args[2][0]))
                for a in x.args[2][1:]:
                    go(a)
        elif op == 'call':
            f = x.args[0]
            if f.op in ('ext', 'builtin'):
                if f.args[0] in PASS_CALLS and x.args[1]:
                    go(x.args[1][0])
                elif f.args[0] in ('list', 'tuple', 'sorted', 'dict', 'set') and x.args[1] and k:
                    go(x.args[1][0])
            elif rets:
                for name, kk in rets.get(show(f, 2), ()):
                    for v, w in bindargs(rets['$' + show(f, 2)], x.args[1], x.args[2] if len(x.args) > 2 else ()).get(name, ()):
                        go(v, k + kk)
        elif op in ('bool', 'orv', 'andv'):
            for a in x.args:
                go(a)
    return out


def keyof(i):
    return cstr(i)


def content(y, k, ch, key, todo):
    """element y of a freshly made container, reached with k element steps (the last one with the given key)"""
    if y.op == 'opt':
        content(y.args[1], k, ch, key, todo)
    elif y.op == 'rep':
        content(y.args[0], k, ch, key, todo)
    elif y.op == 'kv':
        if isinstance(y.args[1], Term) and not (key and keyof(y.args[0]) not in (None, key)):
            todo.append((y.args[1], k - 1, ch, None))
    elif y.op in ('upd', 'star'):
        todo.append((y.args[0], k, ch, key))
    elif y.op in ('lvrest', 'delk', 'lv'):
        return
    else:
        todo.append((y, k - 1, ch, None))


def summarise(p, rep):
    runs = {}
    failed = []
    for m, c, f in scope(p):
        I = Interp(p, inline=policy(), budget=200000)
        pos, kwo, va, kw = allargs(f)
        args = {k: const(v) for k, v in FLAGS.items() if k in pos + kwo}
        try:
            got, _ = I.run_function(f, args=args, **({'cls': c} if c else {}))
            I.p16_rets = [I.res(v, st) for st, v in got]
        except Exception as ex:
            failed.append((f, ex))
            continue
        runs[f.qual] = (m, c, f, I)
        rep.used(f)
    return runs, failed


def returned(runs):
    """functions which hand back (part of) a parameter: qualified name -> {(parameter, element steps)}"""
    out = {}
    for n in range(2):
        for q, (m, c, f, I) in runs.items():
            if c is not None:
                continue
            r = set()
            for v in I.p16_rets:
                for x, ch, k in origin(v, None, out):
                    if x.op == 'param' and not ch and not x.args[0].startswith('*'):
                        r.add((x.args[0], k))
            if r:
                out[q] = r
                out['$' + q] = f
    return out


def direct(runs, rets):
    mut = {}
    for q, (m, c, f, I) in runs.items():
        kw = allargs(f)[3]
        va = allargs(f)[2]
        for e, t in mutations(I):
            for r, ch, d in origin(t, e, rets):
                if r.op != 'param':
                    continue
                name = r.args[0].lstrip('*')
                if name in ('self',) or name == (allargs(f)[0] or [''])[0] and c is not None and name in ('self', 'cls'):
                    continue
                if name in (kw, va) and not ch and d == 0:
                    continue  # the dictionary of keyword arguments is made for this call
                if name in mut.get(q, {}):
                    continue
                if not any(any(r2 is r for r2, _, _ in origin(y, e, rets)) for fs, y in alts(t, frozenset(e.facts or ()))):
                    continue
                mut.setdefault(q, {})[name] = (e, ch, d, 'directly')
    return mut


def passed(g, e, n):
    """what the call passes for the parameter, or the keyword argument, n of g"""
    a = bind(g, e)
    if n in a:
        return [v for v, w in a[n] if isinstance(v, Term)]
    return [mk('item', v, const(n)) for v, w in a.get('**', ()) if isinstance(v, Term)]


def targets(p, runs, byname, e):
    """functions of the library an event may call: (function, is method), exact or all candidates of that name"""
    if e.kind == 'repocall' and e.fn is not None:
        s = show(e.fn, 2)
        c = [x for x in (runs.get(s),) if x] or [x for q, x in runs.items() if q.split(':')[-1] == s]
        if c:
            return [x[2] for x in c]
        return [x[2] for x in byname.get(e.name, ())]
    if e.kind == 'construct' and e.fn is not None:
        s = show(e.fn, 2)
        x = runs.get(s + '.__init__')
        return [x[2]] if x else []
    if e.kind == 'meth' and e.name in byname and len(byname[e.name]) <= 3:
        return [x[2] for x in byname[e.name]]
    return []


def bind(f, e):
    return bindargs(f, e.args, e.kwargs)


def bindargs(f, args, kwargs):
    pos, kwo, va, kw = allargs(f)
    if pos and pos[0] in ('self', 'cls'):
        pos = pos[1:]
    a = {}
    for i, v in enumerate(args or ()):
        if i < len(pos):
            a.setdefault(pos[i], []).append((v, 0))
        elif va:
            a.setdefault(va, []).append((v, 1))
    for k, v in kwargs or ():
        if k in (None, '**'):
            a.setdefault('**', []).append((v, 0))
        else:
            a.setdefault(k, []).append((v, 0))
    return a


def propagate(p, runs, mut, rets):
    byname = {}
    for q, x in runs.items():
        if x[1] is not None:
            byname.setdefault(x[2].name, []).append(x)
    calls = {}
    for q, (m, c, f, I) in runs.items():
        for e in I.events:
            if e.kind in ('repocall', 'meth', 'construct'):
                t = targets(p, runs, byname, e)
                if t:
                    calls.setdefault(q, []).append((e, t))
    changed = True
    while changed:
        changed = False
        for q, cs in calls.items():
            f = runs[q][2]
            kw, va = allargs(f)[3], allargs(f)[2]
            for e, ts in cs:
                hit = []
                for g in ts:
                    hit.append([(v, n) for n in mut.get(g.qual, ()) if not allowed(g, n) for v in passed(g, e, n)])
                if not hit or not all(hit):
                    continue
                for g, h in zip(ts, hit):
                    for v, n in h:
                        why = mut[g.qual][n]
                        for r, ch, d in origin(v, None, rets):
                            if r.op != 'param' or r.args[0] in ('self', 'cls'):
                                continue
                            name = r.args[0].lstrip('*')
                            if name in mut.get(q, {}):
                                continue
                            mut.setdefault(q, {})[name] = (e, ch, d + why[2], 'through %s' % g.qual.split(':')[-1])
                            changed = True
    return mut


def allowed(f, name):
    s = f.qual.split(':')[-1]
    return ('*', name) in OUTPUT or (s, name) in OUTPUT or (s.split('.')[-1], name) in OUTPUT


def known(f):
    """functions of the published interface: those which existed when the interface was recorded"""
    return any(f.qual == v or f.qual.split(':')[-1] == v or f.name == v for v in VOCAB)


def arguments(p, rep, runs, mut):
    for q, (m, c, f, I) in sorted(runs.items()):
        if f.name.startswith('_') and f.name != '__init__' or not known(f):
            continue
        if c is not None and c.name.startswith('_'):
            continue
        pos, kwo, va, kw = allargs(f)
        names = [n for n in pos + kwo + [va, kw] if n and n not in ('self', 'cls')]
        names += [n for n in sorted(mut.get(q, ())) if n not in names and n not in ('self', 'cls')]
        for n in names:
            if allowed(f, n):
                continue
            why = mut.get(q, {}).get(n)
            rep.ob('arguments', '%s(%s)' % (q.split(':')[-1], n), why is None,
                   '' if why is None else 'what the caller passed as %s%s is changed in place (%s, %s)' % (n, ''.join('.' + x for x in why[1]), why[0].name or why[0].kind, why[3]),
                   why[0].loc if why else '')


def fields(p, rep, runs, rets):
    """fields which may hold an object the caller owns, and in-place changes of the same field within the class hierarchy"""
    held = {}
    changed = {}
    for q, (m, c, f, I) in runs.items():
        if c is None:
            continue
        for e in I.events:
            if e.kind == 'setattr' and e.base is not None and e.base.op == 'self' and isinstance(e.value, Term) and e.name != '*':
                for r, ch, d in origin(e.value, None, rets):
                    if r.op == 'param' and not r.args[0].startswith('*') and not allowed(f, r.args[0]):
                        held.setdefault((c, e.name), []).append((f, r.args[0], e))
        for e, t in mutations(I):
            for r, ch, d in origin(t, e, rets):
                if r.op == 'attr' and r.args[0].op == 'self':
                    changed.setdefault((c, r.args[1]), []).append((f, e, I, r))
    n = 0
    for (c, name), hs in sorted(held.items(), key=lambda x: (x[0][0].qual, x[0][1])):
        fam = [k for k in {x[0] for x in changed} if k is c or c in p.mro(k) or k in p.mro(c)]
        bad = None
        for k in fam:
            for f, e, I, r in changed.get((k, name), ()):
                bad = bad or (f, e)
        if bad is not None:
            hs = [h for h in hs if keeps(p, c, h[0], name, h[1], rets)]
            if not hs:
                bad, hs = None, held[(c, name)]
        rep.ob('fields', '%s.%s' % (c.name, name), bad is None,
               '' if bad is None else 'holds what the caller passed as %s to %s and is changed in place by %s' % (hs[0][1], hs[0][0].name, bad[0].qual.split(':')[-1]),
               bad[1].loc if bad else '')


def keeps(p, c, f, name, par, rets):
    """does the field still hold the parameter when the method ends, with the methods it calls which write the field taken into account?"""
    ws = transitive_writers(p, c, {name})
    pol = policy(*[getattr(w, 'qual', str(w)).split(':')[-1] for w in ws])
    I = Interp(p, inline=pol, budget=400000)
    args = {k: const(v) for k, v in FLAGS.items() if k in allargs(f)[0] + allargs(f)[1]}
    got, _ = I.run_function(f, args=args, cls=c)
    me = mk('self', c.qual)
    for st, v in got:
        x = st.heap.get((me, name))
        if x is None:
            continue
        for fs, y in alts(I.res(x, st), frozenset(st.facts)):
            if any(r.op == 'param' and r.args[0] == par for r, ch, d in origin(y, None, rets)):
                return True
    return False


def shared(p, rep, runs, rets):
    import ast
    for q, (m, c, f, I) in sorted(runs.items()):
        a = f.node.args
        ds = list(zip(reversed([x.arg for x in a.args]), reversed(a.defaults))) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        mutable = [n for n, d in ds if isinstance(d, (ast.List, ast.Dict, ast.Set)) or isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('list', 'dict', 'set')]
        for n in mutable:
            bad = runs_mut.get(q, {}).get(n)
            rep.ob('defaults', '%s(%s)' % (q.split(':')[-1], n), bad is None, '' if bad is None else 'the default value of %s, shared by every call, is changed in place' % n, bad[0].loc if bad else '')
    tables, objects = {}, {}
    for m in sorted(p.modules):
        if m.split('.')[0] not in ('getdist', 'paramgrid') or 'tests' in m or 'gui' in m:
            continue
        body = p.modules[m].tree.body
        filled = {t.value.id for st in body if isinstance(st, ast.Assign) for t in st.targets if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)}
        for st in body:
            if not isinstance(st, ast.Assign):
                continue
            v = st.value
            lit = isinstance(v, (ast.List, ast.Dict, ast.Set)) and (getattr(v, 'elts', None) or getattr(v, 'keys', None))
            call = isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id
            for t in st.targets:
                if not isinstance(t, ast.Name):
                    continue
                if lit or (t.id in filled and (isinstance(v, (ast.Dict, ast.List)) or call in ('dict', 'list'))):
                    tables[(m, t.id)] = st.lineno
                elif call and call in p.modules[m].classes:
                    objects[(m, t.id)] = st.lineno
    hit, heldby, setting = {}, {}, {}
    for q, (m, c, f, I) in runs.items():
        for e, t in mutations(I):
            for r, ch, d in origin(t, e, rets):
                if r.op == 'glob':
                    hit.setdefault((r.args[0], r.args[1]), (f, e))
                elif r.op == 'attr' and ch:
                    setting.setdefault((c, r.args[1]), (f, e))
        for e in I.events:
            if e.kind != 'setattr' or e.base is None:
                continue
            if e.base.op == 'attr':
                setting.setdefault((m, e.base.args[1]), (f, e))
            if e.base.op != 'self':
                for r, ch, d in origin(e.base, e, rets):
                    if r.op == 'glob':
                        hit.setdefault((r.args[0], r.args[1]), (f, e))
                    elif r.op == 'attr' and r.args[0].op == 'self':
                        setting.setdefault((c, r.args[1]), (f, e))
            elif isinstance(e.value, Term) and c is not None:
                for r, ch, d in origin(e.value, None, rets):
                    if r.op == 'glob' and not ch:
                        heldby.setdefault((r.args[0], r.args[1]), []).append((c, e.name))
    for k in sorted(tables) + sorted(objects):
        b = hit.get(k)
        how = 'changed in place by %s'
        if b is None:
            for c, name in heldby.get(k, ()):
                for (c2, n2), (f, e) in setting.items():
                    if n2 == name and c2 is not None and (c2 == c.qual.split(':')[0] or not isinstance(c2, str) and (c2 is c or c in p.mro(c2) or c2 in p.mro(c))):
                        b = (f, e)
                        how = 'held by the field ' + name + ' without a copy, and changed through it by %s'
        rep.ob('tables', '%s.%s' % k, b is None, '' if b is None else 'the shared default is ' + how % b[0].qual, b[1].loc if b else '')


runs_mut = {}


def check(p, rep):
    global VOCAB
    import json, os
    VOCAB = set(json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa', 'vocabulary.json'))))
    rep.rule('arguments', 'no public function changes in place a container or an array reachable from one of its parameters, except the parameters which are its output by contract', 200)
    rep.rule('fields', 'a field which holds an object the caller passed in is never changed in place by the methods of the class hierarchy', 20)
    rep.rule('defaults', 'a mutable default value is never changed in place', 0)
    rep.rule('tables', 'a module-level table or default object is never changed by a function, directly or through a field which holds it', 0)
    rep.assumptions.append('flags named copy are true and flags named in_place are false: with the opposite value the caller asks for the change')
    rep.assumptions.append('attributes set on an object passed in are not counted, only changes of containers and arrays')
    runs, failed = summarise(p, rep)
    for f, ex in failed:
        rep.note('arguments', f.qual, 'not analysed: %s' % ex)
    if len(runs) < 100:
        raise AnalysisError('only %d functions of the library could be analysed' % len(runs))
    ALLRUNS.clear()
    ALLRUNS.update(runs)
    cs = {x[1] for x in runs.values() if x[1] is not None}
    FAMILY.clear()
    FAMILY.update({c.qual: [k for k in cs if k in p.mro(c) or c in p.mro(k)] for c in cs})
    selfmutators(runs)
    rep.count('methods which change a description object', len(SELFMUT))
    rets = returned(runs)
    mut = propagate(p, runs, direct(runs, rets), rets)
    runs_mut.clear()
    runs_mut.update(mut)
    rep.count('functions summarised', len(runs))
    arguments(p, rep, runs, mut)
    fields(p, rep, runs, rets)
    shared(p, rep, runs, rets)
