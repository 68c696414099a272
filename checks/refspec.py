"""Comparison of the values a function computes with those of a reference formula, written as source and interpreted the same way."""
import ast
import textwrap
from .common import *
from sa.project import Func, Class, AnalysisError
from sa.algebra import Canon, mentions, Poly, equal, cases, ingredients, SAME, METHODS

KNOWN = set(SAME.values()) | METHODS


def signatures(p):
    """argument names and constant defaults of functions which are the only ones of their name"""
    out = {}
    for f in p.all_funcs():
        name = f.cls.name if f.cls and f.name == '__init__' else f.name
        a = f.node.args
        names = f.argnames()
        if f.cls and 'staticmethod' not in f.decorators:
            names = names[1:]
        d = {}
        for n, v in list(zip(reversed(f.argnames()), reversed(a.defaults))) + list(zip([x.arg for x in a.kwonlyargs], a.kw_defaults)):
            if isinstance(v, ast.Constant):
                d[n] = const(v.value)
        sig = (tuple(names), d)
        out[name] = sig if name not in out or out[name] == sig else None
    return {k: v for k, v in out.items() if v}


def reference(f, src):
    node = ast.parse(textwrap.dedent(src)).body[0]
    return Func(f.module, node, f.cls)


def run(p, rep, f, cls=None, inline=(), budget=300000, count=True):
    I = Interp(p, inline=policy(*inline), budget=budget)
    I.rets, I.st = I.run_function(f, **({'cls': cls} if cls is not None else {}))
    if count:
        rep.analysed(I)
    return I


def common(I):
    """facts which hold wherever the function ends"""
    if getattr(I, '_common', None) is None:
        fs = [set(getattr(st, 'facts', ()) or ()) for st, v in I.rets]
        I._common = set.intersection(*fs) if fs else set()
    return I._common


def returned(I):
    """the value returned, as one term"""
    out = None
    always = common(I)
    for st, v in reversed(I.rets):
        x = I.res(v, st)
        c = conj(sorted(set(getattr(st, 'facts', ()) or ()) - always))
        out = x if out is None else ite(c, x, out)
    return out


def understood(t, ref):
    """the value is put together from the ingredients of the reference and well-known functions"""
    extra = ingredients(t) - ingredients(ref)
    return not [x for x in extra if not isinstance(x, tuple) and x not in KNOWN], extra


def same(rep, rule, what, got, want, loc, canon=None, facts=frozenset(), why=None, ref=None):
    if got is None:
        rep.note(rule, what, 'value not found')
        return None
    r, info, pair = equal(got, want, facts, canon)
    if r == 'unknown':
        rep.note(rule, what, info)
        return None
    if r == 'differ':
        ok, extra = understood(pair[0], want if ref is None else ref)
        if not ok:
            rep.note(rule, what, 'uses %s' % ', '.join(sorted(map(str, extra)))[:120])
            return None
        case = ' and '.join(show(x, 3)[:60] for x in sorted(info, key=lambda x: show(x, 3)))[:240]
        rep.ob(rule, what, False, (why or 'is %s where %s is expected') % ((show(pair[0], 5)[:200], show(pair[1], 5)[:200]) if why is None else ()) + (' if ' + case if case else ''), loc)
        return False
    rep.ob(rule, what, True, '', loc)
    return True


def group(p, rep, rule, holder, src, hook=None, attrs=(), full=()):
    """each function of the reference class against the function of that name"""
    cls = holder if isinstance(holder, Class) else None
    for node in ast.parse(textwrap.dedent(src)).body[0].body:
        f = p.find_method(holder, node.name) if cls is not None else holder.funcs.get(node.name)
        if f is None:
            rep.note(rule, node.name, 'not found')
            continue
        formula(p, rep, rule, f, Func(f.module, node, f.cls), cls, hook, attrs, full)


def pieces(I, attrs):
    """what a function computes: value returned, attributes set, elements stored"""
    out = {'result': returned(I)}
    for a in sorted({e.name for e in I.events if e.kind == 'setattr'}):
        if attrs is None or a in attrs or not attrs:
            out['attribute %s' % a] = final(I, a)
    return out


def at_end(I, a):
    """value of an attribute of the object itself when the function ends"""
    out = None
    for st, v in reversed(I.rets):
        x = [y for (b, n), y in st.heap.items() if n == a and getattr(b, 'op', None) == 'self']
        if len(x) != 1:
            return None
        x = I.res(x[0], st)
        c = conj(sorted(set(getattr(st, 'facts', ()) or ()) - common(I)))
        out = x if out is None else ite(c, x, out)
    return out


def final(I, n):
    """value of an attribute after its last assignment, under the facts of the assignments"""
    out = None
    for e in I.events:
        if e.kind == 'setattr' and e.name == n:
            out = ite(conj(sorted(set(e.facts) - common(I))), e.value, mk('undef', n) if out is None else out)
    return out


def done(node):
    """names of the functions called for what they do"""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            c = n.value.func
            name = c.attr if isinstance(c, ast.Attribute) else c.id if isinstance(c, ast.Name) else None
            owner = c.value.id if isinstance(c, ast.Attribute) and isinstance(c.value, ast.Name) else None
            if name and name not in KNOWN and owner not in ('logging', 'np', 'log') and name not in ('append', 'extend', 'insert', 'update', 'add', 'sort', 'print', '__init__', 'warning', 'info', 'debug'):
                out.add(name)
    return out


def elements(I, cn, does=()):
    """elements stored, objects made and functions called for what they do: where -> value, with the conditions, in their order"""
    out = {}
    for e in I.events:
        if e.kind == 'setitem' and e.value is not None and e.args and e.base is not None:
            k, v = ('element', cn.key(e.base), cn.key(e.args[0])), e.value
            label = 'element %s of %s' % (show(e.args[0], 3)[:60], show(e.base, 2)[:60])
        elif e.kind == 'delitem' and e.base is not None and e.args:
            k, v = ('deleted', cn.key(e.base), cn.key(e.args[0])), TRUE
            label = 'element %s of %s deleted' % (show(e.args[0], 3)[:60], show(e.base, 2)[:60])
        elif e.kind == 'repocall' and e.name == '__init__' and e.base is not None and e.base.op == 'new':
            k, v = ('made', str(e.base.args[0]).split(':')[-1]), mk('call', mk('func', str(e.base.args[0]).split(':')[-1]), tuple(e.args), tuple(e.kwargs or ()))
            label = 'arguments of %s' % k[1]
        elif e.kind == 'repocall' and e.name == '__init__' and e.base is not None and e.base.op != 'new' and e.fn is not None:
            n = show(e.fn, 2).split(':')[-1].split('.')[0]
            k, v = ('made', n), mk('call', mk('func', n), tuple(e.args), tuple(e.kwargs or ()))
            label = 'arguments of %s' % n
        elif e.kind == 'meth' and e.name == 'append' and e.base is not None and e.base.op in ('item', 'attr'):
            k, v = ('does', 'append', cn.key(e.base)), mk('call', mk('func', 'append'), tuple(e.args or ()), ())
            label = 'append to %s' % show(e.base, 3)[:60]
        elif e.name in does and e.kind in ('repocall', 'meth', 'call') and not (e.kind == 'meth' and e.base is None):
            k, v = ('does', e.name, cn.key(e.base) if e.base is not None else None), mk('call', mk('func', e.name), tuple(e.args or ()), tuple(e.kwargs or ()))
            label = '%s called' % e.name
        else:
            continue
        v = ite(conj(sorted(set(e.facts) - common(I))), v, mk('undef', 'element'))
        old = out.get(k)
        out[k] = (mk('seq', v) if old is None else mk('seq', *(old[0].args + (v,))), old[1] if old else label) + ((e.args[0],) if e.kind == 'setitem' else (e.base,) if k[1] == 'append' else ())
    return out


GROW = {'append', 'extend', 'insert', 'update', 'add', 'setdefault', 'pop', 'remove', 'sort', 'clear', 'write', 'reverse', 'discard', 'popitem'}


def grown(I, cn):
    return {(e.name, cn.key(e.base)) for e in I.events if e.kind == 'meth' and e.name in GROW and e.base is not None}


def lists(I):
    """names of attributes to which elements are added, how often"""
    out = {}
    for e in I.events:
        if e.kind == 'meth' and e.name in GROW and e.base is not None and e.base.op == 'attr':
            out[e.base.args[1]] = out.get(e.base.args[1], 0) + 1
    return out


def leaves(I):
    fs = [conj(sorted(set(e.facts) - common(I))) for e in I.events if e.kind == 'break']
    return ite(disj(fs), TRUE, FALSE) if fs else None


def defaults(f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    out = dict(zip([x.arg for x in reversed(pos)], reversed(a.defaults)))
    out.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return {k: v for k, v in out.items()}


def counts(node):
    c = {}
    for n in ast.walk(node):
        t = type(n).__name__
        if t in ('For', 'While', 'Return', 'FunctionDef', 'ListComp', 'GeneratorExp', 'DictComp', 'SetComp', 'Try'):
            c[t] = c.get(t, 0) + 1
    return c


def flags(p):
    """names of attributes which are only ever given truth values"""
    if getattr(p, '_flags', None) is not None:
        return p._flags
    given = {}
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            for t, v in [(x, n.value) for x in n.targets] if isinstance(n, ast.Assign) else [(n.target, n.value)] if isinstance(n, ast.AnnAssign) and n.value else [(n.target, None)] if isinstance(n, (ast.AugAssign, ast.For)) else []:
                for u in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                    if isinstance(u, ast.Attribute):
                        given.setdefault(u.attr, []).append(v if u is t else None)

    def truth(v, names):
        return isinstance(v, ast.Constant) and isinstance(v.value, bool) or isinstance(v, ast.Compare) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) \
            or isinstance(v, ast.BoolOp) and all(truth(x, names) for x in v.values) or isinstance(v, ast.Attribute) and v.attr in names \
            or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'bool' or isinstance(v, ast.IfExp) and truth(v.body, names) and truth(v.orelse, names)
    names = set(given)
    while True:
        rest = {n for n in names if all(truth(v, names) for v in given[n])}
        if rest == names:
            break
        names = rest
    p._flags = frozenset(names)
    return p._flags


def formula(p, rep, rule, f, ref, cls, hook=None, attrs=(), full=()):
    verdicts = {}
    order = []
    Canon.sigs = signatures(p)
    Canon.flags = flags(p)
    for inline in ((), tuple(full)):
        try:
            I = run(p, rep, f, cls, tuple(x for x in inline if x != f.name), count=not inline)
            R = run(p, rep, ref, cls, tuple(x for x in inline if x != f.name), count=False)
        except AnalysisError as e:
            rep.note(rule, f.name, str(e)[:100])
            return
        g, w = pieces(I, attrs), pieces(R, attrs)
        allref = mk('tuple', *[x for x in w.values() if x is not None])
        cn = Canon(hook)
        does = done(ref.node)
        ge, we = elements(I, cn, does), elements(R, cn, does)
        calls = {e.name for e in I.events if e.kind in ('meth', 'repocall', 'call')} - {e.name for e in R.events if e.kind in ('meth', 'repocall', 'call')} - KNOWN
        further = calls or grown(I, cn) - grown(R, cn) or [k for k in ge if k not in we] or {e.name for e in I.events if e.kind == 'setattr'} - {e.name for e in R.events if e.kind == 'setattr'}
        li, lr = lists(I), lists(R)
        otherwise = {a for a in set(li) | set(lr) if li.get(a) != lr.get(a) and equal(*[x if x is not None else NONE for x in (final(I, a), final(R, a))], frozenset(), Canon(hook))[0] != 'same'}
        for a in sorted({e.name for e in R.events if e.kind == 'setattr'}):
            x, y = at_end(R, a), at_end(I, a)
            if x is not None and y is not None and x is not final(R, a) and 'attribute ' + a in w and cn.key(x) != cn.key(final(R, a)):
                w['attribute ' + a], g['attribute ' + a] = x, y
                otherwise.discard(a)
        if leaves(R) is not None:
            w['leaves its loops'] = leaves(R)
            if leaves(I) is not None:
                g['leaves its loops'] = leaves(I)
        allref = mk('tuple', *(list(allref.args) + [v for v, *_ in we.values()]))
        labels = {}
        for k, (v, label, *_) in we.items():
            n = labels.get(label, 0)
            labels[label] = n + 1
            label += ' (%d)' % (n + 1) if n else ''
            w[label] = v
            if k in ge:
                g[label] = ge[k][0]
        if not [k for k in we if k not in ge]:
            for k, (v, label, *_) in ge.items():
                if k not in we and k[0] == 'element' and any(k[1] == x[1] for x in we):
                    w[label + ' (further)'] = mk('undef', 'element')
                    g[label + ' (further)'] = v
        # one element stored where another is expected
        left = {}
        moved = lambda k: k[1] if k[0] == 'element' or k[:2] == ('does', 'append') else None
        for k in we:
            if moved(k) and k not in ge:
                left.setdefault(moved(k), ([], []))[0].append(k)
        for k in ge:
            if moved(k) and k not in we and moved(k) in left:
                left[moved(k)][1].append(k)
        for ks, hs in left.values():
            if len(ks) == len(hs) == 1 and len(we[ks[0]]) > 2:
                label = [x for x in w if w[x] is we[ks[0]][0]]
                if len(label) == 1:
                    n = label[0] + ' (place)'
                    del w[label[0]]
                    w[n], g[n] = mk('tuple', we[ks[0]][2], we[ks[0]][0]), mk('tuple', ge[hs[0]][2], ge[hs[0]][0])
        no = [disj([conj(sorted(e.facts)) for e in X.events if e.kind == 'raise']) for X in (I, R)]
        if no[1] is not FALSE:
            g['refuses'], w['refuses'] = [ite(c, TRUE, FALSE) for c in no]
        refused = [conj(sorted(e.facts)) for X in (I, R) for e in X.events if e.kind == 'raise' and not any(x.op in ('elem', 'idx', 'lv') for c in e.facts for x in walk(c))]
        asserted = [conj(sorted(list(e.facts) + [neg(e.value)])) for X in (I, R) for e in X.events if e.kind == 'assert' and not any(x.op in ('elem', 'idx', 'lv') for c in list(e.facts) + [e.value] for x in walk(c))]
        for k in w:
            if w[k] is None:
                continue
            for d in (g, w):
                for c in asserted:
                    if d.get(k) is not None:
                        d[k] = ite(c, mk('undef', 'refused'), d[k])
                for c in refused:
                    if d.get(k) is not None and k not in ('result', 'refuses'):
                        d[k] = ite(c, mk('undef', 'refused'), d[k])
            if k not in order:
                order.append(k)
            if [a for a in otherwise if k == 'attribute ' + a or k.startswith('append to') and k.split(' (')[0].endswith('.' + a)]:
                r = ('unknown', 'put together in another way', None)
            elif g.get(k) is None:
                if k == 'leaves its loops':
                    r = ('differ', [], (mk('undef', 'break'), w[k])) if counts(f.node) == counts(ref.node) and not further else ('unknown', 'not found', None)
                elif not further and g:
                    r = ('differ', [], (mk('undef', k), w[k]))
                elif (k.startswith('attribute') or k.endswith(' called') and not any(e.name == k.split()[0] for e in I.events)) and not calls and g:
                    r = ('differ', [], (mk('undef', k), w[k]))
                else:
                    r = ('unknown', 'not found', None)
            else:
                r = equal(g[k], w[k], frozenset(), Canon(hook))
                if r[0] == 'differ':
                    ok, extra = understood(r[2][0], allref)
                    if not ok:
                        r = ('unknown', 'uses %s' % ', '.join(sorted(map(str, extra)))[:120], None)
            verdicts.setdefault(k, []).append(r)
    have, want = defaults(f), defaults(ref)
    for a in want:
        if a in have and isinstance(have[a], ast.Constant) and isinstance(want[a], ast.Constant):
            same_ = have[a].value == want[a].value and (type(have[a].value) is type(want[a].value))
            rep.ob(rule, '%s: default of %s' % (f.name, a), same_, 'is %r where %r is expected' % (have[a].value, want[a].value), f.loc)
    for k in order:
        rs = verdicts[k]
        what = '%s: %s' % (f.name, k)
        if any(r[0] == 'same' for r in rs):
            rep.ob(rule, what, True, '', f.loc)
        elif all(r[0] == 'differ' for r in rs) and rs:
            _, info, pair = rs[0]
            case = ' and '.join(sorted(show(x, 3)[:60] for x in info))[:200]
            rep.ob(rule, what, False, 'is %s where %s is expected%s' % (show(pair[0], 5)[:220], show(pair[1], 5)[:220], ' if ' + case if case else ''), f.loc)
        else:
            rep.note(rule, what, [r[1] for r in rs if r[0] == 'unknown'][0])
