"""P06: results kept for reuse.

 keys      a value stored for reuse is a function of the key it is stored under (and of the
           state of the object), and a lookup stands for a value determined by its key
 identity  the convolution caches are keyed by the identity of the arrays: every array which is
           cached stays alive and unchanged for as long as the cache is used
 untouched what is stored or handed out from such a store is not changed afterwards
 densities the densities kept by the samples are used and kept only without overriding settings
 current   the plotter drops its densities when the samples have changed
"""
import ast
from .common import *
from .p16 import origin, allargs, scope
from sa.project import AnalysisError

STORES = {('getdist.plots', 'MCSampleAnalysis'): ('densities_1D', 'densities_2D', 'single_samples')}
ME = lambda c: mk('self', c.qual)


def store_of(t, owner):
    """(container, keys of the path to it) when the term is a store or an element of one"""
    out = []
    todo = [(t, ())]
    seen = set()
    while todo:
        x, ks = todo.pop()
        if (x, ks) in seen:
            continue
        seen.add((x, ks))
        if owner(x):
            out.append((x, ks))
        elif x.op == 'ite':
            todo += [(x.args[1], ks), (x.args[2], ks)]
        elif x.op in ('orv', 'andv', 'bool'):
            todo += [(a, ks) for a in x.args if isinstance(a, Term)]
        elif x.op == 'meth' and x.args[1] in ('get', 'setdefault', 'pop') and x.args[2]:
            todo.append((x.args[0], ks + (x.args[2][0],)))
        elif x.op == 'item':
            todo.append((x.args[0], ks + (x.args[1],)))
    return out


def components(keys):
    out = set()
    todo = list(keys)
    while todo:
        k = todo.pop()
        if k in out:
            continue
        out.add(k)
        if k.op == 'tuple':
            todo += list(k.args)
        elif k.op == 'ite':
            todo += [k.args[1], k.args[2]]
        elif k.op == 'call' and k.args[0].op == 'builtin' and k.args[0].args[0] in ('id', 'tuple', 'float', 'str') and len(k.args[1]) == 1:
            todo.append(k.args[1][0])
    # simple arithmetic can be solved for the other operand
    grown = True
    while grown:
        grown = False
        for k in list(out):
            if k.op == 'bin' and k.args[0] in ('/', '*', '+', '-'):
                for a, b in ((k.args[1], k.args[2]), (k.args[2], k.args[1])):
                    if determined(a, out) and b not in out:
                        out.add(b)
                        grown = True
    return out


def determined(t, K, seen=None):
    """is the value fixed once the components K of the key (and the state of the object) are?"""
    if t in K:
        return True
    op = t.op
    if op in ('const', 'ext', 'builtin', 'func', 'glob', 'self', 'cls', 'class', 'clsattr', 'undef', 'missing'):
        return True
    if op == 'param':
        return False
    if op == 'attr' and t.args[0].op == 'self':
        return True
    ok = True
    todo = list(t.args)
    while todo:
        a = todo.pop()
        if isinstance(a, Term):
            if not determined(a, K):
                return False
        elif isinstance(a, tuple):
            todo += list(a)
    return ok


def free(t, K):
    out = set()

    def rec(x):
        if x in K or x.op == 'self' or x.op == 'attr' and x.args[0].op == 'self':
            return
        if x.op == 'param':
            out.add(x.args[0])
            return
        todo = list(x.args)
        while todo:
            a = todo.pop()
            if isinstance(a, Term):
                rec(a)
            elif isinstance(a, tuple):
                todo += list(a)
    rec(t)
    return sorted(out)


def memo(p, rep, f, c, owner, override=()):
    """rules keys and untouched for the stores of one function; returns the number of stores and lookups seen"""
    I = Interp(p, inline=policy(), budget=200000)
    rets, _ = I.run_function(f, **({'cls': c} if c else {}))
    rep.analysed(I)
    who = f.qual.split(':')[-1]
    stored, n = {}, 0
    for e in I.events:
        if e.kind != 'setitem':
            continue
        for cont, path in store_of(e.base, owner):
            for fs, k in alts(e.args[0], frozenset(e.facts or ())):
                for fs2, v in alts(e.value, fs):
                    if v.op in ('dictc', 'seq') and not v.args:
                        continue  # an empty store for a new first key
                    if any(k2 in store_of(v, owner) for k2 in store_of(v, owner)):
                        continue  # handed on from the store
                    K = components(path + (k,))
                    n += 1
                    stored.setdefault(cont, set()).add(k)
                    bad = [] if determined(v, K) else free(v, K)
                    rep.ob('keys', '%s: %s[%s]' % (who, show(cont, 2), show(k, 4)[:60]), not bad, 'the value kept depends on %s, which the key does not fix' % ', '.join(bad), e.loc)
    # a lookup stands for the value computed when it fails
    vals = [(v, st) for st, v in rets] + []
    seen = set()
    looked = []
    for v, st in vals:
        for s in walk(I.res(v, st)):
            if s.op != 'ite' or s in seen:
                continue
            seen.add(s)
            leaves = [y for _, y in alts(s)]
            lk = []
            for y in leaves:
                for cont, path in store_of(y, owner):
                    if y.op in ('meth', 'item') and path:
                        lk.append((cont, path))
            if not lk:
                continue
            others = [y for y in leaves if not store_of(y, owner) and y.op not in ('const', 'param', 'undef') and not (y.op in ('dictc', 'seq') and not y.args)]
            for cont, path in lk:
                K = components(path)
                for y in others:
                    n += 1
                    bad = [] if determined(y, K) else free(y, K)
                    rep.ob('keys', '%s: lookup %s' % (who, show(path[0], 4)[:60]), not bad, 'a value found under this key is used in place of one which depends on %s' % ', '.join(bad), f.loc if hasattr(f, 'loc') else '')
    # values of the store are not changed in place
    for e in I.events:
        for t in mutated_terms(e):
            if t is None:
                continue
            for fs, x in alts(t, frozenset(e.facts or ())):
                hit = [1 for cont, path in store_of(x, owner) if path and x.op in ('meth', 'item')]
                if e.kind == 'setitem' and hit and all(store_of(e.base, owner)) and is_level(e, owner):
                    continue
                if hit and e.kind in ('inplace', 'setitem') or any(x is v for v in stored_values(I, owner, e)):
                    rep.ob('untouched', '%s: %s' % (who, e.loc), False, 'a value kept for reuse is changed in place', e.loc)
    return n


def is_level(e, owner):
    """an item assignment which adds an entry to an inner table of the store (a second key), not one which changes a kept value"""
    return e.args and e.args[0].op in ('tuple', 'param', 'attr', 'ite') and e.value is not None


def stored_values(I, owner, upto):
    out = []
    for e in I.events:
        if e is upto or e.seq >= upto.seq:
            break
        if e.kind == 'setitem' and store_of(e.base, owner) and isinstance(e.value, Term) and e.value.op not in ('dictc', 'seq', 'const'):
            out += [y for _, y in alts(e.value)]
    return out


# ------------------------------------------------------------ identity keyed caches (control flow of the source)

def identity_keyed(p):
    """functions with a parameter cache which keys it by the identity of their first (1) and second (2) argument, directly or by passing it on"""
    out = {}
    fs = [(m, c, f) for m, c, f in scope(p) if 'cache' in sum(allargs(f)[:2], [])]
    for m, c, f in fs:
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'id' for n in ast.walk(f.node)):
            out[f.name] = f
    grown = True
    while grown:
        grown = False
        for m, c, f in fs:
            if f.name in out:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and callee(n) in out and cache_expr(n, out[callee(n)]) is not None:
                    out[f.name] = f
                    grown = True
                    break
    return out


def callee(n):
    return n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None


def argument(n, f, name):
    for k in n.keywords:
        if k.arg == name:
            return k.value
    pos = allargs(f)[0]
    if pos and pos[0] == 'self':
        pos = pos[1:]
    i = pos.index(name) if name in pos else None
    return n.args[i] if i is not None and i < len(n.args) and not any(isinstance(a, ast.Starred) for a in n.args[:i + 1]) else None


def cache_expr(n, f):
    e = argument(n, f, 'cache')
    return None if e is None or isinstance(e, ast.Constant) else e


def text(e):
    return ast.unparse(e)


def simple(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


class Order(ast.NodeVisitor):
    """statements of a function in source order, with the loops around each"""

    def __init__(self, fn):
        self.n = 0
        self.loops = []
        self.defs = {}  # name -> [(position, loops)] where it is bound
        self.dels = {}
        self.changes = {}  # text -> [(position, loops)] where it is changed in place
        self.calls = []  # (position, loops, call)
        for s in fn.body:
            self.stmt(s)

    def here(self):
        return self.n, tuple(self.loops)

    def stmt(self, s):
        self.n += 1
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return
        for name in [x for x in ('test', 'iter', 'value', 'exc', 'msg') if isinstance(getattr(s, x, None), ast.AST)]:
            self.expr(getattr(s, name))
        if isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr)
        self.n += 1
        if isinstance(s, (ast.For, ast.While)):
            self.loops.append(self.n)
            if isinstance(s, ast.For):
                self.bind(s.target)
            for b in s.body:
                self.stmt(b)
            self.loops.pop()
            for b in s.orelse:
                self.stmt(b)
            return
        if isinstance(s, ast.Assign):
            for t in s.targets:
                self.bind(t)
        elif isinstance(s, (ast.AnnAssign,)):
            self.bind(s.target)
        elif isinstance(s, ast.AugAssign):
            self.change(s.target.value if isinstance(s.target, ast.Subscript) else s.target)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.dels.setdefault(t.id, []).append(self.here())
                    self.defs.setdefault(t.id, []).append(self.here())
        for name in ('body', 'orelse', 'finalbody'):
            for b in getattr(s, name, []) or []:
                if isinstance(b, ast.stmt):
                    self.stmt(b)
        for h in getattr(s, 'handlers', []) or []:
            for b in h.body:
                self.stmt(b)

    def bind(self, t):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append(self.here())
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x)
        elif isinstance(t, ast.Starred):
            self.bind(t.value)
        elif isinstance(t, ast.Subscript):
            self.change(t.value)
        elif isinstance(t, ast.Attribute):
            self.defs.setdefault(text(t), []).append(self.here())

    def change(self, e):
        while isinstance(e, ast.Subscript):
            e = e.value
        if simple(e):
            self.changes.setdefault(text(e), []).append(self.here())

    def expr(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                self.n += 1
                self.calls.append((self.n, tuple(self.loops), n))
                if isinstance(n.func, ast.Attribute) and n.func.attr in ARRAY_MUTATORS and simple(n.func.value):
                    self.change(n.func.value)


def mutators(p):
    """name -> positions (without self) of parameters changed in place, for functions which do so directly"""
    out = {}
    for m, c, f in scope(p):
        pos = [x for x in allargs(f)[0] if x != 'self']
        o = Order(f.node)
        hit = {i for i, x in enumerate(pos) if o.changes.get(x) and not o.defs.get(x)}
        hit2 = {i for i in hit if any(isinstance(n, (ast.Assign, ast.AugAssign)) and any(isinstance(t, ast.Subscript) for t in (n.targets if isinstance(n, ast.Assign) else [n.target])) for n in ast.walk(f.node))}
        if hit2:
            out.setdefault(f.name, set()).update(hit2)
    return out


def identity(p, rep):
    ik = identity_keyed(p)
    rep.count('functions with identity-keyed caches', len(ik))
    if not ik:
        rep.note('identity', 'convolve', 'no function keys a cache by identity')
        return
    muts = mutators(p)
    for m, c, f in scope(p):
        if f.name in ik and f.name in ('convolve1D', 'convolve2D', 'convolveFFT', 'convolveFFTn'):
            continue
        if 'cache' in sum(allargs(f)[:2], []) and f.name in ik:
            continue
        o = Order(f.node)
        uses = {}
        for pos, loops, n in o.calls:
            g = ik.get(callee(n))
            if g is None or not isinstance(n.func, (ast.Name, ast.Attribute)):
                continue
            ce = cache_expr(n, g)
            if ce is None:
                continue
            which = argument(n, g, 'cache_args')
            if which is None:
                which = (1, 2)
            else:
                try:
                    which = tuple(ast.literal_eval(which))
                except Exception:
                    rep.note('identity', f.qual, 'cache_args is computed')
                    continue
            names = [x for x in allargs(g)[0] if x != 'self']
            arr = []
            for w in which:
                a = argument(n, g, names[w - 1])
                if a is not None:
                    arr.append(a)
            uses.setdefault(text(ce), []).append((pos, loops, n, arr, ce))
        for pos, loops, n in o.calls:
            for i in muts.get(callee(n), ()):
                if i < len(n.args) and simple(n.args[i]) and callee(n) not in ik:
                    o.changes.setdefault(text(n.args[i]), []).append((pos, loops))
        for ctext, us in uses.items():
            who = '%s: %s' % (f.qual.split(':')[-1], ctext)
            rep.used(f)
            isparam = ctext in sum(allargs(f)[:2], [])
            local = isparam or (isinstance(us[0][4], ast.Name) and ctext in o.defs and made_here(f.node, ctext))
            glob = any(isinstance(x, (ast.Global, ast.Nonlocal)) and ctext in x.names for x in ast.walk(f.node))
            rep.ob('identity', '%s is local' % who, local and not glob, 'the cache outlives the call: the identity of an array freed in the meantime is reused for another one', '%s:%d' % (f.module.path if hasattr(f.module, 'path') else m, us[0][2].lineno))
            cdefs = o.defs.get(ctext, [])
            for pos, loops, n, arr, _ in us:
                for a in arr:
                    loc = '%s:%d' % (m, a.lineno)
                    cons = '%s <- %s (line of call %s)' % (who, text(a)[:50], callee(n))
                    if not simple(a):
                        # temporary: freed after the call; hazard if something allocated later is looked up
                        later = [x for (p2, l2, n2, arr2, _) in us if p2 > pos or set(l2) & set(loops) for x in arr2 if (x is not a or loops) and made_after(o, x, pos, loops)]
                        rep.ob('identity', cons, not later, 'a temporary array is cached by identity and freed: %s may be given its entry' % (text(later[0])[:40] if later else ''), loc)
                        continue
                    t = text(a)
                    root = t.split('.')[0]
                    # changed between two cached uses
                    bad = None
                    for q, l2 in o.changes.get(t, []):
                        again = [p2 for (p2, l3, n2, arr2, _) in us for x in arr2 if text(x) == t and (p2 > q or inloop(l3, l2, o, ctext))]
                        if (q > pos or set(l2) & set(loops) - cacheloops(o, ctext)) and again:
                            # rebound in between: a new object
                            if not any(pos < d < q for d, _ in o.defs.get(t, []) + o.defs.get(root, [])):
                                bad = bad or 'it is changed in place while the cache keeps its transform'
                    # rebound in a loop while cached
                    for d, dl in o.defs.get(t, []) + ([] if root == t else o.defs.get(root, [])):
                        common = (set(dl) & set(loops)) - cacheloops(o, ctext)
                        if common:
                            bad = bad or 'a new array is made in every turn of the loop, which may get the identity of an earlier one'
                        elif d > pos:
                            # the old array may be freed here
                            dead = d
                            later = [x for (p2, l2, n2, arr2, _) in us if p2 > dead for x in arr2 if not (text(x) == t and not o.dels.get(t)) and made_after(o, x, dead, ())]
                            if later:
                                bad = bad or 'it is replaced while the cache is in use, and %s made later may get its identity' % text(later[0])[:40]
                    rep.ob('identity', cons, bad is None, bad or '', loc)


def made_here(fn, name, depth=4):
    """every assignment to the name gives it an object which does not outlive the call"""
    def fresh(e, d):
        if isinstance(e, ast.IfExp):
            return fresh(e.body, d) and fresh(e.orelse, d)
        if isinstance(e, ast.BoolOp):
            return all(fresh(x, d) for x in e.values)
        if isinstance(e, ast.Name):
            if e.id in [a.arg for a in fn.args.args + fn.args.kwonlyargs]:
                return True  # judged where it is passed in
            return d > 0 and e.id != name and made_here(fn, e.id, d - 1)
        if isinstance(e, ast.Attribute):
            return False
        if isinstance(e, ast.Call):
            return callee(e) not in ('getattr', 'setdefault', 'get', 'vars')
        return True
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            tgts = [t for t in n.targets if isinstance(t, ast.Name) and t.id == name]
            if tgts and (len(n.targets) > len(tgts) or not fresh(n.value, depth)):
                return False  # also stored elsewhere, or taken from elsewhere
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None and not fresh(n.value, depth):
            return False
        elif isinstance(n, ast.NamedExpr) and n.target.id == name and not fresh(n.value, depth):
            return False
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == name and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            return False
    return True


def cacheloops(o, ctext):
    """loops inside which the cache itself is made anew"""
    return {l for d, dl in o.defs.get(ctext, []) for l in dl}


def inloop(l3, l2, o, ctext):
    return bool(set(l3) & set(l2) - cacheloops(o, ctext))


def made_after(o, x, pos, loops):
    if not simple(x):
        return True
    t = text(x)
    ds = o.defs.get(t, []) + o.defs.get(t.split('.')[0], [])
    return any(d > pos or set(dl) & set(loops) for d, dl in ds)


# ------------------------------------------------------------ densities kept by samples and plotter

GETTERS = {'get1DDensity', 'get_density', 'get_density_grid', 'load_single_samples'}
CHANGERS = {'normalize', 'setP'}


def untouched(p, rep):
    for m, c, f in scope(p):
        if not (m == 'getdist.plots' or m == 'getdist.mcsamples' or m.startswith('getdist.styles')):
            continue
        if not any(isinstance(n, ast.Call) and callee(n) in GETTERS for n in ast.walk(f.node)):
            continue
        I = Interp(p, inline=policy(), budget=200000)
        try:
            I.run_function(f, **({'cls': c} if c else {}))
        except Exception as ex:
            rep.note('untouched', f.qual, str(ex))
            continue
        rep.analysed(I)
        bad = None
        for e in I.events:
            ts = [t for t in mutated_terms(e) if t is not None]
            if e.kind == 'inplace' and e.args and e.args[0].op == 'tgt' and e.args[0].args[0] != 'Attribute':
                ts = []
            shallow = False
            if e.kind in ('meth', 'repocall') and e.name in CHANGERS and e.base is not None:
                ts.append(e.base)
                inp = dict(e.kwargs or {}).get('in_place') if hasattr(e, 'kwargs') else None
                if inp is None and len(e.args or ()) > 1:
                    inp = e.args[1]
                shallow = inp is not None and inp not in (const(False), const(None))
            if e.kind == 'setattr' and e.base is not None and e.name in ('P', 'x', 'y', 'likes'):
                ts.append(e.base)
            for t in ts:
                for fs, y in alts(t, frozenset(e.facts or ())):
                    if handed_out(y, shallow or e.kind in ('inplace', 'setitem')):
                        bad = bad or e
        rep.ob('untouched', f.qual.split(':')[-1], bad is None, 'changes a density or sample kept for reuse (%s)' % (bad.name or bad.kind if bad else ''), bad.loc if bad else '')


def handed_out(t, shallow=False):
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'meth' and x.args[1] in GETTERS:
            return True
        if x.op == 'meth' and x.args[1] in CHANGERS:  # returns the density itself
            todo.append(x.args[0])
        elif x.op == 'call' and x.args[0].op in ('func', 'bound', 'method') and show(x.args[0], 2).split('.')[-1] in GETTERS:
            return True
        elif shallow and x.op == 'call' and show(x.args[0], 3) == 'copy.copy' and x.args[1]:
            todo.append(x.args[1][0])  # shares the arrays of the original
        elif x.op == 'attr':
            if x.args[1] in ('P', 'x', 'y', 'likes'):
                todo.append(x.args[0])
        elif x.op == 'ite':
            todo += [x.args[1], x.args[2]]
        elif x.op in ('orv', 'andv', 'bool'):
            todo += [a for a in x.args if isinstance(a, Term)]
        elif x.op == 'loop':
            todo += [x.args[2], x.args[3]]
    return False


def densities(p, rep):
    c = p.cls('getdist.mcsamples', 'MCSamples')
    me = ME(c)
    f = p.find_method(c, 'get1DDensity')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f, cls=c)
    rep.analysed(I)
    kw = mk('param', '**kwargs')
    none = [x for x in [allargs(f)[3]] if x]
    if none:
        kw = mk('param', '**' + none[0])
    n = 0
    for st, v in rets:
        for fs, y in alts(I.res(v, st), frozenset(st.facts)):
            src = [(cont, path) for cont, path in store_of(y, lambda x: x.op == 'attr' and x.args[0].op == 'self' and x.args[1] == 'density1D')]
            if src:
                n += 1
                d = logic.decide(kw, fs)
                name = mk('param', allargs(f)[0][1])
                rep.ob('densities', 'get1DDensity: kept density', d is False and all(name in components(path) for _, path in src),
                       'a kept density is returned %s' % ('although settings are given' if d is not False else 'under another name'), '')
    g = p.find_method(c, 'get1DDensityGridData')
    owner = lambda x: x.op == 'attr' and x.args[0].op == 'self' and x.args[1] == 'density1D'
    kf = allargs(f)[3]
    for e in I.events:
        if e.kind == 'setitem' and e.base is not None and store_of(e.base, owner):
            d = logic.decide(mk('param', '**' + kf), frozenset(e.facts)) if kf else False
            rep.ob('densities', 'get1DDensity: keeps', d is False, 'a density made with other settings is kept for later calls', e.loc)
    for m2, c2, h in scope(p):
        if h is f or h is g or not m2.startswith('getdist'):
            continue
        for n2 in ast.walk(h.node):
            if isinstance(n2, (ast.Assign, ast.AugAssign)):
                for t2 in (n2.targets if isinstance(n2, ast.Assign) else [n2.target]):
                    if isinstance(t2, ast.Subscript) and isinstance(t2.value, ast.Attribute) and t2.value.attr == 'density1D':
                        rep.note('densities', h.qual, 'keeps a density outside the functions which make them')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(g, cls=c)
    rep.analysed(I)
    kn = allargs(g)[3]
    for e in I.events:
        if e.kind == 'setitem' and store_of(e.base, lambda x: x.op == 'attr' and x.args[0].op == 'self' and x.args[1] == 'density1D'):
            n += 1
            d = logic.decide(mk('param', '**' + kn), frozenset(e.facts)) if kn else False
            rep.ob('densities', 'get1DDensityGridData: keeps', d is False, 'a density made with other settings is kept for later calls', e.loc)
            k = e.args[0]
            base = k.args[0] if k.op == 'attr' and k.args[1] == 'name' else None
            jt = mk('param', allargs(g)[0][1])
            ok = base is not None and any(s is jt for s in walk(base))
            rep.ob('densities', 'get1DDensityGridData: name', ok, 'the density is kept under a key which is not the name of its parameter', e.loc)
    if not n:
        rep.note('densities', 'MCSamples.density1D', 'no density is kept')


def renewed(p):
    """attributes of the samples which every update of the statistics replaces with a new object"""
    c = p.cls('getdist.mcsamples', 'MCSamples')
    f = p.find_method(c, 'updateBaseStatistics')
    I = Interp(p, inline=policy(), budget=200000)
    I.run_function(f, cls=c)
    return {e.name for e in I.events if e.kind == 'setattr' and e.base is ME(c) and e.args and e.args[0].op in ('dictc', 'list', 'listc', 'obj', 'new')} | {'density1D'}


def current(p, rep):
    """the plotter: before a kept result is looked up, what was kept for an earlier state of the samples has been dropped:
    the drop depends on an object of the samples which every update replaces, and a pending update is done first"""
    c = p.cls('getdist.plots', 'MCSampleAnalysis')
    attrs = STORES[('getdist.plots', 'MCSampleAnalysis')]
    tags = renewed(p)
    for name in ('get_density', 'get_density_grid', 'load_single_samples'):
        f = p.find_method(c, name)
        I = Interp(p, inline=policy(), budget=200000)
        rets, _ = I.run_function(f, cls=c)
        rep.analysed(I)
        whose = lambda t: {s.args[1] for s in walk(t) if s.op == 'attr' and s.args[0].op == 'self' and s.args[1] in attrs}
        looked = set()
        for st, v in rets:
            looked |= whose(I.res(v, st))
        for e in I.events:
            if e.kind == 'setitem' and e.base is not None:
                looked |= whose(e.base)
        if not looked:
            rep.note('current', name, 'keeps nothing')
            continue
        for a in sorted(looked):
            who = 'MCSampleAnalysis.%s: %s' % (name, a)
            drop = first = upd = None
            for k, e in enumerate(I.events):
                facts = list(e.facts or ())
                state = lambda ns: any(s.op == 'attr' and s.args[1] in ns and s.args[0].op in ('meth', 'ite', 'param', 'call') for t in facts for s in walk(t))
                if e.kind in ('meth', 'repocall') and e.name == 'updateBaseStatistics' and upd is None:
                    upd = k
                gone = e.base is not None and a in whose(e.base) and (
                    (e.kind == 'meth' and e.name in ('pop', 'clear', 'popitem')) or e.kind in ('delitem',)) \
                    or (e.kind == 'setattr' and e.name == a) or (e.kind == 'setitem' and a in whose(e.base) and e.base.op == 'attr' and e.args[-1].op in ('const', 'dictc'))
                if gone and state(tags):
                    drop = k if drop is None else drop
                elif first is None and e.base is not None and a in whose(e.base) and e.kind in ('meth', 'getitem', 'setitem'):
                    first = k
            # a pending update may also be tested together with the tag
            pend = upd is not None and drop is not None and upd < drop
            msg = None
            if drop is None:
                msg = 'the kept result is used whatever happened to the samples since'
            elif first is not None and first < drop:
                msg = 'the kept result is looked up before results of an earlier state are dropped'
            elif not pend:
                msg = 'a change of the samples which waits for its update is not noticed'
            rep.ob('current', who, msg is None, msg or '', '')


def check(p, rep):
    rep.rule('keys', 'a value kept for reuse is determined by its key and the state of the object; a lookup stands for a value determined by its key', 6)
    rep.rule('identity', 'an array cached by identity stays alive and unchanged while the cache is used, and the cache does not outlive the call', 5)
    rep.rule('untouched', 'a value kept for reuse is not changed in place by the library', 2)
    rep.rule('densities', 'the samples keep and reuse a density only for the default settings and under the name of its parameter', 1)
    rep.rule('current', 'results kept by the plotter are dropped when the samples have changed', 1)
    n = 0
    for m, c, f in scope(p):
        pars = sum(allargs(f)[:2], [])
        if m == 'getdist.convolve' and 'cache' in pars:
            n += memo(p, rep, f, c, lambda x: x is mk('param', 'cache'))
    c = p.cls('getdist.plots', 'MCSampleAnalysis')
    attrs = STORES[('getdist.plots', 'MCSampleAnalysis')]
    for name in ('get_density', 'get_density_grid', 'load_single_samples'):
        n += memo(p, rep, p.find_method(c, name), c, lambda x: x.op == 'attr' and x.args[0].op == 'self' and x.args[1] in attrs)
    if not n:
        raise AnalysisError('no store of results found')
    identity(p, rep)
    untouched(p, rep)
    densities(p, rep)
    current(p, rep)
