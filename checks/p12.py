"""P12: rows and columns of a covariance matrix belong to the names at the same positions."""
from .common import *
from sa.project import AnalysisError

P = lambda n: mk('param', n)
FULL = mk('slice', NONE, NONE, NONE)


def need(p, c, name):
    f = p.find_method(c, name)
    if f is None:
        raise AnalysisError('%s.%s vanished' % (c.name, name))
    return f


def check(p, rep):
    rep.rule('construct', 'the names, the matrix and the size of a covariance object describe the same parameters', 2)
    rep.rule('files', 'the header of a saved file lists the names in matrix order and reading takes names and numbers from the same file; a file without names is refused', 3)
    rep.rule('merge', 'each element of a merged matrix comes from the positions of its two names in the first matrix, else in the second, else is zero', 3)
    rep.rule('rescale', 'rescaling multiplies one row and one column, those of the named parameter, by the factor once each', 1)
    rep.rule('correlation', 'each row and each column is divided once by the square root of its own original diagonal element', 1)
    rep.rule('samples', 'the matrix obtained from samples takes names and elements of the same parameters', 2)
    C = p.cls('getdist.covmat', 'CovMat')
    me = mk('self', C.qual)
    names, matrix = mk('attr', me, 'paramNames'), mk('attr', me, 'matrix')
    construct(p, rep, C, me)
    files(p, rep, C, me, names, matrix)
    merge(p, rep, C, me)
    rescale(p, rep, C, me, names, matrix)
    correlation(p, rep, C, me, matrix)
    samples(p, rep)
    scripts(p, rep)


def construct(p, rep, C, me):
    f = need(p, C, '__init__')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f, cls=C)
    rep.analysed(I)
    for st, v in rets:
        got = {n: I.res(st.heap[(me, n)], st) for n in ('matrix', 'paramNames', 'size') if (me, n) in st.heap}
        for n in ('matrix', 'paramNames', 'size'):
            if n not in got:
                rep.ob('construct', 'CovMat.%s' % n, False, 'not set', f.loc)
                continue
            for fs, l in alts(got[n], st.facts):
                if n == 'matrix':
                    rep.ob('construct', 'CovMat.matrix', source(l) is P('matrix') or l is NONE, 'set to %s' % show(l, 4), f.loc)
                elif n == 'paramNames':
                    empty = l.op == 'seq' and not l.args
                    ok = source(l) is P('paramNames') or empty and not logic.implies(fs, truth(P('paramNames')))
                    rep.ob('construct', 'CovMat.paramNames', ok, 'set to %s' % show(l, 4), f.loc)
                else:
                    none = logic.implies(fs, compare('is', P('matrix'), NONE))
                    dim = l.op == 'item' and l.args[0].op == 'attr' and l.args[0].args[1] == 'shape' and source(l.args[0].args[0]) is P('matrix') and l.args[1] in (const(0), const(1), const(-1))
                    ok = dim or l is mk('len', P('matrix')) or l is mk('len', P('paramNames')) or l is const(0) and none
                    rep.ob('construct', 'CovMat.size', ok, 'size %s' % show(l, 4), f.loc)


def source(t):
    """the array or list a copy was made of"""
    while True:
        if t.op == 'meth' and t.args[1] in ('copy',) and not t.args[2]:
            t = t.args[0]
        elif t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.atleast_2d') and len(t.args[1]) == 1:
            t = t.args[1][0]
        elif t.op in ('seq', 'tuple') and len(t.args) == 1 and t.args[0].op == 'star':
            t = t.args[0].args[0]
        elif t.op == 'call' and t.args[0] in (mk('builtin', 'list'), mk('builtin', 'tuple')) and len(t.args[1]) == 1:
            t = t.args[1][0]
        else:
            return t


def strip(t):
    while t.op == 'meth' and t.args[1] in ('strip', 'rstrip', 'lstrip', 'encode', 'decode'):
        t = t.args[0]
    return t


def files(p, rep, C, me, names, matrix):
    f = need(p, C, 'saveToFile')
    I = Interp(p, inline=policy('CovMat.paramNameString'))
    I.run_function(f, cls=C)
    rep.analysed(I)
    wr = [e for e in I.events if e.kind == 'meth' and e.name in ('write', 'writelines')]
    sv = [e for e in I.events if e.kind == 'call' and e.fn.op == 'ext' and e.fn.args[0] == 'numpy.savetxt']
    if not sv:
        rep.note('files', 'CovMat.saveToFile', 'does not use savetxt')
    else:
        e = sv[0]
        rep.ob('files', 'saved numbers', len(sv) == 1 and source(e.args[1]) is matrix and not e.facts, 'saves %s' % show(e.args[1], 4), e.loc)
        head = None
        if e.kw('header') is not None:
            h = e.kw('header')
            com = e.kw('comments')
            head = com is None or com.op == 'const' and str(cval(com)).startswith('#')
            ok = head and any_sub(h, lambda x: x is mk('join', const(' '), names) or x is mk('meth', const(' '), 'join', (names,), ()))
            rep.ob('files', 'saved header', ok, 'header %s' % show(h, 4), e.loc)
        else:
            w = [x for x in wr if x.seq < e.seq and not x.facts and x.base is e.args[0]]
            ok = False
            for x in w[:1]:
                t = strip(x.args[0])
                ok = t.op == 'concat' and t.args[0].op == 'const' and str(cval(t.args[0])).lstrip().startswith('#') and t.args[-1].op == 'const' and str(cval(t.args[-1])).endswith('\n') and \
                    any(a.op == 'join' and a.args[1] is names and not str(cval(a.args[0]) if a.args[0].op == 'const' else 'x').strip() for a in t.args)
            rep.ob('files', 'saved header', ok, 'the first line is %s' % [show(x.args[0], 5) for x in w[:1]], e.loc)
            late = [x for x in wr if x.seq > e.seq]
            rep.ob('files', 'nothing follows the numbers', not late, '', e.loc)
    f = need(p, C, 'loadFromFile')
    I = Interp(p, inline=policy())
    rets, raised = I.run_function(f, cls=C)
    rep.analysed(I)
    for st, v in rets:
        nm, mt, sz = (I.res(st.heap.get((me, n), NONE), st) for n in ('paramNames', 'matrix', 'size'))
        first = None
        ok = nm.op == 'meth' and nm.args[1] == 'split' and nm.args[2] in ((), (NONE,), (const(' '),))
        if ok:
            t = strip(nm.args[0])
            if t.op == 'item' and t.args[1].op == 'slice' and t.args[1].args[0] in (const(1),) and t.args[1].args[1] is NONE:
                first = strip(t.args[0])
            elif t.op == 'meth' and t.args[1] in ('replace', 'lstrip', 'strip', 'removeprefix'):
                first = strip(t.args[0])
        if first is None:
            whole = strip(nm.args[0]) if ok else None
            if whole is not None and whole.op == 'meth' and whole.args[1] == 'readline':
                rep.ob('files', 'names read from the header', False, 'the comment character is not removed', f.loc)
            elif any_sub(nm, lambda x: x.op == 'meth' and x.args[1] in ('readline', 'readlines', 'read')) or any_sub(nm, lambda x: x.op == 'elem'):
                rep.note('files', 'CovMat.loadFromFile names', 'header expression not recognised: %s' % show(nm, 5))
            else:
                rep.ob('files', 'names read from the header', False, 'names are %s' % show(nm, 5), f.loc)
            continue
        fh = first.args[0] if first.op == 'meth' and first.args[1] == 'readline' else None
        rep.ob('files', 'names read from the header', fh is not None or first.op == 'item' and first.args[1] is const(0), 'names are %s' % show(nm, 5), f.loc)
        rep.ob('files', 'header required', any(any_sub(x, lambda y: y is const('#')) and x.op != 'not' for x in st.facts), 'a file without header is accepted', f.loc)
        m2 = source(mt)
        lt = m2.op == 'call' and m2.args[0].op == 'ext' and m2.args[0].args[0] in ('numpy.loadtxt', 'numpy.genfromtxt')
        src = m2.args[1][0] if lt and m2.args[1] else None
        kw = dict(m2.args[2]) if lt else {}
        ok = src is not None and (src is fh or src is P('filename'))
        nd = lt and (kw.get('ndmin') is const(2) or mt is not m2)
        rep.ob('files', 'numbers read from the same file', ok and 'skiprows' not in kw and 'usecols' not in kw and 'unpack' not in kw, 'matrix is %s' % show(mt, 4), f.loc)
        rep.ob('files', 'a single parameter gives a matrix', nd, 'a file with one parameter is not read as a matrix', f.loc)
        rep.ob('files', 'size of a loaded matrix', sz is mk('len', nm) or sz.op == 'item' and sz.args[0] is mk('attr', mt, 'shape') or sz is mk('len', mt), 'size is %s' % show(sz, 4), f.loc)
    rep.ob('files', 'file without names refused', bool(raised) or any(e.kind == 'raise' for e in I.events), 'no error for a file without names', f.loc)


def merge(p, rep, C, me):
    f = need(p, C, 'mergeCovmatWhereNew')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f, cls=C)
    rep.analysed(I)
    o = P(f.argnames()[1])
    A, B = mk('attr', me, 'paramNames'), mk('attr', o, 'paramNames')
    obj = [v for st, v in rets]
    if len(obj) != 1 or obj[0].op != 'new':
        rep.note('merge', 'result', 'not a single new object')
        return
    obj = obj[0]
    st = rets[0][0]
    mat = st.heap.get((obj, 'matrix'))
    mat = I.res(mat, st) if mat is not None else dict(obj.args[3]).get('matrix') if len(obj.args) > 3 else None
    nm = st.heap.get((obj, 'paramNames'))
    nm = I.res(nm, st) if nm is not None else dict(obj.args[3]).get('paramNames') or mk('attr', obj, 'paramNames')
    # names of the result
    if nm is mk('attr', obj, 'paramNames'):
        ev = [e for e in I.events if e.kind == 'meth' and e.base is nm and e.name in ('extend', 'append', 'insert', 'remove', 'sort', 'reverse')]
        ext = [e for e in ev if e.name == 'extend']
        app = [e for e in ev if e.name == 'append']
        oth = [e for e in ev if e not in ext and e not in app]
        ok = bool(ev) and not oth and len(ext) >= 1 and ext[0] is ev[0] and source(ext[0].args[0]) is A and not ext[0].facts
        rep.ob('merge', 'names of the first matrix come first', ok, 'names built by %s' % [(e.name, show(e.args[0], 3)) for e in ev], f.loc)
        new = [e for e in ev[1:]]
        ok = len(new) == 1 and only_new(new[0], A, B, nm)
        rep.ob('merge', 'then the new names of the second', ok, 'names added by %s' % [(e.name, show(e.args[0], 3), [show(x, 3) for x in e.facts]) for e in new], f.loc)
    elif nm.op in ('seq', 'tuple') and len(nm.args) == 2 and nm.args[0].op == 'star':
        ok = nm.args[0].args[0] is A
        r = nm.args[1]
        ok2 = r.op == 'rep' and r.args[1] is B and r.args[0].op == 'opt' and r.args[0].args[1] is mk('elem', B) and r.args[0].args[0] is neg(compare('in', mk('elem', B), A))
        rep.ob('merge', 'names of the first matrix come first', ok, 'names are %s' % show(nm, 4), f.loc)
        rep.ob('merge', 'then the new names of the second', ok2, 'names are %s' % show(nm, 4), f.loc)
    elif nm.op == 'bin' and nm.args[0] == '+':
        rep.ob('merge', 'names of the first matrix come first', source(nm.args[1]) is A, 'names are %s' % show(nm, 4), f.loc)
    else:
        rep.note('merge', 'names', 'built as %s' % show(nm, 4))
    sz = st.heap.get((obj, 'size'))
    if sz is not None:
        sz = I.res(sz, st)
        dims = shape_of(mat)
        rep.ob('merge', 'size of the result', sz is mk('len', nm) or dims is not None and sz is dims[0] or sz.op == 'item' and sz.args[0].op == 'attr' and sz.args[0].args[1] == 'shape', 'size is %s' % show(sz, 4), f.loc)
    else:
        rep.ob('merge', 'size of the result', any(k == 'matrix' for k, _ in obj.args[3]), 'the size of the result is not set', f.loc)
    if mat is None or mat.op != 'call' or mat.args[0].op != 'ext' or mat.args[0].args[0] != 'numpy.zeros':
        rep.note('merge', 'elements', 'matrix made as %s' % (mat is not None and show(mat, 4)))
        return
    sets = [e for e in I.events if e.kind == 'setitem' and e.base is mat]
    both = {}
    for e in sets:
        ix = e.args[0]
        if ix.op == 'tuple' and len(ix.args) == 2 and all(i.op == 'idx' and i.args[0] is nm for i in ix.args):
            i, j = ix.args
            ni, nj = (mk('elem', *k.args) for k in (i, j))
            v = e.value
            if i is j:
                rep.ob('merge', 'element positions', False, 'only diagonal elements are set', e.loc)
                continue
            src = None
            ok = False
            if v.op == 'item' and v.args[1].op == 'tuple' and len(v.args[1].args) == 2 and v.args[0].op == 'attr' and v.args[0].args[1] == 'matrix':
                src = v.args[0].args[0]
                N = mk('attr', src, 'paramNames')
                w = tuple(mk('meth', N, 'index', (x,), ()) for x in (ni, nj))
                # a covariance is symmetric
                ok = v.args[1].args in (w, w[::-1])
            rep.ob('merge', 'element positions', ok, 'element (%s, %s) is %s' % ('i', 'j', show(v, 7)), e.loc)
            if src is None:
                continue
            N = mk('attr', src, 'paramNames')
            inn = [compare('in', x, N) for x in (ni, nj)]
            rep.ob('merge', 'names known to the matrix used', all(logic.implies(e.facts, x) for x in inn), 'used although a name may be missing there', e.loc)
            both[src] = (e, inn)
        elif ix.op == 'call' or ix.op == 'tuple':
            rep.note('merge', 'elements', 'set at %s' % show(ix, 4))
        else:
            rep.ob('merge', 'element positions', False, 'set at %s' % show(ix, 4), e.loc)
    if set(both) == {me, o}:
        e1, in1 = both[me]
        e2, in2 = both[o]
        rest = [x for x in e1.facts if not logic.implies(in1, x)]
        rep.ob('merge', 'the first matrix has priority', not rest and logic.contradictory(set(e2.facts) | set(in1)) or not rest and e1.seq > e2.seq, 'the second matrix can override the first', e1.loc)
        E = list(in2) + [neg(conj(in1))]
        rest = [x for x in e2.facts if not logic.implies(E, x)]
        rep.ob('merge', 'other pairs come from the second matrix', not rest, 'only if %s' % [show(x, 3) for x in rest], e2.loc)
        if len(sets) != 2:
            rep.note('merge', 'elements', '%d assignments' % len(sets))
    elif both:
        rep.ob('merge', 'both matrices are used', bool(len(sets) != len(both)), 'elements only from %s' % [show(x) for x in both], f.loc)


def only_new(e, A, B, nm):
    x = e.args[0]
    if e.name == 'append':
        if x is not mk('elem', B):
            return False
        c = [neg(compare('in', x, A)), neg(compare('in', x, nm))]
        return any(logic.implies(e.facts, k) for k in c) and all(logic.implies([k], y) or logic.implies(c, y) for k in c[:1] for y in e.facts)
    if e.name == 'extend':
        if x.op in ('seq', 'tuple') and len(x.args) == 1 and x.args[0].op == 'rep':
            b, it = x.args[0].args
            return it is B and b.op == 'opt' and b.args[1] is mk('elem', B) and b.args[0] in (neg(compare('in', mk('elem', B), A)), neg(compare('in', mk('elem', B), nm)))
    return False


def shape_of(m):
    if m is not None and m.op == 'call' and m.args[1] and m.args[1][0].op == 'tuple':
        return m.args[1][0].args
    return None


def rescale(p, rep, C, me, names, matrix):
    f = need(p, C, 'rescaleParameter')
    I = Interp(p, inline=policy())
    I.run_function(f, cls=C)
    rep.analysed(I)
    nm, sc = (P(a) for a in f.argnames()[1:3])
    ix = mk('meth', names, 'index', (nm,), ())
    sets = [e for e in I.events if e.kind == 'setitem' and source(e.base) is matrix]
    if not sets:
        whole = [e for e in I.events if e.kind == 'setattr' and e.base is me and e.name == 'matrix']
        (rep.note('rescale', 'rescaleParameter', 'matrix replaced as a whole') if whole else rep.ob('rescale', 'rescaleParameter', False, 'nothing rescaled', f.loc))
        return
    power = {'row': 0, 'col': 0}
    okall = True
    for e in sets:
        i = e.args[0]
        if i is mk('tuple', ix, FULL) or i is ix:
            w = 'row'
        elif i is mk('tuple', FULL, ix):
            w = 'col'
        elif i is mk('tuple', ix, ix):
            w = 'diag'
        else:
            rep.ob('rescale', 'position', False, 'changes %s' % show(i, 4), e.loc)
            continue
        k = power_of(e, sc)
        if k is None:
            rep.ob('rescale', 'factor', False, '%s becomes %s' % (w, show(e.value, 5)), e.loc)
            okall = False
            continue
        power.setdefault(w, 0)
        power[w] += k
        ok = logic.implies(e.facts, compare('in', nm, names))
        rep.ob('rescale', 'only a known parameter', ok or not e.facts, '', e.loc)
        rest = [x for x in e.facts if not logic.implies([compare('in', nm, names)], x)]
        rep.ob('rescale', 'every known parameter', not rest, 'only if %s' % [show(x, 4) for x in rest], e.loc)
    if okall:
        rep.ob('rescale', 'row and column', power == {'row': 1, 'col': 1}, 'factors applied: %s' % power, f.loc)


def power_of(e, sc):
    v = e.value
    if v is None:
        return None
    if v.op == 'bin' and v.args[0] == '*' and sc in v.args[1:]:
        other = [x for x in v.args[1:] if x is not sc]
        if len(other) == 1:
            o = other[0]
            if o.op == 'item' and o.args[1] is e.args[0] or o.op in ('lv', 'undef'):
                return 1
    return None


def correlation(p, rep, C, me, matrix):
    f = need(p, C, 'correlation')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f, cls=C)
    rep.analysed(I)
    size = mk('attr', me, 'size')
    ev = [e for e in I.events if e.kind == 'setitem']
    res = [I.res(v, st) for st, v in rets]
    work = {e.base for e in ev}
    if not ev or len(res) != 1 or res[0] not in work:
        for r in res:
            d = any_sub(r, lambda x: x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('numpy.diag', 'numpy.diagonal')) or any_sub(r, lambda x: x.op == 'meth' and x.args[1] == 'diagonal')
            q = any_sub(r, lambda x: x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('numpy.sqrt', 'numpy.outer')) or any_sub(r, lambda x: x.op == 'bin' and x.args[0] == '**')
            if d and q:
                rep.note('correlation', 'correlation', 'whole-matrix form: %s' % show(r, 5))
            else:
                rep.ob('correlation', 'correlation', False, 'returns %s' % show(r, 5), f.loc)
        return
    rep.ob('correlation', 'the covariance itself is not changed', all(b is not matrix for b in work), 'divides the covariance matrix in place', f.loc)
    power = {}
    for e in ev:
        i = e.args[0]
        lp = [x for x in e.loops]
        it = lp[-1][1] if lp else None
        if it is None:
            rep.note('correlation', 'correlation', 'no loop')
            return
        els = [x for x in walk(i) if x.op in ('elem', 'idx')]
        if len(set(els)) != 1:
            rep.note('correlation', 'correlation', 'index %s' % show(i, 4))
            return
        k = els[0]
        full = it is mk('call', mk('builtin', 'range'), (size,), ()) or it in (matrix, mk('attr', me, 'paramNames')) or it.op == 'call' and it.args[0] is mk('builtin', 'range') and len(it.args[1]) == 1 and it.args[1][0].op == 'item' and any_sub(it.args[1][0], lambda x: x.op == 'attr' and x.args[1] == 'shape')
        full = full or diag_root(it, matrix)
        rep.ob('correlation', 'all parameters are normalised', full and not e.facts, 'loop over %s' % show(it, 4), e.loc)
        w = 'row' if i in (mk('tuple', k, FULL), k) else 'col' if i is mk('tuple', FULL, k) else None
        v = e.value
        dg = (mk('item', matrix, mk('tuple', k, k)),)
        sg = diag_root(it, matrix) and [mk('elem', it)] or []
        sq = sg + [mk('call', mk('ext', 'numpy.sqrt'), (x,), ()) for x in dg] + [mk('bin', '**', x, const(0.5)) for x in dg] + [mk('call', mk('ext', 'math.sqrt'), (x,), ()) for x in dg]
        ok = v is not None and v.op == 'bin' and v.args[0] == '/' and v.args[2] in sq
        if w is None:
            if any_sub(i, lambda x: x.op == 'slice' and x is not FULL):
                rep.ob('correlation', 'rows and columns', False, 'changes only %s' % show(i, 4), e.loc)
            else:
                rep.note('correlation', 'correlation', 'changes %s' % show(i, 4))
            return
        rep.ob('correlation', '%s divided by the standard deviation' % w, ok, 'divided: %s' % (v is not None and show(v, 6)), e.loc)
        power[w] = power.get(w, 0) + 1
    rep.ob('correlation', 'rows and columns', power == {'row': 1, 'col': 1}, 'divided %s' % power, f.loc)


def diag_root(t, matrix):
    d = (mk('meth', matrix, 'diagonal', (), ()), mk('call', mk('ext', 'numpy.diag'), (matrix,), ()), mk('call', mk('ext', 'numpy.diagonal'), (matrix,), ()))
    return t.op == 'call' and t.args[0] is mk('ext', 'numpy.sqrt') and t.args[1][0] in d or t.op == 'bin' and t.args[0] == '**' and t.args[1] in d and t.args[2] is const(0.5)


def samples(p, rep):
    M = p.cls('getdist.mcsamples', 'MCSamples')
    me = mk('self', M.qual)
    f = need(p, M, 'getCovMat')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f, cls=M)
    rep.analysed(I)
    pn = mk('attr', me, 'paramNames')
    n = 0
    for e in I.events:
        if e.kind == 'construct' and e.fn.args[0].endswith(':CovMat'):
            n += 1
            m, nm = e.kw('matrix'), e.kw('paramNames')
            if m is None or nm is None:
                rep.ob('samples', 'getCovMat', False, 'made without names or matrix', e.loc)
                continue
            m = source(m)
            nm = source(nm)
            cut = nm.args[1].args[:2] if nm.op == 'item' and nm.args[1].op == 'slice' else None
            lst = nm.args[0] if cut else nm
            ok = cut is not None and cut[0] in (NONE, const(0)) and is_list(lst, pn)
            if is_list(nm, pn):
                rep.ob('samples', 'getCovMat: elements', m is mk('attr', me, 'fullcov'), 'matrix %s for the names of all parameters' % show(m, 5), e.loc)
                continue
            if not ok and not any_sub(nm, lambda x: x.op == 'slice'):
                rep.note('samples', 'getCovMat', 'names given as %s' % show(nm, 4))
                continue
            rep.ob('samples', 'getCovMat: names', ok and cut[1] is mk('meth', pn, 'numNonDerived', (), ()), 'names %s' % show(nm, 5), e.loc)
            ok = m.op == 'item' and m.args[1].op == 'tuple' and len(m.args[1].args) == 2 and all(s.op == 'slice' and s.args[0] in (NONE, const(0)) and cut and s.args[1] is cut[1] for s in m.args[1].args)
            full = m.op == 'item' and (m.args[0] is mk('attr', me, 'fullcov') or m.args[0].op == 'meth' and m.args[0].args[1] in ('getCov', 'cov') and not m.args[0].args[2])
            rep.ob('samples', 'getCovMat: elements', ok and full, 'matrix %s for names %s' % (show(m, 5), show(nm, 4)), e.loc)
    if not n:
        rep.note('samples', 'getCovMat', 'no CovMat constructed here')
    f = need(p, M, 'writeCovMatrix')
    I = Interp(p, inline=policy())
    I.run_function(f, cls=M)
    rep.analysed(I)
    sv = [e for e in I.events if e.kind in ('meth', 'repocall') and e.name == 'saveToFile']
    rep.ob('samples', 'writeCovMatrix', len(sv) == 1 and sv[0].base.op in ('meth', 'new') and any_sub(sv[0].base, lambda x: x.op == 'meth' and x.args[1] == 'getCovMat'), 'saves %s' % [show(e.base, 3) for e in sv], f.loc)


def is_list(t, pn):
    return t is mk('meth', pn, 'list', (), ()) or t.op == 'seq' and len(t.args) == 1 and t.args[0].op == 'rep' and t.args[0].args[1] is mk('attr', pn, 'names')


def scripts(p, rep):
    for name in ('getdist.covcomb', 'covcomb'):
        m = p.modules.get(name)
        if m is None:
            continue
        I = Interp(p, inline=policy(), budget=100000)
        I.run_module(m)
        rep.functions.add('%s:<module>' % name)
        mg = [e for e in I.events if e.kind in ('meth', 'repocall') and e.name == 'mergeCovmatWhereNew']
        for e in mg:
            old = any_sub(e.base, lambda x: x.op in ('lv', 'loop')) or any_sub(e.base, lambda x: x is const(2))
            newf = any_sub(e.args[0], lambda x: x.op == 'elem')
            rep.ob('merge', 'covcomb: earlier files have priority', old and newf, 'merges %s into %s' % (show(e.args[0], 4), show(e.base, 4)), e.loc)
    for name in ('getdist.covscale', 'covscale'):
        m = p.modules.get(name)
        if m is None:
            continue
        I = Interp(p, inline=policy(), budget=100000)
        I.run_module(m)
        rep.functions.add('%s:<module>' % name)
        for e in I.events:
            if e.kind in ('meth', 'repocall') and e.name == 'rescaleParameter':
                ix = [sorted(str(cval(x.args[1])) for x in walk(a) if x.op == 'item' and x.args[1].op == 'const') for a in e.args[:2]]
                rep.ob('rescale', 'covscale: parameter and factor', '3' in ix[0] and '4' in ix[1], 'rescales %s by %s' % (show(e.args[0], 5), show(e.args[1], 5)), e.loc)
