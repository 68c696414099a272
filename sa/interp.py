"""Forward abstract interpreter (data-flow over the syntax tree, joined at merge points).

Calls into the repository are inlined (bounded), loops are widened, branches are merged with
gated values, and every effect (call, store, raise ...) is emitted as an event that carries
the facts that hold whenever control reaches it.  Nothing is executed.
"""
import ast
import sys
from .terms import *
from .terms import _map
from . import logic
from .project import Func, Class, Module, Project, AnalysisError

sys.setrecursionlimit(20000)

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'add',
            'discard', 'fill', 'difference_update', 'popitem', 'intersection_update', 'put', 'resize', 'itemset',
            'setflags', 'partition', 'byteswap'}

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.MatMult: '@'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
          ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}
ELEMWISE_CONT = ('seq', 'tuple', 'dictc', 'setc')


_vocab = None


def vocabulary():
    """qualified names of the functions that existed when the rules were written.  Calls to these
    are events named by the function; anything else (a helper somebody extracted) is inlined."""
    global _vocab
    if _vocab is None:
        import json
        import os
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vocabulary.json')) as f:
            _vocab = frozenset(json.load(f))
    return _vocab


def policy(*inline, **kw):
    """inlining policy: the named existing functions and every function that is not vocabulary"""
    names = frozenset(inline)
    voc = vocabulary()
    opaque = frozenset(kw.get('opaque', ()))

    def pol(f, recv):
        if f.qual in opaque:
            return False
        if f.qual in names or f.qual.split(':')[1] in names:
            return True
        return f.qual not in voc

    return pol


def _protects(s):
    """names of the exceptions a try statement handles ('*' all), plus 'finally' when it has one"""
    out = []
    for h in s.handlers:
        if h.type is None:
            out.append('*')
        else:
            for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                nm = n.attr if isinstance(n, ast.Attribute) else getattr(n, 'id', '?')
                out.append('*' if nm in ('Exception', 'BaseException') else nm)
    if s.finalbody:
        out.append('finally')
    return tuple(out)


class Dead(Exception):
    """control does not continue past this point"""


def positional(sig, args, kw):
    """keyword arguments continuing the positional ones of a known signature, written positionally"""
    if not kw or not sig or any(a.op == 'star' for a in args):
        return args, kw
    d = dict(kw)
    args = list(args)
    while len(args) < len(sig) and sig[len(args)] in d:
        args.append(d.pop(sig[len(args)]))
    return tuple(args), tuple(sorted(d.items(), key=lambda x: x[0]))


class Event(object):
    __slots__ = ('kind', 'fn', 'base', 'name', 'args', 'kwargs', 'value', 'rawbase', 'rawargs', 'rawvalue', 'facts', 'func',
                 'line', 'stack', 'loops', 'seq', 'node', 'result', 'handler', 'tries', 'sig')

    def __init__(self, kind, **kw):
        for s in self.__slots__:
            setattr(self, s, None)
        self.kind = kind
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def loc(self):
        return '%s:%s' % (self.func.module.rel if hasattr(self.func, 'module') else self.func, self.line)

    @property
    def where(self):
        f = self.func
        return '%s %s' % (f.module.rel, f.qual.split(':')[1])

    def kw(self, name, default=None):
        for k, v in self.kwargs or ():
            if k == name:
                return v
        for k, v in zip(self.sig or (), self.args or ()):
            if v.op == 'star':
                break
            if k == name:
                return v
        return default

    def arg(self, i, name=None, default=None):
        """positional argument i, or the keyword argument of that name"""
        if self.args and i < len(self.args):
            return self.args[i]
        return self.kw(name if name is not None else (self.sig[i] if self.sig and i < len(self.sig) else None), default)

    def __repr__(self):
        return '<%s %s%s%s %s @%s>' % (self.kind, '' if self.fn is None else show(self.fn), '' if self.base is None else show(self.base),
                                       '' if not self.name else '.' + self.name,
                                       '' if self.args is None else [show(a) for a in self.args], self.loc)


class State(object):
    __slots__ = ('env', 'heap', 'facts', 'client')

    def __init__(self, env=None, heap=None, facts=frozenset(), client=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts
        self.client = client if client is not None else {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.facts, dict(self.client))

    def become(self, o):
        self.env, self.heap, self.facts, self.client = o.env, o.heap, o.facts, o.client


class Frame(object):
    def __init__(self, fid, func, module, parent, self_term=None, cls=None):
        self.fid = fid
        self.func = func
        self.module = module
        self.parent = parent
        self.globals = set()
        self.nonlocals = set()
        self.self_term = self_term
        self.cls = cls
        self.locals = set()
        self.is_gen = False


class Flow(object):
    def __init__(self):
        self.normal = None
        self.returns = []
        self.breaks = []
        self.continues = []


def local_names(node):
    out = set()
    glob, nonl = set(), set()
    gen = [False]

    def targets(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def visit(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Assign):
                for t in c.targets:
                    targets(t)
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
                targets(c.target)
            elif isinstance(c, ast.withitem) and c.optional_vars is not None:
                targets(c.optional_vars)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add(a.asname or a.name.split('.')[0])
            elif isinstance(c, ast.Global):
                glob.update(c.names)
            elif isinstance(c, ast.Nonlocal):
                nonl.update(c.names)
            elif isinstance(c, (ast.Yield, ast.YieldFrom)):
                gen[0] = True
            visit(c)

    visit(node)
    return out - glob - nonl, glob, nonl, gen[0]


class Interp(object):
    def __init__(self, project, max_depth=8, inline=None, type_of=None, on_event=None, join_client=None,
                 unroll=8, elem_types=None, budget=400000):
        self.p = project
        self.max_depth = max_depth
        self.inline_policy = inline or (lambda f, recv: True)
        self.type_of = type_of or (lambda t: None)
        self.on_event_cb = on_event
        self.join_client_cb = join_client
        self.unroll = unroll
        self.events = []
        self.frames = {}
        self.nframe = 0
        self.stack = []
        self.loops = []
        self.mute = 0
        self.closures = {}
        self.sites = {}
        self.raise_sink = [[]]
        self.seq = 0
        self.budget = budget
        self.steps = 0
        self.frame = None
        self.handlers = []
        self.tries = []
        self.functions_analysed = set()
        self.truncated = set()
        self._ctxid = 0
        self._dcache = {}

    # ------------------------------------------------------------ basics
    def site(self, node, extra=None):
        key = (id(node), tuple(s[1] for s in self.stack), extra)
        if key not in self.sites:
            self.sites[key] = len(self.sites)
        return self.sites[key]

    def emit(self, st, kind, node, **kw):
        self.seq += 1
        fr = self.frame
        func = fr.func if fr.func is not None else _ModFunc(fr.module)
        ev = Event(kind, facts=st.facts, func=func, line=getattr(node, 'lineno', 0),
                   stack=tuple(s[0] for s in self.stack), loops=tuple(self.loops), seq=self.seq, node=node,
                   handler=tuple(self.handlers), tries=tuple(self.tries), **kw)
        if not self.mute:
            self.events.append(ev)
        if self.on_event_cb:
            self.on_event_cb(self, ev, st)
        return ev

    def res(self, t, st, memo=None):
        """replace container allocations by their current contents"""
        if not t.args or not _has_alloc(t):
            return t
        if memo is None:
            memo = {}
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'alloc':
            c = st.heap.get((t, '$'))
            if c is None:
                return t
            memo[t] = t  # cycles resolve to the allocation itself
            r = self.res(c, st, memo)
        elif t.op in ('param', 'self', 'new', 'ext', 'func', 'cls', 'mod', 'builtin', 'lvrest'):
            r = t
        else:
            new = _map(t.args, lambda a: self.res(a, st, memo))
            r = rebuild(t.op, new) if new != t.args else t
        memo[t] = r
        return r

    def add_fact(self, st, c):
        """returns False if the state becomes unreachable"""
        c = c if c.op != 'const' else c
        if c is TRUE:
            return True
        if c.op == 'const':
            return bool(cval(c))
        fs = set(st.facts)
        todo = [c]
        while todo:
            f = todo.pop()
            if f.op == 'and':
                todo.extend(f.args)
            elif f is FALSE or neg(f) in fs:
                return False
            elif f is not TRUE:
                fs.add(f)
        st.facts = frozenset(fs)
        return True

    def decide(self, c, st):
        if c.op == 'const':
            return bool(cval(c))
        if c in st.facts:
            return True
        if neg(c) in st.facts:
            return False
        k = (c, st.facts)
        r = self._dcache.get(k, 0)
        if r == 0:
            r = self._dcache[k] = logic.decide(c, st.facts)
        return r

    # ------------------------------------------------------------ joins
    def init_heap(self, key):
        base, name = key
        if name == '$':
            return None
        if name.startswith('['):
            return None
        return mk('attr', base, name)

    def merge2(self, g, a, b):
        """state that is `a` when g holds, `b` otherwise"""
        st = State()
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is y:
                st.env[k] = x
            else:
                if x is None:
                    x = mk('undef', k[1])
                if y is None:
                    y = mk('undef', k[1])
                st.env[k] = self.join_val(g, x, y)
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y:
                st.heap[k] = x
                continue
            if x is None:
                x = self.init_heap(k)
            if y is None:
                y = self.init_heap(k)
            if x is None or y is None:
                st.heap[k] = y if x is None else x
                continue
            st.heap[k] = self.join_val(g, x, y)
        st.facts = self.join_facts([a.facts, b.facts])
        st.client = self.join_client(a.client, b.client, a, b)
        return st

    def join_val(self, g, x, y):
        if x is y:
            return x
        if x.op in ('seq', 'dictc', 'setc') and x.op == y.op:
            n = 0
            m = min(len(x.args), len(y.args))
            while n < m and x.args[n] is y.args[n]:
                n += 1
            xs, ys = x.args[n:], y.args[n:]
            if not xs or not ys or x.op == 'seq' or True:
                out = list(x.args[:n])
                out += [mk('opt', g, i) for i in xs]
                out += [mk('opt', neg(g), i) for i in ys]
                return mk(x.op, *[_norm_opt(o) for o in out])
        return ite(g, x, y)

    def join_facts(self, fl):
        common = frozenset.intersection(*fl)
        extras = [f - common for f in fl]
        if all(extras) and len(extras) <= 6 and sum(bsize(x) for e in extras for x in e) <= 16:
            d = disj([conj(sorted(e)) for e in extras])
            if d is not TRUE:
                s = set(common)
                todo = [d]
                while todo:
                    f = todo.pop()
                    if f.op == 'and':
                        todo.extend(f.args)
                    else:
                        s.add(f)
                return frozenset(s)
        return common

    def gate_of(self, ex):
        if sum(bsize(x) for x in ex) > 16:
            return mk('gate', tuple(sorted(x.uid for x in ex)))
        return conj(sorted(ex))

    def join_client(self, a, b, sa, sb):
        if self.join_client_cb:
            return self.join_client_cb(a, b, sa, sb)
        return {k: a[k] for k in a if k in b and a[k] == b[k]}

    def merge_many(self, states):
        """merge states of disjoint paths, gating by the facts that distinguish them"""
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        common = frozenset.intersection(*[s.facts for s in states])
        acc = states[-1]
        for s in reversed(states[:-1]):
            ex = s.facts - common
            g = self.gate_of(ex) if ex else mk('path', s.facts and len(s.facts) or 0)
            other = acc.facts - common
            acc = self.merge2(g, s, acc)
        acc.facts = self.join_facts([s.facts for s in states])
        return acc

    # ------------------------------------------------------------ entry points
    def isinst(self, x, ts):
        if x.op == 'ite':
            return bool_ite(x.args[0], self.isinst(x.args[1], ts), self.isinst(x.args[2], ts))
        c = self.class_of(x)
        if c is not None and all(t.op == 'cls' for t in ts):
            quals = [k.qual for k in self.p.mro(c)]
            if any(t.args[0] in quals for t in ts):
                return TRUE
            if x.op == 'new':
                return FALSE
        if x.op == 'const':
            nm = type(cval(x)).__name__
            bt = [t.args[0] for t in ts if t.op == 'builtin']
            if nm in bt:
                return TRUE
            if len(bt) == len(ts):
                return FALSE
        if x.op in ('seq', 'tuple', 'dictc', 'setc', 'concat', 'str') and all(t.op == 'builtin' for t in ts):
            m = {'seq': 'list', 'tuple': 'tuple', 'dictc': 'dict', 'setc': 'set', 'concat': 'str', 'str': 'str'}[x.op]
            return const(m in [t.args[0] for t in ts])
        if x.op in ('call', 'bin', 'item', 'meth') and is_array(x) and all(t.op == 'builtin' for t in ts):
            return FALSE
        return mk('isinstance', x, mk('tuple', *sorted(ts)))

    def run_function(self, func, args=None, cls=None, kwargs=None, facts=(), state=None, self_term=None):
        """analyse func with symbolic parameters; returns (return alternatives, exit state)"""
        st = state or State()
        st.facts = frozenset(facts)
        args = dict(args or {})
        fid = self.new_frame(func, func.module, None)
        fr = self.frames[fid]
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if cls is None:
            cls = func.cls
        fr.cls = func.cls
        if func.cls is not None and names and 'staticmethod' not in func.decorators:
            s = self_term or mk('self', (cls or func.cls).qual)
            fr.self_term = s
            if 'classmethod' in func.decorators:
                s = mk('cls', (cls or func.cls).qual)
            st.env[(fid, names[0])] = s
            names = names[1:]
        for n in names + [x.arg for x in a.kwonlyargs]:
            st.env[(fid, n)] = args.get(n, mk('param', n))
        if a.vararg:
            st.env[(fid, a.vararg.arg)] = mk('param', '*' + a.vararg.arg)
        if a.kwarg:
            st.env[(fid, a.kwarg.arg)] = args.get(a.kwarg.arg, mk('param', '**' + a.kwarg.arg))
        return self._run_body(func, fid, st)

    def run_module(self, module, facts=()):
        st = State()
        st.facts = frozenset(facts)
        fid = ('g', module.name)
        fr = Frame(fid, None, module, None)
        fr.locals = local_names(module.tree)[0]
        self.frames[fid] = fr
        self.frame = fr
        self.stack = [(_ModFunc(module), 0)]
        flow = self.exec_block(module.tree.body, st)
        self.stack = []
        return flow

    def _run_body(self, func, fid, st):
        old, self.frame = self.frame, self.frames[fid]
        self.stack.append((func, fid if not isinstance(fid, tuple) else 0))
        self.functions_analysed.add(func.qual)
        self.raise_sink.append([])
        try:
            if isinstance(func.node, ast.Lambda):
                try:
                    v = self.ev(func.node.body, st)
                    rets = [(st, v)]
                except Dead:
                    rets = []
            else:
                flow = self.exec_block(func.node.body, st)
                rets = list(flow.returns)
                if flow.normal is not None:
                    rets.append((flow.normal, NONE))
            if self.frame.is_gen:
                ya = mk('alloc', 'gen', fid)
                rets = [(s, ya) for s, v in rets]
        finally:
            self.stack.pop()
            self.frame = old
            raised = self.raise_sink.pop()
        return rets, raised

    def new_frame(self, func, module, parent):
        # frame ids are stable across loop passes: derive from call stack and call site
        key = ('frame', tuple(s[1] for s in self.stack), id(func.node), self._ctxid)
        fid = self.sites.get(key)
        if fid is None:
            fid = self.sites[key] = len(self.sites)
        fr = Frame(fid, func, module, parent)
        if not isinstance(func.node, ast.Lambda):
            fr.locals, fr.globals, fr.nonlocals, fr.is_gen = local_names(func.node)
        fr.cls = func.cls
        self.frames[fid] = fr
        return fid

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        fl = Flow()
        cur = st
        for s in stmts:
            if cur is None:
                break
            self.steps += 1
            if self.steps > self.budget:
                raise AnalysisError('analysis budget exceeded in %s' % (self.stack and self.stack[0][0].qual))
            try:
                f = self.exec_stmt(s, cur)
            except Dead:
                cur = None
                break
            fl.returns += f.returns
            fl.breaks += f.breaks
            fl.continues += f.continues
            cur = f.normal
            if cur is not None and self.snaps is not None:
                self.snaps.append(cur.copy())
        fl.normal = cur
        return fl

    snaps = None

    def exec_stmt(self, s, st):
        fl = Flow()
        fl.normal = st
        t = type(s)
        if t is ast.Expr:
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, st)
        elif t is ast.Assign:
            v = self.ev(s.value, st)
            for tg in s.targets:
                self.assign(tg, v, st, s)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st), st, s)
        elif t is ast.AugAssign:
            self.augassign(s, st)
        elif t is ast.If:
            return self.exec_if(s, st)
        elif t in (ast.For, ast.While, ast.AsyncFor):
            return self.exec_loop(s, st)
        elif t is ast.Return:
            v = NONE if s.value is None else self.ev(s.value, st)
            self.emit(st, 'return', s, value=self.res(v, st), rawvalue=v)
            fl.normal = None
            fl.returns.append((st, v))
        elif t is ast.Raise:
            v = NONE
            if s.exc is not None:
                v = self.ev(s.exc, st)
            self.emit(st, 'raise', s, value=v)
            self.raise_sink[-1].append((st.copy(), v))
            fl.normal = None
        elif t is ast.Assert:
            c = truth(self.ev(s.test, st))
            self.emit(st, 'assert', s, value=c)
            if not self.add_fact(st, c):
                fl.normal = None
        elif t in (ast.FunctionDef, ast.AsyncFunctionDef):
            self.bind_name(s.name, self.closure(s, st), st)
        elif t is ast.ClassDef:
            c = self.frame.module.classes.get(s.name)
            if c is not None and c.node is s:
                self.bind_name(s.name, mk('cls', c.qual), st)
            else:
                self.bind_name(s.name, mk('localcls', s.name), st)
        elif t is ast.Try:
            return self.exec_try(s, st)
        elif t in (ast.With, ast.AsyncWith):
            ctxs = []
            for it in s.items:
                c = self.ev(it.context_expr, st)
                ctxs.append(c)
                self.emit(st, 'with', s, value=self.res(c, st), base=c)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, c, st, s)
            f = self.exec_block(s.body, st)
            for sx in [f.normal] + [r[0] for r in f.returns]:
                if sx is not None:
                    for c in reversed(ctxs):
                        self.emit(sx, 'withexit', s, value=self.res(c, sx), base=c)
            return f
        elif t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Subscript):
                    b = self.ev(tg.value, st)
                    i = self.ev(tg.slice, st)
                    self.emit(st, 'delitem', s, base=self.res(b, st), rawbase=b, args=(self.res(i, st),))
                    self.container_op(b, mk('delk', self.res(i, st)), st)
                elif isinstance(tg, ast.Attribute):
                    b = self.ev(tg.value, st)
                    self.emit(st, 'delattr', s, base=self.res(b, st), rawbase=b, name=tg.attr)
                elif isinstance(tg, ast.Name):
                    st.env.pop((self.frame.fid, tg.id), None)
        elif t is ast.Break:
            self.emit(st, 'break', s)
            fl.normal = None
            fl.breaks.append(st)
        elif t is ast.Continue:
            fl.normal = None
            fl.continues.append(st)
        elif t in (ast.Import, ast.ImportFrom):
            self.exec_import(s, st)
        elif t in (ast.Pass, ast.Global, ast.Nonlocal):
            pass
        else:
            raise AnalysisError('unsupported statement %s at %s:%s' % (t.__name__, self.frame.module.rel, s.lineno))
        return fl

    def exec_import(self, s, st):
        for a in s.names:
            if isinstance(s, ast.Import):
                nm = a.asname or a.name.split('.')[0]
                dotted = a.name if a.asname else a.name.split('.')[0]
            else:
                nm = a.asname or a.name
                dotted = (s.module or '') + '.' + a.name
                if s.level:
                    base = self.frame.module.name.split('.')
                    base = base[:len(base) - s.level + (1 if self.frame.module.path.endswith('__init__.py') else 0)]
                    dotted = '.'.join(base + ([s.module] if s.module else []) + [a.name])
            r = self.p.resolve_dotted(dotted)
            self.bind_name(nm, self.global_term(r if r is not None else ('ext', dotted)), st)

    def exec_if(self, s, st):
        fl = Flow()
        c = truth(self.ev(s.test, st))
        d = self.decide(c, st)
        if d is True:
            return self.exec_block(s.body, st)
        if d is False:
            return self.exec_block(s.orelse, st)
        a, b = st.copy(), st
        oka = self.add_fact(a, c)
        okb = self.add_fact(b, neg(c))
        fa = self.exec_block(s.body, a) if oka else Flow()
        fb = self.exec_block(s.orelse, b) if okb else Flow()
        for x in ('returns', 'breaks', 'continues'):
            setattr(fl, x, getattr(fa, x) + getattr(fb, x))
        if fa.normal is None:
            fl.normal = fb.normal
        elif fb.normal is None:
            fl.normal = fa.normal
        else:
            fl.normal = self.merge2(gate(c), fa.normal, fb.normal)
        return fl

    def widen_val(self, site, k, init, end):
        name = k[1] if isinstance(k[1], str) else str(k[1])
        if name == '$' and init is not None and init.op in ('seq', 'dictc', 'setc'):
            return mk(init.op, *(list(init.args) + [mk('lvrest', site, k[0])]))
        if init is None:
            init = mk('undef', name)
        return mk('lv', site, name if name != '$' else 'cont', init)

    def post_val(self, site, k, init, wid, end, iterT):
        if wid is not None and wid.op in ('seq', 'dictc', 'setc') and wid.args and wid.args[-1].op == 'lvrest' and end.op == wid.op:
            n = len(wid.args)
            if end.args[:n] == wid.args:
                new = end.args[n:]
                return mk(wid.op, *(list(wid.args[:-1]) + [_mk_rep(x, iterT) for x in new]))
        name = k[1] if isinstance(k[1], str) else str(k[1])
        if init is None:
            init = mk('undef', name)
        return mk('loop', site, name, init, end)

    def exec_loop(self, s, st):
        fl = Flow()
        isfor = not isinstance(s, ast.While)
        if isfor:
            it = self.ev(s.iter, st)
            itr = self.res(it, st)
            items = self.finite_items(itr)
            if items is not None:
                return self.unrolled(s, st, items)
            if itr.op == 'ite' and all(self.finite_items(x) is not None for x in itr.args[1:]):
                return self.split_loop(s, st, itr)
            iterT = self.iter_norm(itr)
        else:
            iterT = mk('while', self.site(s))
        site = self.site(s)
        entry = st
        changed = {}
        endclient = None
        # pass A (muted): discover what the body changes; pass T (muted, only when a
        # variable looks like a counter of the iterations): test that it is one
        counters = {}
        passes = ['discover', 'final']
        while passes:
            stage = passes.pop(0)
            final = stage == 'final'
            cur = entry.copy()
            wids = {}
            for (where, k), endv in changed.items():
                d = cur.env if where == 'env' else cur.heap
                init = d.get(k)
                if init is None and where == 'heap':
                    init = self.init_heap(k)
                w = counters.get(k) if where == 'env' else None
                if w is None:
                    w = self.widen_val(site, k, init, endv)
                wids[(where, k)] = (init, w)
                d[k] = w
            if endclient is not None:
                cur.client = self.join_client(cur.client, endclient, cur, endstate)
            if not final:
                self.mute += 1
            self.loops.append((site, base_iter(iterT)))
            snaps_saved = self.snaps
            try:
                ok = True
                exit_cond = None
                if isfor:
                    el, cond = self.elem_nested(iterT)
                    if cond is not None:
                        ok = self.add_fact(cur, cond)
                    if ok:
                        self.assign(s.target, el, cur, s)
                else:
                    try:
                        c = truth(self.ev(s.test, cur))
                    except Dead:
                        c = FALSE
                    exit_state = cur.copy()
                    dd = self.decide(c, cur)
                    if not (dd is True and c is TRUE):
                        exit_cond = neg(c)
                    ok = self.add_fact(cur, c)
                body = self.exec_block(s.body, cur) if ok else Flow()
            finally:
                self.loops.pop()
                if not final:
                    self.mute -= 1
            ends = [x for x in [body.normal] + body.continues if x is not None]
            end = self.merge_many(ends) if ends else None
            if stage == 'trial':
                counters = {k: w for k, w in counters.items() if end is not None and end.env.get(k) is self.binop('+', w, const(1))}
            if stage == 'discover':
                if end is not None:
                    for where, d1, d2 in (('env', entry.env, end.env), ('heap', entry.heap, end.heap)):
                        for k, v in d2.items():
                            if d1.get(k) is not v:
                                changed[(where, k)] = v
                    endclient = end.client
                    endstate = end
                if isfor:
                    for (where, k), v in changed.items():
                        i0 = entry.env.get(k) if where == 'env' else None
                        if i0 is not None and is_const(i0) and type(cval(i0)) is int and is_const(v) and type(cval(v)) is int and cval(v) == cval(i0) + 1:
                            counters[k] = mk('idx', base_iter(iterT), *(() if cval(i0) == 0 else (i0,)))
                    if counters:
                        passes.insert(0, 'trial')
        # state after normal exhaustion
        after = entry.copy()
        if end is not None:
            for where, d1, d2 in (('env', entry.env, end.env), ('heap', entry.heap, end.heap)):
                for k, v in d2.items():
                    iw = wids.get((where, k))
                    if iw is None:
                        if d1.get(k) is v:
                            continue
                        init = d1.get(k)
                        if init is None and where == 'heap':
                            init = self.init_heap(k)
                        if init is None and where == 'heap':
                            (after.env if where == 'env' else after.heap)[k] = v
                            continue
                        iw = (init, None)
                    if where == 'env' and k in counters:
                        nv = mk('len', base_iter(iterT))
                        if cval(iw[0]) != 0:
                            nv = self.binop('+', nv, iw[0])
                        after.env[k] = nv
                        continue
                    nv = self.post_val(site, k, iw[0], iw[1], v, iterT)
                    (after.env if where == 'env' else after.heap)[k] = nv
            after.client = self.join_client(entry.client, end.client, entry, end)
        elif not isfor:
            after = exit_state
        if isfor and end is None and False:
            pass
        normal_after = after
        if not isfor:
            if exit_cond is None:
                normal_after = None
            else:
                ec = exit_cond
                if not self.add_fact(normal_after, ec):
                    normal_after = None if not _mentions_loop(ec) else normal_after
        fl.returns += body.returns
        if normal_after is not None and s.orelse:
            f2 = self.exec_block(s.orelse, normal_after)
            fl.returns += f2.returns
            fl.breaks += f2.breaks
            fl.continues += f2.continues
            normal_after = f2.normal
        outs = ([normal_after] if normal_after is not None else [])
        res = None
        for i, b in enumerate(body.breaks):
            # replace loop-head markers in break states
            res = b if res is None else self.merge2(mk('brk', site, i), res, b)
        if res is not None and normal_after is not None:
            res = self.merge2(mk('brk', site, -1), res, normal_after)
        elif res is None:
            res = normal_after
        fl.normal = res
        return fl

    def finite_items(self, t):
        if t.op == 'const' and isinstance(cval(t), tuple):
            t = mk('tuple', *[const(x) for x in cval(t)])
        if t.op in ('tuple', 'seq') and len(t.args) <= self.unroll:
            if all(x.op not in ('rep', 'opt', 'star', 'lvrest', 'upd', 'delk') for x in t.args):
                return list(t.args)
        if t.op == 'call' and t.args[0].op == 'builtin' and t.args[0].args[0] == 'range' and all(is_const(x) for x in t.args[1]):
            try:
                r = range(*[cval(x) for x in t.args[1]])
            except TypeError:
                return None
            if len(r) <= 4:
                return [const(i) for i in r]
        if t.op == 'enum':
            x = self.finite_items(t.args[0])
            if x is not None:
                return [mk('tuple', const(i), y) for i, y in enumerate(x)]
        if t.op == 'zip':
            xs = [self.finite_items(a) for a in t.args]
            if all(x is not None for x in xs):
                return [mk('tuple', *ys) for ys in zip(*xs)]
        return None

    def split_loop(self, s, st, itr):
        c = itr.args[0]
        d = self.decide(c, st)
        if d is not None:
            return self.unrolled(s, st, self.finite_items(itr.args[1 if d else 2]))
        a, b = st.copy(), st
        oka = self.add_fact(a, c)
        okb = self.add_fact(b, neg(c))
        fa = self.unrolled(s, a, self.finite_items(itr.args[1])) if oka else Flow()
        fb = self.unrolled(s, b, self.finite_items(itr.args[2])) if okb else Flow()
        fl = Flow()
        for x in ('returns', 'breaks', 'continues'):
            setattr(fl, x, getattr(fa, x) + getattr(fb, x))
        if fa.normal is None:
            fl.normal = fb.normal
        elif fb.normal is None:
            fl.normal = fa.normal
        else:
            fl.normal = self.merge2(gate(c), fa.normal, fb.normal)
        return fl

    def unrolled(self, s, st, items):
        fl = Flow()
        cur = st
        brks = []
        for x in items:
            if cur is None:
                break
            self.assign(s.target, x, cur, s)
            f = self.exec_block(s.body, cur)
            fl.returns += f.returns
            brks += f.breaks
            nxt = [y for y in [f.normal] + f.continues if y is not None]
            cur = self.merge_many(nxt) if nxt else None
        if cur is not None and s.orelse:
            f = self.exec_block(s.orelse, cur)
            fl.returns += f.returns
            fl.breaks += f.breaks
            fl.continues += f.continues
            cur = f.normal
        outs = [x for x in brks + [cur] if x is not None]
        fl.normal = self.merge_many(outs) if outs else None
        return fl

    def iter_norm(self, t):
        t = unstar(t)
        if t.op == 'call' and t.args[0].op == 'builtin' and t.args[0].args[0] in ('list', 'tuple', 'iter', 'sorted') and len(t.args[1]) == 1:
            if t.args[0].args[0] != 'sorted':
                return self.iter_norm(t.args[1][0])
        if t.op == 'meth' and t.args[1] == 'keys' and not t.args[2]:
            return self.iter_norm(t.args[0])
        return t

    def elem_of(self, it):
        """(element term, condition or None)"""
        if it.op == 'enum':
            e, c = self.elem_of(self.iter_norm(it.args[0]))
            return mk('tuple', mk('idx', base_iter(it.args[0]), *it.args[1:]), e), c
        if it.op == 'zip':
            es = [self.elem_of(self.iter_norm(x))[0] for x in it.args]
            return mk('tuple', *es), None
        x = range_len(it)
        if x is not None:
            return mk('idx', base_iter(x)), self.elem_of(x)[1] if x.op == 'seq' else None
        if it.op == 'meth' and it.args[1] in ('items', 'iteritems') and not it.args[2]:
            d = it.args[0]
            k = mk('elem', d)
            return mk('tuple', k, mk('item', d, k)), None
        if it.op == 'meth' and it.args[1] in ('values', 'itervalues') and not it.args[2]:
            d = it.args[0]
            return mk('item', d, mk('elem', d)), None
        if it.op == 'call' and show(it.args[0]) == 'six.iteritems' and it.args[1]:
            d = it.args[1][0]
            k = mk('elem', d)
            return mk('tuple', k, mk('item', d, k)), None
        if it.op in ('seq', 'tuple') and len(it.args) == 1 and it.args[0].op == 'rep':
            x = it.args[0].args[0]
            if x.op == 'opt':
                return x.args[1], x.args[0]
            return x, None
        return mk('elem', it), None

    def elem_nested(self, it):
        """elem_of for the loop just entered: inside another loop over the same collection the elements are other ones"""
        el, cond = self.elem_of(it)
        b = base_iter(it)
        k = sum(1 for _, x in self.loops[:-1] if x is b)
        if k:
            t = mk('again', const(k))
            el = again(el, iter_bases(it), t)
            if cond is not None:
                cond = again(cond, iter_bases(it), t)
        return el, cond

    def exec_try(self, s, st):
        entry = st.copy()
        saved = self.snaps
        self.snaps = [entry.copy()]
        self.raise_sink.append([])
        self.tries.append(_protects(s))
        body = self.exec_block(s.body, st)
        self.tries.pop()
        snaps = self.snaps
        self.snaps = saved
        raised = self.raise_sink.pop()
        fl = Flow()
        catches_all = False
        names = []
        for h in s.handlers:
            if h.type is None:
                catches_all = True
            else:
                for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    nm = n.attr if isinstance(n, ast.Attribute) else getattr(n, 'id', '?')
                    names.append(nm)
                    if nm in ('Exception', 'BaseException'):
                        catches_all = True
        for x in ('returns', 'breaks', 'continues'):
            setattr(fl, x, list(getattr(body, x)))
        norm = []
        if body.normal is not None:
            n = body.normal
            if s.orelse:
                f2 = self.exec_block(s.orelse, n)
                for x in ('returns', 'breaks', 'continues'):
                    setattr(fl, x, getattr(fl, x) + getattr(f2, x))
                n = f2.normal
            if n is not None:
                norm.append(n)
        # handlers: reachable from every point of the body
        escaped = []
        for rst, v in raised:
            nm = _excname(v)
            if not catches_all and nm not in names:
                escaped.append((rst, v))
        if s.handlers:
            pts = snaps[:-1] if len(snaps) > 1 else snaps
            pts = pts + [r for r, v in raised]
            hs = None
            for i, p in enumerate(pts):
                hs = p.copy() if hs is None else self.merge2(mk('exc', self.site(s), i), p, hs)
            hs.facts = frozenset.intersection(*[p.facts for p in pts])
            for hi, h in enumerate(s.handlers):
                h_st = hs.copy()
                exc = mk('excobj', self.site(s), hi)
                # keep handler paths distinguishable
                h_st.facts = h_st.facts | {mk('caught', self.site(s), hi)}
                if h.name:
                    self.bind_name(h.name, exc, h_st)
                self.handlers.append((self.site(s), ast.dump(h.type) if h.type is not None else ''))
                f = self.exec_block(h.body, h_st)
                self.handlers.pop()
                for x in ('returns', 'breaks', 'continues'):
                    setattr(fl, x, getattr(fl, x) + getattr(f, x))
                if f.normal is not None:
                    norm.append(f.normal)
        self.raise_sink[-1].extend(escaped)
        if norm:
            acc = norm[-1]
            for i, n in enumerate(reversed(norm[:-1])):
                acc = self.merge2(neg(mk('caught', self.site(s), len(norm) - 2 - i)) if len(norm) == 2 else mk('tryok', self.site(s), i), n, acc)
            fl.normal = acc
        else:
            fl.normal = None
        if s.finalbody:
            def fin(sx):
                f = self.exec_block(s.finalbody, sx)
                return f
            if fl.normal is not None:
                f = fin(fl.normal)
                fl.normal = f.normal
                fl.returns += f.returns
            newr = []
            for rs, v in fl.returns:
                f = fin(rs)
                if f.normal is not None:
                    newr.append((f.normal, v))
                newr += f.returns
            fl.returns = newr
            fl.breaks = [f.normal for f in [fin(b) for b in fl.breaks] if f.normal is not None]
            fl.continues = [f.normal for f in [fin(b) for b in fl.continues] if f.normal is not None]
            newe = []
            for rs, v in self.raise_sink[-1][len(self.raise_sink[-1]) - len(escaped):]:
                f = fin(rs)
                if f.normal is not None:
                    newe.append((f.normal, v))
            if escaped:
                self.raise_sink[-1][-len(escaped):] = newe
        return fl

    # ------------------------------------------------------------ assignment
    def bind_name(self, name, v, st):
        fr = self.frame
        if name in fr.globals:
            st.env[(('g', fr.module.name), name)] = v
            return
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if (p, name) in st.env or name in self.frames[p].locals:
                    st.env[(p, name)] = v
                    return
                p = self.frames[p].parent
        st.env[(fr.fid, name)] = v

    def assign(self, tg, v, st, node):
        if isinstance(tg, ast.Name):
            self.bind_name(tg.id, v, st)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            r = self.res(v, st) if v.op == 'alloc' else v
            n = len(tg.elts)
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(tg.elts):
                if star:
                    if i == star[0]:
                        self.assign(e.value, mk('item', r, mk('slice', const(i), NONE, NONE)), st, node)
                        continue
                    idx = i if i < star[0] else i - n
                    self.assign(e, self.item(r, const(idx)), st, node)
                else:
                    self.assign(e, self.item(r, const(i)), st, node)
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, st)
            self.set_attr(b, tg.attr, v, st, node)
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, st)
            i = self.ev(tg.slice, st)
            self.set_item(b, i, v, st, node)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, st, node)

    def set_attr(self, b, name, v, st, node):
        old = self.get_attr(b, name, st, node, quiet=True)
        self.emit(st, 'setattr', node, base=self.res(b, st), rawbase=b, name=name, value=self.res(v, st), rawvalue=v,
                  result=old)
        for cond, leaf in alternatives(b):
            if cond:
                prev = st.heap.get((leaf, name), mk('attr', leaf, name))
                st.heap[(leaf, name)] = ite(conj(cond), v, prev)
            else:
                st.heap[(leaf, name)] = v

    def set_item(self, b, i, v, st, node):
        ir = self.res(i, st)
        self.emit(st, 'setitem', node, base=self.res(b, st), rawbase=b, args=(ir,), value=self.res(v, st), rawvalue=v)
        self.container_op(b, mk('kv', ir, v), st)
        # precise tracking of constant-keyed slots
        if b.op != 'alloc':
            st.heap[(b, '[' + show(ir, 12))] = v

    def container_op(self, b, op, st):
        for cond, leaf in alternatives(b):
            if leaf.op == 'alloc':
                c = st.heap.get((leaf, '$'))
                if c is None:
                    continue
                o = mk('opt', conj(cond), op) if cond else op
                if op.op == 'kv' and c.op == 'dictc' and not cond:
                    # a later store to the same constant key replaces the earlier one
                    if not any(x.op in ('lvrest',) for x in c.args):
                        c = mk('dictc', *[x for x in c.args if not (x.op == 'kv' and x.args[0] is op.args[0])])
                st.heap[(leaf, '$')] = _grow(c, [o])

    def augassign(self, s, st):
        op = BINOPS[type(s.op)]
        v = self.ev(s.value, st)
        tg = s.target
        if isinstance(tg, ast.Name):
            old = self.lookup(tg.id, st)
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, st)
            old = self.get_attr(b, tg.attr, st, s)
        else:
            b = self.ev(tg.value, st)
            i = self.ev(tg.slice, st)
            old = self.get_item(b, i, st)
        # list += list mutates in place
        if old.op == 'alloc' and op == '+' and old.args[0] == 'list':
            self.emit(st, 'inplace', s, base=self.res(old, st), rawbase=old, name=op, value=self.res(v, st), rawvalue=v)
            self.extend(old, v, st)
            return
        if old.op == 'ite' and op == '+' and all(l.op == 'alloc' and l.args[0] == 'list' for _, l in alternatives(old)):
            self.emit(st, 'inplace', s, base=self.res(old, st), rawbase=old, name=op, value=self.res(v, st), rawvalue=v)
            self.mutate_alternatives(old, st, lambda leaf: self.extend(leaf, v, st))
            return
        rv = self.res(v, st)
        ro = self.res(old, st)
        self.emit(st, 'inplace', s, base=ro, rawbase=old, name=op, value=rv, rawvalue=v,
                  args=(mk('tgt', type(tg).__name__),))
        new = self.binop(op, ro, rv)
        if isinstance(tg, ast.Name):
            self.bind_name(tg.id, new, st)
        elif isinstance(tg, ast.Attribute):
            self.set_attr(b, tg.attr, new, st, s)
        else:
            self.set_item(b, i, new, st, s)

    def extend(self, alloc, v, st):
        c = st.heap.get((alloc, '$'))
        r = self.res(v, st)
        if c is None:
            return
        st.heap[(alloc, '$')] = _grow(c, self.spread(r))

    def spread(self, r):
        if r.op in ('seq', 'tuple', 'setc'):
            return list(r.args)
        if r.op == 'call' and r.args[0].op == 'builtin' and r.args[0].args[0] in ('list', 'tuple') and len(r.args[1]) == 1:
            return self.spread(r.args[1][0])
        return [mk('star', r)]

    # ------------------------------------------------------------ expressions
    def lookup(self, name, st):
        fr = self.frame
        if name not in fr.globals:
            f = fr
            while f is not None:
                k = (f.fid, name)
                if k in st.env:
                    return st.env[k]
                if name in f.locals and f is fr and f.func is not None:
                    return mk('undef', name)
                f = self.frames.get(f.parent) if f.parent is not None else None
        k = (('g', fr.module.name), name)
        if k in st.env:
            return st.env[k]
        return self.global_term(self.p.resolve_global(fr.module, name), name)

    def global_term(self, r, name='?'):
        if isinstance(r, Func):
            return mk('func', r.qual)
        if isinstance(r, Class):
            return mk('cls', r.qual)
        if isinstance(r, Module):
            return mk('mod', r.name)
        if isinstance(r, tuple):
            if r[0] == 'ext':
                return mk('ext', r[1])
            if r[0] == 'builtin':
                return mk('builtin', r[1])
            if r[0] == 'const':
                try:
                    v = ast.literal_eval(r[1])
                    if v is None or isinstance(v, (str, int, float, bool, bytes)):
                        return const(v)
                    if isinstance(v, tuple):
                        return mk('tuple', *[const(x) for x in v])
                except (ValueError, TypeError, SyntaxError):
                    pass
                if isinstance(r[1], (ast.Name, ast.Attribute)):
                    d = _dotted(r[1])
                    if d:
                        h = d.split('.')[0]
                        b = self.global_term(self.p.resolve_global(r[2], h), h) if h != name else None
                        if b is not None and b.op in ('ext', 'mod', 'func', 'cls'):
                            for part in d.split('.')[1:]:
                                b = self.get_attr(b, part, State(), r[1], quiet=True)
                            return b
                return mk('glob', r[2].name, name)
            if r[0] == 'glob':
                return mk('glob', r[1], r[2])
        return mk('name', name)

    def ev(self, n, st):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError('unsupported expression %s at %s:%s' % (type(n).__name__, self.frame.module.rel, getattr(n, 'lineno', 0)))
        return m(n, st)

    def ev_Constant(self, n, st):
        return const(n.value) if not isinstance(n.value, type(Ellipsis)) else mk('ellipsis')

    def ev_Name(self, n, st):
        return self.lookup(n.id, st)

    def ev_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.bind_name(n.target.id, v, st)
        return v

    watch = ()

    def ev_Attribute(self, n, st):
        b = self.ev(n.value, st)
        v = self.get_attr(b, n.attr, st, n)
        if n.attr in self.watch:
            self.emit(st, 'getattr', n, base=self.res(b, st), rawbase=b, name=n.attr, value=self.res(v, st), rawvalue=v)
        return v

    def class_of(self, b):
        """repository class of the object denoted by term b, if known"""
        if b.op in ('self', 'new'):
            return self._cls(b.args[0])
        c = self.type_of(b)
        if c is not None:
            return c
        return None

    def _cls(self, qual):
        m, n = qual.split(':')
        mod = self.p.modules.get(m)
        return mod.classes.get(n) if mod else None

    def get_attr(self, b, name, st, node, quiet=False):
        v = st.heap.get((b, name))
        if v is not None:
            return v
        if b.op == 'ite':
            return ite(b.args[0], self.get_attr(b.args[1], name, st, node, quiet), self.get_attr(b.args[2], name, st, node, quiet))
        if b.op == 'mod':
            m = self.p.modules[b.args[0]]
            k = (('g', m.name), name)
            if k in st.env:
                return st.env[k]
            r = self.p.resolve_global(m, name)
            if r is None or (isinstance(r, tuple) and r[0] == 'builtin'):
                return mk('attr', b, name)
            return self.global_term(r, name)
        if b.op == 'ext':
            return mk('ext', b.args[0] + '.' + name)
        if b.op == 'cls':
            c = self._cls(b.args[0])
            if c is not None:
                f = self.p.find_method(c, name)
                if f is not None:
                    if 'classmethod' in f.decorators:
                        return mk('bound', b, f.qual)
                    return mk('func', f.qual)
                a = self.p.find_class_attr(c, name)
                if a is not None:
                    try:
                        return const(ast.literal_eval(a[1])) if not isinstance(ast.literal_eval(a[1]), (list, dict, set)) else mk('clsattr', a[0].qual, name)
                    except (ValueError, TypeError, SyntaxError):
                        return mk('clsattr', a[0].qual, name)
            return mk('attr', b, name)
        c = self.class_of(b)
        if c is not None:
            f = self.p.find_method(c, name)
            if f is not None:
                if 'property' in f.decorators and not quiet:
                    return self.invoke(f, b, [], [], st, node)
                if 'staticmethod' in f.decorators:
                    return mk('func', f.qual)
                return mk('bound', b, f.qual)
            a = self.p.find_class_attr(c, name)
            if a is not None and b.op == 'new':
                try:
                    v = ast.literal_eval(a[1])
                    if not isinstance(v, (list, dict, set)):
                        return const(v) if not isinstance(v, tuple) else mk('tuple', *[const(x) for x in v])
                except (ValueError, TypeError, SyntaxError):
                    pass
                return mk('clsattr', a[0].qual, name)
        return mk('attr', b, name)

    def ev_Subscript(self, n, st):
        b = self.ev(n.value, st)
        i = self.ev(n.slice, st)
        return self.get_item(b, i, st)

    def ev_Index(self, n, st):
        return self.ev(n.value, st)

    def ev_Slice(self, n, st):
        return mk('slice', *[NONE if x is None else self.res(self.ev(x, st), st) for x in (n.lower, n.upper, n.step)])

    def ev_ExtSlice(self, n, st):
        return mk('tuple', *[self.ev(x, st) for x in n.dims])

    def get_item(self, b, i, st):
        ir = self.res(i, st)
        if b.op != 'alloc':
            v = st.heap.get((b, '[' + show(ir, 12)))
            if v is not None:
                return v
        else:
            c = st.heap.get((b, '$'))
            if c is not None and c.op == 'dictc':
                for kv in reversed(c.args):
                    if kv.op == 'kv' and kv.args[0] is ir:
                        return kv.args[1]
                    if kv.op == 'kv' and is_const(kv.args[0]) and is_const(ir):
                        continue
                    break
            if c is not None and c.op == 'seq':
                r = self.item(c, ir)
                if r.op != 'item':
                    return r
        if b.op == 'ite' and any(l.op == 'alloc' for l in leaves(b)):
            return ite(b.args[0], self.get_item(b.args[1], i, st), self.get_item(b.args[2], i, st))
        return self.item(self.res(b, st), ir)

    def item(self, b, i):
        if is_const(i) and isinstance(cval(i), int):
            k = cval(i)
            if b.op in ('tuple', 'seq'):
                if all(x.op not in ('rep', 'opt', 'star', 'lvrest') for x in b.args):
                    if -len(b.args) <= k < len(b.args):
                        return b.args[k]
                elif 0 <= k < len(b.args) and all(x.op not in ('rep', 'opt', 'star', 'lvrest') for x in b.args[:k + 1]):
                    return b.args[k]
            if b.op == 'ite':
                x, y = self.item(b.args[1], i), self.item(b.args[2], i)
                return ite(b.args[0], x, y)
            if b.op == 'loop' and b.args[2].op in ('tuple', 'loop', 'undef'):
                pass
        if i.op == 'idx' and len(i.args) == 1 and i.args[0] is base_iter(b) and b.op not in ('dictc', 'const'):
            return self.elem_of(b)[0]
        if i.op == 'idx' and len(i.args) == 2 and i.args[1].op == 'again' and i.args[0] is base_iter(b) and b.op not in ('dictc', 'const'):
            return again(self.elem_of(b)[0], iter_bases(b), i.args[1])
        if b.op == 'dictc' and len(b.args) == 1 and b.args[0].op == 'rep' and b.args[0].args[0].op == 'kv' and i.op not in ('const',):
            k, v = b.args[0].args[0].args
            if k.op in ('idx', 'elem') and len(k.args) == 1:
                B = k.args[0]
                if i is k:
                    return v
                if i.op == k.op and len(i.args) == 2 and i.args[0] is B and i.args[1].op == 'again':
                    return again(v, {B}, i.args[1])
                if k.op == 'elem' and v is mk('idx', B):
                    return mk('meth', B, 'index', (i,), ())
        if is_const(i) and b.op == 'dictc':
            for kv in reversed(b.args):
                if kv.op == 'kv' and kv.args[0] is i:
                    return kv.args[1]
                if kv.op == 'kv' and is_const(kv.args[0]):
                    continue
                break
        if b.op == 'const' and is_const(i):
            try:
                return const(cval(b)[cval(i)])
            except Exception:
                pass
        # (a, b)[cond] selection idiom
        if b.op == 'tuple' and len(b.args) == 2 and i.op in ('cmp', 'not', 'and', 'or'):
            return ite(i, b.args[1], b.args[0])
        return mk('item', b, i)

    def ev_Tuple(self, n, st):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out += self.spread(self.res(self.ev(e.value, st), st))
            else:
                out.append(self.ev(e, st))
        return mk('tuple', *out)

    def alloc(self, kind, op, items, node, st, extra=None):
        a = mk('alloc', kind, self.site(node, extra))
        st.heap[(a, '$')] = mk(op, *items)
        return a

    def ev_List(self, n, st):
        t = self.ev_Tuple(n, st)
        return self.alloc('list', 'seq', t.args, n, st)

    def ev_Set(self, n, st):
        t = self.ev_Tuple(n, st)
        return self.alloc('set', 'setc', t.args, n, st)

    def ev_Dict(self, n, st):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                items.append(mk('upd', self.res(self.ev(v, st), st)))
            else:
                items.append(mk('kv', self.res(self.ev(k, st), st), self.ev(v, st)))
        return self.alloc('dict', 'dictc', items, n, st)

    def ev_BinOp(self, n, st):
        a = self.res(self.ev(n.left, st), st)
        b = self.res(self.ev(n.right, st), st)
        r = self.binop(BINOPS[type(n.op)], a, b)
        if r.op == 'seq':
            return self.alloc('list', 'seq', r.args, n, st)
        return r

    def binop(self, op, a, b):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                if op == '+':
                    return const(x + y)
                if op == '-':
                    return const(x - y)
                if op == '*' and not isinstance(x, str) and not isinstance(y, str):
                    return const(x * y)
                if op == '/':
                    return const(x / y)
                if op == '//':
                    return const(x // y)
            except Exception:
                pass
        if op == '+':
            if _is_str(a) or _is_str(b):
                return concat([a, b])
            if a.op == 'seq' or b.op == 'seq':
                return mk('seq', *(self.spread(a) + self.spread(b)))
            if a.op == 'tuple' and b.op == 'tuple':
                return mk('tuple', *(a.args + b.args))
        if op == '*' and a.op == 'seq' and len(a.args) == 1:
            return mk('seq', _mk_rep(a.args[0], mk('times', b)))
        if op == '%' and a.op == 'const' and isinstance(cval(a), str):
            r = percent_format(cval(a), b)
            if r is not None:
                return r
        return mk('bin', op, a, b)

    def ev_UnaryOp(self, n, st):
        v = self.res(self.ev(n.operand, st), st)
        if isinstance(n.op, ast.Not):
            return neg(truth(v))
        if is_const(v) and isinstance(n.op, ast.USub) and isinstance(cval(v), (int, float)):
            return const(-cval(v))
        return mk('un', {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(n.op)], v)

    def ev_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        vals = []
        saved = st.facts
        extra = []
        for x in n.values:
            try:
                v = self.ev(x, st)
            except Dead:
                break
            vals.append(self.res(v, st) if v.op == 'alloc' and False else v)
            t = truth(self.res(v, st))
            f = t if isand else neg(t)
            st2 = State(st.env, st.heap, st.facts, st.client)
            if not self.add_fact(st2, f):
                break
            st.facts = st2.facts
        st.facts = saved
        acc = vals[-1]
        for v in reversed(vals[:-1]):
            t = truth(self.res(v, st))
            acc = ite(t, acc, v) if isand else ite(t, v, acc)
        # boolean-valued result: normalise to and/or
        ts = [truth(self.res(v, st)) for v in vals]
        if all(_is_boolean(t) for t in ts) and all(_is_boolean(self.res(v, st)) for v in vals):
            return conj(ts) if isand else disj(ts)
        return acc

    def ev_Compare(self, n, st):
        left = self.res(self.ev(n.left, st), st)
        parts = []
        for op, r in zip(n.ops, n.comparators):
            right = self.res(self.ev(r, st), st)
            parts.append(compare(CMPOPS[type(op)], left, right))
            left = right
        return conj(parts) if len(parts) > 1 else parts[0]

    def ev_IfExp(self, n, st):
        c = truth(self.res(self.ev(n.test, st), st))
        d = self.decide(c, st)
        if d is True:
            return self.ev(n.body, st)
        if d is False:
            return self.ev(n.orelse, st)
        a, b = st.copy(), st.copy()
        oka, okb = self.add_fact(a, c), self.add_fact(b, neg(c))
        va = vb = None
        if oka:
            try:
                va = self.ev(n.body, a)
            except Dead:
                va = None
        if okb:
            try:
                vb = self.ev(n.orelse, b)
            except Dead:
                vb = None
        if va is None and vb is None:
            raise Dead()
        if va is None:
            st.become(b)
            return vb
        if vb is None:
            st.become(a)
            return va
        facts = st.facts
        m = self.merge2(c, a, b)
        m.facts = facts
        st.become(m)
        if va.op == 'alloc' and vb.op == 'alloc' and False:
            pass
        return ite(c, va, vb)

    def ev_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.ev_FormattedValue(v, st))
        return concat(parts)

    def ev_FormattedValue(self, v, st):
        x = self.res(self.ev(v.value, st), st)
        if v.format_spec is not None:
            spec = self.ev(v.format_spec, st)
            return mk('fmt', cstr(spec) if cstr(spec) is not None else '?', x)
        return strterm(x)

    def ev_Lambda(self, n, st):
        return self.closure(n, st)

    def closure(self, n, st):
        s = self.site(n)
        key = mk('closure', s)
        cls = self.frame.cls
        f = Func(self.frame.module, n, None)
        f.qual = (self.frame.func.qual if self.frame.func else self.frame.module.name + ':') + '.' + f.name
        f.cls_ctx = cls
        self.closures[key] = (f, self.frame.fid)
        return key

    def ev_Yield(self, n, st):
        v = NONE if n.value is None else self.ev(n.value, st)
        self.emit(st, 'yield', n, value=self.res(v, st), rawvalue=v)
        ya = mk('alloc', 'gen', self.frame.fid)
        c = st.heap.get((ya, '$')) or mk('seq')
        st.heap[(ya, '$')] = _grow(c, [v])
        return mk('sent', self.site(n))

    def ev_YieldFrom(self, n, st):
        v = self.ev(n.value, st)
        self.emit(st, 'yield', n, value=mk('star', self.res(v, st)), rawvalue=v)
        ya = mk('alloc', 'gen', self.frame.fid)
        c = st.heap.get((ya, '$')) or mk('seq')
        st.heap[(ya, '$')] = _grow(c, self.spread(self.res(v, st)))
        return NONE

    def ev_Starred(self, n, st):
        return mk('star', self.res(self.ev(n.value, st), st))

    def ev_Await(self, n, st):
        return self.ev(n.value, st)

    # comprehensions
    def comp(self, n, st, mkelt):
        fr = self.frame
        fid = self.site(n, 'comp')
        cf = Frame(fid, fr.func, fr.module, fr.fid, fr.self_term, fr.cls)
        cf.globals = fr.globals
        self.frames[fid] = cf

        def rec(k, s):
            if k == len(n.generators):
                return mkelt(s)
            g = n.generators[k]
            itv = self.ev(g.iter, s)
            it = self.iter_norm(self.res(itv, s))
            items = self.finite_items(it)
            s2 = s.copy()
            if items is not None and len(items) <= self.unroll:
                out = []
                for x in items:
                    s3 = s2.copy()
                    self.assign(g.target, x, s3, n)
                    c = self.conds(g.ifs, s3)
                    if c is FALSE:
                        continue
                    if not self.add_fact(s3, c):
                        continue
                    r = rec(k + 1, s3)
                    r = r if isinstance(r, list) else [r]
                    out += [_norm_opt(mk('opt', c, y)) if c is not TRUE else y for y in r]
                return out
            self.loops.append((self.site(g, 'gen'), base_iter(it)))
            try:
                el, cond = self.elem_nested(it)
                if cond is not None:
                    self.add_fact(s2, cond)
                self.assign(g.target, el, s2, n)
                c = self.conds(g.ifs, s2)
                if not self.add_fact(s2, c):
                    return []
                r = rec(k + 1, s2)
            finally:
                self.loops.pop()
            r = r if isinstance(r, list) else [r]
            cc = conj([x for x in (cond, c) if x is not None])
            # iterating over rep(e, it0): fuse
            base = it
            if it.op in ('seq', 'tuple') and len(it.args) == 1 and it.args[0].op == 'rep':
                base = it.args[0].args[1]
            return [_mk_rep(_norm_opt(mk('opt', cc, y)) if cc is not TRUE else y, base) for y in r]

        self.frame = cf
        try:
            facts = st.facts
            r = rec(0, st)
            st.facts = facts
        finally:
            self.frame = fr
        return r if isinstance(r, list) else [r]

    def conds(self, ifs, s):
        saved = s.facts
        out = []
        for i in ifs:
            c = truth(self.res(self.ev(i, s), s))
            out.append(c)
            if not self.add_fact(s, c):
                s.facts = saved
                return FALSE
        s.facts = saved
        return conj(out)

    def ev_ListComp(self, n, st):
        items = self.comp(n, st, lambda s: self.res(self.ev(n.elt, s), s))
        return self.alloc('list', 'seq', items, n, st)

    def ev_GeneratorExp(self, n, st):
        items = self.comp(n, st, lambda s: self.res(self.ev(n.elt, s), s))
        return mk('seq', *items)

    def ev_SetComp(self, n, st):
        items = self.comp(n, st, lambda s: self.res(self.ev(n.elt, s), s))
        return self.alloc('set', 'setc', items, n, st)

    def ev_DictComp(self, n, st):
        items = self.comp(n, st, lambda s: mk('kv', self.res(self.ev(n.key, s), s), self.res(self.ev(n.value, s), s)))
        return self.alloc('dict', 'dictc', items, n, st)

    # ------------------------------------------------------------ calls
    def ev_Call(self, n, st):
        # super().m(...)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and \
                isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
            return self.call_super(n, st)
        f = None
        if isinstance(n.func, ast.Attribute):
            b = self.ev(n.func.value, st)
            name = n.func.attr
            args, kwargs = self.eval_args(n, st)
            if b.op == 'ite' and (any(self.class_of(l) is not None for l in leaves(b))):
                return self.call_on_ite(b, name, args, kwargs, st, n)
            return self.call_method(b, name, args, kwargs, st, n)
        f = self.ev(n.func, st)
        args, kwargs = self.eval_args(n, st)
        return self.call(f, args, kwargs, st, n)

    def call_on_ite(self, b, name, args, kwargs, st, n):
        if b.op != 'ite':
            return self.call_method(b, name, args, kwargs, st, n)
        c = b.args[0]
        d = self.decide(c, st)
        if d is True:
            return self.call_on_ite(b.args[1], name, args, kwargs, st, n)
        if d is False:
            return self.call_on_ite(b.args[2], name, args, kwargs, st, n)
        s1, s2 = st.copy(), st.copy()
        v1 = v2 = None
        if self.add_fact(s1, c):
            try:
                v1 = self.call_on_ite(b.args[1], name, args, kwargs, s1, n)
            except Dead:
                pass
        if self.add_fact(s2, neg(c)):
            try:
                v2 = self.call_on_ite(b.args[2], name, args, kwargs, s2, n)
            except Dead:
                pass
        if v1 is None and v2 is None:
            raise Dead()
        if v1 is None:
            st.become(s2)
            return v2
        if v2 is None:
            st.become(s1)
            return v1
        st.become(self.merge2(c, s1, s2))
        return ite(c, v1, v2)

    def eval_args(self, n, st):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.res(self.ev(a.value, st), st)
                args += self.spread(v)
            else:
                args.append(self.ev(a, st))
        kwargs = []
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                r = self.res(v, st)
                if r.op == 'dictc' and all(x.op == 'kv' and cstr(x.args[0]) is not None for x in r.args):
                    kwargs += [(cstr(x.args[0]), x.args[1]) for x in r.args]
                else:
                    kwargs.append(('**', v))
            else:
                kwargs.append((k.arg, v))
        return args, kwargs

    def call_super(self, n, st):
        fr = self.frame
        while fr is not None and fr.self_term is None and fr.parent is not None:
            fr = self.frames.get(fr.parent)
        name = n.func.attr
        args, kwargs = self.eval_args(n, st)
        s = fr.self_term if fr else None
        if s is None and self.frame.func is not None and self.frame.func.cls is not None:
            an = self.frame.func.argnames()
            s = st.env.get((self.frame.fid, an[0])) if an else None
        cls = self.frame.cls
        if s is not None and cls is not None:
            rc = self.class_of(s) or cls
            f = self.p.find_method(rc, name, after=cls)
            if f is not None:
                return self.invoke(f, s, args, kwargs, st, n)
        return self.opaque_meth(mk('super', s if s is not None else NONE), name, args, kwargs, st, n)

    def call_method(self, b, name, args, kwargs, st, n):
        # containers
        if b.op == 'alloc':
            r = self.alloc_method(b, name, args, kwargs, st, n)
            if r is not None:
                return r
        if b.op == 'ite' and name in MUTATORS:
            self.mutate_alternatives(b, st, lambda leaf: self.alloc_method(leaf, name, args, kwargs, st, n))
        if b.op in ('mod', 'ext', 'cls'):
            return self.call(self.get_attr(b, name, st, n), args, kwargs, st, n)
        v = st.heap.get((b, name))
        if v is not None:
            return self.call(v, args, kwargs, st, n)
        c = self.class_of(b)
        if c is not None:
            f = self.p.find_method(c, name)
            if f is not None:
                if 'staticmethod' in f.decorators:
                    return self.invoke(f, None, args, kwargs, st, n)
                return self.invoke(f, b, args, kwargs, st, n)
        return self.opaque_meth(b, name, args, kwargs, st, n)

    def opaque_meth(self, b, name, args, kwargs, st, n):
        rb = self.res(b, st)
        ra = tuple(self.res(a, st) for a in args)
        rk = tuple(sorted((k, self.res(v, st)) for k, v in kwargs))
        sig = self.method_sig(name)
        ra, rk = positional(sig, ra, rk)
        r = self.fold_meth(rb, name, ra, rk)
        if r is None:
            r = mk('meth', rb, name, ra, rk)
        self.emit(st, 'meth', n, base=rb, rawbase=b, name=name, args=ra, kwargs=rk, rawargs=tuple(args), result=r, sig=sig)
        if name in MUTATORS:
            self.note_mutation(b, name, args, st)
        return r

    def method_sig(self, name):
        """the parameter names shared by all repository methods of that name (they are the same method for a caller)"""
        cache = self.p.__dict__.setdefault('_method_sigs', {})
        if name not in cache:
            sig = None
            for m in self.p.modules.values():
                for c in m.classes.values():
                    f = c.methods.get(name)
                    if f is not None:
                        a = f.argnames() if 'staticmethod' in f.decorators else f.argnames()[1:]
                        if sig is None:
                            sig = a
                        else:
                            k = 0
                            while k < min(len(a), len(sig)) and a[k] == sig[k]:
                                k += 1
                            sig = sig[:k]
            cache[name] = tuple(sig or ())
        return cache[name]

    def note_mutation(self, b, name, args, st):
        pass

    def fold_meth(self, b, name, args, kwargs):
        if name == 'join' and cstr(b) is not None and len(args) == 1:
            a = args[0]
            if a.op in ('seq', 'tuple') and all(x.op not in ('rep', 'opt', 'star', 'lvrest') for x in a.args):
                parts = []
                for i, x in enumerate(a.args):
                    if i:
                        parts.append(b)
                    parts.append(x)
                return concat(parts)
            return mk('join', b, a)
        if cstr(b) is not None and all(is_const(a) for a in args) and name in ('strip', 'lower', 'upper', 'rstrip', 'lstrip', 'replace', 'split'):
            try:
                v = getattr(cval(b), name)(*[cval(a) for a in args])
                return const(v) if not isinstance(v, list) else mk('seq', *[const(x) for x in v])
            except Exception:
                return None
        if name == 'issubset' and len(args) == 1 and b.op == 'setc' and len(b.args) <= 6 and all(x.op not in ('rep', 'opt', 'star', 'lvrest') for x in b.args):
            return conj([compare('in', x, args[0]) for x in b.args])
        if name == 'format' and cstr(b) is not None:
            return brace_format(cval(b), args, kwargs)
        return None

    def mutate_alternatives(self, b, st, change):
        """a change of one of several containers"""
        for cond, leaf in alternatives(b):
            if leaf.op == 'alloc' and (leaf, '$') in st.heap:
                before = st.heap[(leaf, '$')]
                mute, self.mute = self.mute, self.mute + 1
                try:
                    change(leaf)
                finally:
                    self.mute = mute
                after = st.heap[(leaf, '$')]
                if cond and after is not before:
                    st.heap[(leaf, '$')] = self.join_val(conj(cond), after, before)

    def alloc_method(self, b, name, args, kwargs, st, n):
        c = st.heap.get((b, '$'))
        if c is None:
            return None
        kind = c.op
        if name in MUTATORS:
            self.emit(st, 'meth', n, base=self.res(b, st), rawbase=b, name=name,
                      args=tuple(self.res(a, st) for a in args), kwargs=tuple((k, self.res(v, st)) for k, v in kwargs),
                      rawargs=tuple(args), result=NONE)
        if name == 'append' and len(args) == 1:
            st.heap[(b, '$')] = _grow(c, [args[0]])
            return NONE
        if name == 'add' and len(args) == 1:
            st.heap[(b, '$')] = _grow(c, [args[0]])
            return NONE
        if name == 'extend' and len(args) == 1:
            self.extend(b, args[0], st)
            return NONE
        if name == 'update' and kind == 'dictc':
            items = []
            for a in args:
                r = self.res(a, st)
                r = unstar(r)
                if r.op == 'dictc':
                    items += list(r.args)
                    continue
                e, ec = self.elem_of(self.iter_norm(r)) if r.op in ('zip', 'enum', 'seq') else (r, None)
                if r.op == 'seq' and not (len(r.args) == 1 and r.args[0].op == 'rep'):
                    if all(x.op == 'tuple' and len(x.args) == 2 for x in r.args):
                        items += [mk('kv', *x.args) for x in r.args]
                        continue
                    e = r
                if e.op == 'tuple' and len(e.args) == 2 and e is not r:
                    kv = mk('kv', *e.args)
                    items.append(_mk_rep(kv if ec is None else mk('opt', ec, kv), r if ec is None else r.args[0].args[1]))
                else:
                    items.append(mk('upd', r))
            for k, v in kwargs:
                items.append(mk('kv', const(k), v) if k != '**' else mk('upd', self.res(v, st)))
            st.heap[(b, '$')] = _grow(c, items)
            return NONE
        if name == 'insert' and len(args) == 2:
            if args[0] is const(0):
                st.heap[(b, '$')] = mk(kind, *([args[1]] + list(c.args))) if kind in ELEMWISE_CONT else _grow(c, [args[1]])
            else:
                st.heap[(b, '$')] = _grow(c, [args[1]])
            return NONE
        if name == 'copy' and not args:
            return self.alloc(b.args[0], kind if kind in ELEMWISE_CONT else 'seq', c.args if kind in ELEMWISE_CONT else (mk('star', c),), n, st)
        if name == 'setdefault' and args:
            st.heap[(b, '$')] = _grow(c, [mk('setdef', self.res(args[0], st), args[1] if len(args) > 1 else NONE)])
            return mk('meth', self.res(b, st), name, tuple(self.res(a, st) for a in args), ())
        if name == 'clear':
            st.heap[(b, '$')] = mk(kind if kind in ELEMWISE_CONT else 'seq')
            return NONE
        if name in ('pop', 'remove', 'discard') and kind in ('dictc', 'seq', 'setc'):
            r = mk('meth', self.res(b, st), name, tuple(self.res(a, st) for a in args), ())
            if c.args:
                st.heap[(b, '$')] = _grow(c, [mk('delk', *[self.res(a, st) for a in args[:1]])])
            return r
        if name in ('sort', 'reverse'):
            return NONE
        if name == 'get' and kind == 'dictc' and args:
            k = self.res(args[0], st)
            for kv in reversed(c.args):
                if kv.op == 'kv' and kv.args[0] is k:
                    return kv.args[1]
                if kv.op == 'kv' and is_const(kv.args[0]) and is_const(k):
                    continue
                break
            else:
                return args[1] if len(args) > 1 else NONE
        return None

    def call(self, f, args, kwargs, st, n):
        if f.op == 'func':
            fn = self._func(f.args[0])
            if fn is not None:
                if fn.cls is not None and 'staticmethod' not in fn.decorators and args:
                    return self.invoke(fn, args[0], args[1:], kwargs, st, n)
                return self.invoke(fn, None, args, kwargs, st, n)
        if f.op == 'bound':
            fn = self._func(f.args[1])
            if fn is not None:
                return self.invoke(fn, f.args[0], args, kwargs, st, n)
        if f.op == 'closure':
            fn, fid = self.closures[f]
            return self.invoke(fn, None, args, kwargs, st, n, parent=fid, fterm=f)
        if f.op == 'cls':
            return self.construct(f, args, kwargs, st, n)
        if f.op == 'builtin':
            r = self.builtin(f.args[0], args, kwargs, st, n)
            if r is not None:
                return r
        if f.op == 'ext':
            r = self.external(f.args[0], args, kwargs, st, n)
            if r is not None:
                return r
        if f.op == 'ite' and any(l.op in ('func', 'bound', 'closure', 'cls') for l in leaves(f)):
            c = f.args[0]
            s1, s2 = st.copy(), st.copy()
            outs = []
            for s, cc, ff in ((s1, c, f.args[1]), (s2, neg(c), f.args[2])):
                try:
                    if self.add_fact(s, cc):
                        outs.append((cc, s, self.call(ff, args, kwargs, s, n)))
                except Dead:
                    pass
            if not outs:
                raise Dead()
            if len(outs) == 1:
                st.become(outs[0][1])
                return outs[0][2]
            st.become(self.merge2(c, outs[0][1], outs[1][1]))
            return ite(c, outs[0][2], outs[1][2])
        ra = tuple(self.res(a, st) for a in args)
        rk = tuple(sorted((k, self.res(v, st)) for k, v in kwargs))
        if f.op == 'attr':
            r = mk('meth', f.args[0], f.args[1], ra, rk)
            self.emit(st, 'meth', n, base=f.args[0], rawbase=f.args[0], name=f.args[1], args=ra, kwargs=rk, rawargs=tuple(args), result=r)
            return r
        r = mk('call', f, ra, rk)
        if f.op == 'ext' and f.args[0] in ARRAY_ALLOC:
            # distinct arrays, also if of the same size
            r = mk('call', f, ra, rk + (('$at', const(self.site(n))),))
        self.emit(st, 'call', n, fn=f, args=ra, kwargs=rk, rawargs=tuple(args), result=r)
        return r

    def _func(self, qual):
        m, n = qual.split(':')
        mod = self.p.modules.get(m)
        if mod is None:
            return None
        if '.' in n:
            c, fn = n.split('.', 1)
            c = mod.classes.get(c)
            return c.methods.get(fn) if c else None
        return mod.funcs.get(n)

    def construct(self, f, args, kwargs, st, n):
        c = self._cls(f.args[0])
        init = self.p.find_method(c, '__init__') if c is not None else None
        ra = tuple(self.res(a, st) for a in args)
        rk = tuple(sorted((k, self.res(v, st)) for k, v in kwargs))
        obj = mk('new', f.args[0], self.site(n), ra, rk)
        self.emit(st, 'construct', n, fn=f, args=ra, kwargs=rk, rawargs=tuple(args), result=obj,
                  sig=tuple(init.argnames()[1:]) if init is not None else None)
        if init is not None:
            self.invoke(init, obj, args, kwargs, st, n, ctor=True)
        return obj

    def invoke(self, fn, recv, args, kwargs, st, n, parent=None, fterm=None, ctor=False):
        active = [s[0] for s in self.stack]
        key_active = sum(1 for a in active if a is fn or a.node is fn.node)
        depth_ok = len(self.stack) <= self.max_depth
        if not depth_ok:
            self.truncated.add(fn.qual)
        if key_active or not depth_ok or not (parent is not None or self.inline_policy(fn, recv)):
            return self.opaque_invoke(fn, recv, args, kwargs, st, n, fterm, ctor)
        self._ctxid = self.site(n, 'call')
        fid = self.new_frame(fn, fn.module, parent)
        fr = self.frames[fid]
        if parent is not None:
            fr.cls = getattr(fn, 'cls_ctx', None)
        # bind
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        pos = list(args)
        for k in [k for k in st.env if k[0] == fid]:
            del st.env[k]
        if fr.is_gen:
            st.heap[(mk('alloc', 'gen', fid), '$')] = mk('seq')
        if recv is not None and 'staticmethod' not in fn.decorators and names:
            if 'classmethod' in fn.decorators and recv.op != 'cls':
                cc = self.class_of(recv)
                recv = mk('cls', cc.qual) if cc is not None else recv
            st.env[(fid, names[0])] = recv
            fr.self_term = recv
            names = names[1:]
        kw = dict((k, v) for k, v in kwargs if k != '**')
        starstar = [v for k, v in kwargs if k == '**']
        hasstar = any(x.op == 'star' for x in pos)
        bound = {}
        if hasstar:
            k = [i for i, x in enumerate(pos) if x.op == 'star'][0]
            starv = pos[k].args[0]
            for nme, v in zip(names, pos[:k]):
                bound[nme] = v
            rest = names[k:]
            for i, nme in enumerate(rest):
                if nme not in kw:
                    bound[nme] = mk('item', starv, const(i))
        else:
            for nme, v in zip(names, pos):
                bound[nme] = v
            if a.vararg:
                st.env[(fid, a.vararg.arg)] = mk('tuple', *pos[len(names):])
        if a.vararg and (fid, a.vararg.arg) not in st.env:
            st.env[(fid, a.vararg.arg)] = mk('param', '*' + a.vararg.arg)
        defaults = {}
        dn = names[len(names) - len(a.defaults):] if len(a.defaults) <= len(names) else [x.arg for x in a.posonlyargs + a.args][-len(a.defaults):]
        for nme, d in zip(dn, a.defaults):
            defaults[nme] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        allnames = names + [x.arg for x in a.kwonlyargs]
        for nme in allnames:
            if nme in bound:
                v = bound[nme]
            elif nme in kw:
                v = kw.pop(nme)
            elif nme in defaults:
                v = self.default_term(fn, nme, defaults[nme])
                for ss in starstar:
                    r = self.res(ss, st)
                    v = self.dict_get(r, const(nme), v)
            else:
                v = mk('missing', nme)
                for ss in starstar:
                    r = self.res(ss, st)
                    v = self.dict_get(r, const(nme), v)
                    if v.op == 'ite':
                        v = mk('item', r, const(nme))
            st.env[(fid, nme)] = v
        kw = {k: v for k, v in kw.items() if k not in allnames}
        if a.kwarg:
            items = [mk('kv', const(k), v) for k, v in sorted(kw.items())]
            for ss in starstar:
                r = self.res(ss, st)
                items.append(mk('upd', r) if not allnames else mk('upd', mk('without', r, tuple(sorted(x for x in allnames if x not in bound)))))
            ka = mk('alloc', 'dict', self.site(n, 'kw' + fn.qual))
            st.heap[(ka, '$')] = mk('dictc', *items)
            st.env[(fid, a.kwarg.arg)] = ka
        entry_facts = st.facts
        self.emit(st, 'enter', n, fn=mk('func', fn.qual), base=recv, rawargs=tuple(bound.get(x, st.env[(fid, x)]) for x in allnames),
                  args=tuple(self.res(st.env[(fid, x)], st) for x in allnames), kwargs=())
        snaps = self.snaps
        self.snaps = None if snaps is None else snaps
        rets, raised = self._run_body(fn, fid, st)
        self.raise_sink[-1].extend(raised)
        if not rets:
            raise Dead()
        # merge return states
        if len(rets) == 1:
            s, v = rets[0]
        else:
            common = frozenset.intersection(*[s.facts for s, _ in rets])
            s, v = rets[-1]
            for s2, v2 in reversed(rets[:-1]):
                ex = s2.facts - common
                g = self.gate_of(ex) if ex else mk('path', self.site(n), fn.qual)
                v = self.join_val(g, v2, v) if v2.op in ('seq',) else ite(g, v2, v)
                s = self.merge2(g, s2, s)
            s.facts = self.join_facts([x.facts for x, _ in rets])
        st.become(s)
        for k in [k for k in st.env if k[0] == fid]:
            if not any(c[1] == fid for c in self.closures.values()):
                del st.env[k]
        self.emit(st, 'leave', n, fn=mk('func', fn.qual), base=recv, result=self.res(v, st))
        return v

    def dict_get(self, r, key, default):
        if r.op == 'without':
            if cval(key) in r.args[1]:
                return default
            return self.dict_get(r.args[0], key, default)
        if r.op == 'dictc':
            v = default
            for kv in r.args:
                if kv.op == 'kv':
                    if kv.args[0] is key:
                        v = kv.args[1]
                elif kv.op == 'upd':
                    v = self.dict_get(kv.args[0], key, v)
                elif kv.op == 'opt' and kv.args[1].op == 'kv' and kv.args[1].args[0] is key:
                    v = ite(kv.args[0], kv.args[1].args[1], v)
            return v
        return ite(compare('in', key, r), mk('item', r, key), default)

    def default_term(self, fn, name, node):
        try:
            v = ast.literal_eval(node)
            if v is None or isinstance(v, (str, int, float, bool)):
                return const(v)
            if isinstance(v, tuple):
                return mk('tuple', *[const(x) if not isinstance(x, (list, tuple, dict)) else mk('k', repr(x)) for x in v])
        except (ValueError, TypeError, SyntaxError):
            pass
        if isinstance(node, (ast.Name, ast.Attribute)):
            d = _dotted(node)
            if d:
                b = self.global_term(self.p.resolve_global(fn.module, d.split('.')[0]), d.split('.')[0])
                for part in d.split('.')[1:]:
                    b = self.get_attr(b, part, State(), node, quiet=True)
                return b
        return mk('default', fn.qual, name)

    def opaque_invoke(self, fn, recv, args, kwargs, st, n, fterm, ctor):
        ra = tuple(self.res(a, st) for a in args)
        rk = tuple(sorted((k, self.res(v, st)) for k, v in kwargs))
        f = mk('func', fn.qual)
        sig = fn.argnames()
        if recv is not None or fn.cls is not None and 'staticmethod' not in fn.decorators:
            sig = sig[1:]
        if not ctor:
            ra, rk = positional(sig, ra, rk)
        if recv is not None:
            r = mk('meth', self.res(recv, st), fn.name, ra, rk)
        else:
            r = mk('call', f, ra, rk)
        self.emit(st, 'repocall', n, fn=f, base=None if recv is None else self.res(recv, st), rawbase=recv, args=ra, kwargs=rk,
                  rawargs=tuple(args), result=r, name=fn.name, sig=tuple(sig))
        return r

    # ------------------------------------------------------------ builtins
    def builtin(self, name, args, kwargs, st, n):
        R = [self.res(a, st) for a in args]
        if name == 'len' and len(R) == 1:
            r = R[0]
            if r.op in ('tuple', 'seq') and all(x.op not in ('rep', 'opt', 'star', 'lvrest', 'delk') for x in r.args):
                return const(len(r.args))
            if r.op == 'const' and hasattr(cval(r), '__len__'):
                return const(len(cval(r)))
            return mk('len', r)
        if name == 'isinstance' and len(R) == 2:
            return self.isinst(R[0], R[1].args if R[1].op == 'tuple' else (R[1],))
        if name == 'getattr' and len(R) >= 2 and cstr(R[1]) is not None:
            k = cval(R[1])
            if len(R) == 2:
                return self.get_attr(args[0], k, st, n)
            b = args[0]
            v = st.heap.get((b, k))
            if v is not None:
                return v
            c = self.class_of(b)
            if c is not None and self.p.find_method(c, k) is not None:
                return self.get_attr(b, k, st, n)
            return ite(mk('hasattr', R[0], k), self.get_attr(b, k, st, n), args[2])
        if name == 'hasattr' and len(R) == 2 and cstr(R[1]) is not None:
            k = cval(R[1])
            if (args[0], k) in st.heap:
                return TRUE
            c = self.class_of(args[0])
            if c is not None and (self.p.find_method(c, k) is not None or self.p.find_class_attr(c, k) is not None):
                return TRUE
            if args[0].op == 'new' and False:
                return FALSE
            return mk('hasattr', R[0], k)
        if name == 'setattr' and len(R) == 3:
            if cstr(R[1]) is not None:
                self.set_attr(args[0], cval(R[1]), args[2], st, n)
            else:
                self.emit(st, 'setattr', n, base=R[0], rawbase=args[0], name='*', value=R[2], rawvalue=args[2], args=(R[1],))
            return NONE
        if name == 'delattr' and len(R) == 2:
            self.emit(st, 'delattr', n, base=R[0], rawbase=args[0], name=cstr(R[1]) or '*')
            return NONE
        if name == 'bool' and len(R) == 1:
            return truth(R[0])
        if name == 'str' and len(R) == 1:
            return strterm(R[0])
        if name in ('list', 'tuple') and len(R) <= 1:
            if not R:
                return self.alloc('list', 'seq', (), n, st) if name == 'list' else mk('tuple')
            if R[0].op in ('seq', 'tuple'):
                return self.alloc('list', 'seq', R[0].args, n, st) if name == 'list' else mk('tuple', *R[0].args)
            if name == 'list':
                return self.alloc('list', 'seq', self.spread(R[0]), n, st)
        if name == 'dict':
            items = []
            for r in R:
                r = unstar(r)
                if r.op == 'dictc':
                    items += list(r.args)
                    continue
                e, ec = self.elem_of(self.iter_norm(r)) if r.op in ('zip', 'enum', 'seq') else (r, None)
                if r.op == 'seq' and not (len(r.args) == 1 and r.args[0].op == 'rep'):
                    if all(x.op == 'tuple' and len(x.args) == 2 for x in r.args):
                        items += [mk('kv', *x.args) for x in r.args]
                        continue
                    e = r
                if e.op == 'tuple' and len(e.args) == 2 and e is not r:
                    kv = mk('kv', *e.args)
                    items.append(_mk_rep(kv if ec is None else mk('opt', ec, kv), r if ec is None else r.args[0].args[1]))
                else:
                    items.append(mk('upd', r))
            items += [mk('kv', const(k), v) if k != '**' else mk('upd', self.res(v, st)) for k, v in kwargs]
            return self.alloc('dict', 'dictc', items, n, st)
        if name == 'set':
            items = self.spread(R[0]) if R else []
            return self.alloc('set', 'setc', items, n, st)
        if name == 'enumerate' and R:
            return mk('enum', self.iter_norm(R[0]), *R[1:])
        if name == 'zip':
            return mk('zip', *[self.iter_norm(r) for r in R])
        if name in ('any', 'all') and len(R) == 1:
            return mk(name, R[0])
        if name == 'float' and len(R) == 1 and is_const(R[0]) and isinstance(cval(R[0]), (int, float)):
            return const(float(cval(R[0])))
        if name in ('exit', 'quit'):
            self.emit(st, 'raise', n, value=mk('ext', 'SystemExit'))
            self.raise_sink[-1].append((st.copy(), mk('ext', 'SystemExit')))
            raise Dead()
        if name == 'map' and len(args) == 2:
            el, c = self.elem_of(self.iter_norm(R[1]))
            s2 = st
            self.loops.append((self.site(n, 'map'), R[1]))
            try:
                v = self.call(args[0], [el], [], s2, n)
            finally:
                self.loops.pop()
            return mk('seq', _mk_rep(self.res(v, s2), R[1]))
        if name in ('sum', 'min', 'max', 'abs', 'sorted', 'range', 'int', 'float', 'round', 'repr', 'type', 'id', 'reversed', 'ord', 'chr', 'hash',
                    'next', 'iter', 'filter', 'divmod', 'pow', 'slice', 'object', 'bytes', 'complex', 'frozenset', 'callable'):
            return None
        return None

    def external(self, name, args, kwargs, st, n):
        if name in ('sys.exit', 'os._exit'):
            self.emit(st, 'raise', n, value=mk('ext', 'SystemExit'), args=tuple(args))
            self.raise_sink[-1].append((st.copy(), mk('ext', 'SystemExit')))
            raise Dead()
        if name == 'collections.OrderedDict' and not args:
            return self.alloc('dict', 'dictc', (), n, st)
        if name in ('copy.copy', 'copy.deepcopy') and len(args) == 1:
            r = self.res(args[0], st)
            if r.op in ('seq', 'dictc', 'setc'):
                return self.alloc({'seq': 'list', 'dictc': 'dict', 'setc': 'set'}[r.op], r.op, r.args, n, st)
        return None


ARRAY_ALLOC = {'numpy.empty', 'numpy.zeros', 'numpy.empty_like', 'numpy.zeros_like'}


class _ModFunc(object):
    def __init__(self, m):
        self.module = m
        self.qual = m.name + ':<module>'
        self.name = '<module>'
        self.cls = None
        self.node = m.tree


def _has_alloc(t):
    return t._free


def _grow(c, items):
    if c.op in ELEMWISE_CONT:
        return mk(c.op, *(list(c.args) + list(items)))
    return mk('seq', *([mk('star', c)] + list(items)))


def is_array(x):
    """terms that certainly denote numpy values"""
    if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0].split('.')[0] == 'numpy':
        return True
    if x.op == 'meth' and x.args[1] in ('transpose', 'reshape', 'dot', 'copy', 'ravel') and is_array(x.args[0]):
        return True
    if x.op == 'item':
        return is_array(x.args[0]) or (x.args[1].op == 'tuple' and any(a.op == 'slice' for a in x.args[1].args))
    return False


def _mentions_loop(t):
    return any_sub(t, lambda x: x.op in ('lv', 'loop'))


def _mk_rep(x, it):
    return mk('rep', x, base_iter(it))


def range_len(t):
    """X for range(len(X)) and range(0, len(X))"""
    if t.op == 'call' and t.args[0].op == 'builtin' and t.args[0].args[0] == 'range' and not t.args[2]:
        a = t.args[1]
        if len(a) == 2 and a[0] is const(0):
            a = a[1:]
        if len(a) == 1 and a[0].op == 'len':
            return a[0].args[0]
    return None


def unstar(t):
    """X for [*X] and list(X)"""
    while t.op in ('seq', 'tuple') and len(t.args) == 1 and t.args[0].op == 'star':
        t = t.args[0].args[0]
    return t


def iter_bases(it):
    """the collections whose elements one step of an iteration mentions"""
    out = {base_iter(it)}
    if it.op == 'enum':
        out |= iter_bases(it.args[0])
    elif it.op == 'zip':
        for a in it.args:
            out |= iter_bases(a)
    elif it.op == 'meth' and it.args[1] in ('items', 'iteritems', 'values', 'itervalues'):
        out.add(it.args[0])
    return out


def again(t, bases, tag):
    m = {}
    for x in walk(t):
        if x.op in ('elem', 'idx') and x.args[0] in bases and x.args[-1].op != 'again':
            m[x] = mk(x.op, *(x.args + (tag,)))
    return subst(t, m) if m else t


def base_iter(it):
    """the collection whose elements an iteration visits, one step for each"""
    it = unstar(it)
    if it.op == 'enum':
        return base_iter(it.args[0])
    x = range_len(it)
    if x is not None:
        return base_iter(x)
    if it.op == 'zip':
        b = {base_iter(a) for a in it.args}
        if len(b) == 1:
            return b.pop()
    if it.op == 'seq' and len(it.args) == 1 and it.args[0].op == 'rep':
        x = it.args[0].args[0]
        if x.op not in ('opt', 'star', 'rep'):
            return it.args[0].args[1]
    return it


def _norm_opt(o):
    """opt(c, opt(d, x)) -> opt(c and d, x); opt(True, x) -> x; opt(c, rep(x,it)) kept"""
    if o.op == 'opt':
        c, x = o.args
        if c is TRUE:
            return x
        if x.op == 'opt':
            return _norm_opt(mk('opt', conj([c, x.args[0]]), x.args[1]))
    return o


def _excname(v):
    if v.op == 'new':
        return v.args[0].split(':')[1]
    if v.op == 'call' and v.args[0].op in ('builtin', 'ext'):
        return v.args[0].args[0].split('.')[-1]
    if v.op in ('builtin', 'ext'):
        return v.args[0].split('.')[-1]
    if v.op == 'cls':
        return v.args[0].split(':')[1]
    return '?'


def _dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        parts.append(n.id)
        return '.'.join(reversed(parts))
    return None


def _is_str(t):
    if t.op == 'concat' or t.op == 'str' or t.op == 'fmt' or t.op == 'join':
        return True
    if t.op == 'const' and isinstance(cval(t), str):
        return True
    if t.op == 'ite':
        return _is_str(t.args[1]) and _is_str(t.args[2])
    return False


def _is_boolean(t):
    if t.op in ('cmp', 'not', 'and', 'or', 'isinstance', 'hasattr', 'any', 'all'):
        return True
    if t.op == 'const' and isinstance(cval(t), bool):
        return True
    return False


def strterm(x):
    if x.op == 'const':
        if isinstance(cval(x), (str, int, bool)) or cval(x) is None:
            return const(str(cval(x)))
    if _is_str(x):
        return x
    return mk('str', x)


def percent_format(s, b):
    import re
    parts = re.split(r'(%(?:\([^)]*\))?[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?[a-zA-Z%])', s)
    specs = [p for i, p in enumerate(parts) if i % 2 and p != '%%']
    if any('(' in p or '*' in p for p in specs):
        return None
    if b.op == 'tuple':
        vals = list(b.args)
        if any(v.op in ('star', 'rep', 'opt') for v in vals):
            return None
    else:
        vals = [b]
    if len(vals) != len(specs):
        if len(specs) > 1 and len(vals) == 1:
            vals = [mk('item', b, const(i)) for i in range(len(specs))]
        else:
            return None
    out = []
    k = 0
    for i, p in enumerate(parts):
        if i % 2 == 0:
            if p:
                out.append(const(p))
        elif p == '%%':
            out.append(const('%'))
        else:
            v = vals[k]
            k += 1
            if p == '%s' or (p in ('%d', '%i', '%u')):
                out.append(strterm(v) if p == '%s' else mk('fmt', 'd', v) if not is_const(v) else strterm(v))
            else:
                out.append(mk('fmt', p, v))
    return concat(out)


def brace_format(s, args, kwargs):
    import string
    out = []
    try:
        k = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                out.append(const(lit))
            if field is None:
                continue
            if field == '':
                v = args[k]
                k += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in dict(kwargs):
                v = dict(kwargs)[field]
            else:
                return None
            if spec:
                out.append(mk('fmt', 'd' if spec == 'd' else spec, v))
            else:
                out.append(strterm(v))
    except (ValueError, IndexError):
        return None
    return concat(out)
