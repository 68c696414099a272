"""Parsing and name resolution for the Python tree under /repo/python."""
import ast
from .desugar import desugar
import os
import builtins

REPO = os.environ.get('VERIF_REPO', '/repo')

# python-2-only scripts the build itself skips
PY2 = {'batch2/outputs/DA-H-BAO.py', 'batch2/outputs/bbn_yhe.py', 'batch2/outputs/correlated_iso.py',
       'batch2/outputs/meffsterile_sigma8.py', 'batch3/outputs/lcdm_default_table.py',
       'batch3/outputs/meffsterile_nnu.py', 'batch3/outputs/pol_rectangle.py', 'data/bbn.py'}


class AnalysisError(Exception):
    """the analysis cannot give an answer (unparsable file, vanished anchor)"""


class Func(object):
    def __init__(self, module, node, cls=None, parent=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.parent = parent
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.qual = module.name + ':' + ((cls.name + '.') if cls else '') + self.name
        self.decorators = []
        for d in getattr(node, 'decorator_list', []):
            dd = d.func if isinstance(d, ast.Call) else d
            self.decorators.append(dd.attr if isinstance(dd, ast.Attribute) else getattr(dd, 'id', '?'))

    @property
    def loc(self):
        return '%s:%s' % (self.module.rel, self.qual.split(':')[1])

    def argnames(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


class Class(object):
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = module.name + ':' + node.name
        self.methods = {}
        self.attrs = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = Func(module, st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value


class Module(object):
    def __init__(self, name, path, rel):
        self.name = name
        self.path = path
        self.rel = rel
        with open(path, 'rb') as f:
            src = f.read()
        try:
            self.source = src.decode('utf-8-sig')
        except UnicodeDecodeError:
            self.source = src.decode('latin-1')
        try:
            self.tree = desugar(ast.parse(self.source, rel))
        except SyntaxError as e:
            raise AnalysisError('cannot parse %s: %s' % (rel, e))
        self.funcs = {}
        self.classes = {}
        self.imports = {}
        self.consts = {}
        self._assigned = {}
        self._scan(self.tree.body)
        for n, vals in self._assigned.items():
            if len(vals) == 1:
                self.consts[n] = vals[0]

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = Func(self, st)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = Class(self, st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ''
                if st.level:
                    base = self.name.split('.')
                    base = base[:len(base) - st.level + (1 if self.path.endswith('__init__.py') else 0)]
                    mod = '.'.join(base + ([mod] if mod else []))
                for a in st.names:
                    self.imports[a.asname or a.name] = mod + '.' + a.name
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self._assigned.setdefault(t.id, []).append(st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self._assigned.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self._assigned.setdefault(st.target.id, []).extend([st.value, st.value])
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for b in ('body', 'orelse', 'finalbody'):
                    self._scan(getattr(st, b, []) or [])
                for h in getattr(st, 'handlers', []):
                    self._scan(h.body)


class Project(object):
    def __init__(self, repo=None, with_batch=False):
        self.repo = repo or REPO
        self.modules = {}
        self.by_rel = {}
        root = os.path.join(self.repo, 'python')
        if not os.path.isdir(root):
            raise AnalysisError('no python directory in %s' % self.repo)
        for base, dirs, files in os.walk(root):
            dirs[:] = sorted(d for d in dirs if d not in ('tests', 'docs', 'build', '__pycache__') and
                             not d.endswith('.egg-info') and not d.startswith('.'))
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(base, f)
                    rel = os.path.relpath(p, self.repo)
                    name = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-len('.__init__')]
                    m = Module(name, p, rel)
                    self.modules[name] = m
                    self.by_rel[rel] = m
        self._mro = {}
        self._subs = None

    # ---- lookup helpers
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisError('anchor vanished: module %s' % name)
        return m

    def cls(self, modname, name):
        m = self.module(modname)
        c = m.classes.get(name)
        if c is None:
            c = self.resolve_global(m, name)
            if isinstance(c, Class):
                return c
            raise AnalysisError('anchor vanished: class %s in %s' % (name, modname))
        return c

    def func(self, modname, name):
        m = self.module(modname)
        if '.' in name:
            cn, fn = name.split('.')
            c = self.cls(modname, cn)
            f = self.find_method(c, fn)
        else:
            f = m.funcs.get(name)
            if f is None:
                g = self.resolve_global(m, name)
                f = g if isinstance(g, Func) else None
        if f is None:
            raise AnalysisError('anchor vanished: %s in %s' % (name, modname))
        return f

    def resolve_dotted(self, dotted):
        """dotted external or internal path -> Module/Class/Func or None"""
        if dotted in self.modules:
            return self.modules[dotted]
        if '.' in dotted:
            head, tail = dotted.rsplit('.', 1)
            m = self.modules.get(head)
            if m is not None:
                return self.resolve_global(m, tail)
        return None

    def resolve_global(self, m, name, depth=0):
        """Module-level name -> Func | Class | Module | ('ext', dotted) | ('const', node) | None"""
        if depth > 6:
            return None
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.imports:
            dotted = m.imports[name]
            r = None
            if dotted in self.modules:
                r = self.modules[dotted]
            elif '.' in dotted:
                head, tail = dotted.rsplit('.', 1)
                if head in self.modules:
                    r = self.resolve_global(self.modules[head], tail, depth + 1)
            if r is not None:
                return r
            return ('ext', dotted)
        if name in m.consts:
            return ('const', m.consts[name], m)
        if name in m._assigned:
            return ('glob', m.name, name)
        sub = m.name + '.' + name
        if sub in self.modules:
            return self.modules[sub]
        if hasattr(builtins, name):
            return ('builtin', name)
        return None

    def bases(self, c):
        out = []
        for b in c.node.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.resolve_global(c.module, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                m = self.resolve_global(c.module, b.value.id)
                if isinstance(m, Module):
                    r = self.resolve_global(m, b.attr)
            if isinstance(r, Class):
                out.append(r)
        return out

    def mro(self, c):
        if c not in self._mro:
            out = [c]
            for b in self.bases(c):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
            self._mro[c] = out
        return self._mro[c]

    def find_method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None:
            if after in mro:
                mro = mro[mro.index(after) + 1:]
            else:
                mro = []
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def find_class_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def all_methods(self, c):
        out = {}
        for k in reversed(self.mro(c)):
            out.update(k.methods)
        return out

    def subclasses(self, c):
        return [k for m in self.modules.values() for k in m.classes.values() if c in self.mro(k)]

    def all_funcs(self, prefix=''):
        for n in sorted(self.modules):
            if not n.startswith(prefix):
                continue
            m = self.modules[n]
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f


def const_value(node):
    """literal python value of an AST node or raise ValueError"""
    return ast.literal_eval(node)
