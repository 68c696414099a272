"""which calls change something outside the program: files, directories, submitted jobs"""
import ast
from .common import *

EXT = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'os.rename', 'os.replace', 'os.renames', 'os.symlink', 'os.link', 'os.mkdir',
       'os.makedirs', 'os.truncate', 'os.system', 'os.popen', 'os.kill', 'os.chmod', 'os.utime', 'os.mkfifo',
       'shutil.move', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.copytree', 'shutil.rmtree', 'shutil.copyfileobj', 'shutil.copymode',
       'subprocess.call', 'subprocess.check_call', 'subprocess.check_output', 'subprocess.run', 'subprocess.Popen', 'subprocess.getoutput',
       'tarfile.open', 'pickle.dump', 'numpy.savetxt', 'numpy.save'}
OPENERS = {'open', 'io.open', 'codecs.open', 'zipfile.ZipFile'}
FILE_METHODS = {'write', 'writelines', 'writestr'}
# commands that only report
QUERIES = ('qstat', 'showq', 'squeue')


def mode_of(args, kwargs):
    for k, v in kwargs or ():
        if k == 'mode':
            return v
    return args[1] if len(args) > 1 else const('r')


def writes_mode(t):
    """may the mode allow writing"""
    return any(cstr(l) is None or set(cstr(l)) & set('wax+') for _, l in alts(t))


def is_query(t):
    """a command that only asks"""
    for _, l in alts(t):
        x = l
        while x.op == 'concat':
            x = x.args[0]
        s = cstr(x)
        if s is None or not s.strip().startswith(QUERIES):
            return False
    return True


def effect_name(e):
    """description of the effect of an event, or None"""
    if e.kind == 'call' and e.fn is not None:
        if e.fn.op == 'ext' and e.fn.args[0] in EXT:
            if e.fn.args[0].startswith('subprocess.') and e.args and is_query(e.args[0]):
                return None
            return e.fn.args[0]
        if e.fn.op in ('ext', 'builtin') and e.fn.args[0] in OPENERS and writes_mode(mode_of(e.args, e.kwargs)):
            return e.fn.args[0]
    if e.kind in ('meth', 'construct') and e.name in FILE_METHODS:
        return e.name
    return None


def syntactic(func):
    """does the body contain an effect by itself"""
    for n in ast.walk(func.node):
        if isinstance(n, ast.Call):
            f = n.func
            name = ast.unparse(f)
            if name in EXT:
                if name.startswith('subprocess.') and n.args and isinstance(n.args[0], ast.Constant) and str(n.args[0].value).startswith(QUERIES):
                    continue
                return True
            if name in OPENERS or name.endswith('.ZipFile'):
                m = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
                if m is not None and not (isinstance(m, ast.Constant) and isinstance(m.value, str) and not set(m.value) & set('wax+')):
                    return True
    return False


def effectful(p, prefixes=('paramgrid', 'getdist.paramnames', 'getdist.inifile', 'getdist.parampriors', 'getdist.covmat')):
    """(functions, method names) that may have an effect, through calls by name"""
    fs = []
    for m in p.modules.values():
        if m.name.startswith(prefixes):
            fs += list(m.funcs.values())
            for c in m.classes.values():
                fs += list(c.methods.values())
    eff = {f.qual for f in fs if syntactic(f)}
    calls = {}
    for f in fs:
        s = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name):
                    s.add(n.func.id)
                elif isinstance(n.func, ast.Attribute):
                    s.add(n.func.attr)
        calls[f.qual] = s
    changed = True
    while changed:
        changed = False
        names = {f.name for f in fs if f.qual in eff and f.name != '__init__'} - {'get', 'update', 'copy', 'items', 'add', 'split', 'string', 'bool', 'int'}
        for f in fs:
            if f.qual not in eff and calls[f.qual] & names:
                eff.add(f.qual)
                changed = True
    names = {f.name for f in fs if f.qual in eff and f.cls is not None and not f.name.startswith('__')}
    return eff, names
