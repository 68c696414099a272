"""P22: a job script asks for the resources given and runs every parameter file once."""
import glob
import os
import re as _re
from .quant import *
from .p15 import cases, attr, meth, cat, P
from sa.project import AnalysisError

Q = 'paramgrid.jobqueue'
KW = P('kwargs')
INTS = ('coresPerNode', 'chainsPerNode', 'nodes', 'runsPerJob', 'mem_per_node')
TEXTS = ('walltime', 'program', 'queue', 'jobclass', 'qsub', 'qdel')


def check(p, rep):
    rep.rule('precedence', 'a job setting comes from the arguments, else the template, else the environment, else its default', 5)
    rep.rule('settings', 'each setting of a job is the one given under its own name', 5)
    rep.rule('resources', 'the values put into the script agree with the settings and with each other', 6)
    rep.rule('commands', 'the script runs each parameter file once, with its own file and log', 2)
    rep.rule('script', 'the script is filled in, written and submitted under the name of the job', 2)
    rep.rule('template', 'every placeholder of the supplied templates has a value, and every default in them is read', 3)
    keys = settings(p, rep)
    precedence(p, rep)
    given = submit(p, rep)
    templates(p, rep, keys, given)
    naming(p, rep)


def pick(t):
    """(a, b)[c] for a truth value c written as a choice"""
    m = {}
    for x in walk(t):
        if x.op == 'item' and x.args[0].op == 'tuple' and len(x.args[0].args) == 2 and not is_const(x.args[1]):
            m[x] = ite(truth(x.args[1]), x.args[0].args[1], x.args[0].args[0])
    return pick(subst(t, m)) if m else t


def is_fn(t, name):
    return t.op in ('func', 'fn') and show(t, 2).endswith(name) or show(t, 2).endswith(':' + name)


def canon(t):
    """settings read through getDefaulted under their own names; length of a list with one element per file"""
    for _ in range(12):
        m = {}
        for x in walk(t):
            if x.op == 'call' and is_fn(x.args[0], 'getDefaulted') and x.args[1] and cstr(x.args[1][0]) is not None:
                m[x] = P('$' + cstr(x.args[1][0]))
        if m:
            t = subst(t, m)
            continue
        for x in walk(t):
            if x.op == 'len' and x.args[0].op == 'seq' and len(x.args[0].args) == 1 and x.args[0].args[0].op == 'rep':
                m[x] = mk('len', x.args[0].args[0].args[1])
            elif x.op == 'len' and x.args[0].op == 'seq' and all(y.op not in ('rep', 'opt', 'star') for y in x.args[0].args):
                m[x] = const(len(x.args[0].args))
        if not m:
            return t
        t = subst(t, m)
    return t


def factors(t):
    """sorted factors of a product"""
    if t.op == 'bin' and t.args[0] == '*':
        return factors(t.args[1]) + factors(t.args[2])
    if t.op == 'call' and t.args[0] is mk('builtin', 'int') and len(t.args[1]) == 1:
        return factors(t.args[1][0])
    if t.op == 'bin' and t.args[0] == '//':
        return [mk('bin', '//', prod(t.args[1]), prod(t.args[2]))]
    return [] if t is const(1) else [t]


def prod(t):
    fs = sorted(factors(t), key=lambda x: x.id if hasattr(x, 'id') else show(x, 9))
    return mk('prod', *fs)


def same_product(a, b, facts=()):
    """the two expressions are the same product in every case"""
    for fs, l in cases(mk('tuple', a, b), facts):
        x, y = l.args
        if prod(x) is not prod(y):
            return (x, y)
    return None


# ---------------------------------------------------------------------------------------------------------------
def settings(p, rep):
    C = p.cls(Q, 'jobSettings')
    f = p.find_method(C, '__init__')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f, cls=C)
    rep.analysed(I)
    me = mk('self', C.qual)
    if not rets:
        raise AnalysisError('jobSettings.__init__ does not return')
    keys = {}
    tmpl = None
    gd = p.modules[Q].funcs.get('getDefaulted')
    if gd is None:
        raise AnalysisError('getDefaulted vanished')
    names = gd.argnames()
    for e in I.events:
        if e.kind == 'repocall' and e.name == 'getDefaulted':
            a = dict(zip(names, e.args))
            a.update({k: v for k, v in e.kwargs if k != '**'})
            star = [v for k, v in e.kwargs if k == '**']
            k = cstr(a.get('key_name')) if a.get('key_name') is not None else None
            if k is None:
                rep.note('settings', 'setting', show(a.get('key_name'), 3) if a.get('key_name') is not None else 'unnamed')
                continue
            keys[k] = (a, star, e)
    for st, v in rets:
        g = lambda n: canon(I.res(st.heap[(me, n)], st)) if (me, n) in st.heap else None
        for n in INTS + TEXTS + ('job_template',):
            v = g(n)
            if v is None:
                rep.ob('settings', n, False, 'never set', f.loc)
                continue
            if n == 'qsub':
                # one kind of cluster has a fixed command
                ls = [l for fs, l in cases(v, st.facts) if not is_const(l)]
                ok = bool(ls) and all(l is P('$qsub') for l in ls)
            else:
                ok = v is P('$' + n)
            rep.ob('settings', n, ok, 'is %s' % show(v, 4), f.loc)
        v = g('nchains')
        if v is not None:
            rep.ob('resources', 'number of chains', prod(v) is prod(mk('bin', '*', P('$nodes'), P('$chainsPerNode'))), 'is %s' % show(v, 4), f.loc)
        v = g('jobName')
        if v is not None:
            rep.ob('settings', 'jobName', v is P(f.argnames()[1]), 'is %s' % show(v, 3), f.loc)
        v = g('runCommand')
        if v is not None:
            ok = v.op == 'call' and is_fn(v.args[0], 'extractValue') and len(v.args[1]) == 2 and v.args[1][1] is const('RUN')
            rep.ob('settings', 'run command', ok, 'is %s' % show(v, 4), f.loc)
        # cores are shared equally
        omp = g('omp')
        if omp is not None:
            den = mk('bin', '*', P('$chainsPerNode'), P('$runsPerJob'))
            ok = omp.op == 'bin' and omp.args[0] in ('/', '//') and omp.args[1] is P('$coresPerNode') and prod(omp.args[2]) is prod(den)
            rep.ob('resources', 'cores per chain', ok, 'are %s' % show(omp, 5), f.loc)
    bad = [e for e in I.events if e.kind == 'raise']
    for k, (a, star, e) in sorted(keys.items()):
        rep.ob('settings', '%s may be given as an argument' % k, any(contains(x, KW) or any_sub(x, lambda y: y.op == 'kwargs' or y.op == 'param' and y.args[0] in ('kwargs', '**kwargs')) for x in star), 'arguments given are not looked at', e.loc)
        if k != 'job_template':
            t = a.get('template')
            ok = t is not None and any_sub(canon(t), lambda x: x is P('$job_template')) and t.op == 'meth' and t.args[1] == 'read'
            rep.ob('settings', '%s may be given in the template' % k, ok, 'the template looked at is %s' % (show(t, 3) if t is not None else 'none'), e.loc)
        if k in INTS:
            rep.ob('settings', '%s is a whole number' % k, a.get('tp') is mk('builtin', 'int'), 'converted by %s' % (show(a.get('tp'), 2) if a.get('tp') is not None else 'text'), e.loc)
    return keys


def precedence(p, rep):
    f = p.func(Q, 'getDefaulted')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f)
    rep.analysed(I)
    key, default, tp, template, ext = [P(x) for x in ('key_name', 'default', 'tp', 'template', 'ext_env')]
    val = None
    leaves = []
    def env(x):
        if x.op == 'call' and x.args[0] in (mk('ext', 'os.getenv'), mk('ext', 'os.environ.get')) or x.op == 'meth' and x.args[1] == 'get' and x.args[0] is mk('ext', 'os.environ'):
            a = x.args[1] if x.op == 'call' else x.args[2]
            return a[0] if len(a) == 1 or a[1] is NONE else None
        return None
    S = {'argument': P('$arg'), 'template': P('$tmpl'), 'environment': P('$env'), 'external': P('$ext')}
    def sub(t):
        m = {}
        for x in walk(t):
            if x.op == 'meth' and x.args[1] == 'get' and x.args[2][:1] == (key,) and x.args[0].op != 'ext' and (len(x.args[2]) == 1 or x.args[2][1] is NONE):
                m[x] = S['argument']
            elif x.op == 'call' and is_fn(x.args[0], 'extractValue') and tuple(x.args[1]) == (template, cat('DEFAULT_', key)):
                m[x] = S['template']
            elif env(x) is not None and env(x) is cat('COSMOMC_', key):
                m[x] = S['environment']
            elif env(x) is ext:
                m[x] = S['external']
        return subst(t, m)
    isnone = lambda t: compare('is', t, NONE)
    paths = [([sub(x) for x in st.facts], sub(I.res(v, st))) for st, v in rets]
    order = ['argument', 'template', 'environment', 'external', 'default']
    vals = dict(S, default=default)
    has = [vals[n] for n in order[:-1] if any(contains(v, vals[n]) or any(contains(x, vals[n]) for x in fs) for fs, v in paths)]
    for n in order[:-1]:
        rep.ob('precedence', 'the %s is looked at' % n, vals[n] in has, 'not looked up under the name of the setting', f.loc)
    if len(has) < 4:
        return
    for i, n in enumerate(order + ['nothing']):
        fs = [isnone(vals[m]) for m in order[:i]]
        if n != 'nothing':
            fs.append(neg(isnone(vals[n])))
        fs += [neg(isnone(template)), ext]
        want = NONE if n == 'nothing' else mk('call', tp, (vals[n],), ())
        for pf, v in paths:
            all_ = frozenset(fs) | frozenset(pf)
            if logic.contradictory(all_) or any(logic.decide(norm(x), frozenset(fs)) is False for x in pf):
                continue
            for fs2, l in cases(v, frozenset(fs)):
                if logic.contradictory(frozenset(fs2) | frozenset(pf)):
                    continue
                ok = l is want
                if n == 'nothing' and l.op == 'call' and l.args[0] is tp:
                    continue                                     # excluded by the facts of the path
                rep.ob('precedence', '%s, if the first given' % n, ok, 'gives %s' % show(l, 4), f.loc)
    f = p.modules[Q].funcs.get('extractValue')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f)
        rep.analysed(I)
        t, n = [P(x) for x in f.argnames()[:2]]
        for e in I.events:
            if e.kind == 'call' and e.fn is mk('ext', 're.search'):
                rep.ob('precedence', 'template values are looked up by name', e.args[0].op == 'concat' and e.args[0].args[0] is const('##') and e.args[0].args[1] is n and cstr(e.args[0].args[2]) is not None and cstr(e.args[0].args[2]).startswith(':(') and e.args[1] is t, 'looks for %s in %s' % (show(e.args[0], 4), show(e.args[1], 2)), e.loc)
    f = p.modules[Q].funcs.get('replacePlaceholders')
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f)
        rep.analysed(I)
        t, vals = [P(x) for x in f.argnames()[:2]]
        el = mk('elem', vals)
        n = 0
        for e in I.events:
            if e.kind == 'meth' and e.name == 'replace' and e.loops:
                n += 1
                v = mk('item', vals, el)
                ok = e.args[0] is cat('##', el, '##') and e.args[1] in (v, mk('call', mk('builtin', 'str'), (v,), ()), concat([v])) or e.args[0] is cat('##', el, '##') and contains(e.args[1], v)
                rep.ob('script', 'each placeholder is replaced by its own value', ok and any(x[1] is vals or contains(x[1], vals) for x in e.loops), 'replaces %s by %s' % (show(e.args[0], 3), show(e.args[1], 3)), e.loc)
                rep.ob('script', 'replacements build on each other', e.base.op == 'lv' or any_sub(e.base, lambda x: x.op == 'lv'), 'each starts from %s' % show(e.base, 3), e.loc)
                cond = [x for x in e.facts]
                rep.ob('script', 'every placeholder is replaced', not cond or all(x.op in ('cmp',) and x.args[0] == 'in' for x in cond), 'only where %s' % [show(x, 3) for x in cond], e.loc)
        if n:
            for st, v in rets:
                v = I.res(v, st)
                rep.ob('script', 'the text with all replacements is returned', any_sub(v, lambda x: x.op == 'loop'), 'returns %s' % show(v, 3), f.loc)


def submit(p, rep):
    f = p.func(Q, 'submitJob')
    files = P(f.argnames()[1])
    jn = P(f.argnames()[0])
    seqn = P('sequential')
    text = mk('isinstance', files, mk('tuple', mk('ext', 'six.string_types')))
    given = None
    for single in (False, True):
        facts = [neg(compare('is', files, NONE))]
        I = Interp(p, inline=policy('jobSettings.__init__'))
        # the test used for a single file
        tests = find_tests(p, f, files)
        facts += [x if single else neg(x) for x in tests]
        written, commands, indexed = [], [], []

        def cb(I, e, st):
            if I.mute:
                return
            if e.kind == 'meth' and e.name == 'write' and e.args:
                written.append((e, I.res(e.args[0], st)))
            if e.kind == 'repocall' and e.name == 'replacePlaceholders' and len(e.args) == 2:
                commands.append((e, I.res(e.args[1], st)))
        I.on_event_cb = cb
        rets, _ = I.run_function(f, facts=tuple(facts))
        rep.analysed(I)
        elem = files if single else mk('elem', files)
        stem = meth(elem, 'replace', const('.ini'), const(''))
        count = const(1) if single else mk('len', files)
        sub = lambda t: norm_files(canon(pick(t)), files, single)
        script = None
        for e, v in written:
            if v.op == 'call' and is_fn(v.args[0], 'replacePlaceholders'):
                script = (e, v)
        if script is None:
            if single:
                continue
            raise AnalysisError('no script written by submitJob')
        e, v = script
        tx, vals = v.args[1][:2]
        what = ' (one file)' if single else ''
        ok = sub(tx).op == 'meth' and sub(tx).args[1] == 'read' and contains(sub(tx), P('$job_template'))
        rep.ob('script', 'the script is made from the template%s' % what, ok, 'made from %s' % show(sub(tx), 4), e.loc)
        if vals.op != 'dictc':
            rep.note('resources', 'values', show(vals, 3))
            continue
        d, inside = {}, {}
        for x in vals.args:
            y, cond, it = x, [], None
            while y.op in ('rep', 'opt'):
                if y.op == 'rep':
                    it, y = y.args[1], y.args[0]
                else:
                    cond.append(y.args[0])
                    y = y.args[1]
            if y.op == 'kv' and cstr(y.args[0]) is not None:
                (inside if it is not None else d)[cstr(y.args[0])] = (sub(y.args[1]), conj([sub(c) for c in cond]))
        given = set(d) | set(inside)
        runs = ite(truth(seqn), const(1), count)
        cores, perNode, nodes = P('$coresPerNode'), P('$chainsPerNode'), P('$nodes')
        mul = lambda *a: a[0] if len(a) == 1 else mk('bin', '*', mul(*a[:-1]), a[-1])
        omp = mk('bin', '//', cores, mul(perNode, runs))
        want = {'OMP': omp, 'NUMNODES': nodes, 'NUMRUNS': runs, 'NUMMPI': mul(nodes, perNode), 'CHAINSPERNODE': perNode, 'PPN': mul(perNode, runs, omp), 'MPIPERNODE': mul(perNode, runs),
                'NUMTASKS': mul(nodes, perNode, runs), 'NUMSLOTS': mul(perNode, runs, omp, nodes), 'MEM_MB': P('$mem_per_node')}
        for k, w in want.items():
            if k not in d:
                rep.ob('resources', k + what, False, 'has no value', e.loc)
                continue
            r = same_product(d[k][0], w)
            rep.ob('resources', k + what, r is None and d[k][1] is TRUE, 'is %s' % show(d[k][0], 5), e.loc)
        for k, w in (('JOBNAME', jn), ('WALLTIME', P('$walltime')), ('PROGRAM', P('$program')), ('QUEUE', P('$queue')), ('JOBCLASS', P('$jobclass'))):
            if k not in d:
                rep.ob('resources', k + what, False, 'has no value', e.loc)
                continue
            rep.ob('resources', k + what, d[k][0] is w, 'is %s' % show(d[k][0], 4), e.loc)
        if 'ROOTDIR' in d:
            rep.ob('resources', 'ROOTDIR' + what, d['ROOTDIR'][0] is mk('call', mk('ext', 'os.getcwd'), (), ()), 'is %s' % show(d['ROOTDIR'][0], 4), e.loc)
        if 'ONERUN' in d:
            one = norm(disj([truth(seqn), compare('==', count, const(1))]))
            cs = cases(d['ONERUN'][0])
            if all(l in (const(0), const(1), TRUE, FALSE) for fs, l in cs):
                got = disj([conj(list(fs)) for fs, l in cs if l in (const(1), TRUE)])
                rep.ob('resources', 'ONERUN' + what, differ(norm(got), one) is None, 'is 1 where %s' % show(got, 5), e.loc)
        # commands
        c = d.get('COMMAND')
        if c is None:
            rep.ob('commands', 'commands' + what, False, 'none given', e.loc)
        else:
            one_command(rep, c[0], elem, stem, seqn, single, files, e, what)
        for ev, dd in commands:
            dd = sub(dd)
            if dd.op != 'dictc':
                continue
            kv = {}
            for x in dd.args:
                y = x
                while y.op in ('rep', 'opt'):
                    y = y.args[0] if y.op == 'rep' else y.args[1]
                if y.op == 'kv' and cstr(y.args[0]) is not None:
                    kv[cstr(y.args[0])] = y.args[1]
            given |= set(kv)
            src = sub(ev.args[0])
            if src.op == 'call' and is_fn(src.args[0], 'extractValue'):
                rep.ob('commands', 'INI%s' % what, kv.get('INI') is cat(stem, '.ini'), 'is %s' % (show(kv['INI'], 4) if 'INI' in kv else 'not given'), ev.loc)
                base = mk('call', mk('ext', 'os.path.basename'), (stem,), ())
                rep.ob('commands', 'INIBASE%s' % what, kv.get('INIBASE') is base, 'is %s' % (show(kv['INIBASE'], 4) if 'INIBASE' in kv else 'not given'), ev.loc)
        # where things are written, and under which conditions
        dry = meth(KW, 'get', const('dryrun'), FALSE)
        nosub = meth(KW, 'get', const('no_sub'), FALSE)
        sname = e.base.args[1][0] if e.base.op == 'call' and e.base.args[1] else None
        if sname is not None:
            rep.ob('script', 'written under the name of the job' + what, sname.op == 'concat' and jn in sname.args and not any_sub(sname, lambda x: x is files), 'written to %s' % show(sname, 4), e.loc)
        subs = [x for x in I.events if x.kind == 'call' and x.fn is not None and x.fn.op == 'ext' and x.fn.args[0].startswith('subprocess.') and x.args and sname is not None and ends_with(x.args[0], sname)]
        other = [x for x in I.events if x.kind == 'call' and x.fn is not None and x.fn.op == 'ext' and x.fn.args[0].startswith('subprocess.') and x.args and contains(x.args[0], jn) and x not in subs]
        rep.ob('script', 'the script written is submitted' + what, len(subs) == 1 and not other, '%s' % ('submits %s' % show(other[0].args[0], 4) if other else 'submitted %d times' % len(subs)), e.loc)
        for x in subs:
            rep.ob('script', 'submitted after it is written' + what, x.seq > e.seq, 'submitted before', x.loc)
            q = sub(x.args[0])
            ok = any_sub(q, lambda y: y is P('$qsub'))
            rep.ob('script', 'submitted by the command set' + what, ok, 'by %s' % show(q, 4), x.loc)
    return given or set()


def ends_with(t, name):
    if t is name:
        return True
    if t.op == 'concat' and name.op == 'concat':
        n = len(name.args)
        tail = t.args[-n:]
        first = (cstr(tail[0]) or '').endswith(cstr(name.args[0]) or '\0') if tail and cstr(name.args[0]) is not None and cstr(tail[0]) is not None else tail and tail[0] is name.args[0]
        return len(tail) == n and bool(first) and tail[1:] == name.args[1:]
    return t.op == 'concat' and t.args[-1] is name or t.op in ('seq', 'tuple') and bool(t.args) and ends_with(t.args[-1], name)


def find_tests(p, f, files):
    I = Interp(p, inline=policy())
    I.run_function(f)
    out = set()
    for e in I.events:
        for t in list(e.facts) + list(e.args or ()) + ([e.value] if e.value is not None else []):
            for x in walk(t):
                if x.op == 'isinstance' and x.args[0] is files:
                    out.add(x)
    return sorted(out, key=lambda x: show(x, 5))


def norm_files(t, files, single):
    return t


def one_command(rep, c, elem, stem, seqn, single, files, e, what):
    if single:
        per = c
        if c.op == 'join':
            per = c.args[1].args[0] if c.args[1].op == 'seq' and len(c.args[1].args) == 1 else None
    else:
        per = None
        if c.op == 'join' and c.args[1].op == 'seq' and len(c.args[1].args) == 1 and c.args[1].args[0].op == 'rep':
            r = c.args[1].args[0]
            rep.ob('commands', 'one command for each file', r.args[1] is files, 'one for each of %s' % show(r.args[1], 3), e.loc)
            rep.ob('commands', 'commands on lines of their own', cstr(c.args[0]) is not None and '\n' in cstr(c.args[0]), 'joined by %s' % show(c.args[0], 2), e.loc)
            per = r.args[0]
        elif c.op == 'join':
            rep.ob('commands', 'one command for each file', False, 'commands are %s' % show(c.args[1], 5), e.loc)
    if per is None:
        rep.note('commands', 'commands%s' % what, show(c, 4))
        return
    if per.op == 'opt':
        rep.ob('commands', 'a command for every file%s' % what, False, 'only where %s' % show(per.args[0], 4), e.loc)
        return
    for sq in (True, False):
        for fs, l in cases(per, extend(frozenset(), truth(seqn) if sq else neg(truth(seqn)))):
            ps = parts_text(l)
            bg = ''.join(cstr(x) if cstr(x) is not None else '\0' for x in ps).rstrip().endswith('&')
            rep.ob('commands', 'run one after another if sequential, else together%s' % what, bg == (not sq), 'command is %s' % show(l, 5), e.loc)
            if any(x.op == 'call' and is_fn(x.args[0], 'replacePlaceholders') for x in ps):
                x = [x for x in ps if x.op == 'call'][0]
                rep.ob('commands', 'the run command of the template is used%s' % what, x.args[1][0].op == 'call' and is_fn(x.args[1][0].args[0], 'extractValue'), 'uses %s' % show(x.args[1][0], 3), e.loc)
                continue
            txt = mk('tuple', *ps)
            ini = any(ps[i] is stem and i + 1 < len(ps) and (cstr(ps[i + 1]) or '').startswith('.ini') for i in range(len(ps)))
            rep.ob('commands', 'the default command runs the file%s' % what, ini, 'command is %s' % show(l, 6), e.loc)
            n = [x.args[1] if x.op == 'fmt' else x for x in ps]
            rep.ob('commands', 'the default command runs the number of chains and program set%s' % what, any(x.op != 'const' and prod(x) is prod(mk('bin', '*', P('$nodes'), P('$chainsPerNode'))) for x in n) and P('$program') in n, 'command is %s' % show(l, 6), e.loc)


def parts_text(t):
    if t.op == 'concat':
        out = []
        for x in t.args:
            out += parts_text(x)
        return out
    if t.op == 'bin' and t.args[0] == '+':
        return parts_text(t.args[1]) + parts_text(t.args[2])
    return [t]


def templates(p, rep, keys, given):
    root = p.repo
    for fn in sorted(glob.glob(os.path.join(root, 'job_script*'))):
        try:
            txt = open(fn).read()
        except (OSError, UnicodeDecodeError):
            continue
        n = os.path.basename(fn)
        for k in sorted(set(_re.findall('##([A-Za-z_]+)##', txt))):
            rep.ob('template', '%s in %s' % (k, n), k in given, 'nothing is put in its place', n)
        for k in sorted(set(_re.findall('##DEFAULT_([A-Za-z_]+):', txt))):
            rep.ob('template', 'default of %s in %s' % (k, n), k in keys, 'never read', n)


def naming(p, rep):
    # options offered for job settings are the ones read, and have no default hiding the template
    f = p.modules[Q].funcs.get('addArguments')
    if f is not None:
        I = Interp(p, inline=policy())
        I.run_function(f)
        rep.analysed(I)
        seen = set()
        for e in I.events:
            if e.kind == 'meth' and e.name == 'add_argument' and e.args and cstr(e.args[0]) is not None:
                k = cstr(e.args[0]).lstrip('-')
                seen.add(k)
                d = e.kw('default')
                if k in INTS + TEXTS + ('job_template',) and k != 'runsPerJob':
                    rep.ob('precedence', 'no option hides the template: %s' % k, d is None or d is NONE, 'default %s' % (show(d, 3) if d is not None else ''), e.loc)
                dest = e.kw('dest')
                if dest is not None:
                    rep.ob('settings', 'option %s is stored under its own name' % k, cstr(dest) == k, 'stored under %s' % show(dest, 2), e.loc)
        if seen:
            for k in ('nodes', 'chainsPerNode', 'coresPerNode', 'mem_per_node', 'walltime', 'job_template', 'program', 'queue', 'jobclass', 'qsub', 'dryrun', 'no_sub'):
                rep.ob('settings', 'option %s is offered' % k, k in seen, 'not offered', f.loc)
    m = p.modules.get('runbatch')
    f = m.funcs.get('jobName') if m is not None else None
    if f is not None:
        I = Interp(p, inline=policy())
        rets, _ = I.run_function(f)
        rep.analysed(I)
        for st, v in rets:
            for fs, l in cases(I.res(v, st), st.facts):
                allj = [x for x in walk(l) if x.op == 'join' and any_sub(x.args[1], lambda y: y.op == 'rep')]
                rep.ob('script', 'the name of a job depends on all its runs', bool(allj), 'is %s where %s' % (show(l, 5), [show(x, 4) for x in fs]), f.loc)
