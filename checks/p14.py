"""P14: nothing is changed without confirmation or in a dry run; with it, exactly what was selected."""
from .common import *
from .effects import effect_name, effectful
from sa.project import AnalysisError

P = lambda n: mk('param', n)


def opt(x, name):
    """x is the value of the command line option `name`"""
    return x.op == 'attr' and x.args[1] == name and is_args(x.args[0])


def is_args(t):
    """the parsed arguments"""
    return t.op == 'item' and t.args[0].op == 'meth' and t.args[0].args[1] == 'parseForBatch' and t.args[1] is const(1) or \
        t.op == 'attr' and t.args[1] == 'args' or t.op == 'meth' and t.args[1] == 'parse_args'


def options(e, name, terms=()):
    out = set()
    for t in list(e.facts) + list(e.args or ()) + [v for _, v in e.kwargs or ()] + list(terms):
        for x in walk(t):
            if opt(x, name):
                out.add(x)
    return out


def guarded(e, name, positive, extra=()):
    fs = list(e.facts) + list(extra)
    return any(logic.implies(fs, truth(x) if positive else neg(truth(x))) for x in options(e, name, extra))


def script(p, rep, name, inline=()):
    m = p.modules.get(name)
    if m is None:
        raise AnalysisError('script %s vanished' % name)
    I = Interp(p, inline=policy(*inline), budget=400000)
    I.run_module(m)
    rep.functions.add('%s:<module>' % name)
    rep.analysed(I)
    return I


def check(p, rep):
    rep.rule('confirm', 'every effect on files or jobs happens only where confirmation was given', 4)
    rep.rule('dry-run', 'no effect on files or jobs in a dry run', 6)
    rep.rule('clean-up', 'clean-up removes exactly the selected files of the selected runs', 3)
    rep.rule('delete', 'exactly the jobs asked for are cancelled', 5)
    rep.rule('rename', 'exactly the parameters given are renamed or relabelled, in their own file', 2)
    eff, names = effectful(p)
    eff = {q for q in eff if not q.endswith('.parseForBatch')}
    names = names - {'parseForBatch'}

    def effects(I):
        for e in I.events:
            n = effect_name(e)
            if n is None and e.kind == 'repocall' and e.fn is not None and e.fn.args[0] in eff:
                n = e.fn.args[0].split(':')[1]
            if n is None and e.kind in ('meth', 'repocall') and e.name in names and not (e.kind == 'repocall'):
                n = e.name
            if n is not None:
                yield n, e

    # scripts that need --confirm
    for s in ('cleanup', 'deleteJobs', 'renameParam'):
        I = script(p, rep, s)
        for n, e in effects(I):
            if n.split('.')[-1] in ('deleteJobs', 'deleteRootNames'):
                v = e.kw('confirm')
                ok = guarded(e, 'confirm', True) or v is not None and guarded(e, 'confirm', True, (truth(v),))
                rep.ob('confirm', '%s: %s' % (s, n), ok, 'jobs deleted with confirm=%s' % (show(v, 3) if v is not None else 'the default (yes)'), e.loc)
            else:
                rep.ob('confirm', '%s: %s' % (s, n), guarded(e, 'confirm', True), '%s(%s) without confirmation' % (n, ', '.join(show(a, 3) for a in e.args)), e.loc)
        if s == 'cleanup':
            cleanup(rep, I)
        elif s == 'deleteJobs':
            delete_script(p, rep, I)
        else:
            rename(rep, I)
    f = p.func('paramgrid.jobqueue', 'deleteJobs')
    I = Interp(p, inline=policy())
    I.run_function(f)
    rep.analysed(I)
    for n, e in effects(I):
        rep.ob('confirm', 'deleteJobs function: %s' % n, logic.implies(e.facts, P('confirm')), '%s without confirmation' % n, e.loc)
    delete_function(p, rep, I, f)
    # dry runs
    for s in ('copyGridFiles', 'runbatch'):
        I = script(p, rep, s)
        for n, e in effects(I):
            if n in ('submitJob', 'checkArguments'):
                if n == 'checkArguments':
                    continue
                kw = dict(e.kwargs or ())
                v = kw.get('dryrun')
                all_ = [x for k, x in e.kwargs or () if k == '**']
                ok = guarded(e, 'dryrun', False) or v is not None and opt(v, 'dryrun') or v is None and any(passes_all(x) for x in all_)
                rep.ob('dry-run', '%s: %s' % (s, n), ok, 'submits with %s' % ', '.join('%s=%s' % (k, show(x, 3)) for k, x in e.kwargs or ()), e.loc)
            else:
                rep.ob('dry-run', '%s: %s' % (s, n), guarded(e, 'dryrun', False), '%s(%s) also in a dry run' % (n, ', '.join(show(a, 3) for a in e.args)), e.loc)
    f = p.func('paramgrid.jobqueue', 'submitJob')
    I = Interp(p, inline=policy())
    I.run_function(f)
    rep.analysed(I)
    for n, e in effects(I):
        if n == 'jobSettings.__init__':
            continue
        dry = [x for t in e.facts for x in walk(t) if x.op in ('meth', 'item', 'param') and any_sub(x, lambda y: y is const('dryrun') or y is P('dryrun')) and not contains_loop(x)]
        ok = any(logic.implies(e.facts, neg(truth(x))) for x in dry)
        rep.ob('dry-run', 'submitJob: %s' % n, ok, '%s(%s) also in a dry run' % (n, ', '.join(show(a, 3) for a in e.args)), e.loc)
        if n.startswith('subprocess') or n == 'addJobIndex':
            ns = [x for t in e.facts for x in walk(t) if x.op in ('meth', 'item', 'param') and any_sub(x, lambda y: y is const('no_sub') or y is P('no_sub')) and not contains_loop(x)]
            rep.ob('dry-run', 'submitJob: %s not with no_sub' % n, any(logic.implies(e.facts, neg(truth(x))) for x in ns), '%s although submission was not wanted' % n, e.loc)


def contains_loop(x):
    return any_sub(x, lambda y: y.op in ('loop', 'lv'))


def passes_all(x):
    return x.op == 'attr' and x.args[1] == '__dict__' and is_args(x.args[0]) or \
        x.op == 'call' and x.args[0] is mk('builtin', 'vars') and is_args(x.args[1][0])


def ctx(e):
    return mk('tuple', *sorted(list(e.facts) + list(e.args or ()), key=lambda t: show(t, 6)))


def cleanup(rep, I):
    removed, found = {True: set(), False: set()}, False
    for e in I.events:
        if not (e.kind == 'call' and e.fn.op == 'ext' and e.fn.args[0] in ('os.remove', 'os.unlink', 'shutil.rmtree', 'os.rmdir')):
            continue
        t = e.args[0]
        files = {x for x in walk(t) if x.op == 'elem' and any_sub(x.args[0], lambda y: y.op == 'call' and y.args[0].op == 'ext' and y.args[0].args[0] in ('os.listdir', 'glob.glob'))}
        files = {x for x in files if not any(y is not x and contains(y, x) for y in files)}
        dirs = {x.args[1][0] for f in files for x in walk(f.args[0]) if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] == 'os.listdir' and x.args[1]}
        if len(files) != 1 or len(dirs) != 1:
            rep.note('clean-up', 'what is removed', 'path %s' % show(t, 4))
            continue
        f, d = files.pop(), dirs.pop()
        # the file in the directory that was listed
        parts = list(t.args[1:]) if t.op == 'bin' else list(t.args) if t.op == 'concat' else list(t.args[1]) if t.op == 'call' else []
        ok = len(parts) == 2 and parts[1] is f and (parts[0] is d)
        rep.ob('clean-up', 'the listed file is removed', ok, 'removes %s' % show(t, 5), e.loc)
        # directories: chainPath / distPath of the item
        leaves = set()
        for x in walk(d):
            if x.op == 'attr' and x.args[1] in ('chainPath', 'distPath', 'batchPath', 'chainRoot', 'distRoot') and x.args[0].op == 'elem':
                leaves.add(x)
        items = {x.args[0] for x in leaves}
        item = items.pop() if len(items) == 1 else None
        rep.ob('clean-up', 'directories of the run', {x.args[1] for x in leaves} <= {'chainPath', 'distPath'} and item is not None, 'looks in %s' % show(d, 4), e.loc)
        if item is None:
            continue
        sel = any_sub(item, lambda x: x.op == 'meth' and x.args[1] == 'filteredBatchItems' and not x.args[2] and not x.args[3])
        rep.ob('clean-up', 'runs selected by the options', sel, 'runs %s' % show(item, 4), e.loc)
        fn = [x for t2 in e.facts for x in walk(t2) if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0].startswith('fnmatch.') and x.args[1][0] is f]
        good = [x for x in fn if logic.implies(e.facts, x)]
        okp = False
        for x in good:
            pat = x.args[1][1]
            ps = list(pat.args[1:]) if pat.op == 'bin' else list(pat.args) if pat.op == 'concat' else []
            okp = okp or bool(ps) and ps[0] is mk('attr', item, 'name') and len(ps) > 1
        rep.ob('clean-up', 'files named after the run', okp, 'removes where %s' % [show(x, 4) for x in e.facts][:5], e.loc)
        emp = options(e, 'empty')
        sz = [x for t2 in e.facts for x in walk(t2) if x.op == 'cmp' and any_sub(x, lambda y: y.op == 'call' and y.args[0].op == 'ext' and y.args[0].args[0] == 'os.path.getsize' and y.args[1] == (t,)) and ZERO_ in x.args]
        rep.ob('clean-up', 'only empty files if so asked', any(logic.implies(set(e.facts) | {truth(a)}, compare('==', mk('call', mk('ext', 'os.path.getsize'), (t,), ()), ZERO_)) for a in emp) or any(logic.implies(set(e.facts) | {truth(a)}, x) for a in emp for x in sz if x.args[0] == '=='), 'empty files not selected by --empty', e.loc)
        cv = options(e, 'converge')
        hc = [x for t2 in e.facts for x in walk(t2) if x.op == 'meth' and x.args[1] == 'hasConvergeBetterThan' and x.args[0] is item]
        ok = any(logic.implies(set(e.facts) | {neg(compare('==', a, ZERO_))}, neg(x)) and x.args[2][:1] == (a,) for a in cv for x in hc)
        rep.ob('clean-up', 'converged runs are kept', ok, 'convergence is not respected', e.loc)
        for x in hc:
            rep.ob('clean-up', 'runs without convergence information are kept', len(x.args[2]) > 1 and truth(x.args[2][1]) is TRUE or ('returnNotExist', TRUE) in x.args[3], 'removed if convergence is not known', e.loc)
        # completeness: nothing else decides
        known = set()
        for a in emp:
            known |= {a}
        E = list(good) + [x for a in options(e, 'confirm') for x in [truth(a)]] + [neg(truth(a)) for a in emp] + [compare('==', a, ZERO_) for a in cv]
        E += [x for t2 in e.facts for x in walk(t2) if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('os.path.exists', 'os.path.isfile')]
        rest = [x for x in e.facts if not logic.implies(E, x) and not any_sub(x, lambda y: y.op == 'call' and y.args[0].op == 'ext' and y.args[0].args[0] == 'os.path.getsize') and not contains_loop(x)]
        dist = {x for t2 in list(e.facts) + [d] for x in walk(t2) if opt(x, 'dist')}
        for val in (True, False):
            fs = {truth(a) if val else neg(truth(a)) for a in dist}
            if not any(logic.implies(fs, neg(x)) for x in e.facts):
                left = [x for x in rest if not logic.implies(fs, x)]
                if not left:
                    removed[val] |= {x.args[1] for x in walk(assume(d, fs)) if x in leaves}
        rest = [x for x in rest if not any(logic.implies({truth(a)}, x) or logic.implies({neg(truth(a))}, x) for a in dist)]
        rep.ob('clean-up', 'all selected files are removed', not rest, 'only if %s' % [show(x, 4) for x in rest], e.loc)
        found = True
        for a in dist:
            for l in [assume(d, {truth(a)})]:
                rep.ob('clean-up', 'chains are kept with --dist', not any(x.op == 'attr' and x.args[1] == 'chainPath' for x in walk(l)), 'chain files are removed although only --dist was asked', e.loc)
    if found:
        rep.ob('clean-up', 'directories cleaned with --dist', 'distPath' in removed[True], 'analysis files are not removed', 'python/cleanup.py')
        rep.ob('clean-up', 'directories cleaned without --dist', {'chainPath', 'distPath'} <= removed[False], 'only %s cleaned' % sorted(removed[False]), 'python/cleanup.py')
    # name patterns
    for e in I.events:
        if e.kind == 'setattr' and e.name == 'ext' and is_args(e.base):
            for fs, l in alts(e.value, e.facts):
                for x in walk(l):
                    if x.op == 'rep':
                        b = x.args[0]
                        ps = list(b.args) if b.op == 'concat' else list(b.args[1:]) if b.op == 'bin' else []
                        first = ps[0] if ps else None
                        while first is not None and first.op in ('concat', 'bin'):
                            first = first.args[0] if first.op == 'concat' else first.args[1]
                        s = cstr(first) if first is not None else None
                        rep.ob('clean-up', 'extensions follow a dot or chain number', s is not None and s[:1] in ('.', '_'), 'pattern %s also matches other runs' % show(b, 4), e.loc)


ZERO_ = const(0)


def delete_script(p, rep, I):
    f = p.func('paramgrid.jobqueue', 'deleteJobs')
    sels = {'jobId_minmax': 'delete_id_range', 'jobId_min': 'delete_id_min', 'jobIds': 'delete_ids'}
    for e in I.events:
        if e.kind == 'repocall' and e.name == 'deleteJobs':
            given = {k: e.kw(k) for k in list(sels) + ['rootNames', 'jobNames'] if e.kw(k) is not None and e.kw(k) is not NONE}
            if len(given) != 1:
                rep.ob('delete', 'deleteJobs script: one selection at a time', False, 'deletes by %s' % sorted(given), e.loc)
                continue
            k, v = list(given.items())[0]
            if k in sels:
                os_ = [x for x in walk(v) if opt(x, sels[k])]
                ok = bool(os_) and not any(x.op == 'attr' and is_args(x.args[0]) and x.args[1] != sels[k] for x in walk(v))
                rep.ob('delete', 'deleteJobs script: %s' % k, ok, 'selects %s' % show(v, 4), e.loc)
                if k == 'jobIds':
                    # ids are text in the index
                    txt = any_sub(v, lambda x: x.op == 'str' or x.op == 'call' and x.args[0] is mk('builtin', 'str') or x.op in ('fmt', 'concat'))
                    rep.ob('delete', 'deleteJobs script: ids as text', txt or not typed_int(I, 'delete_ids'), 'numbers never match the ids of the index', e.loc)
            else:
                for o in sels.values():
                    xs = options(e, o)
                    ok = any(logic.implies(e.facts, compare('is', x, NONE)) or logic.implies(e.facts, neg(truth(x))) for x in xs)
                    rep.ob('delete', 'deleteJobs script: whole batch only without --%s' % o, ok, 'all jobs of the batch are deleted although --%s was given' % o, e.loc)
                src = [x for x in walk(v) if x.op == 'meth' and x.args[1] == 'filteredBatchItems']
                rep.ob('delete', 'deleteJobs script: selected runs', bool(src) and any_sub(v, lambda x: x.op == 'attr' and x.args[1] == 'name'), 'deletes %s' % show(v, 4), e.loc)
            for o in ('running', 'queued'):
                x = e.kw(o)
                rep.ob('delete', 'deleteJobs script: --%s' % o, x is not None and opt(x, o), '--%s is ignored' % o if x is None else '%s=%s' % (o, show(x, 3)), e.loc)
        if e.kind == 'call' and e.fn.op == 'ext' and e.fn.args[0].startswith('subprocess.'):
            srcs = {x.args[1] for a in e.args for x in walk(a) if x.op == 'attr' and is_args(x.args[0])}
            rep.ob('delete', 'deleteJobs script: ids given', bool(srcs) and srcs <= {'delete_id_range', 'delete_ids'}, 'cancels by %s' % sorted(srcs), e.loc)
            rng = [x for a in e.args for x in walk(a) if x.op == 'call' and x.args[0] is mk('builtin', 'range')]
            for x in rng:
                o = [y for y in walk(x) if opt(y, 'delete_id_range')]
                ok = bool(o) and len(x.args[1]) == 2 and x.args[1][0] is mk('item', o[0], const(0)) and plus_one(x.args[1][1], mk('item', o[0], const(1)))
                rep.ob('delete', 'deleteJobs script: whole range', ok, 'range %s' % show(x, 4), e.loc)


def plus_one(x, t):
    return x.op == 'bin' and x.args[0] == '+' and set(x.args[1:]) == {t, const(1)}


def typed_int(I, name):
    for e in I.events:
        if e.kind == 'meth' and e.name == 'add_argument' and e.args and cstr(e.args[0]) == '--' + name:
            return dict(e.kwargs or ()).get('type') is mk('builtin', 'int')
    return False


def delete_function(p, rep, I, f):
    index = None
    for e in I.events:
        if e.kind == 'repocall' and e.name == 'loadJobIndex':
            index = mk('call', e.fn, e.args, e.kwargs or ())
    for e in I.events:
        if e.kind == 'repocall' and e.name == 'queue_job_details':
            r, q = e.kw('running'), e.kw('queued')
            for val, o, w in ((r, 'queued', 'running'), (q, 'running', 'queued')):
                ok = val is not None and logic.implies([P(o), neg(P(w))], neg(truth(val))) and logic.implies([neg(P(o))], truth(val))
                rep.ob('delete', 'deleteJobs function: %s jobs' % w, ok, '%s=%s' % (w, show(val, 3) if val is not None else 'default'), e.loc)
    for e in I.events:
        sub = e.kind == 'call' and e.fn.op == 'ext' and e.fn.args[0].startswith('subprocess.')
        dele = e.kind in ('meth', 'repocall') and e.name == 'delId'
        if not (sub or dele):
            continue
        el = [x for a in e.args for x in walk(a) if x.op == 'elem']
        el = el[0] if el else None
        if el is None:
            rep.note('delete', 'deleteJobs function', 'id %s' % [show(a, 3) for a in e.args])
            continue
        inidx = [x for t in e.facts for x in walk(t) if x.op == 'meth' and x.args[1] == 'get' and x.args[2][:1] == (el,) and x.args[0].op == 'attr' and x.args[0].args[1] == 'jobSettings']
        ok = any(logic.implies(e.facts, neg(compare('is', x, NONE))) or logic.implies(e.facts, truth(x)) for x in inidx) or any(logic.implies(e.facts, x) for t in e.facts for x in walk(t) if x.op == 'cmp' and x.args[0] == 'in' and x.args[1] is el and x.args[2].op == 'attr' and x.args[2].args[1] == 'jobSettings')
        what = 'cancelled' if sub else 'removed from the index'
        rep.ob('delete', 'deleteJobs function: only jobs of the index are %s' % what, ok, 'where %s' % [show(x, 3) for x in e.facts], e.loc)
        ids = [x for t in e.facts for x in walk(t) if x.op == 'cmp' and x.args[0] == 'in' and x.args[1] is el and any_sub(x.args[2], lambda y: y.op == 'call' and y.args[0].op == 'func' and y.args[0].args[0].endswith(':queue_job_details'))]
        if sub:
            ok = any(logic.implies(e.facts, x) and x.args[2].op == 'item' and x.args[2].args[1] is ZERO_ for x in ids)
            rep.ob('delete', 'deleteJobs function: only jobs in the queue are cancelled', ok, 'cancels where %s' % [show(x, 3) for x in e.facts], e.loc)
        else:
            ok = any(logic.implies(set(e.facts) | {P(o)}, x) for x in ids for o in ('running',)) and any(logic.implies(set(e.facts) | {P('queued')}, x) for x in ids)
            rep.ob('delete', 'deleteJobs function: other jobs stay in the index', ok, 'jobs that were not asked for are removed from the index', e.loc)
            E = [P('confirm')] + [neg(P('running')), neg(P('queued'))] + [truth(x) for x in inidx] + [neg(compare('is', x, NONE)) for x in inidx] + ids + ([index] if index is not None else [])
            rest = [x for x in e.facts if not logic.implies(E, x) and contains(x, el)]
            rep.ob('delete', 'deleteJobs function: finished jobs are removed from the index', not rest, 'only if %s' % [show(x, 3) for x in rest], e.loc)
    # how ids are collected
    for e in I.events:
        if e.kind == 'meth' and e.name == 'append' and e.args:
            v = e.args[0]
            if v.op == 'meth' and v.args[1] == 'get' and v.args[0].op == 'attr' and v.args[0].args[1] in ('rootNames', 'jobNames'):
                n = v.args[0].args[1]
                ok = any_sub(v.args[2][0], lambda x: x is P(n)) and not any_sub(v.args[2][0], lambda x: x.op == 'param' and x is not P(n))
                rep.ob('delete', 'deleteJobs function: %s' % n, ok, 'looks up %s in %s' % (show(v.args[2][0], 3), n), e.loc)
            elif v.op == 'elem' and v.args[0].op == 'attr' and v.args[0].args[1] == 'jobSettings':
                lo, hi = mk('item', P('jobId_minmax'), const(0)), mk('item', P('jobId_minmax'), const(1))
                nums = {x for t in e.facts for x in walk(t) if contains(x, v) and (x.op == 'ite' and any_sub(x, lambda y: y.op == 'call' and y.args[0] is mk('builtin', 'int')) or x.op == 'call' and x.args[0] is mk('builtin', 'int'))}
                nums = {x for x in nums if not any(y is not x and contains(y, x) for y in nums)}
                if len(nums) != 1:
                    rep.note('delete', 'deleteJobs function: range of ids', 'number of a job not recognised')
                    continue
                n = nums.pop()
                mm, mn = neg(compare('is', P('jobId_minmax'), NONE)), neg(compare('is', P('jobId_min'), NONE))
                a = logic.implies(set(e.facts) | {neg(mn)}, compare('<=', lo, n)) and logic.implies(set(e.facts) | {neg(mn)}, compare('<=', n, hi))
                b = logic.implies(set(e.facts) | {neg(mm)}, compare('<=', P('jobId_min'), n))
                rep.ob('delete', 'deleteJobs function: ids in the range only', a, 'range of ids not respected', e.loc)
                rep.ob('delete', 'deleteJobs function: ids from the minimum only', b, 'least id not respected', e.loc)
                for E in ([mm, compare('<=', lo, n), compare('<=', n, hi)], [mn, compare('<=', P('jobId_min'), n)]):
                    rest = [x for x in e.facts if (contains(x, P('jobId_minmax')) or contains(x, P('jobId_min'))) and not logic.implies(E, x)]
                    rep.ob('delete', 'deleteJobs function: all ids in the range', not rest, 'only if %s' % [show(x, 4) for x in rest], e.loc)


def rename(rep, I):
    for e in I.events:
        if e.kind in ('repocall', 'meth') and e.name == 'saveAsText':
            b = e.base
            src = b.args[2] if b.op == 'new' else ()
            ok = b.op == 'new' and src and e.args and src[0] is e.args[0]
            rep.ob('rename', 'names are saved to the file they came from', ok, 'names of %s saved to %s' % ([show(x, 3) for x in src], [show(x, 3) for x in e.args]), e.loc)
        if e.kind == 'setattr' and e.name in ('name', 'label') and e.base.op == 'elem':
            par = e.base
            v = e.value
            if e.name == 'name':
                ok = v.op == 'item' and v.args[1] is ZERO_ and any_sub(v.args[0], lambda x: x.op == 'meth' and x.args[1] == 'get' or x.op == 'item') and any_sub(v.args[0], lambda x: x is mk('attr', par, 'name'))
                rep.ob('rename', 'new name of the parameter', ok, 'name becomes %s' % show(v, 4), e.loc)
            else:
                own = any_sub(v, lambda x: x is mk('attr', par, 'name') or x is par) or any_sub(v, lambda x: x.op == 'meth' and x.args[1] == 'parWithName')
                rep.ob('rename', 'new label of the parameter', own, 'label becomes %s' % show(v, 4), e.loc)
        if e.kind in ('meth',) and e.name == 'write' and e.base.op == 'call':
            dst = e.base.args[1][0]
            srcs = {x.args[1][0] for a in e.args for x in walk(a) if x.op == 'call' and x.args[0] is mk('builtin', 'open')}
            rep.ob('rename', 'best fit is saved to the file it came from', srcs <= {dst}, 'lines of %s written to %s' % ([show(x) for x in srcs], show(dst)), e.loc)
