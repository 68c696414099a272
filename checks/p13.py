"""P13: the job index records every submitted job and survives interruption."""
from .common import *
from .effects import effect_name
from sa.project import AnalysisError

P = lambda n: mk('param', n)
Q = 'paramgrid.jobqueue'


def need(p, c, name):
    f = p.find_method(c, name)
    if f is None:
        raise AnalysisError('%s.%s vanished' % (c.name, name))
    return f


def check(p, rep):
    rep.rule('add', 'adding a job enters it in every table under its own id, name and runs', 4)
    rep.rule('remove', 'deleting a job removes its own entries from every table and no others', 4)
    rep.rule('save', 'the stored index is replaced in one step by a complete new one', 2)
    rep.rule('load', 'the index is read from the file it is saved to; without one a new index is used', 2)
    rep.rule('update', 'a change is made to the loaded index and saved to the same place', 2)
    rep.rule('submit', 'a job is recorded after, and only after, a successful submission, under the reported id', 3)
    rep.rule('queue', 'the queue listing gives the jobs of the index that are running or waiting as asked, entry by entry', 3)
    add(p, rep)
    remove(p, rep)
    save_load(p, rep)
    update(p, rep)
    deleted(p, rep)
    submit(p, rep)
    queue(p, rep)


TABLES = ('jobSettings', 'jobNames', 'rootNames')


def add(p, rep):
    C = p.cls(Q, 'jobIndex')
    me = mk('self', C.qual)
    f = need(p, C, 'addJob')
    j = P(f.argnames()[1])
    ident = mk('attr', j, 'jobId')
    el = mk('elem', mk('attr', j, 'names'))
    I = Interp(p, inline=policy())
    I.run_function(f, cls=C)
    rep.analysed(I)
    want = {'jobSettings': (ident, j), 'jobNames': (mk('attr', j, 'jobName'), ident), 'rootNames': (el, ident)}
    seen = set()
    for e in I.events:
        if e.kind == 'setitem' and e.base.op == 'attr' and e.base.args[0] is me and e.base.args[1] in want:
            t = e.base.args[1]
            k, v = want[t]
            rep.ob('add', t, e.args[0] is k and e.value is v and not e.facts, '%s[%s] = %s%s' % (t, show(e.args[0], 3), show(e.value, 3), ' only if %s' % [show(x, 3) for x in e.facts] if e.facts else ''), e.loc)
            seen.add(t)
        if e.kind == 'meth' and e.name == 'update' and e.base.op == 'attr' and e.base.args[0] is me and e.base.args[1] in want:
            rep.note('add', e.base.args[1], 'updated from a mapping')
            seen.add(e.base.args[1])
        if e.kind == 'meth' and e.name == 'append' and e.base is mk('attr', me, 'jobSequence'):
            rep.ob('add', 'jobSequence', e.args[0] is ident and not e.facts, 'appends %s' % show(e.args[0], 3), e.loc)
            seen.add('jobSequence')
        if e.kind in ('setattr', 'inplace') and (e.kind == 'setattr' and e.name == 'jobSequence' or e.kind == 'inplace' and e.base is mk('attr', me, 'jobSequence')):
            rep.ob('add', 'jobSequence', contains(e.value, ident) and not e.facts, 'becomes %s' % show(e.value, 3), e.loc)
            seen.add('jobSequence')
    for t in list(want) + ['jobSequence']:
        rep.ob('add', 'entered in %s' % t, t in seen, 'the job is not entered in %s' % t, f.loc)


def remove(p, rep):
    C = p.cls(Q, 'jobIndex')
    me = mk('self', C.qual)
    f = need(p, C, 'delId')
    n = P(f.argnames()[1])
    I = Interp(p, inline=policy())
    I.run_function(f, cls=C)
    rep.analysed(I)
    A = lambda t: mk('attr', me, t)
    jobs = [mk('meth', A('jobSettings'), 'get', (n,), ()), mk('meth', A('jobSettings'), 'get', (n, NONE), ()), mk('item', A('jobSettings'), n)]
    popped = [mk('meth', A('jobSettings'), 'pop', (n, NONE), ()), mk('meth', A('jobSettings'), 'pop', (n,), ())]
    jobs += popped
    job = None
    for e in I.events:
        for t in list(e.facts) + list(e.args or ()):
            for x in walk(t):
                if x in jobs and job is None:
                    job = x
    if job is None:
        rep.note('remove', 'delId', 'job looked up in another way')
        return
    here = [neg(compare('is', n, NONE)), neg(compare('is', job, NONE)), truth(job), truth(n), compare('in', n, A('jobSettings'))]
    seen = set()
    for e in I.events:
        rm = e.kind == 'delitem' or e.kind == 'meth' and e.name == 'pop'
        if rm and e.base.op == 'attr' and e.base.args[0] is me and e.base.args[1] in TABLES:
            t = e.base.args[1]
            seen.add(t)
            key = e.args[0]
            if t == 'jobSettings':
                rest = [x for x in e.facts if not logic.implies(here, x)]
                rep.ob('remove', t, key is n and not rest, 'removes %s%s' % (show(key, 3), ' only if %s' % [show(x, 3) for x in rest] if rest else ''), e.loc)
                continue
            want = mk('attr', job, 'jobName') if t == 'jobNames' else mk('elem', mk('attr', job, 'names'))
            rep.ob('remove', '%s: entries of the job' % t, key is want, 'removes the entry of %s' % show(key, 4), e.loc)
            owner = [compare('==', mk('meth', e.base, 'get', (key,), ()), n), compare('==', mk('meth', e.base, 'get', (key, NONE), ()), n), compare('==', mk('item', e.base, key), n)]
            rep.ob('remove', '%s: entries of a newer job are kept' % t, any(logic.implies(e.facts, x) for x in owner), 'the entry is removed also if it belongs to a newer job (and fails if it is gone)', e.loc)
            rest = [x for x in e.facts if not logic.implies(here + owner + [compare('in', key, e.base)], x)]
            rep.ob('remove', '%s: always' % t, not rest, 'only if %s' % [show(x, 3) for x in rest], e.loc)
        if e.kind == 'setattr' and e.base is me and e.name in TABLES:
            rep.note('remove', e.name, 'table rebuilt: %s' % show(e.value, 3))
            seen.add(e.name)
        if e.kind == 'setattr' and e.base is me and e.name == 'jobSequence':
            seen.add('jobSequence')
            v = e.value
            el = mk('elem', A('jobSequence'))
            ok = v.op == 'seq' and len(v.args) == 1 and v.args[0] is mk('rep', mk('opt', neg(compare('==', el, n)), el), A('jobSequence'))
            rep.ob('remove', 'jobSequence', ok and all(logic.implies(here, x) for x in e.facts), 'becomes %s' % show(v, 5), e.loc)
        if e.kind == 'meth' and e.name == 'remove' and e.base is A('jobSequence'):
            seen.add('jobSequence')
            rest = [x for x in e.facts if not logic.implies(here + [compare('in', n, A('jobSequence'))], x)]
            rep.ob('remove', 'jobSequence', e.args[0] is n and not rest, 'removes %s' % show(e.args[0], 3), e.loc)
    for t in TABLES + ('jobSequence',):
        rep.ob('remove', 'removed from %s' % t, t in seen, 'the job stays in %s' % t, f.loc)
    # the job must be known when its names are used
    order = [e for e in I.events if (e.kind == 'delitem' or e.kind == 'meth' and e.name == 'pop') and e.base.op == 'attr' and e.base.args[0] is me]
    if job not in popped:
        late = [e for e in I.events if e.kind == 'meth' and e.name == 'get' and e.base is A('jobSettings')]
        first = min([e.seq for e in order if e.base is A('jobSettings')] or [10 ** 9])
        rep.ob('remove', 'the job is looked up before it is removed', all(e.seq < first for e in late), 'the job is looked up after it was removed', f.loc)


def final_name(t, path):
    """the index file in directory `path`"""
    return t


def save_load(p, rep):
    f = p.func(Q, 'saveJobIndex')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f)
    rep.analysed(I)
    obj = P(f.argnames()[0])
    fl = p.func(Q, 'loadJobIndex')
    Il = Interp(p, inline=policy())
    lr, _ = Il.run_function(fl)
    rep.analysed(Il)
    final = None
    for e in Il.events:
        if e.kind == 'call' and e.fn is mk('builtin', 'open'):
            final = e.args[0]
            rep.ob('load', 'opened for reading', cstr(e.args[1]) == 'rb' if len(e.args) > 1 else False, 'mode %s' % [show(a) for a in e.args[1:]], e.loc)
    if final is None:
        raise AnalysisError('loadJobIndex does not open a file')
    a, b = fl.argnames()[0], [x for x in f.argnames() if x != f.argnames()[0]][0]
    final = subst(final, {P(a): P(b)}) if a != b else final
    effs = [(effect_name(e), e) for e in I.events if effect_name(e)]
    repl = [e for n, e in effs if n in ('os.replace', 'os.rename')]
    opens = [e for n, e in effs if n in ('open',)]
    dumps = [e for n, e in effs if n == 'pickle.dump']
    rep.ob('save', 'the complete index is written', len(dumps) == 1 and dumps[0].args[0] is obj and not dumps[0].facts, 'writes %s' % [show(e.args[0], 3) for e in dumps], f.loc)
    ok = [e for e in repl if e.args[1] is final and not e.facts]
    direct = [e for e in opens if e.args[0] is final]
    for e in direct:
        rep.ob('save', 'the stored index is not opened for writing', False, 'stopping while writing leaves a broken index', e.loc)
    for n, e in effs:
        if n in ('os.remove', 'os.unlink', 'shutil.move', 'shutil.copy', 'shutil.copyfile', 'os.truncate', 'os.rename', 'shutil.copy2') and any(x is final for x in e.args):
            safe = n == 'os.rename' and e.args[1] is final
            rep.ob('save', 'the stored index is always there', safe, '%s: stopping here or after leaves no complete index' % n, e.loc)
    rep.ob('save', 'the new index replaces the stored one', len(ok) == 1 or bool(direct), 'the index read later is not the one written', f.loc)
    for e in ok:
        tmp = e.args[0]
        w = [x for x in opens if x.args[0] is tmp and cstr(x.args[1]) in ('wb', 'xb', 'w+b', 'wb+')]
        rep.ob('save', 'the replacement is what was written', len(w) == 1 and tmp is not final and any(contains(d.args[1], tmp) for d in dumps), 'replaced by %s' % show(tmp, 4), e.loc)
        # closed before it takes the place of the old one
        close = [x for x in I.events if x.kind == 'withexit' and contains(x.value, tmp) or x.kind == 'meth' and x.name in ('close', 'flush') and contains(x.base, tmp)]
        done = [x for x in close if x.seq < e.seq and dumps and x.seq > dumps[0].seq]
        rep.ob('save', 'the new index is complete before it replaces the stored one', bool(done), 'replaced before the new file is closed', e.loc)
        if w and any_sub(tmp, lambda x: x is final):
            rep.ob('save', 'same directory', True, '', e.loc)
    ex = [x for st, v in lr for t in st.facts for x in walk(t) if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] in ('os.path.exists', 'os.path.isfile')]
    for st, v in lr:
        v = Il.res(v, st)
        for fs, l in alts(v, st.facts):
            loaded = any_sub(l, lambda x: x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0] == 'pickle.load')
            there = any(logic.implies(fs, x) for x in ex)
            if loaded:
                rep.ob('load', 'stored index', not any(x.op == 'param' and x is not P(fl.argnames()[0]) for x in walk(l)), 'gives %s' % show(l, 4), fl.loc)
            else:
                rep.ob('load', 'a stored index is used', not there, 'a stored index is ignored where %s' % [show(x, 3) for x in fs], fl.loc)
                if l is NONE:
                    rep.ob('load', 'no index', logic.implies(fs, P(fl.argnames()[1])), 'no index is given although a new one is wanted', fl.loc)


def is_call(t, name):
    return t.op == 'call' and t.args[0].op == 'func' and t.args[0].args[0] == Q + ':' + name


def update(p, rep):
    for fn, change in (('addJobIndex', 'addJob'), ('deleteJobNames', 'delId')):
        f = p.func(Q, fn)
        I = Interp(p, inline=policy())
        I.run_function(f)
        rep.analysed(I)
        ch = [e for e in I.events if e.kind in ('meth', 'repocall') and e.name == change]
        sv = [e for e in I.events if e.kind == 'repocall' and e.name == 'saveJobIndex']
        ld = [e for e in I.events if e.kind == 'repocall' and e.name == 'loadJobIndex']
        if not (ld and sv and ch):
            rep.ob('update', fn, False, 'loads %d, changes %d, saves %d times' % (len(ld), len(ch), len(sv)), f.loc)
            continue
        index = mk('call', ld[0].fn, ld[0].args, ld[0].kwargs or ())
        rep.ob('update', '%s: the stored index is changed' % fn, all(e.base is index for e in ch), 'changes %s' % [show(e.base, 3) for e in ch], f.loc)
        s = sv[-1]
        same = s.args[0] is index and (len(s.args) > 1 or s.kw('batchPath') is not None) and ld[0].args and place(s.arg(1, 'batchPath')) == place(ld[0].arg(0, 'batchPath'))
        rep.ob('update', '%s: saved where it was loaded' % fn, same, 'loaded from %s, saved to %s' % ([show(a, 3) for a in ld[0].args], [show(a, 3) for a in s.args]), s.loc)
        rep.ob('update', '%s: saved after the change' % fn, s.seq > max(e.seq for e in ch) and not [x for x in s.facts if not logic.implies([index], x)], 'saved too early or only if %s' % [show(x, 3) for x in s.facts], s.loc)
        if change == 'addJob':
            j = P(f.argnames()[1])
            rep.ob('update', 'addJobIndex: the job is added', all(e.args[0] is j for e in ch) and not [x for e in ch for x in e.facts], 'adds %s' % [show(e.args[0], 3) for e in ch], f.loc)
        else:
            e = ch[0]
            ids = e.args[0]
            nm = P(f.argnames()[1])
            ok = any_sub(ids, lambda x: x.op == 'attr' and x.args[1] == 'jobNames') and contains(ids, nm)
            rep.ob('update', 'deleteJobNames: jobs of the given names', ok, 'deletes %s' % show(ids, 4), e.loc)


def deleted(p, rep):
    f = p.func(Q, 'deleteJobs')
    I = Interp(p, inline=policy())
    I.run_function(f)
    rep.analysed(I)
    sv = [e for e in I.events if e.kind == 'repocall' and e.name == 'saveJobIndex']
    ld = [mk('call', e.fn, e.args, e.kwargs or ()) for e in I.events if e.kind == 'repocall' and e.name == 'loadJobIndex']
    for e in I.events:
        if e.kind in ('meth', 'repocall') and e.name == 'delId':
            ok = [s for s in sv if s.seq > e.seq and s.args[0] is e.base and all(logic.implies(e.facts, x) for x in s.facts)]
            rep.ob('update', 'deleteJobs: saved after the change', bool(ok), 'the changed index is not saved, or only if %s' % [show(x, 3) for s in sv for x in s.facts], e.loc)
            rep.ob('update', 'deleteJobs: the stored index is changed', e.base in ld, 'changes %s' % show(e.base, 3), e.loc)
    R, N = P('rootNames'), P('jobNames')
    for e in I.events:
        if e.kind == 'meth' and e.name == 'append' or e.kind == 'inplace':
            v = e.args[0] if e.kind == 'meth' else e.value
            for par, table in ((R, 'rootNames'), (N, 'jobNames')):
                el = [x for x in walk(v) if x.op == 'elem' and any_sub(x, lambda y: y is par)]
                if el:
                    tb = {x.args[1] for x in walk(v) if x.op == 'attr' and x.args[0] in ld}
                    rep.ob('update', 'deleteJobs: %s are looked up in their table' % table, tb == {table}, 'looked up in %s' % sorted(tb), e.loc)


def place(t):
    """directory, the default written out or not"""
    for _, l in alts(t):
        if l.op == 'param':
            return l
    return t


def submit(p, rep):
    f = p.func(Q, 'submitJob')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f)
    rep.analysed(I)
    sub = [e for e in I.events if e.kind == 'call' and e.fn.op == 'ext' and e.fn.args[0].startswith('subprocess.')]
    rec = [e for e in I.events if e.kind == 'repocall' and e.name == 'addJobIndex']
    if not sub or not rec:
        rep.ob('submit', 'submission is recorded', not sub, 'a job is submitted and not recorded', f.loc)
        return
    s = sub[0]
    out = mk('call', s.fn, s.args, s.kwargs or ())
    kw = dict(s.kwargs or ())
    text = truth(kw.get('universal_newlines', FALSE)) is TRUE or truth(kw.get('text', FALSE)) is TRUE or 'encoding' in kw
    for e in rec:
        job = e.arg(1, 'j')
        rep.ob('submit', 'recorded after submission', e.seq > s.seq, 'recorded before it is submitted', e.loc)
        rep.ob('submit', 'the submitted job is recorded', job.op == 'new' and job.args[0] == Q + ':jobSettings', 'records %s' % show(job, 3), e.loc)
        E = list(s.facts) + [x for x in e.facts if contains(x, out)]
        rest = [x for x in e.facts if not logic.implies(E, x)]
        rep.ob('submit', 'every submitted job is recorded', not rest, 'recorded only if %s' % [show(x, 3) for x in rest], e.loc)
        empty = [x for x in e.facts if contains(x, out)]
        rep.ob('submit', 'only a successful submission is recorded', bool(empty), 'recorded also if nothing was reported', e.loc)
        bp = e.arg(0, 'batchPath')
        rep.ob('submit', 'recorded in the index of the batch', any_sub(bp, lambda x: x is const('batchPath') or x is P('batchPath')), 'recorded in %s' % show(bp, 3), e.loc)
        ids = [x for x in I.events if x.kind == 'setattr' and x.name == 'jobId' and x.base is job and x.seq < e.seq]
        rep.ob('submit', 'the job has an id', bool(ids), 'the id is not set before recording', e.loc)
        for x in ids:
            v = x.value
            raw = any_sub(v, lambda y: y.op == 'str' and contains(y, out)) or any_sub(v, lambda y: y.op == 'call' and y.args[0] is mk('builtin', 'str') and contains(y, out))
            dec = any_sub(v, lambda y: y.op == 'meth' and y.args[1] == 'decode' and contains(y.args[0], out))
            rep.ob('submit', 'the id is the one reported', contains(v, out) and (text or dec), 'the id is %s' % ('the representation of the bytes read' if raw else show(v, 4)), x.loc)
            for y in walk(v):
                if y.op == 'meth' and y.args[1] == 'group' and any_sub(y.args[0], lambda z: z is not y and cstr(z) is not None and z.op == 'const' and cstr(z).count('(') == 1):
                    rep.ob('submit', 'the id alone', y.args[2] == (const(1),), 'the id is the whole matched text', x.loc)
            strip = any_sub(v, lambda y: y.op == 'meth' and y.args[1] in ('strip', 'rstrip', 'split', 'splitlines') and contains(y.args[0], out))
            rep.ob('submit', 'the id has no line end', strip, 'the id keeps the line end', x.loc)
        nm = [x for x in I.events if x.kind == 'setattr' and x.name == 'names' and x.base is job and x.seq < e.seq]
        rep.ob('submit', 'the job knows its runs', bool(nm), 'names of the runs are not set before recording', e.loc)
        for x in nm:
            v = x.value
            if v.op == 'seq' and not v.args:
                for st, _ in rets:
                    w = st.heap.get((job, 'names'))
                    if w is not None:
                        w = I.res(w, st)
                        for _, l in alts(w):
                            v = l if l.op == 'seq' and l.args else v
            ok = v.op == 'seq' and len(v.args) == 1 and v.args[0].op == 'rep' and v.args[0].args[0].op != 'opt' and contains(v.args[0].args[1], P(f.argnames()[1])) \
                and not any_sub(v.args[0].args[1], lambda y: y.op == 'slice' or y.op == 'item' and y.args[1].op != 'const') \
                and any_sub(v, lambda y: y.op == 'call' and y.args[0].op == 'ext' and y.args[0].args[0] in ('os.path.basename', 'os.path.split'))
            rep.ob('submit', 'all runs of the job, by name', ok, 'names are %s' % show(v, 5), x.loc)


def leaves(t):
    for _, l in alts(t):
        if l.op == 'loop':
            yield from leaves(l.args[3])
        else:
            yield l


def queue(p, rep):
    f = p.func(Q, 'queue_job_details')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f)
    rep.analysed(I)
    index = [mk('call', e.fn, e.args, e.kwargs or ()) for e in I.events if e.kind == 'repocall' and e.name == 'loadJobIndex']
    for e in I.events:
        if e.kind == 'call' and e.fn.op == 'ext' and e.fn.args[0].startswith('subprocess.'):
            kw = dict(e.kwargs or ())
            text = truth(kw.get('universal_newlines', FALSE)) is TRUE or truth(kw.get('text', FALSE)) is TRUE or 'encoding' in kw
            out = mk('call', e.fn, e.args, e.kwargs or ())
            dec = any(x.kind == 'meth' and x.name == 'decode' and contains(x.base, out) for x in I.events)
            rep.ob('queue', 'listing read as text', text or dec, 'the listing is bytes: its lines are never found', e.loc)
    n = 0
    for st, v in rets:
        v = I.res(v, st)
        if v.op != 'tuple' or len(v.args) != 4:
            continue
        reps = [x.args[0] if x.op == 'seq' and len(x.args) == 1 and x.args[0].op == 'rep' and x.args[0].args[0].op == 'opt' else None for x in v.args]
        kept = [x for x in v.args if x.op == 'loop' and any(l.op == 'seq' and l.args and not any_sub(l, lambda y: y.op == 'lv' and y.args[1] == x.args[1]) for l in leaves(x.args[3]))]
        rep.ob('queue', 'every job is listed', not kept, 'the list is replaced by its last entry', f.loc)
        lists = [x.args for x in v.args if x.op == 'seq' and x.args and all(y.op == 'rep' and y.args[0].op == 'opt' for y in x.args)]
        if len(lists) > 1:
            rep.ob('queue', 'the lists have the same length', len({frozenset((y.args[0].args[0], y.args[1]) for y in l) for l in lists}) == 1, 'entries are added to some of the lists only', f.loc)
        if any(x is None for x in reps):
            rep.note('queue', 'lists', 'not recognised: %s' % show(v, 4))
            continue
        n += 1
        conds = {x.args[0].args[0] for x in reps}
        its = {x.args[1] for x in reps}
        rep.ob('queue', 'the lists have the same entries', len(conds) == 1 and len(its) == 1, 'lists differ: %s' % [show(c, 3) for c in conds], f.loc)
        ids, names, runs, infos = [x.args[0].args[1] for x in reps]
        c = sorted(conds, key=lambda t: show(t, 5))[0]
        it = list(its)[0]
        line = mk('elem', it)
        for x in walk(it):
            if x.op == 'item' and x.args[1].op == 'slice' and x.args[0].op == 'meth' and x.args[0].args[1] in ('split', 'splitlines'):
                a, b, c_ = x.args[1].args
                ok = (a in (NONE, None) or a in (const(0), const(1), const(2))) and b in (NONE, None) and c_ in (NONE, None, const(1))
                rep.ob('queue', 'all lines after the heading', ok, 'lines %s of the listing' % show(x.args[1]), f.loc)
        rep.ob('queue', 'line of the job', infos is line, 'infos are %s' % show(infos, 4), f.loc)
        for fs, l in alts(names, ()):
            rep.ob('queue', 'names of the job', l.op == 'attr' and l.args[1] == 'jobName' and l.args[0].op in ('meth', 'item'), 'job names are %s' % show(l, 4), f.loc)
        for fs, l in alts(runs, ()):
            rep.ob('queue', 'runs of the job', l.op == 'attr' and l.args[1] == 'names' and l.args[0].op in ('meth', 'item'), 'runs are %s' % show(l, 4), f.loc)
        jb = [(fs, l.args[0]) for fs, l in alts(names, ()) if l.op == 'attr']
        jr = [(fs, l.args[0]) for fs, l in alts(runs, ()) if l.op == 'attr']
        rep.ob('queue', 'entries are of one job', {x for _, x in jb} == {x for _, x in jr}, 'names and runs of different jobs', f.loc)
        for fs, l in jb:
            if l.op != 'meth':
                continue
            key = l.args[2][0]
            for g, i in alts(ids, fs):
                k = [x for _, x in alts(key, g)]
                rep.ob('queue', 'id of the job', i in k or i is key, 'id %s for the job stored under %s' % (show(i, 4), show(key, 4)), f.loc)
            rep.ob('queue', 'job of the index', l.args[0].op == 'attr' and l.args[0].args[1] == 'jobSettings' and l.args[0].args[0] in index, 'job from %s' % show(l.args[0], 3), f.loc)
        # state of the job
        srch = {x for x in walk(c) if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0].startswith('re.') and contains(x, line)} | {x for x in walk(c) if x.op == 'cmp' and x.args[0] == 'in' and x.args[2] is line and any_sub(x.args[1], lambda y: cstr(y) in (' r ', ' Running '))}
        R, W = P('running'), P('queued')
        if len(srch) == 1:
            r = truth(srch.pop())
            cs = list(c.args) if c.op == 'and' else [c]
            rep.ob('queue', 'running jobs only if asked', logic.implies(cs + [neg(R)], neg(r)), 'running jobs are listed although not asked for', f.loc)
            rep.ob('queue', 'waiting jobs only if asked', logic.implies(cs + [neg(W)], r), 'waiting jobs are listed although not asked for', f.loc)
            for text, mine, other, state in (('running', R, W, r), ('waiting', W, R, neg(r))):
                both, alone = subst(c, {other: TRUE}), subst(c, {other: FALSE})
                rep.ob('queue', 'all %s jobs if asked' % text, logic.implies([mine, state, both], alone) and not logic.implies([mine, state], neg(both)), '%s jobs are left out' % text, f.loc)
        else:
            rep.note('queue', 'state', '%d tests' % len(srch))
        usr = [x for x in walk(c) if x.op == 'cmp' and x.args[0] == 'in' and x.args[2] is line and any_sub(x.args[1], lambda y: y is const('USER'))]
        rep.ob('queue', 'jobs of the user', bool(usr) and all(logic.implies([c], x) for x in usr), 'jobs of other users are listed', f.loc)
    if not n:
        rep.note('queue', 'lists', 'not recognised')
    f = p.func(Q, 'queue_job_names')
    I = Interp(p, inline=policy())
    rets, _ = I.run_function(f)
    rep.analysed(I)
    for e in I.events:
        if e.kind == 'repocall' and e.name == 'queue_job_details':
            rep.ob('queue', 'names of the jobs asked for', e.kw('running') is P('running') and e.kw('queued') is P('queued'), 'running=%s, queued=%s' % (show(e.kw('running', NONE)), show(e.kw('queued', NONE))), e.loc)
            d = mk('call', e.fn, e.args, e.kwargs or ())
            for st, v in rets:
                v = I.res(v, st)
                it = {x.args[1] for x in walk(v) if x.op == 'item' and x.args[0] is d}
                last = [x for x in walk(v) if x.op == 'loop' and not any_sub(x.args[3], lambda y: y.op == 'lv')]
                rep.ob('queue', 'runs of all jobs', not last, 'only the runs of the last job are given', f.loc)
                rep.ob('queue', 'runs of the jobs', it == {const(2)}, 'names from %s' % show(v, 4), f.loc)
