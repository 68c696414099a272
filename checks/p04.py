"""P04: samples taken from the disk cache equal samples read from the chain files.

value-flow through the loader: wherever the unpickled object can be returned, the facts established on the way there must
include every condition that makes the cache equivalent to the files, and the settings of the call must have been applied.
"""
from .common import *


def ext(t, *names):
    return t.op == 'call' and t.args[0].op in ('ext', 'builtin') and t.args[0].args[0] in names


def positive(facts):
    """atoms the facts establish"""
    out = set()
    for f in facts:
        if f.op == 'and':
            out |= positive(f.args)
        else:
            out.add(f)
    return out


def check(p, rep):
    rep.rule('reuse-guard', 'cached samples are returned only where caching is allowed, the cache is newer than every input file and it was made by the same program version with the same burn-in and weight cut', 6)
    rep.rule('inputs-watched', 'the age test covers every file the samples are built from', 4)
    rep.rule('one-cache-file', 'the file tested, read, written and removed is the same, and distinct roots never share it', 4)
    rep.rule('settings-applied', 'the settings of the present call (and only those) are applied to cached samples before they are returned', 3)
    rep.rule('fallback', 'a cache that cannot be used falls back to reading the files; what was read is what is cached', 4)
    f = p.func('getdist.mcsamples', 'loadMCSamples')
    I = Interp(p, inline=policy('_limit_settings'), budget=300000)
    rets, raised = I.run_function(f)
    rep.analysed(I)
    ev = I.events
    loads = [e for e in ev if e.kind == 'call' and e.fn.op == 'ext' and e.fn.args[0] in ('pickle.load', 'pickle.loads')]
    reads = [e for e in ev if e.kind in ('repocall', 'meth') and e.name == 'readChains']
    if not loads or not reads:
        raise AnalysisError('loadMCSamples: cache reading or chain reading not found')
    isload = lambda x: ext(x, 'pickle.load', 'pickle.loads')
    cached, fresh = [], []
    for st, v in rets:
        for fs, leaf in alts(I.res(v, st), st.facts):
            if isload(leaf):
                cached.append((fs, leaf, st))
            else:
                fresh.append((fs, leaf, st))
    if not cached:
        raise AnalysisError('loadMCSamples never returns cached samples')
    if not fresh:
        raise AnalysisError('loadMCSamples never returns freshly read samples')
    opened = None
    for e in loads:
        for x in walk(e.args[0]):
            if ext(x, 'open') and x.args[1]:
                opened = x.args[1][0]
    N = reads[0].base
    no_cache = truth(mk('param', 'no_cache'))
    newfiles = reads[0].args[0] if reads[0].args else None
    for fs, C, st in cached:
        rep.ob('reuse-guard', 'caching allowed', logic.implies(fs, neg(no_cache)), 'cached samples may be returned with no_cache set', f.loc)
        for a in ('ignore_rows', 'min_weight_ratio'):
            g = compare('==', mk('attr', N, a), mk('attr', C, a))
            rep.ob('reuse-guard', 'same %s' % a, logic.implies(fs, g), 'cached samples made with another %s may be returned' % a, f.loc)
        ver = [x for x in positive(fs) if x.op == 'cmp' and x.args[0] == '==' and contains(x, mk('attr', C, 'version'))]
        rep.ob('reuse-guard', 'same version', any(logic.implies(fs, x) for x in ver), 'cache written by another version may be returned', f.loc)
        lim = [x for x in positive(fs) if x.op == 'cmp' and x.args[0] == '==' and contains(x, mk('attr', mk('attr', C, 'ini'), 'params'))]
        rep.ob('reuse-guard', 'same parameter limits', bool(lim), 'ranges cached with other limit settings may be returned', f.loc)
        # age
        age = []
        for x in positive(fs):
            if x.op == 'cmp' and x.args[0] == '<' and any_sub(x.args[2], lambda y: ext(y, 'os.path.getmtime')) and x.args[1] is not NONE:
                age.append(x)
        lm = lambda y: y.op == 'call' and y.args[0].op == 'func' and y.args[0].args[0].endswith(':last_modified') or ext(y, 'max')
        good = [x for x in age if any_sub(x.args[1], lm)]
        rep.ob('reuse-guard', 'cache newer than inputs', bool(good), 'no test that the cache is strictly newer than the newest input', f.loc)
        for x in good:
            t = [y for y in walk(x.args[1]) if lm(y)][0]
            arg = t.args[1][0]
            cachemt = [y for y in walk(x.args[2]) if ext(y, 'os.path.getmtime')][0].args[1][0]
            rep.ob('one-cache-file', 'file tested is the file read', cachemt is opened, 'age of %s tested but %s read' % (show(cachemt, 3), show(opened, 3)), f.loc)
            pn = truth(mk('call', mk('ext', 'os.path.isfile'), (concat([mk('param', 'file_root'), const('.paramnames')]),), ()))
            for fs2, leaf in alts(arg, fs):
                parts = set(walk(leaf))
                star = any(newfiles is not None and q in parts for q in [newfiles]) or newfiles is None
                # the chain files may be gated themselves
                if not star and newfiles is not None:
                    star = all(l in parts for _, l in alts(newfiles, fs2))
                rep.ob('inputs-watched', 'chain files', star, 'the chain files that are read are not among the files whose age is tested', f.loc)
                d = logic.decide(pn, fs2)
                consts = {cval(y) for y in parts if is_const(y) and isinstance(cval(y), str)}
                if d is not False:
                    for sfx in ('.ranges', '.paramnames', '.properties.ini'):
                        rep.ob('inputs-watched', sfx + ' file', sfx in consts, 'a changed %s file would not be noticed' % sfx, f.loc)
                if d is not True:
                    rep.ob('inputs-watched', 'Cobaya yaml files', any_sub(leaf, lambda y: ext(y, 'os.listdir', 'glob.glob')) and
                           any('updated.yaml' in c for c in consts) and any('full.yaml' in c for c in consts), 'changed yaml input would not be noticed', f.loc)
        # settings
        ups = [e for e in ev if e.kind in ('meth', 'repocall') and e.name == 'updateSettings' and (e.base is C or C in set(leaves(e.base)))]
        ok = len(ups) > 0
        rep.ob('settings-applied', 'settings are applied', ok, 'cached samples keep the settings they were saved with', f.loc)
        for e in ups:
            ini = e.kw('ini') if e.kw('ini') is not None else (e.args[1] if e.args and len(e.args) > 1 else None)
            rep.ob('settings-applied', 'settings of this call replace those in the cache', ini is not None and ini is mk('attr', N, 'ini'),
                   'settings come from %s: those saved with the cache may survive' % (show(ini) if ini is not None else 'the cached object'), e.loc)
            du = e.kw('doUpdate')
            du = du if du is not None else (e.args[2] if e.args and len(e.args) > 2 else TRUE)
            if du.op == 'param':
                du = TRUE
            g = neg(compare('==', mk('attr', mk('attr', N, 'ini'), 'params'), mk('attr', mk('attr', C, 'ini'), 'params')))
            rep.ob('settings-applied', 'statistics refreshed when settings differ', du is TRUE or logic.implies((g,), truth(du)),
                   'update requested only if %s' % show(du, 5), e.loc)
    # ---- the cache file
    hs = [x for x in walk(opened) if x.op == 'call' and x.args[0].op == 'ext' and x.args[0].args[0].startswith('hashlib.')]
    okn = any_sub(opened, lambda x: x is mk('item', mk('call', mk('ext', 'os.path.split'), (mk('param', 'file_root'),), ()), const(1)) or
                  ext(x, 'os.path.basename') and x.args[1][0] is mk('param', 'file_root'))
    rep.ob('one-cache-file', 'cache name contains the root name', okn, show(opened, 6), f.loc)
    full = lambda x: ext(x, 'os.path.abspath', 'os.path.realpath') and any_sub(x, lambda y: y is mk('param', 'file_root')) and not any_sub(x, lambda y: ext(y, 'os.path.basename'))
    for fs2, leaf in alts(opened):
        pass
    shared = any_sub(opened, lambda x: x.op == 'call' and x.args[0].op == 'func' and x.args[0].args[0].endswith(':make_cache_dir'))
    rep.ob('one-cache-file', 'cache name in the shared folder identifies the directory of the chains', not shared or any(any_sub(h, full) for h in hs) and not short_digest(opened),
           'roots of the same name in different directories would share a cache file', f.loc)
    for e in ev:
        if e.kind in ('repocall', 'meth') and e.name == 'savePickle':
            rep.ob('one-cache-file', 'file written is the file read', e.args and e.args[0] is opened, 'saved to %s' % show(e.args[0], 4), e.loc)
            rep.ob('fallback', 'what is cached is what was read', e.base is N and any(r.seq < e.seq and r.base is e.base for r in reads), 'cache saved before the chains are read or from another object', e.loc)
            rep.ob('fallback', 'no cache written when caching is off', logic.implies(e.facts, neg(no_cache)), '', e.loc)
        if e.kind == 'call' and e.fn.op == 'ext' and e.fn.args[0] in ('os.remove', 'os.unlink'):
            rep.ob('one-cache-file', 'file removed is the cache', e.args[0] is opened, 'removes %s' % show(e.args[0], 4), e.loc)
            rep.ob('fallback', 'cache removed only when caching is off', logic.implies(e.facts, no_cache), '', e.loc)
    for fs, v, st in fresh:
        rep.ob('fallback', 'samples returned were read from the files', v is N, 'returns %s' % show(v, 3), f.loc)
    for e in loads:
        rep.ob('fallback', 'unreadable cache is caught', any('*' in t for t in e.tries), 'errors while unpickling are not caught (%s)' % (e.tries,), e.loc)
    # readChains must be reachable when the cache was unusable: no fact requires no_cache
    for e in reads:
        rep.ob('fallback', 'chains are read whenever the cache is not used', not logic.implies(e.facts, no_cache), '', e.loc)
    # last_modified: newest of all existing files
    g = p.func('getdist.chains', 'last_modified')
    I2 = Interp(p, inline=policy())
    r2, _ = I2.run_function(g)
    rep.analysed(I2)
    for st, v in r2:
        v = I2.res(v, st)
        m = extremum(v)
        ok = m is not None and m[0] == 'max' and m[1] is mk('call', mk('ext', 'os.path.getmtime'), (mk('elem', mk('param', 'files')),), ())
        ok = ok and all(c.op == 'call' and ext(c, 'os.path.exists', 'os.path.isfile') or c.op == 'truth' and ext(c.args[0], 'os.path.exists', 'os.path.isfile') for c in m[2])
        rep.ob('inputs-watched', 'newest of all files', ok, 'last_modified returns %s' % show(v, 6), g.loc)


def short_digest(t):
    for x in walk(t):
        if x.op == 'item' and x.args[1].op == 'slice' and x.args[0].op == 'meth' and x.args[0].args[1] == 'hexdigest':
            hi = x.args[1].args[1]
            if is_const(hi) and isinstance(cval(hi), int) and 0 <= cval(hi) < 6:
                return True
    return False

