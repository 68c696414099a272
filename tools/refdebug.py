"""refdebug.py PID [seconds]: time each comparison with a reference, with a limit for each."""
import os, sys, time, signal, warnings, importlib
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.project import Project
from sa.report import Report
import checks.refspec as R
pid = sys.argv[1]
lim = int(sys.argv[2]) if len(sys.argv) > 2 else 20
mod = importlib.import_module('checks.' + pid.lower())
rep = Report(pid, 'quick', 1)
orig = R.formula
class Out(Exception): pass
def bang(*a): raise Out()
signal.signal(signal.SIGALRM, bang)
def timed(p, rep, rule, f, *a, **k):
    t = time.time(); n = len(rep.obs)
    signal.alarm(lim)
    try:
        orig(p, rep, rule, f, *a, **k)
        s = ''
    except Out:
        import traceback
        s = 'TIMEOUT ' + ' < '.join('%s:%d' % (x.name, x.lineno) for x in reversed(traceback.extract_tb(sys.exc_info()[2])[-4:]))
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        s = 'ERROR %r %s' % (e, ' < '.join('%s:%d' % (x.name, x.lineno) for x in reversed(tb[-6:])))
    signal.alarm(0)
    print('%5.1fs %-28s %d ok %d bad  %s' % (time.time() - t, f.name, sum(1 for o in rep.obs[n:] if o[2]), sum(1 for o in rep.obs[n:] if not o[2]), s[:220]))
    for o in rep.obs[n:]:
        if not o[2]: print('        ', str(o)[:400])
R.formula = timed
mod.formula = timed
nn = rep.note
def note(*a): print('    note', *[str(x)[:150] for x in a]); nn(*a)
rep.note = note
mod.check(Project(), rep)
