"""The registry of analyses.  A job analyses one part of the program and reports findings, each tagged with
the properties it breaks.  A property's check runs the jobs registered for it and keeps the findings tagged
with that property."""
import os, sys, time, traceback, multiprocessing as mp, signal, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'rules'))
import prog
from prog import AnalysisBroken
from absint import Budget

JOBS = {}          # name -> Job
class Job:
    def __init__(self, name, fn, props, limit, weight):
        self.name = name; self.fn = fn; self.props = props; self.limit = limit; self.weight = weight
def job(name, fn, props, limit=300, weight=1):
    JOBS[name] = Job(name, fn, props, limit, weight)

class Result(dict):
    """findings: list of dicts; obl: {obligation: count}; fns: functions analysed; notes"""
    pass

def load():
    import dbjobs          # noqa
    for m in ('httpjobs', 'flowjobs', 'evjobs', 'bootjobs', 'snapjobs', 'widthjobs'):
        if os.path.exists(os.path.join(os.path.dirname(dbjobs.__file__), m + '.py')): __import__(m)

def _child(j, P, q):
    t = time.time()
    try:
        r = j.fn(P)
    except AnalysisBroken as e: r = Result(broken=str(e))
    except Budget as e: r = Result(incomplete=str(e))
    except RecursionError as e: r = Result(incomplete='recursion limit of the analysis')
    except MemoryError as e: r = Result(incomplete='memory limit of the analysis')
    except Exception as e: r = Result(error=''.join(traceback.format_exc()[-1500:]))
    r['wall'] = time.time() - t
    q.put(r); q.close(); q.join_thread()

def run_jobs(names, P, procs=8, total=780, verbose=False):
    """runs jobs in parallel, each in a process of its own with a time limit"""
    import resource
    t0 = time.time(); todo = sorted(names, key=lambda n: -JOBS[n].weight); act = {}; res = {}
    ctx = mp.get_context('fork')
    while todo or act:
        while todo and len(act) < procs:
            n = todo.pop(0); j = JOBS[n]; q = ctx.Queue()
            p = ctx.Process(target=_child, args=(j, P, q)); p.start(); act[n] = (p, q, time.time())
        for n, (p, q, ts) in list(act.items()):
            r = None
            try: r = q.get(timeout=0.01)
            except Exception: pass
            if r is None and not p.is_alive():
                try: r = q.get(timeout=0.2)
                except Exception: r = Result(incomplete='the analysis process ended without a result', wall=time.time() - ts)
            if r is None and (time.time() - ts > JOBS[n].limit or time.time() - t0 > total):
                p.kill(); r = Result(incomplete='time limit', wall=time.time() - ts)
            if r is not None:
                p.join(5); 
                if p.is_alive(): p.kill()
                res[n] = r; del act[n]
                if verbose: print('  %-32s %6.1fs %s' % (n, r['wall'], {k: (v[-300:] if v.__class__ is str else v) for k, v in r.items() if k in ('incomplete', 'broken', 'error')} or '%d findings' % len(r.get('findings', ()))), flush=True)
    return res
