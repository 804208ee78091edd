"""Runs verification units in parallel and collects their obligations."""
import os, sys, time, signal, hashlib, subprocess, multiprocessing as mp, traceback
import z3
from .core import *
from . import ops, world

class Timeout(Exception): pass
def _alarm(*a): raise Timeout()

# thorough tier: a sample of the obligations z3 proved is written out for the second solver
CROSS = None
class Cross:
    """keeps every `every`-th obligation of a unit (by digest, so the sample does not depend on the run)"""
    def __init__(s, u): s.u, s.n = u, 0
    def __call__(s, ex, tag, f):
        s.n += 1
        h = hashlib.sha256(('%s|%s|%s|%d' % (s.u.name, s.u.cfg, tag, s.n)).encode()).hexdigest()
        if int(h[:8], 16) % CROSS[1]: return
        sv = z3.Solver()
        for g in ex.pc: sv.add(g)
        sv.add(z3.Not(f))
        with open(os.path.join(CROSS[0], h[:20] + '.smt2'), 'w') as o: o.write('; %s%s: %s\n(set-logic ALL)\n%s' % (s.u.name, s.u.cfg, tag, sv.to_smt2()))
def cross_check(d, limit, total):
    """cvc5 on the sampled obligations -> {'unsat': n, 'unknown': n, 'sat': [what]}"""
    from concurrent.futures import ThreadPoolExecutor
    fs = sorted(os.listdir(d)); t0 = time.time()
    out = {'back_end': 'cvc5', 'sampled': len(fs), 'confirmed': 0, 'unknown': 0, 'not_run': 0, 'contradicted': [], 'errors': 0}
    def one(f):
        if time.time() - t0 > total: return f, 'not_run'
        try: r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (limit * 1000), os.path.join(d, f)], capture_output=True, text=True, timeout=limit + 20)
        except Exception: return f, 'unknown'
        w = r.stdout.split()
        return f, w[0] if w and w[0] in ('sat', 'unsat', 'unknown') else ('unknown' if 'timeout' in r.stdout + r.stderr or 'interrupted' in r.stdout + r.stderr or r.returncode < 0 else 'error')
    with ThreadPoolExecutor(8) as p:
        for f, r in p.map(one, fs):
            if r == 'unsat': out['confirmed'] += 1
            elif r == 'sat': out['contradicted'].append(open(os.path.join(d, f)).readline()[2:].strip())
            elif r == 'error': out['errors'] += 1
            else: out[r] += 1
    return out
_irs = {}
def load_ir(build, cfg):
    k = (build, cfg)
    if k not in _irs: _irs[k] = IR(os.path.join(build, 'ir%s.json' % cfg))
    return _irs[k]

def run_one(u, ir, limit=200, props=None):
    """-> dict"""
    t = time.time()
    ex = Ex(ir, u.hooks() if getattr(u, 'hooks', None) else world.OpHooks(None))
    if props: ex.only_props = set(props) | {'mem', 'index', 'model'} if 'C14' in props else set(props) | {'model'}
    if CROSS: ex.cross = Cross(u)
    r = {'unit': u.name, 'cfg': u.cfg, 'status': 'ok', 'error': '', 'paths': 0, 'obls': [], 'funcs': []}
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(limit)
    try:
        r['paths'] = ex.explore(lambda: u.run(ex))
        ex.unfamiliar = ex.ever_unfamiliar
        if hasattr(u, 'finish'): u.finish(ex)
        if r['paths'] and not ex.live and not any(o.status == 'failed' for o in ex.obls): raise Undecided('vacuous: the hypotheses of every path are contradictory')
    except Unsup as e: r['status'], r['error'] = 'unsupported', str(e)[:300]
    except Undecided as e: r['status'], r['error'] = 'undecided', str(e)[:300]
    except Timeout: r['status'], r['error'] = 'timeout', 'time limit'
    except Exception as e:
        r['status'], r['error'] = 'error', '%s: %s' % (type(e).__name__, str(e)[:200])
        r['trace'] = traceback.format_exc()[-1500:]
    finally: signal.alarm(0)
    r['obls'] = [(o.tag, tuple(o.props), o.loc, o.status, o.info) for o in ex.obls]
    r['time'] = time.time() - t; r['skipped'] = ex.skipped
    r['funcs'] = sorted(ex.funcs_seen)
    r['queries'] = Solver.stats['queries']; r['solver_time'] = Solver.stats['time']
    Solver.stats.update(queries=0, time=0.0)
    return r

_U = None
def _init(units, build, limit, props, until):
    global _U
    _U = (units, build, limit, props, until)
def _work(i):
    units, build, limit, props, until = _U
    u = units[i]
    return run_one(u, load_ir(build, u.cfg), max(5, min(limit, int(until - time.time()))), props)

def run_all(units, build, limit=200, procs=8, props=None, progress=None, budget=1e6):
    for u in units: load_ir(build, u.cfg)
    ctx = mp.get_context('fork')
    _init(units, build, limit, props, time.time() + budget)
    res = []
    # longest first is unknown; small chunks keep the pool busy
    with ctx.Pool(procs, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_work, range(len(units))):
            res.append(r)
            if progress: progress(r)
    return res
