"""Which units decide which property."""
import os, sys, importlib, json, hashlib, re, subprocess
import time
import z3
from . import run, loops
from .core import Solver
U = '-DTECS_UNCHECKED_MODE'
O2 = '-DTCV_ORDER2'    # the second instantiation (tcv.second)
TR = '-DTECS_ENABLE_PERFORMANCE_TRACING'
ALL = [('ops', ''), ('ops', U), ('txn', '')]
TXN = [('txn', '')]
OBS = [('obs', ''), ('obs', U)]
LK = [('locks', ''), ('locks', TR)]
MISC = [('misc', '')]
MISCU = MISC + [('misc', U)]
SOURCES = {p: ALL + MISCU for p in ('C01', 'C02', 'C03', 'C09', 'C10', 'C11', 'C12', 'C13', 'C17')}
SOURCES.update({'C04': TXN + LK + MISC, 'C05': TXN + LK + MISC, 'C06': TXN + LK + MISC, 'C07': ALL + LK + OBS + MISC, 'C08': ALL + LK + OBS + MISC, 'C14': ALL + OBS + MISCU,
                'C15': ALL + OBS + MISC, 'C16': ALL + OBS + MISC, 'C18': [('ops', '')] + MISC, 'C19': TXN + MISC, 'C20': ALL + MISC, 'C21': MISC, 'C22': MISCU,
                'C23': [('misc', TR), ('txn', TR), ('locks', TR)]})
QUICK2 = ('C02', 'C03', 'C06', 'C07')
HERE = os.path.dirname(os.path.abspath(__file__))
def z3v(): return z3.get_version_string()
def gather(P, build, errs, sources=None):
    us = []
    for mod, cfg in sources or SOURCES.get(P, []):
        try:
            M = importlib.import_module('tcv.' + mod)
            new = [u for u in M.units(run.load_ir(build, cfg), cfg) if not u.props or P in u.props]
            # unchecked mode changes some functions only; the others are decided by their unit in checked mode
            if cfg == U and (mod, '') in SOURCES[P]: new = [u for u in new if not same_code(build, cfg, u)]
            # these operations are the only ones whose contract speaks about the property
            if P == 'C18' and mod == 'ops': new = [u for u in new if u.fn['name'] in ('TxnId', 'Instance')]
            us += new
        except Exception as e: errs.append('units of %s%s: %r' % (mod, cfg, e))
    return us
def closure_hash(ir):
    """function id -> digest of its body and, transitively, of every function it may call (positions and numbering aside)"""
    if '_closure' in ir.__dict__: return ir._closure
    local, calls = {}, {}
    lam, dtors = {}, []
    for i, f in ir.funcs.items():
        if (f.get('parent') or '').startswith('lambda#'): lam.setdefault(f['parent'][7:], set()).add(i)
        if f.get('dtor') and 'body' in f: dtors.append((f['parent'], i))
    for i, f in ir.funcs.items():
        cs, names = set(), set()
        def refs(x):
            if isinstance(x, str):
                if '::' in x: names.add(x)
            if isinstance(x, dict):
                if isinstance(x.get('f'), int): cs.add(str(x['f']))
                if x.get('k') == 'Lambda': cs.update(lam.get(str(x.get('rid')), ()))
                for b in x.values(): refs(b)
            elif isinstance(x, list):
                for b in x: refs(b)
        parts = [f.get(k) for k in ('body', 'init', 'inits') if f.get(k) is not None]
        refs(parts)
        cs.update(d for par, d in dtors if any(par in x for x in names))
        local[i] = loops.loop_hash(ir, anon(parts)); calls[i] = cs
    h = dict(local)
    for _ in range(12):       # call chains in the library are shorter than this; one more level than needed is harmless
        h = {i: hashlib.sha256((local[i] + ''.join(sorted(h.get(c, '?') for c in calls[i]))).encode()).hexdigest()[:20] for i in h}
    ir._closure = {'%s|%s|%s|%s' % (f.get('q'), f.get('parent'), json.dumps(f.get('targs'), sort_keys=True), json.dumps([p.get('t') for p in f.get('params', [])])): h[i] for i, f in ir.funcs.items()}
    return ir._closure
def anon(x):
    if isinstance(x, dict): return {a: anon(b) for a, b in x.items()}
    if isinstance(x, list): return [anon(b) for b in x]
    return re.sub(r'lambda#\d+', 'lambda', x) if isinstance(x, str) else x
def same_code(build, cfg, u):
    """is the code under this unit, down to everything it may call, the same as without `cfg`?"""
    if u.fn is None: return False
    a, b = (closure_hash(run.load_ir(build, c)).get(fkey(u.fn)) for c in ('', cfg))
    return a is not None and a == b
def fkey(f): return '%s|%s|%s|%s' % (f.get('q'), f.get('parent'), json.dumps(f.get('targs'), sort_keys=True), json.dumps([p.get('t') for p in f.get('params', [])]))
def expected():
    p = os.path.join(HERE, 'expected_units.json')
    return json.load(open(p)) if os.path.exists(p) else {}
def prove(P, build, tier):
    errs, t0 = [], time.time()
    us = gather(P, build, errs)
    have = {u.name + u.cfg for u in us}
    missing = [x for x in expected().get(P, []) if x not in have]
    cross = os.path.join(build, 'cross-' + P)
    if tier != 'quick':
        os.makedirs(cross, exist_ok=True)
        for f in os.listdir(cross): os.remove(os.path.join(cross, f))
        run.CROSS = (cross, 200)
    # a tree on which units do not finish must still get an answer: the rest of the time belongs to the bounded runs
    res = run.run_all(us, build, limit=200 if tier == 'quick' else 600, props=[P], budget=420 if tier == 'quick' else 1e6)
    # the other instantiation: everything in the thorough tier, starting and ending transactions on every change
    mods = sorted({m for m, c in SOURCES.get(P, []) if c == ''})
    if tier == 'quick': mods = [m for m in mods if m == 'txn' and P in QUICK2]
    if mods:
        try:
            tmp = os.path.join(build, 'second-%s.json' % P)
            left = 3600 if tier != 'quick' else max(30, int(420 - (time.time() - t0)))
            subprocess.run([sys.executable, '-m', 'tcv.second', P, build, str(left), tmp] + mods, cwd=os.path.dirname(HERE), env=dict(os.environ, TCV_ORDER='2'), check=True, timeout=left + 60)
            d = json.load(open(tmp)); os.remove(tmp)
            for r in d['res']: r['obls'] = [(o[0], tuple(o[1]), *o[2:]) for o in r['obls']]
            res += d['res']; errs += d['errs']
        except Exception as e: errs.append('second instantiation: %r' % e)
    second = run.cross_check(cross, 60, 900) if tier != 'quick' else None
    return res, missing, errs, second
def assumptions(P):
    return ['machine integers are modelled exactly in their C++ width', 'container sizes stay below 2^40 elements', 'fewer than 2^24 reuses of one storage slot', 'termination is not proved',
            'verified for the instantiation ECS<A, G, B, H> (two entity components A and B, two global components G and H), and in the thorough tier for ECS<H, B, G, A>']
def trusted(P):
    return ['clang 18 front end and the IR extraction (extract/tecsx.cpp)', 'the verification-condition generator tcv/', 'z3 ' + z3v(),
            'contracts of the C++ standard library (tcv/stl.py): vector, deque, bitset, array, tuple, shared_ptr, function, optional, unordered_map, algorithms']
def note(P):
    return ('Every obligation of the property, regenerated from the current headers on each run, is discharged by z3 for all states and inputs of the verified instantiations ECS<A,G,B,H> and (thorough tier; starting and ending transactions also in the quick tier) ECS<H,B,G,A>; '
            'loops by inferred-and-checked invariants, callees by their contracts. Trusted: clang front end, tcv/, z3, contracts of the standard library. '
            'Functions the verifier cannot complete on a changed tree fall back to bounded runs of the real code (labelled bounded in the evidence).')
