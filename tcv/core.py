"""Symbolic executor / verification-condition generator over the IR that extract/tecsx
produces mechanically from the C++ AST of /repo's current headers.

Values
  * leaves are z3 terms (Int, Bool, uninterpreted component sorts);
  * SV: immutable field map (records, tuples, arrays, bitsets, containers);
  * Lift(t): one element of a container, every leaf lifted to an Array indexed by Int;
  * python objects for things that never live inside containers: LV (references/pointers),
    Closure, Iter.
Storage is a map root -> value tree; an lvalue is LV(root, path), so aliasing is exact.
"""
import json, sys, itertools, time
import z3
from .tags import extra
sys.setrecursionlimit(20000)

class Unsup(Exception):
    """the construct is outside the verified subset"""
class PathEnd(Exception):
    """this path is infeasible, or covered by an invariant"""
class ThrowEx(Exception):
    def __init__(s, what): s.what = what
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class ReturnEx(Exception):
    def __init__(s, v): s.v = v
class Undecided(Exception): pass

class SV:
    __slots__ = ('f',)
    def __init__(s, f): s.f = f
    def set(s, k, v):
        d = dict(s.f); d[k] = v
        return SV(d)
    def __repr__(s): return 'SV' + repr(s.f)
class Lift:
    __slots__ = ('t',)
    def __init__(s, t): s.t = t
    def __repr__(s): return 'Lift(%r)' % (s.t,)
class LV:
    __slots__ = ('root', 'path', 'eps')
    def __init__(s, root, path=(), eps=()): s.root, s.path, s.eps = root, path, eps
    def fld(s, n): return LV(s.root, s.path + (n,), s.eps)
    def idx(s, t, ep=None):
        return LV(s.root, s.path + (('i', t),), s.eps + ((ep,) if ep else ()))
    def key(s):
        return (s.root,) + tuple('*' if isinstance(p, tuple) else p for p in s.path)
    def __repr__(s): return 'LV(%s%s)' % (s.root, ''.join('[%s]' % p[1] if isinstance(p, tuple) else '.%s' % p for p in s.path))
class Closure:
    def __init__(s, rid, env, this): s.rid, s.env, s.this = rid, env, this
class Iter:
    """iterator / element pointer: container lvalue + absolute position"""
    __slots__ = ('lv', 'pos', 'rev')
    def __init__(s, lv, pos, rev=False): s.lv, s.pos, s.rev = lv, pos, rev
    def __repr__(s): return 'Iter(%r,%s)' % (s.lv, s.pos)
class Null: pass
NULL = Null()
class Opaque:
    def __repr__(s): return 'Opaque'
OPAQUE = Opaque()

Int, Bool = z3.IntSort(), z3.BoolSort()
I = z3.IntVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
def isint(t): return z3.is_int_value(t)
def ival(t): return t.as_long()

def map_leaves(f, v):
    if isinstance(v, SV): return SV({k: map_leaves(f, x) for k, x in v.f.items()})
    if isinstance(v, Lift): return Lift(map_leaves(f, v.t))
    if isinstance(v, z3.ExprRef): return f(v)
    return v
def zip_leaves(f, a, b):
    if isinstance(a, SV): return SV({k: zip_leaves(f, x, b.f[k]) for k, x in a.f.items()})
    if isinstance(a, Lift): return Lift(zip_leaves(f, a.t, b.t))
    if isinstance(a, z3.ExprRef): return f(a, b)
    return b
def leaves(v, pre=()):
    if isinstance(v, SV):
        for k, x in v.f.items(): yield from leaves(x, pre + (k,))
    elif isinstance(v, Lift): yield from leaves(v.t, pre + ('*',))
    else: yield pre, v
def sel(leaf, idxs):
    for i in idxs: leaf = z3.Select(leaf, i)
    return leaf
def sto(leaf, idxs, v):
    if not idxs: return v
    return z3.Store(leaf, idxs[0], sto(z3.Select(leaf, idxs[0]), idxs[1:], v))
def same(a, b):
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, SV) and isinstance(b, SV):
        return a is b or (a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f))
    if isinstance(a, Lift) and isinstance(b, Lift): return same(a.t, b.t)
    if isinstance(a, LV) and isinstance(b, LV): return a.root == b.root and len(a.path) == len(b.path) and all(
        (p == q) if not isinstance(p, tuple) else (isinstance(q, tuple) and p[1].eq(q[1])) for p, q in zip(a.path, b.path))
    if isinstance(a, Iter) and isinstance(b, Iter): return same(a.lv, b.lv) and a.pos.eq(b.pos)
    return a is b or (type(a) == type(b) and not isinstance(a, (Closure,)) and a == b)

def eq_tree(a, b, bound=None):
    """list of equalities between two trees, leaf by leaf"""
    out = []
    for (p, x), (_, y) in zip(leaves(a), leaves(b)):
        if isinstance(x, z3.ExprRef): out.append(x == y)
        elif not same(x, y): out.append(FALSE)
    return out

# ---------------------------------------------------------------- smart constructors
def add(a, b):
    if isint(a) and isint(b): return I(ival(a) + ival(b))
    if isint(b) and ival(b) == 0: return a
    if isint(a) and ival(a) == 0: return b
    return z3.simplify(a + b)
def sub(a, b):
    if isint(a) and isint(b): return I(ival(a) - ival(b))
    return z3.simplify(a - b)
def land(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs): return FALSE
    return TRUE if not xs else xs[0] if len(xs) == 1 else z3.And(*xs)
def lor(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs): return TRUE
    return FALSE if not xs else xs[0] if len(xs) == 1 else z3.Or(*xs)
def lnot(x):
    if z3.is_true(x): return FALSE
    if z3.is_false(x): return TRUE
    return z3.Not(x)

class IR:
    def __init__(s, path):
        d = json.load(open(path)) if isinstance(path, str) else path
        s.types, s.records, s.funcs, s.globals = d['types'], d['records'], d['functions'], d['globals']
        s.byparent = {}
        for i, f in s.funcs.items():
            f['id'] = int(i)
            s.byparent.setdefault((f.get('parent'), f['name']), []).append(f)
        s._shape = {}
        s._flds = {}
    def fn(s, i): return s.funcs[str(i)]
    def ty(s, k):
        t = s.types.get(k)
        if t is None: raise Unsup('type %r' % k)
        return t
    def strip(s, k):
        """remove references"""
        t = s.ty(k)
        while t['k'] in ('lref', 'rref'):
            k = t['to']; t = s.ty(k)
        return k
    def rec(s, k):
        t = s.ty(s.strip(k))
        if t['k'] == 'ptr': t = s.ty(s.strip(t['to']))
        return t
    def fields(s, rid):
        """all fields incl. inherited: [(name, type, init)]"""
        rid = str(rid)
        if rid in s._flds: return s._flds[rid]
        r = s.records.get(rid)
        if r is None: raise Unsup('record %s' % rid)
        out = []
        for b in r.get('bases', []):
            bt = s.ty(b['t'] if isinstance(b, dict) else b)
            if str(bt['rid']) in s.records and bt.get('user'):
                out += s.fields(bt['rid'])
            elif bt['name'] == 'std::bitset': out.append(('$bitset', bt, None))
            elif bt.get('name', '').startswith('std::enable_shared') or not bt.get('user'):
                if bt['name'] == 'std::bitset': pass
        for f in r['fields']:
            out.append((f['name'], f['t'], f.get('init')))
        s._flds[rid] = out
        return out
    def targ(s, t, i): return t['args'][i]
    OPAQUE_NS = 'v::'
    def shape(s, k):
        if k in s._shape: return s._shape[k]
        r = s._shape[k] = s._mkshape(k)
        return r
    def _mkshape(s, k):
        t = s.ty(k)
        kk = t['k']
        if kk in ('int', 'enum'): return ('int', t['w'], t['s'])
        if kk == 'bool': return ('bool',)
        if kk in ('lref', 'rref', 'ptr', 'nullptr', 'func', 'memptr'): return ('py',)
        if kk == 'arr':
            if t.get('n', 0) <= 64: return ('sv', {i: s.shape(t['to']) for i in range(t['n'])})
            return ('py',)
        if kk == 'rec':
            n = t['name']
            a = t.get('args') or []
            if n.startswith(s.OPAQUE_NS): return ('op', n)
            if n == 'std::vector': return ('vec', s.shape(a[0]['t']))
            if n == 'std::deque': return ('deq', s.shape(a[0]['t']))
            if n == 'std::bitset': return ('sv', {i: ('bool',) for i in range(a[0]['i'])})
            if n in ('std::atomic', 'std::__atomic_base'): return ('sv', {'v': s.shape(a[0]['t'])})
            if n in ('std::tuple',): return ('sv', {i: s.shape(x['t']) for i, x in enumerate(flat(a))})
            if n == 'std::array':
                if a[1]['i'] > 64 or s.ty(a[0]['t'])['k'] in ('int',) : return ('sv', {'data': ('lift', s.shape(a[0]['t']))})
                return ('sv', {i: s.shape(a[0]['t']) for i in range(a[1]['i'])})
            if n in ('std::shared_ptr', 'std::weak_ptr'):
                to = s.ty(a[0]['t'])
                if to.get('name') == 'std::deque': return ('int', 64, False)
                return ('py',)
            if n == 'std::optional': return ('py',)
            if n == 'std::thread::id': return ('op', 'thread_id')
            if n.startswith('std::chrono::time_point'): return ('op', 'time_point')
            if n.startswith('Tecs::') or str(t['rid']) in s.records and t.get('user'):
                d = {}
                for fn_, ft, _ in s.fields(t['rid']):
                    if fn_ == '$bitset': d.update({i: ('bool',) for i in range(ft['args'][0]['i'])})
                    else: d[fn_] = s.shape(ft)
                return ('sv', d)
            return ('py',)
        raise Unsup('shape of %s' % k)
def flat(a):
    out = []
    for x in a:
        if 'pack' in x: out += flat(x['pack'])
        else: out.append(x)
    return out

_sorts = {}
def opsort(n):
    if n not in _sorts: _sorts[n] = z3.DeclareSort(n.replace('::', '_'))
    return _sorts[n]
def leafsort(sh):
    return {'int': Int, 'bool': Bool}.get(sh[0]) if sh[0] != 'op' else opsort(sh[1])
def default_leaf(sh):
    if sh[0] == 'int': return I(0)
    if sh[0] == 'bool': return FALSE
    return z3.Const('dflt_' + sh[1].replace('::', '_'), opsort(sh[1]))
def arrsort(s, depth):
    for _ in range(depth): s = z3.ArraySort(Int, s)
    return s
def mk(sh, leaf, depth=0):
    """build a value tree of this shape; leaf(shape, path, depth) makes the leaves"""
    def go(sh, path, d):
        k = sh[0]
        if k == 'sv': return SV({n: go(x, path + (n,), d) for n, x in sh[1].items()})
        if k == 'vec': return SV({'size': leaf(('int', 64, False), path + ('size',), d), 'data': Lift(go(sh[1], path + ('data',), d + 1))})
        if k == 'deq': return SV({'b': leaf(('int', 64, False), path + ('b',), d), 'e': leaf(('int', 64, False), path + ('e',), d), 'data': Lift(go(sh[1], path + ('data',), d + 1))})
        if k == 'lift': return Lift(go(sh[1], path + ('*',), d + 1))
        if k == 'py': return None
        return leaf(sh, path, d)
    return go(sh, (), depth)
def default_val(sh, depth=0):
    def leaf(s, p, d):
        v = default_leaf(s)
        for _ in range(d): v = z3.K(Int, v)
        return v
    return mk(sh, leaf, depth)

BIG = 1 << 40   # containers are assumed to hold fewer elements than this

class Obl:
    def __init__(s, tag, props, loc, f, status, info=''):
        s.tag, s.props, s.loc, s.f, s.status, s.info = tag, props, loc, f, status, info

def pieces(f):
    """f as a list of formulas whose conjunction it is"""
    if z3.is_and(f): return [p for c in f.children() for p in pieces(c)]
    if z3.is_implies(f): return [z3.Implies(f.arg(0), p) for p in pieces(f.arg(1))]
    if z3.is_or(f):
        # simplified implications
        ands = [c for c in f.children() if z3.is_and(c) or (z3.is_not(c) and z3.is_or(c.arg(0)))]
        if len(ands) == 1:
            rest = [c for c in f.children() if not c.eq(ands[0])]
            inner = ands[0].children() if z3.is_and(ands[0]) else [z3.Not(x) for x in ands[0].arg(0).children()]
            return [q for p in inner for q in pieces(z3.Or(*rest, p))]
    if z3.is_not(f) and z3.is_or(f.arg(0)): return [p for c in f.arg(0).children() for p in pieces(z3.Not(c))]
    return [f]

def symbols(f, cache):
    k = f.get_id()
    if k in cache: return cache[k][1]
    out, todo, seen = set(), [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.name())
            todo.extend(x.children())
    cache[k] = (f, frozenset(out))
    return cache[k][1]

class Solver:
    """one z3 instance with incremental assumptions, E-matching only"""
    stats = {'queries': 0, 'time': 0.0, 'unknown': 0, 'cvc5': 0}
    def __init__(s, timeout=4000):
        s.s = z3.SolverFor('ALL') if False else z3.Solver()
        s.s.set('auto_config', False); s.s.set('smt.mbqi', False); s.s.set('timeout', timeout)
        s.s.set('smt.random_seed', 0)
    def push(s): s.s.push()
    def pop(s): s.s.pop()
    def add(s, f): s.s.add(f)
    def check(s, *fs, timeout=None):
        t = time.time()
        if timeout: s.s.set('timeout', timeout)
        s.s.push()
        for f in fs: s.s.add(f)
        r = s.s.check()
        s.reason = s.s.reason_unknown() if r == z3.unknown else ''
        s.s.pop()
        if timeout: s.s.set('timeout', 4000)
        Solver.stats['queries'] += 1
        Solver.stats['time'] += time.time() - t
        return r

class Ex:
    """executes one function along all its paths"""
    def __init__(s, ir, hooks=None, timeout=4000):
        s.ir = ir
        s.hooks = hooks or Hooks()
        s.solver = Solver(timeout)
        s.obls = []
        s.results = {}
        s.dry = 0
        s.only_props = None; s.skipped = 0; s.implied = set(); s._symc = {}
        s.probing = None; s.live = False; s.cross = None
        s.loopcache = {}; s.arrlen = {}
        s.maxpaths = 4000; s.unfamiliar = s.ever_unfamiliar = False
        s.ranges = {}       # array/const name -> (lo, hi)
        s.funcs_seen = set()
        s.verbose_loops = False
        s.keepalive = []
        s.vartypes = {}; s._own = {}
        from . import stl
        s.stl = stl
    # ------------------------------------------------------------ exploration
    def reset(s):
        s.store = {}; s.pc = []; s.ctr = {}; s.eps = {}; s.cur = []; s.frames = []
        s.allocs = 0
        s.trace = []
        s.rangeset = set()
    def explore(s, run):
        """run() executes one path from the beginning (after reset)."""
        work = [[]]
        n = 0
        while work:
            s.prefix = work.pop(); s.dec = []; s.alts = []; s.unfamiliar = False
            s.reset()
            s.solver.push()
            try:
                run()
                # vacuity: the same solver must not be able to refute the hypotheses of at least one complete path
                if not s.live and s.solver.check(timeout=1000) != z3.unsat: s.live = True
            except PathEnd: pass
            finally: s.solver.pop()
            work += s.alts
            n += 1
            if n > s.maxpaths: raise Undecided('too many paths')
        return n
    def sub_explore(s, run):
        """explore from the current state; state is restored after each path"""
        saved = (s.prefix, s.dec, s.alts)
        st, pc, ctr, eps, fr, al, rs = dict(s.store), list(s.pc), dict(s.ctr), dict(s.eps), list(s.frames), s.allocs, set(s.rangeset)
        work = [[]]; n = 0
        try:
            while work:
                s.prefix = work.pop(); s.dec = []; s.alts = []
                s.store, s.pc, s.ctr, s.eps, s.frames, s.allocs, s.rangeset = dict(st), list(pc), dict(ctr), dict(eps), list(fr), al, set(rs)
                s.solver.push()
                try: run()
                except PathEnd: pass
                finally: s.solver.pop()
                work += s.alts
                n += 1
                if n > 400: raise Undecided('too many paths in a loop body')
        finally:
            s.prefix, s.dec, s.alts = saved
            s.store, s.pc, s.ctr, s.eps, s.frames, s.allocs, s.rangeset = st, pc, ctr, eps, fr, al, rs
    def _decide(s, nalt, feasible):
        i = len(s.dec)
        if i < len(s.prefix):
            c = s.prefix[i]; s.dec.append(c); return c
        ok = [a for a in range(nalt) if feasible(a)]
        if not ok: raise PathEnd()
        for a in ok[1:]: s.alts.append(s.dec + [a])
        s.dec.append(ok[0])
        return ok[0]
    def choose(s, n):
        """free nondeterministic choice"""
        return s._decide(n, lambda a: True)
    def fork(s, c):
        """branch on a Bool term; returns a python bool and assumes it"""
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = s._decide(2, lambda a: s.solver.check(c if a == 0 else z3.Not(c), timeout=1500) != z3.unsat)
        s.assume(c if k == 0 else lnot(c))
        return k == 0
    def assume(s, f):
        if z3.is_true(f): return
        if z3.is_false(f): raise PathEnd()
        s.pc.append(f); s.solver.add(f)
    def oblige(s, tag, f, props=(), loc='', avoid=None):
        """proof obligation: prove then assume"""
        if props: props = tuple(props) + extra(tag)
        if s.dry:
            if not z3.is_false(f): s.assume(f); s.implied.add(f.get_id()); s.keepalive.append(f)
            return True
        if isinstance(f, z3.ExprRef): f = z3.simplify(f) if z3.is_bool(f) and not z3.is_quantifier(f) else f
        if s.only_props is not None and props and not s.only_props.intersection(props):
            # decided by the checks of those properties; here it is relied upon
            s.skipped += 1
            s.assume(f)
            if isinstance(f, z3.ExprRef): s.implied.add(f.get_id()); s.keepalive.append(f)
            return True
        if z3.is_true(f): status = 'proved'; info = 'trivial'
        else:
            r = ('proved', 'z3') if avoid and s.focus_check(f, avoid) else s.prove(f)
            status, info = r
            if s.cross and status == 'proved': s.cross(s, tag, f)
            # after a loop of a shape not met before, a failure may be a weak invariant rather than a broken property
            if status == 'failed' and s.unfamiliar: status = 'weak'
        s.obls.append(Obl(tag, tuple(props), loc, f, status, info))
        if status == 'proved': s.assume(f); s.implied.add(f.get_id()); s.keepalive.append(f)
        return status == 'proved'
    def prove(s, f):
        if any(f.eq(g) for g in s.pc): return 'proved', 'assumed'
        r = s.solver.check(z3.Not(f))
        if r == z3.unsat: return 'proved', 'z3'
        if r == z3.sat: return 'failed', 'z3: counterexample'
        gaveup = lambda: 'timeout' in s.solver.reason or 'canceled' in s.solver.reason
        if gaveup():
            # conjuncts one by one (each proved one helps with the next), then other random seeds
            done = []
            s.solver.push()
            try:
                for g in pieces(f):
                    if any(s.relevant_check(g, depth, tol, ms) for depth, tol, ms in ((2, 1.5, 2000), (2, 4, 4000), (3, 4, 6000))):
                        s.solver.add(g); done.append(g); continue
                    for seed, ms in ((0, 8000), (7, 8000), (13, 20000)):
                        s.solver.s.set('smt.random_seed', seed)
                        r = s.solver.check(z3.Not(g), timeout=ms)
                        if r != z3.unknown or not gaveup(): break
                    if r != z3.unsat:
                        return ('timeout' if r == z3.unknown and gaveup() else 'failed'), 'z3: ' + (s.solver.reason or 'counterexample')
                    s.solver.add(g)
            finally:
                s.solver.pop(); s.solver.s.set('smt.random_seed', 0)
            return 'proved', 'z3'
        return 'failed', 'z3: ' + (s.solver.reason or 'counterexample')
    def focus_check(s, f, avoid, ms=3000):
        """proof attempt without the hypotheses that mention a symbol with one of the given texts (any subset is sound)"""
        own = symbols(f, s._symc)
        sv = Solver(ms)
        for h in s.pc:
            if any(a in x for x in symbols(h, s._symc) - own for a in avoid): continue
            sv.add(h)
        return sv.check(z3.Not(f), timeout=ms) == z3.unsat
    def relevant_check(s, g, depth, tol, ms):
        """proof attempt from the hypotheses connected to the goal by rare symbols (any subset is sound)"""
        hyps = list(s.pc)
        syms = [symbols(h, s._symc) for h in hyps]
        cnt = {}
        for ss in syms:
            for x in ss: cnt[x] = cnt.get(x, 0) + 1
        trig = {}
        for k, ss in enumerate(syms):
            if not ss: continue
            m = min(cnt[x] for x in ss)
            for x in ss:
                if cnt[x] <= tol * m: trig.setdefault(x, []).append(k)
        have = set(); cur = set(symbols(g, s._symc)); seen = set()
        for _ in range(depth):
            new = set()
            for x in cur - seen: new.update(trig.get(x, ()))
            seen |= cur
            new -= have
            have |= new
            for k in new: cur |= syms[k]
        s.last_rel = have
        sv = Solver(ms)
        for k in sorted(have): sv.add(hyps[k])
        return sv.check(z3.Not(g), timeout=ms) == z3.unsat
    def proves(s, f):
        if z3.is_true(f): return True
        return s.solver.check(z3.Not(f), timeout=3000) == z3.unsat
    # ------------------------------------------------------------ fresh values
    def name(s, base):
        n = s.ctr.get(base, 0); s.ctr[base] = n + 1
        return '%s!%d' % (base, n)
    def fresh(s, sort, base='t'):
        return z3.Const(s.name(base), sort)
    def fresh_val(s, sh, base, depth=0):
        nm = s.name(base)
        def leaf(x, p, d):
            c = z3.Const(nm + ''.join('.%s' % q for q in p), arrsort(leafsort(x), d))
            lo_hi = None
            if x[0] == 'int':
                if p and p[-1] in ('size', 'b', 'e'): lo_hi = (0, BIG)
                else: lo_hi = (-(1 << (x[1] - 1)), (1 << (x[1] - 1)) - 1) if x[2] else (0, (1 << x[1]) - 1)
                s.ranges[c.decl().name()] = lo_hi
                if d == 0: s.assume(land(c >= lo_hi[0], c <= lo_hi[1]))
            return c
        return mk(sh, leaf, depth)
    # ------------------------------------------------------------ ranges
    def interval(s, t, dflt):
        if isint(t): return (ival(t), ival(t))
        k = t.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            return s.ranges.get(t.decl().name(), dflt)
        if k == z3.Z3_OP_SELECT:
            a = t
            hulls = []
            while True:
                kk = a.decl().kind()
                if kk == z3.Z3_OP_SELECT: a = a.arg(0)
                elif kk == z3.Z3_OP_STORE:
                    if z3.is_array(a.arg(2)): hulls.append(None)
                    else: hulls.append(s.interval(a.arg(2), dflt))
                    a = a.arg(0)
                elif kk == z3.Z3_OP_CONST_ARRAY:
                    if z3.is_array(a.arg(0)): a = a.arg(0)
                    else: hulls.append(s.interval(a.arg(0), dflt)); break
                elif kk == z3.Z3_OP_UNINTERPRETED:
                    hulls.append(s.ranges.get(a.decl().name(), dflt)); break
                else: return dflt
            if any(h is None for h in hulls): return dflt
            return (min(h[0] for h in hulls), max(h[1] for h in hulls))
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in t.children():
                a = s.interval(c, dflt); lo += a[0]; hi += a[1]
            return (lo, hi)
        if k == z3.Z3_OP_SUB:
            a = s.interval(t.arg(0), dflt); lo, hi = a
            for c in t.children()[1:]:
                b = s.interval(c, dflt); lo -= b[1]; hi -= b[0]
            return (lo, hi)
        if k == z3.Z3_OP_MUL and t.num_args() == 2:
            a, b = s.interval(t.arg(0), dflt), s.interval(t.arg(1), dflt)
            ps = [x * y for x in a for y in b]
            return (min(ps), max(ps))
        if k == z3.Z3_OP_UMINUS:
            a = s.interval(t.arg(0), dflt); return (-a[1], -a[0])
        if k == z3.Z3_OP_MOD and isint(t.arg(1)): return (0, ival(t.arg(1)) - 1)
        if k == z3.Z3_OP_IDIV and isint(t.arg(1)) and ival(t.arg(1)) > 0:
            a = s.interval(t.arg(0), dflt); return (a[0] // ival(t.arg(1)), a[1] // ival(t.arg(1)))
        if k == z3.Z3_OP_ITE:
            a, b = s.interval(t.arg(1), dflt), s.interval(t.arg(2), dflt)
            return (min(a[0], b[0]), max(a[1], b[1]))
        return dflt
    def interval_of(s, t):
        big = (-(1 << 63), (1 << 64) - 1)
        return s.interval(t, big) if not isint(t) else (0, (1 << 64) - 1) if ival(t) >= 0 else big
    def root_range(s, a):
        while True:
            k = a.decl().kind()
            if k == z3.Z3_OP_STORE: a = a.arg(0)
            elif k == z3.Z3_OP_UNINTERPRETED: return s.ranges.get(a.decl().name())
            elif k == z3.Z3_OP_SELECT: a = a.arg(0)
            else: return None
    def solver_pressure(s, pc0): return len(s.pc) - pc0 > 1500
    def wrap(s, t, w, sg, lo_hi=None):
        """reduce an integer term to the type's range, without mod where provably in range"""
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        big = (-(1 << 200), 1 << 200)
        a = s.interval(t, big)
        if a[0] >= lo and a[1] <= hi: return t
        if isint(t):
            v = ival(t) & ((1 << w) - 1)
            if sg and v >> (w - 1): v -= 1 << w
            return I(v)
        if s.proves(land(t >= lo, t <= hi)): return t
        m = t % I(1 << w)
        if sg: return z3.If(m >= I(1 << (w - 1)), m - I(1 << w), m)
        return m
    def leaf_range(s, t, sh):
        """assume the C++ type range of a loaded leaf"""
        if sh[0] == 'int' and not isint(t):
            h = t.get_id()
            if h in s.rangeset: return
            s.rangeset.add(h)
            lo, hi = (-(1 << (sh[1] - 1)), (1 << (sh[1] - 1)) - 1) if sh[2] else (0, (1 << sh[1]) - 1)
            s.assume(land(t >= lo, t <= hi))
    # ------------------------------------------------------------ memory
    def new_root(s, base, v):
        s.allocs += 1
        r = '%s#%d' % (base, s.allocs)
        s.store[r] = v
        return LV(r)
    def epoch(s, lv): return s.eps.get(lv.key(), 0)
    def bump(s, lv): s.eps[lv.key()] = s.eps.get(lv.key(), 0) + 1
    def elem(s, lv, i):
        """element lvalue of container storage (no bounds check)"""
        return lv.fld('data').idx(i, (lv.key(), s.epoch(lv)))
    def check_eps(s, lv, loc):
        for k, n in lv.eps:
            if s.eps.get(k, 0) != n:
                s.oblige('no dangling reference into ' + '.'.join(map(str, k[1:] or k)), FALSE, ('mem',), loc)
    def rd(s, lv, raw=False, loc=''):
        if not raw:
            s.check_eps(lv, loc)
            s.hooks.access(s, lv, False, loc)
        return s.get(lv)
    def get(s, lv):
        node = s.store[lv.root]; idxs = []
        for p in lv.path:
            if isinstance(p, tuple):
                if not isinstance(node, Lift): raise Unsup('index into %r' % (lv,))
                node = node.t; idxs.append(p[1])
            else:
                if not isinstance(node, SV) or p not in node.f: raise Unsup('field %s of %r' % (p, lv))
                node = node.f[p]
        if idxs: node = map_leaves(lambda l: sel(l, idxs), node)
        return node
    def wr(s, lv, v, raw=False, loc=''):
        if not raw:
            s.check_eps(lv, loc)
            s.hooks.access(s, lv, True, loc)
        s.put(lv, v)
    def put(s, lv, v):
        s.store[lv.root] = s._put(s.store[lv.root], lv.path, 0, [], v)
    def _put(s, node, path, i, idxs, v):
        if i == len(path):
            if not idxs: return v
            return zip_leaves(lambda l, x: sto(l, idxs, x), node, v)
        p = path[i]
        if isinstance(p, tuple):
            return Lift(s._put(node.t, path, i + 1, idxs + [p[1]], v))
        return node.set(p, s._put(node.f[p], path, i + 1, idxs, v))
    # ------------------------------------------------------------ calls
    def call(s, fid, this, args, loc='', q=None):
        f = s.ir.fn(fid)
        q = f['q']
        c = s.hooks.contract(s, f, this, args, loc)
        if c is not None: return c[0]
        if f.get('user') and 'body' in f and not f.get('defaulted'):
            return s.inline(f, this, args, loc)
        if f.get('user'):
            return s.implicit(f, this, args, loc)
        return s.stl.call(s, f, this, args, loc)
    def implicit(s, f, this, args, loc):
        n = f['name']
        if f.get('ctor') in ('copy', 'move') or (n == 'operator=' and len(args) == 1):
            a = args[0]
            v = s.rd(a, loc=loc) if isinstance(a, LV) else a
            # a base subobject keeps the members of the derived object; a slice drops them
            own = {n for n, _, _ in s.ir.fields(s.ir.ty(s.ir.strip(f['parent']))['rid'])} if f.get('parent') else None
            cur = s.store.get(this.root)
            for q in this.path: cur = cur.f.get(q) if isinstance(cur, SV) and not isinstance(q, tuple) else None
            if isinstance(v, SV) and own and '$bitset' not in own and isinstance(cur, SV) and (set(cur.f) - own or set(v.f) - own) and own <= set(v.f):
                for k in own: s.put(this.fld(k), v.f[k])
                return this
            s.wr(this, s.conform(v, f.get('parent')), loc=loc)
            return this
        if f.get('ctor') and not args:
            s.default_init(this, f['parent'], f)
            return this
        if f.get('dtor') or n.startswith('~') or n == '(dtor)': return None
        if 'body' in f: return s.inline(f, this, args, loc)
        raise Unsup('implicit function %s' % f['q'])
    def moved_from(s, f, a, loc):
        """a component type is the user's: its moved-from value is not known (it may own memory)"""
        ps = f.get('params') or []
        if isinstance(a, LV) and (f.get('ctor') == 'move' or ps and s.ir.ty(ps[0]['t'])['k'] == 'rref'):
            s.wr(a, s.fresh_val(s.ir.shape(f['parent']), 'moved'), loc=loc)
    def conform(s, v, parent):
        return v
    def default_init(s, this, tkey, f=None):
        t = s.ir.ty(tkey)
        s.put(this, s.uninit(s.ir.shape(tkey)))
        for n, ft, init in s.ir.fields(t['rid']):
            if n == '$bitset':
                for i in range(ft['args'][0]['i']): s.put(this.fld(i), FALSE)
                continue
            fl = this.fld(n)
            if init is not None:
                s.frames.append((this, {}))
                try: s.init_into(fl, init, ft)
                finally: s.frames.pop()
            else: s.put(fl, s.default_construct(ft))
    def default_construct(s, tkey):
        """default-initialisation (class types get their default value, scalars are indeterminate)"""
        t = s.ir.ty(tkey)
        if t['k'] == 'rec':
            if t['name'].startswith('Tecs::') and t.get('user'):
                for f in s.ir.byparent.get((tkey.replace('const ', ''), t['name'].split('::')[-1]), []) + s.ir.byparent.get((tkey, '(ctor)'), []):
                    if f.get('ctor') and not f['params']:
                        lv = s.new_root('dc', s.uninit(s.ir.shape(tkey)))
                        s.call(f['id'], lv, [])
                        return s.store.pop(lv.root)
                lv = s.new_root('dc', s.uninit(s.ir.shape(tkey)))
                s.default_init(lv, tkey)
                return s.store.pop(lv.root)
            if t['name'] == 'std::array' : return s.uninit(s.ir.shape(tkey))
            if t['name'] in ('std::shared_ptr', 'std::weak_ptr') and s.ir.shape(tkey)[0] == 'py': return NULL
            return default_val(s.ir.shape(tkey))
        return s.uninit(s.ir.shape(tkey))
    def uninit(s, sh):
        return s.fresh_val(sh, 'uninit')
    def inline(s, f, this, args, loc, env=None):
        if len(s.frames) > 60: raise Unsup('recursion')
        s.funcs_seen.add(f['q'])
        env = dict(env) if env else {}
        for p, a in zip(f['params'], args):
            pt = s.ir.ty(p['t'])
            if pt['k'] in ('lref', 'rref'):
                env[p['id']] = a if isinstance(a, LV) else s.new_root('ref', a)
            else:
                if isinstance(a, LV) and pt['k'] != 'ptr' and pt.get('name') not in ('std::shared_ptr', 'std::weak_ptr'): a = s.rd(a, loc=loc)
                env[p['id']] = s.new_root(p['name'] or 'p', a)
        if len(args) < len(f['params']): raise Unsup('missing args for ' + f['q'])
        s.frames.append((this, env))
        try:
            if f.get('ctor'): s.run_inits(f, this)
            ret = None
            try: s.stmt(f['body'])
            except ReturnEx as r: ret = r.v
            rt = s.ir.ty(f['ret'])
            if rt['k'] in ('lref', 'rref'): return ret
            if isinstance(ret, LV) and rt['k'] != 'ptr': return s.rd(ret, loc=loc)
            return ret
        finally: s.frames.pop()
    def run_inits(s, f, this):
        t = s.ir.ty(f['parent'])
        if s.store.get(this.root) is None or not this.path: pass
        inited = set()
        for it in f.get('inits', []):
            if 'field' in it and it['field']:
                ft = [x for x in s.ir.fields(t['rid']) if x[0] == it['field']]
                ftype = ft[-1][1]
                inited.add(it['field'])
                if it.get('init') is None: continue
                if it['init'].get('k') == 'DefaultInit' and ft[-1][2] is not None: s.init_into(this.fld(it['field']), ft[-1][2], ftype)
                else: s.init_into(this.fld(it['field']), it['init'], ftype)
            elif 'base' in it:
                e = it['init']
                if e is None: continue
                if e['k'] == 'Ctor': s.construct(this, e, base=True)
                else: raise Unsup('base init ' + e['k'])
            elif it.get('delegating'): s.construct(this, it['init'])
    def init_into(s, lv, e, tkey):
        t = s.ir.ty(tkey)
        if t['k'] in ('lref', 'rref'):
            r = s.eval(e)
            if not isinstance(r, LV): r = s.new_root('tmp', r)
            s.put(lv, r); return
        v = s.eval_as(e, tkey)
        s.put(lv, v)
    def eval_as(s, e, tkey):
        """evaluate as a prvalue of this type"""
        if e['k'] in ('IList',): return s.ilist(e, tkey)
        v = s.eval(e)
        t = s.ir.ty(tkey)
        if isinstance(v, LV) and t['k'] != 'ptr' and e.get('lv'): v = s.rd(v, loc=e.get('l', ''))
        return v
    def construct(s, lv, e, base=False):
        """run constructor expression e with this=lv"""
        f = s.ir.fn(e['f'])
        if base and not f.get('user'):
            if f['q'].startswith('std::bitset'):
                v = s.stl.construct(s, e, [s.eval(a) for a in e['a']])
                for k, x in v.f.items(): s.put(lv.fld(k), x)
                return
        if f.get('user'):
            args = [s.arg(a, p) for a, p in zip(e['a'], f['params'])]
            s.call(e['f'], lv, args, e.get('l', ''))
        else:
            s.put(lv, s.stl.construct(s, e, [s.eval(a) for a in e['a']]))
    def arg(s, a, p):
        pt = s.ir.ty(p['t'])
        if pt['k'] in ('lref', 'rref'):
            v = s.eval(a)
            return v if isinstance(v, LV) else s.new_root('tmp', v)
        return s.eval_as(a, p['t'])
    # ------------------------------------------------------------ statements
    def stmt(s, st):
        if st is None: return
        getattr(s, 'st_' + st['k'], s.st_unsup)(st)
    def st_unsup(s, st): raise Unsup('statement %s at %s' % (st['k'], st.get('l')))
    def st_Block(s, st):
        this, env = s.frames[-1]
        before = set(env)
        try:
            for x in st.get('b') or []: s.stmt(x)
        except (ReturnEx, BreakEx, ContinueEx, ThrowEx):
            s.leave(env, before, False); raise
        s.leave(env, before, True)
    def leave(s, env, before, normal):
        new = [k for k in env if k not in before]
        for k in reversed(new):
            lv = env[k]
            tk = s.vartypes.get(k)
            if tk: s.destroy(lv, tk)
        for k in new:
            lv = env.pop(k)
            if isinstance(lv, LV) and '#' in lv.root and not lv.path and getattr(s, '_own', {}).get(lv.root): s.store.pop(lv.root, None)
    def destroy(s, lv, tk):
        t = s.ir.ty(tk)
        if t['k'] != 'rec' or not t.get('user'): return
        r = s.ir.records.get(str(t['rid']))
        if r and r.get('dtorUser') and r.get('dtor'):
            s.call(r['dtor'], lv, [])
    def st_Expr(s, st): s.eval(st['e'])
    def st_Null(s, st): pass
    def st_Decl(s, st):
        this, env = s.frames[-1]
        for d in st.get('d') or []:
            if d.get('unsupported'): raise Unsup(d['unsupported'])
            if d.get('id') is None: continue
            t = s.ir.ty(d['t'])
            if t['k'] in ('lref', 'rref'):
                r = s.eval(d['init'])
                if not isinstance(r, LV): r = s.new_root('tmp', r)
                env[d['id']] = r
            else:
                lv = s.new_root(d['name'] or 'v', None)
                s._own[lv.root] = True
                env[d['id']] = lv
                if d.get('init') is None: v = s.default_construct(d['t'])
                elif d['init']['k'] == 'Ctor' and s.ir.fn(d['init']['f']).get('user') and t['k'] == 'rec' and not t['name'].startswith(s.ir.OPAQUE_NS):
                    s.store[lv.root] = s.uninit(s.ir.shape(d['t']))
                    s.construct(lv, d['init']); v = s.store[lv.root]
                else: v = s.eval_as(d['init'], d['t'])
                s.store[lv.root] = v
                s.vartypes[d['id']] = d['t']
            for b in d.get('bind') or []:
                if b.get('var'): s.st_Decl({'d': [b['var']]}); env[b['id']] = env[b['var']['id']]
                else: env[b['id']] = s.eval(b['e'])
    def st_If(s, st):
        if st.get('init') or st.get('cv'):
            b = ([st['init']] if st.get('init') else []) + ([{'k': 'Decl', 'd': [st['cv']]}] if st.get('cv') else [])
            s.st_Block({'k': 'Block', 'b': b + [{k: v for k, v in st.items() if k not in ('init', 'cv')}]})
            return
        if st.get('cx'):
            c = s.eval(st['c'])
            s.stmt(st.get('t') if z3.is_true(c) else st.get('e'))
            return
        c = s.cond(st['c'])
        if s.fork(c): s.stmt(st.get('t'))
        else: s.stmt(st.get('e'))
    def cond(s, e):
        v = s.eval(e)
        if isinstance(v, LV) and e.get('lv'): v = s.rd(v)
        return s.tobool(v)
    def tobool(s, v, ptr=False):
        if isinstance(v, z3.ExprRef):
            if z3.is_bool(v): return v
            if v.sort() == Int: return FALSE if isint(v) and ival(v) == 0 else TRUE if isint(v) else v != 0
        if v is NULL: return FALSE
        if ptr and isinstance(v, (LV, Iter, Closure)): return TRUE
        raise Unsup('condition value %r' % (v,))
    def st_Return(s, st):
        e = st.get('e')
        raise ReturnEx(None if e is None else s.eval(e) if e['k'] != 'IList' else s.ilist(e, e.get('t')))
    def st_Break(s, st): raise BreakEx()
    def st_Continue(s, st): raise ContinueEx()
    def st_Try(s, st):
        try: s.stmt(st['b'])
        except ThrowEx:
            hs = st.get('h') or st.get('handlers') or []
            if not hs: raise
            s.stmt(hs[0]['b'] if 'b' in hs[0] else hs[0])
    def st_Switch(s, st):
        if st.get('init'):
            s.st_Block({'k': 'Block', 'b': [st['init'], {k: v for k, v in st.items() if k != 'init'}]})
            return
        def labels(x): return 0 if not isinstance(x, (dict, list)) else sum(map(labels, x)) if isinstance(x, list) else (x.get('k') in ('Case', 'Default')) + (0 if x.get('k') == 'Switch' else sum(labels(v) for v in x.values()))
        flat = []; n = 0
        for x in (st['b'].get('b') or []) if st['b']['k'] == 'Block' else [st['b']]:
            while x.get('k') in ('Case', 'Default'):
                n += 1; flat.append((x['k'], x.get('c'))); x = x['b']
            flat.append(('', x))
        if n != labels(st['b']): raise Unsup('switch')
        c = s.ev(st['c']); start = None
        for i, (k, x) in enumerate(flat):
            if k == 'Case' and start is None and s.fork(s.tobool(c == s.ev(x))): start = i
        if start is None:
            for i, (k, x) in enumerate(flat):
                if k == 'Default': start = i
        if start is None: return
        try: s.st_Block({'k': 'Block', 'b': [x for k, x in flat[start:] if not k]})
        except BreakEx: pass
    def st_Case(s, st): s.stmt(st['b'])
    def st_Default(s, st): s.stmt(st['b'])
    # loops
    def st_While(s, st): s.loop(st, None, st['c'], None, st['b'], False)
    def st_Do(s, st): s.loop(st, None, st['c'], None, st['b'], True)
    def st_For(s, st):
        this, env = s.frames[-1]
        before = set(env)
        if st.get('init'): s.stmt(st['init'])
        s.loop(st, None, st.get('c'), st.get('inc'), st['b'], False)
        s.leave(env, before, True)
    def st_ForRange(s, st):
        this, env = s.frames[-1]
        before = set(env)
        for k in ('init', 'range', 'begin', 'end'):
            if st.get(k): s.stmt(st[k])
        body = {'k': 'Block', 'b': [st['var'], st['b']]}
        s.loop(st, None, st['c'], st['inc'], body, False)
        s.leave(env, before, True)
    def loop(s, st, init, c, inc, body, dowhile):
        from . import loops
        loops.run(s, st, c, inc, body, dowhile)
    # ------------------------------------------------------------ expressions
    def eval(s, e):
        return getattr(s, 'ex_' + e['k'], s.ex_unsup)(e)
    def ev(s, e):
        """evaluate and load if it designates an lvalue"""
        v = s.eval(e)
        if isinstance(v, LV) and e.get('lv'): v = s.rd(v, loc=e.get('l', ''))
        return v
    def ex_Py(s, e): return e['fn']()
    def st_Py(s, e): e['fn']()
    def ex_unsup(s, e): raise Unsup('expression %s at %s' % (e['k'], e.get('l')))
    def ex_Int(s, e): return I(int(e['v']))
    def ex_Bool(s, e): return TRUE if e.get('v') else FALSE
    def ex_Str(s, e): return s.new_root('str', OPAQUE)
    def ex_Null(s, e): return NULL
    def ex_This(s, e):
        if s.frames[-1][0] is None: raise Unsup('this')
        return s.frames[-1][0]
    def ex_Fn(s, e): return ('fn', e.get('f', e.get('id')))
    def ex_Throw(s, e): raise ThrowEx((e.get('e') or {}).get('t'))
    def ex_Typeid(s, e): return s.new_root('typeid', OPAQUE)
    def ex_Zero(s, e):
        return s.zero(e['t'])
    def zero(s, t):
        return default_val(s.ir.shape(t))
    def ex_SIL(s, e): return s.eval(e['e'] if 'e' in e else e['a'][0])
    def ex_Var(s, e):
        if e.get('g'): return s.glob(e)
        for this, env in (s.frames[-1],):
            if e['id'] in env: return env[e['id']]
        if str(e['id']) in s.ir.globals: return s.glob(e)
        raise Unsup('variable %s' % e.get('n'))
    def glob(s, e):
        g = s.ir.globals.get(str(e['id']))
        if g is None: raise Unsup('global %s' % e.get('n'))
        r = 'g:' + g['q']
        if r not in s.store:
            if g.get('init') is not None and (g.get('const') or s.ir.ty(g['t']).get('const')):
                s.frames.append((None, {}))
                try: v = s.eval_as(g['init'], g['t'])
                finally: s.frames.pop()
                s.store[r] = v
            else: s.store[r] = s.fresh_val(s.ir.shape(g['t']), r)
        return LV(r)
    def ex_Mem(s, e):
        o = s.eval(e['o'])
        if e.get('arrow'):
            if isinstance(o, LV) and e['o'].get('lv'): o = s.rd(o)
            o = s.deref(o, e.get('l', ''))
        if not isinstance(o, LV):
            if isinstance(o, SV): return o.f[e['n']]
            raise Unsup('member %s of %r' % (e['n'], o))
        rt = s.ir.rec(e['o']['t'])
        ft = None
        if e.get('sv'): pass
        for n, t, _ in s.ir.fields(rt['rid']) if rt['k'] == 'rec' and str(rt['rid']) in s.ir.records else []:
            if n == e['n']: ft = t
        r = o.fld(e['n'])
        if ft and s.ir.ty(ft)['k'] in ('lref', 'rref'):
            v = s.get(r)
            if not isinstance(v, LV): raise Unsup('reference field %s' % e['n'])
            return v
        return r
    def deref(s, v, loc):
        if isinstance(v, LV): return v
        if isinstance(v, Iter): return s.stl.iter_elem(s, v, loc)
        if v is NULL:
            s.oblige('no null dereference', FALSE, ('mem',), loc); raise PathEnd()
        raise Unsup('dereference of %r' % (v,))
    def ex_Temp(s, e):
        v = s.eval(e['e'])
        if isinstance(v, LV) and e['e'].get('lv'): return v
        return s.new_root('tmp', v)
    def ex_Cast(s, e):
        ck = e['ck']
        if ck == 'LValueToRValue':
            v = s.eval(e['e'])
            if isinstance(v, LV): 
                r = s.rd(v, loc=e.get('l', ''))
                if isinstance(r, z3.ExprRef) and r.sort() == Int and s.ir.ty(e['t'])['k'] in ('int', 'enum'): s.leaf_range(r, s.ir.shape(e['t']))
                return r
            return v
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'FunctionToPointerDecay', 'UserDefinedConversion', 'ConstructorConversion', 'ArrayToPointerDecay', 'BaseToDerived', 'BitCast'):
            v = s.eval(e['e'])
            return v
        if ck == 'IntegralCast':
            v = s.ev(e['e'])
            if z3.is_bool(v): v = z3.If(v, I(1), I(0)) if not (z3.is_true(v) or z3.is_false(v)) else I(1 if z3.is_true(v) else 0)
            t = s.ir.ty(e['t'])
            if t['k'] == 'bool': return s.tobool(v)
            return s.wrap(v, t['w'], t['s'])
        if ck in ('IntegralToBoolean', 'PointerToBoolean'): return s.tobool(s.ev(e['e']), ck[0] == 'P')
        if ck == 'NullToPointer': return NULL
        if ck == 'ToVoid': s.eval(e['e']); return None
        raise Unsup('cast ' + ck)
    def ex_Un(s, e):
        op = e['op']
        if op in ('++', '--'):
            lv = s.eval(e['e'])
            old = s.rd(lv, loc=e.get('l', ''))
            t = s.ir.ty(s.ir.strip(e['e']['t']))
            if isinstance(old, Iter):
                new = Iter(old.lv, add(old.pos, I(1)) if (op == '++') else sub(old.pos, I(1)), old.rev)
            else:
                if t['k'] == 'int': s.leaf_range(old, ('int', t['w'], t['s']))
                new = s.arith('+' if op == '++' else '-', old, I(1), t)
            s.wr(lv, new, loc=e.get('l', ''))
            return old if e.get('post') else (lv if e.get('lv') else new)
        if op == '!': return lnot(s.tobool(s.ev(e['e'])))
        if op == '-':
            t = s.ir.ty(e['t'])
            return s.wrap(z3.simplify(-s.ev(e['e'])), t['w'], t['s'])
        if op == '+': return s.ev(e['e'])
        if op == '*':
            return s.deref(s.ev(e['e']), e.get('l', ''))
        if op == '&':
            v = s.eval(e['e'])
            return s.stl.addr(s, v)
        if op == '~':
            t = s.ir.ty(e['t'])
            v = s.ev(e['e'])
            return s.wrap(z3.simplify(-v - 1), t['w'], t['s'])
        raise Unsup('unary ' + op)
    def arith(s, op, a, b, t):
        if z3.is_bool(a): a = z3.If(a, I(1), I(0))
        if z3.is_bool(b): b = z3.If(b, I(1), I(0))
        w, sg = t['w'], t['s']
        if op == '+': return s.wrap(add(a, b), w, sg)
        if op == '-': return s.wrap(sub(a, b), w, sg)
        if op == '*': return s.wrap(z3.simplify(a * b), w, sg)
        if op in ('/', '%'):
            s.oblige('no division by zero', b != 0, ('mem',))
            if isint(b) and not sg or (isint(b) and s.proves(a >= 0)):
                if isint(a): return I(ival(a) // ival(b) if op == '/' else ival(a) % ival(b))
                return a / b if op == '/' else a % b
            if not sg: return a / b if op == '/' else a % b
            raise Unsup('signed division')
        if op == '<<':
            if not isint(b): raise Unsup('variable shift')
            return s.wrap(z3.simplify(a * I(1 << ival(b))), w, sg)
        if op == '>>':
            if not isint(b): raise Unsup('variable shift')
            return z3.simplify(a / I(1 << ival(b)))
        if op == '&':
            for x, y in ((a, b), (b, a)):
                if isint(y):
                    m = ival(y)
                    if isint(x): return I(ival(x) & m)
                    if m >= 0 and (m + 1) & m == 0:
                        iv = s.interval(x, (-(1 << 200), 1 << 200))
                        if iv[0] >= 0 and iv[1] <= m: return x
                        return x % I(m + 1)
                    if m == 0: return I(0)
            raise Unsup('bitwise and')
        if op in ('|', '^'):
            if isint(a) and isint(b): return I(ival(a) | ival(b) if op == '|' else ival(a) ^ ival(b))
            for x, y in ((a, b), (b, a)):
                if isint(x) and ival(x) == 0: return y
            # disjoint bits: x < 2^k and 2^k divides y  =>  x|y = x+y
            for x, y in ((a, b), (b, a)):
                iv = s.interval(x, (-(1 << 200), 1 << 200))
                if iv[0] >= 0 and iv[1] < (1 << 64):
                    k = max(iv[1], 1).bit_length()
                    if s.proves(y % I(1 << k) == 0): return add(x, y)
            # try every byte boundary
            for x, y in ((a, b), (b, a)):
                for k in (8, 16, 24, 32, 40, 48, 56):
                    if s.proves(land(x >= 0, x < (1 << k), y % I(1 << k) == 0)): return add(x, y)
            r = s.fresh(Int, 'or')
            s.assume(land(r >= 0, r < (1 << w), r >= a if op == '|' else TRUE, r >= b if op == '|' else TRUE, r <= a + b))
            return r
        raise Unsup('operator ' + op)
    def cmp(s, op, a, b):
        if isinstance(a, Iter) or isinstance(b, Iter):
            if op not in ('==', '!='): raise Unsup('pointer compare')
            if a is NULL or b is NULL: return FALSE if op == '==' else TRUE
            r = a.pos == b.pos if same(a.lv, b.lv) else None
            if r is None: raise Unsup('iterator compare')
            r = z3.simplify(r)
            return r if op == '==' else lnot(r)
        if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef):
            if op in ('==', '!='):
                if a is NULL or b is NULL: r = a is b
                elif isinstance(a, LV) and isinstance(b, LV): r = same(a, b)
                else: raise Unsup('compare %r %r' % (a, b))
                if isinstance(a, LV) and isinstance(b, LV) and not r and len(a.path) == len(b.path) and a.key() == b.key():
                    t = land(*[p[1] == q[1] for p, q in zip(a.path, b.path) if isinstance(p, tuple)])
                    return t if op == '==' else lnot(t)
                return TRUE if r == (op == '==') else FALSE
            raise Unsup('compare')
        if z3.is_bool(a) != z3.is_bool(b):
            if z3.is_bool(a): a = z3.If(a, I(1), I(0))
            else: b = z3.If(b, I(1), I(0))
        if op == '==': r = a == b
        elif op == '!=': r = a != b
        elif op == '<': r = a < b
        elif op == '>': r = a > b
        elif op == '<=': r = a <= b
        else: r = a >= b
        if (isint(a) and isint(b)) or z3.is_true(a) or z3.is_false(a) or z3.is_true(b) or z3.is_false(b) or a.eq(b): r = z3.simplify(r)
        return r
    def ex_Bin(s, e):
        op = e['op']
        if op == ',':
            s.eval(e['a']); return s.eval(e['b'])
        if op == '=':
            lv = s.eval(e['a'])
            v = s.eval_as(e['b'], s.ir.strip(e['a']['t']))
            s.wr(lv, v, loc=e.get('l', '')); return lv
        if op in ('&&', '||'):
            a = s.tobool(s.ev(e['a']))
            if z3.is_true(a) or z3.is_false(a):
                if z3.is_true(a) == (op == '&&'): return s.tobool(s.ev(e['b']))
                return a
            if s.pure(e['b']):
                # evaluate under the guard so that its obligations see the guard
                return s.guarded(op, a, e['b'])
            if s.fork(a) == (op == '&&'): return s.tobool(s.ev(e['b']))
            return FALSE if op == '&&' else TRUE
        a, b = s.ev(e['a']), s.ev(e['b'])
        if op in ('==', '!=', '<', '>', '<=', '>='): return s.cmp(op, a, b)
        if isinstance(a, Iter):
            if isinstance(b, Iter): return s.wrap(sub(a.pos, b.pos), 64, True)
            return Iter(a.lv, add(a.pos, b) if op == '+' else sub(a.pos, b), a.rev)
        return s.arith(op, a, b, s.ir.ty(e['t']))
    def pure(s, e): return False
    def guarded(s, op, a, eb):
        if s.fork(a) == (op == '&&'): return s.tobool(s.ev(eb))
        return FALSE if op == '&&' else TRUE
    def ex_CAssign(s, e):
        lv = s.eval(e['a'])
        old = s.rd(lv, loc=e.get('l', ''))
        b = s.ev(e['b'])
        op = e['op'].rstrip('=')
        if isinstance(old, Iter): new = Iter(old.lv, add(old.pos, b) if op == '+' else sub(old.pos, b), old.rev)
        else:
            t = s.ir.ty(s.ir.strip(e['a']['t']))
            if t['k'] == 'bool':
                a, b = s.tobool(old), s.tobool(b)
                new = land(a, b) if op == '&' else lor(a, b) if op == '|' else z3.Xor(a, b)
            else: new = s.arith(op, old, b, t)
        s.wr(lv, new, loc=e.get('l', ''))
        return lv
    def ex_Cond(s, e):
        c = s.tobool(s.ev(e['c']))
        return s.eval(e['a']) if s.fork(c) else s.eval(e['b'])
    def ex_Sub(s, e):
        a, i = s.ev(e['a']) if not e['a'].get('lv') else s.eval(e['a']), s.ev(e['i'])
        if isinstance(a, Iter): return s.stl.iter_elem(s, Iter(a.lv, add(a.pos, i)), e.get('l', ''))
        raise Unsup('subscript')
    def ex_IList(s, e): return s.ilist(e, e['t'])
    def ilist(s, e, tkey):
        t = s.ir.ty(s.ir.strip(tkey))
        args = e.get('a') or e.get('e') or []
        if t['k'] in ('int', 'bool', 'enum', 'ptr'):
            if not args: return default_val(s.ir.shape(s.ir.strip(tkey)))
            return s.ev(args[0])
        if t['k'] == 'arr':
            vs = [s.eval_as(a, t['to']) for a in args]
            return SV(dict(enumerate(vs)))
        n = t['name']
        if n.startswith(s.ir.OPAQUE_NS): return s.stl.opaque_ctor(s, n, [] if e.get('di') else [s.ev(a) for a in args], None)
        if n == 'std::array':
            inner = args[0] if len(args) == 1 and args[0]['k'] == 'IList' else e
            vs = [s.eval_as(a, t['args'][0]['t']) for a in (inner.get('a') or inner.get('e') or [])]
            return SV(dict(enumerate(vs)))
        if n.startswith('Tecs::') or t.get('user'):
            fl = s.ir.fields(t['rid'])
            d = {}
            i = 0
            for fn_, ft, init in fl:
                if fn_ == '$bitset':
                    if i < len(args): i += 1
                    for j in range(ft['args'][0]['i']): d[j] = FALSE
                    continue
                if i < len(args):
                    if s.ir.ty(ft)['k'] in ('lref', 'rref'):
                        v = s.eval(args[i]); v = v if isinstance(v, LV) else s.new_root('tmp', v)
                    else: v = s.eval_as(args[i], ft)
                    d[fn_] = v; i += 1
                elif init is not None: d[fn_] = s.eval_as(init, ft)
                else: d[fn_] = default_val(s.ir.shape(ft))
            return SV(d)
        return s.stl.ilist(s, t, [s.eval(a) for a in args], e)
    def ex_Ctor(s, e):
        t = s.ir.ty(e['t'])
        f = s.ir.fn(e['f'])
        if t['name'].startswith(s.ir.OPAQUE_NS):
            args = [s.eval(a) for a in e['a']]
            vs = [s.rd(a, loc=e.get('l', '')) if isinstance(a, LV) else a for a in args]
            if f.get('ctor') == 'move': s.moved_from(f, args[0], e.get('l', ''))
            return s.stl.opaque_ctor(s, t['name'], vs, f)
        if f.get('user'):
            lv = s.new_root('obj', s.uninit(s.ir.shape(e['t'])))
            s.construct(lv, e)
            return s.store[lv.root] if lv.root in s.store else None
        return s.stl.construct(s, e, [s.eval(a) for a in e['a']])
    def ex_Lambda(s, e):
        this, env = s.frames[-1]
        cap = {}
        cthis = None
        for c in e.get('caps') or []:
            if c.get('this'): cthis = this; continue
            vid = c.get('id', c.get('v'))
            if c.get('byref') and vid not in env:
                v = s.eval(c['init']); cap[vid] = v if isinstance(v, LV) else s.new_root('cap', v)
            elif c.get('byref'): cap[vid] = env[vid]
            else:
                cap[vid] = s.new_root('cap', s.rd(env[vid]) if vid in env else s.ev(c['init']))
        return Closure(e['rid'], cap, cthis)
    def call_closure(s, c, args, loc, f=None):
        if f is None:
            fs = [g for (p, n), l in s.ir.byparent.items() if p == 'lambda#%s' % c.rid and n == 'operator()' for g in l if 'body' in g]
            fs = [g for g in fs if len(g['params']) == len(args)]
            if not fs: raise Unsup('lambda call')
            f = fs[0]
            if len(fs) > 1: raise Unsup('ambiguous generic lambda')
        return s.inline(f, c.this, args, loc, env=c.env)
    def ex_OpCall(s, e):
        f = s.ir.fn(e['f'])
        loc = e.get('l', '')
        if f.get('lambda') or (f['name'] == 'operator()' and (f.get('parent') or '').startswith('lambda')):
            c = s.ev(e['a'][0])
            args = [s.arg(a, p) for a, p in zip(e['a'][1:], f['params'])]
            return s.call_closure(c, args, loc, f)
        if e.get('mem'):
            if f.get('user') and not s.is_opaque(f):
                if e['op'] == '=':   # right operand is sequenced first
                    args = [s.arg(a, p) for a, p in zip(e['a'][1:], f['params'])]
                    o = s.obj(e['a'][0])
                else:
                    o = s.obj(e['a'][0])
                    args = [s.arg(a, p) for a, p in zip(e['a'][1:], f['params'])]
                return s.call(e['f'], o, args, loc)
            if e['op'] == '=':
                args = [s.eval(a) if a['k'] != 'IList' else s.ilist(a, a['t']) for a in e['a'][1:]]
                o = s.eval(e['a'][0])
            else:
                o = s.eval(e['a'][0]); args = [s.eval(a) for a in e['a'][1:]]
            return s.stl_call(f, o, args, e)
        if f.get('user'):
            args = [s.arg(a, p) for a, p in zip(e['a'], f['params'])]
            return s.call(e['f'], None, args, loc)
        return s.stl_call(f, None, [s.eval(a) for a in e['a']], e)
    def is_opaque(s, f): return (f.get('parent') or '').startswith(s.ir.OPAQUE_NS)
    def obj(s, e):
        o = s.eval(e)
        if isinstance(o, LV): return o
        return s.new_root('tmp', o)
    def ex_MCall(s, e):
        f = s.ir.fn(e['f'])
        loc = e.get('l', '')
        o = s.eval(e['o'])
        if e.get('arrow'):
            if isinstance(o, LV) and e['o'].get('lv'): o = s.rd(o)
            o = s.deref(o, loc)
        if f['name'] == 'operator()' and (f.get('parent') or '').startswith('lambda'):
            c = s.rd(o, loc=loc) if isinstance(o, LV) else o
            return s.call_closure(c, [s.arg(a, p) for a, p in zip(e['a'] if 'a' in e else [], f['params'])], loc, f)
        if f.get('user') and not s.is_opaque(f):
            if not isinstance(o, LV): o = s.new_root('tmp', o)
            args = [s.arg(a, p) for a, p in zip(e['a'] if 'a' in e else [], f['params'])]
            return s.call(e['f'], o, args, loc)
        return s.stl_call(f, o, [s.eval(a) for a in e.get('a', [])], e)
    def ex_Call(s, e):
        if 'f' not in e: raise Unsup('call through a pointer')
        f = s.ir.fn(e['f'])
        loc = e.get('l', '')
        if f.get('user'):
            args = [s.arg(a, p) for a, p in zip(e.get('a', []), f['params'])]
            return s.call(e['f'], None, args, loc)
        return s.stl_call(f, None, [s.eval(a) for a in e.get('a', [])], e)
    def stl_call(s, f, o, args, e):
        c = s.hooks.contract(s, f, o, args, e.get('l', ''))
        if c is not None: return c[0]
        return s.stl.call(s, f, o, args, e.get('l', ''), e)

class Hooks:
    def access(s, ex, lv, write, loc): pass
    def contract(s, ex, f, this, args, loc): return None
    def atomic(s, ex, lv, op, args, loc): return None
    def candidates(s, ex, k, st0, W): return []
