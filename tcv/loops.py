"""Loops.  Finite-state loops (all loop-carried state concrete) are executed exhaustively with
state joins; every other loop is cut by an inductive invariant found by Houdini over
candidates derived from the specification (see Hooks.candidates) and from the loop itself."""
import json, re, os, hashlib
import z3
from .core import *

def loop_hash(ir, st):
    """identifies a loop up to source positions, declaration numbering and the bodies of the functions it calls"""
    ids = {}
    def norm(x):
        if callable(x): return 'py'
        if isinstance(x, dict):
            if x.get('k') == 'PyLoop': return ('algorithm', norm(x['call']))
            out = []
            for a in sorted(x):
                b = x[a]
                if a in ('l', 'rid', 'loc', 'end') and not isinstance(b, dict): continue
                if a == 'f' and isinstance(b, int):
                    f = ir.funcs.get(str(b), {})
                    b = '%s|%s|%s' % (f.get('q'), f.get('parent'), json.dumps(f.get('targs'), sort_keys=True))
                elif a == 'id' and isinstance(b, int): b = 'g' if x.get('g') else ids.setdefault(b, len(ids))
                out.append((a, norm(b)))
            return out
        if isinstance(x, list): return [norm(y) for y in x]
        if isinstance(x, str): return re.sub(r'/[^ ()]*:\d+(:\d+)?', '@', x)
        return x
    return hashlib.sha256(json.dumps(norm(st)).encode()).hexdigest()[:16]
def all_loops(ir):
    out = set()
    def walk(x):
        if isinstance(x, dict):
            if x.get('k') in ('For', 'While', 'Do', 'ForRange'): out.add(loop_hash(ir, x))
            for b in x.values(): walk(b)
        elif isinstance(x, list):
            for y in x: walk(y)
    for f in ir.funcs.values(): walk(f.get('body'))
    return out
_known = None
def familiar(ex, st):
    """is this loop one whose invariants are known to be found (tcv/loops_known.json)?"""
    global _known
    if _known is None:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'loops_known.json')
        _known = set(json.load(open(p))) if os.path.exists(p) else set()
    c = ex.ir.__dict__.setdefault('_loophash', {})
    if id(st) not in c: c[id(st)] = (loop_hash(ex.ir, st), st)
    return c[id(st)][0] in _known

LIMIT = 2000      # explicit-state iterations before an invariant is used instead
class TooLong(Exception): pass

def symbols(t, cache={}):
    h = t.get_id()
    r = cache.get(h)
    if r is not None and r[0].eq(t): return r[1]
    out = set(); seen = set(); work = [t]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): work.append(x.body()); continue
        if z3.is_var(x): continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            work += x.children()
    cache[h] = (t, out)
    return out

def store_sig(ex, skip=()):
    sig = []
    def one(v):
        if isinstance(v, z3.ExprRef): return v.get_id()
        if isinstance(v, SV): return tuple(sorted(((str(k), one(x)) for k, x in v.f.items())))
        if isinstance(v, Lift): return ('L', one(v.t))
        if isinstance(v, LV): return repr(v)
        if isinstance(v, Iter): return (repr(v.lv), v.pos.get_id())
        if isinstance(v, Closure): return ('C', v.rid)
        return repr(v) if not isinstance(v, (Opaque, Null)) else type(v).__name__
    for r in sorted(ex.store):
        if r in skip: continue
        sig.append((r, one(ex.store[r])))
    return tuple(sig)

def iterate(ex, c, inc, body, dowhile):
    """one iteration; True if the loop continues"""
    if not dowhile and c is not None:
        t = ex.cond(c)
        if ex.probing is not None and not (z3.is_true(t) or z3.is_false(t)):
            ex.probing += 1
            if ex.probing > 2: raise TooLong()
        if not ex.fork(t): return False
    try: ex.stmt(body)
    except BreakEx: return False
    except ContinueEx: pass
    if inc is not None: ex.eval(inc)
    if dowhile:
        if not ex.fork(ex.cond(c)): return False
    return True

def gc(ex, keep):
    """drop temporaries created during an iteration (roots not present at the loop head)"""
    for r in [r for r in ex.store if r not in keep and '#' in r]: del ex.store[r]

def run(ex, st, c, inc, body, dowhile):
    lid = id(st)
    ex.keepalive.extend(ex.pc); ex.keepalive.extend(ex.store.values())   # term identities must stay stable
    key = (lid, store_sig(ex), tuple(f.get_id() for f in ex.pc))
    base = base_symbols(ex)
    mode = ex.loopcache.get(key)
    if mode is None:
        mode = 'explicit'
        ex.dry += 1
        n = [0]
        visited = {}
        pr = ex.probing
        try:
            def probe():
                ex.probing = 0
                keep = set(ex.store); pc0 = len(ex.pc)
                while True:
                    if head(ex, visited, pc0, base): raise PathEnd()
                    n[0] += 1
                    if n[0] > LIMIT: raise TooLong()
                    if ex.solver_pressure(pc0) : raise TooLong()
                    try:
                        if not iterate(ex, c, inc, body, dowhile): raise PathEnd()
                    except (ReturnEx, ThrowEx): raise PathEnd()
                    gc(ex, keep)
            ex.sub_explore(probe)
        except (TooLong, Undecided): mode = 'inv'
        finally: ex.dry -= 1; ex.probing = pr
        ex.loopcache[key] = mode
    if mode == 'explicit':
        keep = set(ex.store); pc0 = len(ex.pc)
        visited = ex.loopcache.setdefault(('visited', key, ex.dry, id(ex.alts)) if ex.dry else ('visited', key), {})
        while True:
            if head(ex, visited, pc0, base): raise PathEnd()
            if not iterate(ex, c, inc, body, dowhile):
                gc(ex, keep)
                exits = visited.setdefault('exits', {})
                if head(ex, exits, pc0, base): raise PathEnd()
                return
            gc(ex, keep)
    else:
        invariant(ex, st, c, inc, body, dowhile, key)

def base_symbols(ex):
    out = set()
    for f in ex.pc: out |= symbols(f)
    for v in ex.store.values():
        for _, l in leaves(v):
            if isinstance(l, z3.ExprRef): out |= symbols(l)
    return out

def head(ex, visited, pc0, base):
    """state join: true if this state (up to the names of symbols introduced by the loop) was already explored from here"""
    new = []          # live symbols introduced since the loop was entered, in order of appearance
    seen = set()
    def note(t):
        ss = symbols(t) - base - seen
        for x in order(t, ss): seen.add(x); new.append(x)
    for r in sorted(ex.store):
        for _, l in leaves(ex.store[r]):
            if isinstance(l, z3.ExprRef): note(l)
    facts = [f for f in ex.pc[pc0:] if f.get_id() not in ex.implied and symbols(f)]
    rel = []
    todo = list(enumerate(facts))
    while True:
        rest, grew = [], False
        for i, f in todo:
            fs = symbols(f)
            fresh = fs - base
            if not fresh or (fs & base) or (fresh & seen):
                rel.append((i, f)); grew = grew or bool(fresh - seen); note(f)
            else: rest.append((i, f))
        todo = rest
        if not grew: break
    rel = [f for _, f in sorted(rel, key=lambda x: x[0])]
    ex.keepalive.extend(ex.pc[pc0:])
    for v in ex.store.values(): ex.keepalive.append(v)
    if not new:
        k = (store_sig(ex), tuple(sorted({f.get_id() for f in rel})), tuple(sorted(ex.eps.items(), key=str)))
    else:
        consts = {}
        for t in rel + [l for v in ex.store.values() for _, l in leaves(v) if isinstance(l, z3.ExprRef)]: find_consts(t, seen, consts)
        sub_ = [(consts[x], z3.Const('$%d' % i, consts[x].sort())) for i, x in enumerate(new) if x in consts]
        ren = {}
        def rn(t):
            if not (symbols(t) & seen): return t
            r = z3.substitute(t, *sub_); ex.keepalive.append(r); return r
        old = ex.store
        try:
            ex.store = {r: map_leaves(rn, v) if isinstance(v, (SV, Lift, z3.ExprRef)) else v for r, v in old.items()}
            ex.keepalive.extend(ex.store.values())
            sig = store_sig(ex)
        finally: ex.store = old
        k = (sig, tuple(sorted({rn(f).get_id() for f in rel})), tuple(sorted(ex.eps.items(), key=str)))
    me = tuple(ex.dec)
    if k in visited and visited[k] != me: return True
    visited.setdefault(k, me)
    return False

def order(t, want):
    """members of `want` in order of first occurrence in t"""
    if not want: return []
    if len(want) == 1: return list(want)
    out, work, seen = [], [t], set()
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): work.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().name() in want and x.decl().name() not in out: out.append(x.decl().name())
            work.extend(reversed(x.children()))
    return out
def find_consts(t, want, out):
    if not (symbols(t) & want - out.keys()): return
    work, seen = [t], set()
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): work.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().name() in want: out[x.decl().name()] = x
            work.extend(x.children())

def diff(a, b, path=()):
    """leaf paths where two trees differ"""
    if a is b: return
    if isinstance(a, SV) and isinstance(b, SV) and a.f.keys() == b.f.keys():
        for k in a.f: yield from diff(a.f[k], b.f[k], path + (k,))
    elif isinstance(a, Lift) and isinstance(b, Lift): yield from diff(a.t, b.t, path + ('*',))
    elif not same(a, b): yield path, a, b

def getp(v, path):
    for p in path:
        v = v.t if p == '*' else v.f[p]
    return v
def setp(v, path, x):
    if not path: return x
    if path[0] == '*': return Lift(setp(v.t, path[1:], x))
    return v.set(path[0], setp(v.f[path[0]], path[1:], x))

def invariant(ex, st, c, inc, body, dowhile, key):
    ck = ('inv', key)
    st0 = dict(ex.store)
    keep = set(st0)
    if ck not in ex.loopcache:
        ex.dry += 1
        try: ex.loopcache[ck] = analyse(ex, st, c, inc, body, dowhile, st0, keep)
        finally: ex.dry -= 1
    W, affine, cands, ne = ex.loopcache[ck]
    if not ex.dry and not familiar(ex, st): ex.unfamiliar = ex.ever_unfamiliar = True
    k = ex.fresh(Int, 'k')
    ex.ranges[k.decl().name()] = (0, BIG)
    ex.assume(land(k >= 0, k <= BIG))
    arrive(ex, W, affine, st0, k)
    for nm, fn in cands: ex.assume(fn(ex, st0, k))
    assume_ne(ex, ne, k)
    ex.lastk = k
    if iterate(ex, c, inc, body, dowhile): raise PathEnd()

def arrive(ex, W, affine, st0, k):
    """havoc the written leaves to their value at the start of iteration k"""
    for (root, path) in W:
        old = getp(st0[root], path)
        if (root, path) in affine:
            d = affine[root, path]
            base = old.pos if isinstance(old, Iter) else old
            nv = add(base, z3.simplify(k * d)) if d else base
            nv = Iter(old.lv, nv, old.rev) if isinstance(old, Iter) else nv
        elif isinstance(old, Iter): nv = Iter(old.lv, ex.fresh(Int, 'it'), old.rev)
        elif isinstance(old, z3.ExprRef):
            nv = z3.Const(ex.name('h:%s%s' % (root.split('#')[0], ''.join('.%s' % p for p in path))), old.sort())
            if z3.is_int(old):
                isz = path and path[-1] in ('size', 'b', 'e')
                ty = (0, BIG) if isz else ex.interval_of(old)
                ex.ranges[nv.decl().name()] = ty
                ex.assume(land(nv >= ty[0], nv <= ty[1]))
            elif z3.is_array(old):
                r = ex.root_range(old)
                if r: ex.ranges[nv.decl().name()] = r
        else: raise Unsup('loop changes %s%s' % (root, path))
        ex.store[root] = setp(ex.store[root], path, nv)
    for r, p in W:
        # references obtained before the loop into a container whose storage is replaced
        if p and p[-1] in ('size', 'b', 'e'): ex.bump(LV(r, p[:-1]))

def body_paths(ex, c, inc, body, dowhile, keep, fn):
    """run one iteration on every path from the current state; fn(outcome) inside each path"""
    def one():
        ex.exploring_body = True
        try:
            o = 'cont' if iterate(ex, c, inc, body, dowhile) else 'exit'
        except ReturnEx: o = 'exit'
        except ThrowEx: o = 'exit'
        fn(o)
    ex.sub_explore(one)

def assume_ne(ex, ne, k):
    if ne is None: return
    kk, f = ne
    j = z3.Int('jn')
    ex.assume(z3.Implies(k > 0, z3.substitute(f, (kk, k - 1))))
    body = z3.substitute(f, (kk, j))
    ex.assume(z3.ForAll([j], z3.Implies(land(j >= 0, j < k), body)))

def analyse(ex, st, c, inc, body, dowhile, st0, keep):
    W = []
    diffs = {}
    while True:
        found = set()
        diffs = {}
        def run_once():
            k = ex.fresh(Int, 'k'); ex.ranges[k.decl().name()] = (0, BIG); ex.assume(k >= 0)
            arrive(ex, W, {}, st0, k)
            before = dict(ex.store)
            def done(o):
                if o != 'cont': return
                for r in keep:
                    if r not in ex.store: continue
                    for p, a, b in diff(before[r], ex.store[r]):
                        found.add((r, p))
                for (r, p) in W:
                    a, b = getp(before[r], p), getp(ex.store[r], p)
                    if isinstance(a, Iter): a, b = a.pos, b.pos
                    if isinstance(a, z3.ExprRef) and z3.is_int(a):
                        d = z3.simplify(b - a)
                        diffs.setdefault((r, p), set()).add(ival(d) if isint(d) else None)
            body_paths(ex, c, inc, body, dowhile, keep, done)
        ex.sub_explore(run_once)
        new = [x for x in sorted(found, key=str) if x not in W]
        if not new: break
        W = W + new
    affine = {x: list(ds)[0] for x, ds in diffs.items() if len(ds) == 1 and None not in ds}
    # conditions under which iterations continue, over loop-invariant symbols and k
    ne = [None]
    pushes = {}
    def run_ne():
        k = ex.fresh(Int, 'k'); ex.ranges[k.decl().name()] = (0, BIG); ex.assume(k >= 0)
        names0 = set()
        arrive(ex, W, affine, st0, k)
        dirty = set()
        for r, p in W:
            v = getp(ex.store[r], p)
            v = v.pos if isinstance(v, Iter) else v
            if (r, p) not in affine: dirty |= symbols(v)
        pc0 = len(ex.pc)
        clean0 = set()
        for f in ex.pc: clean0 |= symbols(f)
        for v in st0.values():
            for _, l in leaves(v):
                if isinstance(l, z3.ExprRef): clean0 |= symbols(l)
        clean0 = (clean0 - dirty) | {k.decl().name()}
        before = dict(ex.store)
        disj = []
        cont = [0]
        def done(o):
            if o != 'cont': return
            cont[0] += 1
            cs = [f for f in ex.pc[pc0:] if symbols(f) <= clean0 and not z3.is_quantifier(f)]
            disj.append(land(*cs))
            for (r, p) in W:
                if '*' not in p or p.count('*') != 1: continue
                a, b = getp(before[r], p), getp(ex.store[r], p)
                if not z3.is_array(b): continue
                if b.decl().kind() == z3.Z3_OP_STORE and b.arg(0).eq(a):
                    loc, v = b.arg(1), b.arg(2)
                    if symbols(loc) <= clean0 and symbols(v) <= clean0:
                        pushes.setdefault((r, p), set()).add((loc, v)); continue
                pushes.setdefault((r, p), set()).add(None)
        body_paths(ex, c, inc, body, dowhile, keep, done)
        f = lor(*disj) if disj else TRUE
        ne[0] = (k, z3.simplify(f)) if not z3.is_true(f) else None
        for x, s_ in list(pushes.items()):
            s_ = list(s_)
            pushes[x] = (k, s_[0][0], s_[0][1]) if len(s_) == 1 and s_[0] is not None else None
    ex.sub_explore(run_ne)
    ne = ne[0]
    cands = list(ex.hooks.candidates(ex, st0, W, affine))
    for (r, p), x in pushes.items():
        if x is None: continue
        kk, loc, v = x
        def mkc(r=r, p=p, kk=kk, loc=loc, v=v):
            def fn(ex, st0, k):
                j = z3.Int('jp')
                arr = getp(ex.store[r], p)
                l, vv = z3.substitute(loc, (kk, j)), z3.substitute(v, (kk, j))
                # positions affine in j are re-indexed so that E-matching can use select(arr, x)
                off = z3.simplify(loc - kk)
                if kk.decl().name() not in symbols(off):
                    return z3.ForAll([j], z3.Implies(land(j >= off, j < off + k), z3.Select(arr, j) == z3.substitute(v, (kk, j - off))), patterns=[z3.Select(arr, j)])
                return z3.ForAll([j], z3.Implies(land(j >= 0, j < k), z3.Select(arr, l) == vv))
            return fn
        cands.append(('stored by iterations so far: %s%s' % (r, p), mkc()))
        if len(cands) > 0:
            def frame(r=r, p=p, kk=kk, loc=loc):
                off = z3.simplify(loc - kk)
                def fn(ex, st0, k):
                    j = z3.Int('jp')
                    arr, arr0 = getp(ex.store[r], p), getp(st0[r], p)
                    return z3.ForAll([j], z3.Implies(lor(j < off, j >= off + k), z3.Select(arr, j) == z3.Select(arr0, j)), patterns=[z3.Select(arr, j)])
                return fn if kk.decl().name() not in symbols(off) else None
            fr = frame()
            if fr: cands.append(('not yet stored: %s%s' % (r, p), fr))
    # initially true
    def test_init():
        good = []
        for nm, fn in cands:
            try: f = fn(ex, st0, I(0))
            except (KeyError, AttributeError): continue
            if ex.proves(f): good.append((nm, fn))
        cands[:] = good
    test_init()
    ex.houdini = getattr(ex, 'houdini', 0)
    while True:
        bad = set()
        def check():
            k = ex.fresh(Int, 'k'); ex.ranges[k.decl().name()] = (0, BIG); ex.assume(land(k >= 0, k <= BIG))
            arrive(ex, W, affine, st0, k)
            for nm, fn in cands: ex.assume(fn(ex, st0, k))
            assume_ne(ex, ne, k)
            def done(o):
                if o != 'cont': return
                for i, (nm, fn) in enumerate(cands):
                    if i in bad: continue
                    ex.houdini += 1
                    if not ex.proves(fn(ex, st0, add(k, I(1)))): bad.add(i)
            body_paths(ex, c, inc, body, dowhile, keep, done)
        if not cands: break
        ex.sub_explore(check)
        if not bad: break
        if ex.verbose_loops: print('   dropped', [cands[i][0] for i in sorted(bad)])
        cands = [x for i, x in enumerate(cands) if i not in bad]
    if ex.verbose_loops: print('   loop W=%s affine=%s kept=%s' % (W, affine, [x[0] for x in cands]))
    return W, affine, cands, ne
