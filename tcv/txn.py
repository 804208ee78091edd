"""Verification units for the start and the end of a transaction."""
import z3
from .core import *
from .spec import *
from .world import *
from . import stl
from .ops import Unit, dflt

LOCKFN = ('ReadLock', 'ReadUnlock', 'WriteLock', 'WriteUnlock', 'CommitLock', 'CommitUnlock')
MAXR = (1 << 32) - 1

def index_of(lv):
    if isinstance(lv, LV) and lv.root == 'ecs' and lv.path:
        if lv.path == ('metadata',): return 'm'
        if lv.path[0] == 'indexes' and len(lv.path) == 2: return lv.path[1]
    return None
def nm(c): return 'entities' if c == 'm' else CNAME[c]

class TxnWorld(World):
    """lock operations by contract (the contracts are discharged by tcv.locks)"""
    phase = 'start'
    verifying = None
    def use_helper(s, ex, f, hk, this, loc):
        kind, c = hk
        st0 = dict(ex.store)
        if kind != 'pre' and not (isinstance(this, LV) and this.root == 'ecs' and this.path == ('eventLists', c)): raise Unsup('observer list object')
        v = Vw(st0)
        for tag, props, fm in helper_pre(s, ex, v, hk): ex.oblige('precondition of %s: %s' % (f['name'], tag), fm, props, loc)
        mt = s.tok(ex, 'm')
        need = (mt in (W, C) and (c == 'm' or s.tok(ex, c) in (W, C))) if kind == 'pre' else mt == C if kind == 'commit' else mt == W
        ex.oblige('precondition of %s: the data is locked' % f['name'], TRUE if need else FALSE, ('C08',), loc)
        if kind == 'pre':
            # the events are defined by the state the transaction hands over
            for cc in ('m', c) if c != 'm' else ('m',):
                for nm_ in ('readComponents', 'writeComponents'):
                    for e in eq_tree(s.v0.st(cc)[nm_], v.st(cc)[nm_]): ex.oblige('precondition of %s: called on the final state of the transaction' % f['name'], e, ('C15', 'C02'), loc)
        for root, path in helper_frame(s, hk):
            old = ex.store[root]
            node = old.f if isinstance(old, SV) else None
            lv = LV(root, path)
            cur = getpath(ex.store[root], path)
            new = map_leaves(lambda a: refresh(ex, a, root, path), cur)
            ex.store[root] = setpath(ex.store[root], path, new)
            ex.bump(LV(root, path[:-1]) if path and path[-1] in ('data', 'size', 'b', 'e') else lv)
        for tag, props, fm in helper_post(s, ex, st0, hk): ex.assume(fm)
        return None
    def contract(s, ex, f, this, args, loc):
        q = f['q']
        n = f['name']
        if n in LOCKFN and q.startswith('Tecs::ComponentIndex'):
            c = index_of(this)
            if c is None: raise Unsup('lock operation on %r' % (this,))
            return (s.lockop(ex, n, c, args, loc),)
        if f['id'] != s.verifying:
            hk = helper_kind(f)
            if hk is not None and (hk[0] == 'init') == (s.phase == 'start'): return (s.use_helper(ex, f, hk, this, loc),)
        if q.startswith('Tecs::BaseTransaction::') and (f.get('ctor') or f.get('dtor')):
            return s.basefn(ex, f, this, args, loc)
        if q.startswith('Tecs::TraceInfo::'):
            return s.trace(ex, f, this, args, loc)
        return None
    def trace(s, ex, f, this, args, loc):
        if f['name'] != 'Trace': raise Unsup('TraceInfo::' + f['name'])
        t = ex.rd(args[0]) if isinstance(args[0], LV) else args[0]
        if not isint(t): raise Unsup('symbolic trace event')
        ok = isinstance(this, LV) and this.root == 'ecs' and this.path == ('transactionTrace',)
        ex.oblige('a transaction records its own events only', TRUE if ok else FALSE, ('C23',), loc)
        n = ival(ex.store['ghost:tr'].f['v']) if 'ghost:tr' in ex.store else 0
        if n >= 1 << 16: ex.oblige('a transaction event is recorded exactly once', FALSE, ('C23',), loc); raise PathEnd()
        ex.store['ghost:tr'] = SV({'v': I(n * 16 + ival(t))})
        return (None,)
    def traced(s, ex): return ival(ex.store['ghost:tr'].f['v']) if 'ghost:tr' in ex.store else 0
    def basefn(s, ex, f, this, args, loc):
        if f.get('ctor'):
            if ex.choose(2) == 1:       # nested, or over the limit: see the bookkeeping units
                ex.store['ghost:refused'] = SV({'v': I(1)})
                raise ThrowEx('std::runtime_error')
            ex.put(this.fld('instance'), args[0])
            fl = ex.get(this.fld('writeAccessedFlags'))
            ex.put(this.fld('writeAccessedFlags'), SV({k: FALSE for k in fl.f}))
        return (None,)
    def set_tok(s, ex, c, t): ex.store['ghost:tok'] = ex.store['ghost:tok'].set(c, I(t))
    def lockop(s, ex, n, c, args, loc):
        t = s.tok(ex, c)
        toks = {k: s.tok(ex, k) for k in IDX}
        if n in ('ReadLock', 'WriteLock'):
            ex.oblige('no lock is taken twice (%s)' % nm(c), TRUE if t == NONE else FALSE, ('C06', 'C04'), loc)
            if s.phase == 'start':
                want = s.T.tokens()[c]
                ex.oblige('only the locks the permissions call for are taken (%s)' % nm(c), TRUE if want == (R if n == 'ReadLock' else W) else FALSE, ('C06', 'C08'), loc)
            else: ex.oblige('no lock is acquired outside the start of a transaction', FALSE, ('C06', 'C07'), loc)
            b = args[0] if args else TRUE
            b = ex.tobool(ex.rd(b) if isinstance(b, LV) else b)
            if ex.fork(b):
                held = [k for k in IDX if toks[k] != NONE]
                ex.oblige('waits only while holding no lock', TRUE if not held else FALSE, ('C06',), loc)
                ok = True
            else: ok = ex.choose(2) == 0
            if ok: s.set_tok(ex, c, R if n == 'ReadLock' else W)
            return TRUE if ok else FALSE
        if n == 'ReadUnlock':
            ex.oblige('a shared lock is released only while held (%s)' % nm(c), TRUE if t == R else FALSE, ('C07', 'C06', 'C04'), loc)
            s.set_tok(ex, c, NONE); return None
        if n == 'WriteUnlock':
            ex.oblige('an exclusive lock is released only while held (%s)' % nm(c), TRUE if t in (W, C) else FALSE, ('C07', 'C06', 'C04'), loc)
            if t == C: s.released(ex, c, loc)
            s.set_tok(ex, c, NONE); return None
        if n == 'CommitLock':
            ex.oblige('commit access is taken once, from exclusive access (%s)' % nm(c), TRUE if t == W else FALSE, ('C04', 'C07', 'C02'), loc)
            ex.oblige('no component read lock is held while waiting for readers', TRUE if all(toks[k] != R for k in CS) else FALSE, ('C07',), loc)
            fl = ex.store['base'].f['writeAccessedFlags'].f[0 if c == 'm' else 1 + c]
            ex.oblige('waits only for readers of what was modified (%s)' % nm(c), fl, ('C07',), loc)
            ex.oblige('all commit locks are taken before the first is released', TRUE if ival(ex.store['ghost:rel'].f['v']) == 0 else FALSE, ('C03',), loc)
            s.set_tok(ex, c, C); return None
        if n == 'CommitUnlock':
            ex.oblige('commit access is released only while held (%s)' % nm(c), TRUE if t == C else FALSE, ('C04', 'C07'), loc)
            s.released(ex, c, loc)
            s.set_tok(ex, c, W); return None
    def released(s, ex, c, loc):
        ex.store['ghost:rel'] = SV({'v': I(1)})
    # ------------------------------------------------------------ loop invariants of the commit
    def candidates(s, ex, st0, W_, affine):
        out = []
        ws = set(W_)
        written = lambda root, *path: any(r == root and p[:len(path)] == path for r, p in ws)
        v0 = Vw({k: (st0[k] if k in st0 else None) for k in st0})
        for c in ('m',) + ENTC:
            base = ('metadata',) if c == 'm' else ('indexes', c)
            if written('ecs', *base, 'writeValidEntities'): out += s.list_cands(c)
            if written('ecs', *base, 'writeComponents', 'data') and c != 'm': out += s.copy_cands(c)
        if written('ecs', 'freeEntities'): out += s.free_cands()
        for k, h in s.hk.items():
            if written(h): out += s.queue_cands(k, h)
        return out
    def h(s, v, c, i):
        """entity i has c in the state being committed"""
        return v.alive('write', i) if c == 'm' else land(v.alive('write', i), v.has('write', c, i))
    def list_cands(s, c):
        def c1(ex, st0, k): v = Vw(ex.store); return land(v.Ln('write', c) >= 0, v.Ln('write', c) <= k)
        def c2(ex, st0, k):
            v = Vw(ex.store); x = v.Li('write', c, p_)
            return FA([p_], imp(land(p_ >= 0, p_ < v.Ln('write', c)), land(x >= 0, x < k, s.h(v, c, x), v.Lg('write', c, p_) == v.gen('write', x), v.V(c, x) == p_)), x)
        def c3(ex, st0, k):
            v = Vw(ex.store)
            return FA([p_, q_], imp(land(p_ >= 0, p_ < q_, q_ < v.Ln('write', c)), v.Li('write', c, p_) < v.Li('write', c, q_)), z3.MultiPattern(v.Li('write', c, p_), v.Li('write', c, q_)))
        def c4(ex, st0, k):
            v = Vw(ex.store); b = v.has('write', c, i_)
            return FA([i_], imp(land(i_ >= 0, i_ < k, s.h(v, c, i_)), land(v.V(c, i_) >= 0, v.V(c, i_) < v.Ln('write', c), v.Li('write', c, v.V(c, i_)) == i_, v.Lg('write', c, v.V(c, i_)) == v.gen('write', i_))), b)
        return [('list %s: size' % nm(c), c1), ('list %s: entries' % nm(c), c2), ('list %s: order' % nm(c), c3), ('list %s: complete' % nm(c), c4)]
    def free_cands(s):
        def c1(ex, st0, k): v = Vw(ex.store); return land(v.fb() <= v.fe(), v.fe() - v.fb() <= k)
        rng = lambda v: land(q_ >= v.fb(), q_ < v.fe())
        def c2(ex, st0, k):
            v = Vw(ex.store); x = v.fi(q_)
            return FA([q_], imp(rng(v), land(x >= 0, x < k, lnot(v.alive('write', x)))), x)
        def c2a(ex, st0, k):
            v = Vw(ex.store); x = v.fi(q_)
            return FA([q_], imp(rng(v), idof(v.fg(q_)) == v.ecsid()), v.fg(q_))
        def c2b(ex, st0, k):
            v = Vw(ex.store); x = v.fi(q_)
            return FA([q_], imp(rng(v), lor(low24(v.gen('write', x)) == M24 - 1, low24(v.fg(q_)) == low24(v.gen('write', x)) + 1)), v.fg(q_))
        def c3(ex, st0, k):
            v = Vw(ex.store)
            return FA([p_, q_], imp(land(p_ >= v.fb(), p_ < q_, q_ < v.fe()), v.fi(p_) < v.fi(q_)), z3.MultiPattern(v.fi(p_), v.fi(q_)))
        return [('free list: bounds', c1), ('free list: entries', c2), ('free list: instance', c2a), ('free list: generation', c2b), ('free list: order', c3)]
    def copy_cands(s, c):
        def c1(ex, st0, k):
            v = Vw(ex.store); x = v.Li('read', c, p_)
            return FA([p_], imp(land(p_ >= 0, p_ < k), v.val('write', c, x) == v.val('read', c, x)), x)
        def c1b(ex, st0, k):
            v = Vw(ex.store)
            return FA([i_], imp(land(i_ >= 0, i_ < k), v.val('write', c, i_) == v.val('read', c, i_)), v.val('write', c, i_))
        return [('copied so far: %s' % nm(c), c1), ('copied prefix: %s' % nm(c), c1b)]
    def queue_cands(s, k, hk):
        E = s.events(k)
        out = []
        wqf = lambda st: st['ecs'].f['eventLists'].f[k].f['writeQueue']
        H = lambda st: st[hk].t.f
        def others(ex, st0, kk):
            x = z3.Int('x'); wq = wqf(st0)
            fs = [z3.Select(a, x) == z3.Select(b, x) for (_, a), (_, b) in zip(leaves(ex.store[hk].t), leaves(st0[hk].t))]
            return FA([x], imp(x != wq, land(*fs)), *[z3.Select(a, x) for _, a in leaves(ex.store[hk].t)])
        out.append(('%s queues: only the pending queue grows' % EVK[k], others))
        if E:
            def size(ex, st0, kk):
                wq = wqf(st0)
                s.cnt_def(ex, k, kk)
                return land(sel2(H(ex.store)['e'], wq) == sel2(H(st0)['e'], wq) + s.cnt(k)(kk), sel2(H(ex.store)['b'], wq) == sel2(H(st0)['b'], wq), s.cnt(k)(kk) >= 0)
            def mono(ex, st0, kk):
                s.cnt_def(ex, k, kk)
                return FA([i_], imp(land(i_ >= 0, i_ < kk), land(s.cnt(k)(i_) >= 0, s.cnt(k)(i_) + s.nev(k, i_) <= s.cnt(k)(kk))), s.cnt(k)(i_))
            def content(ex, st0, kk):
                wq = wqf(st0)
                s.cnt_def(ex, k, kk)
                return FA([i_], imp(land(i_ >= 0, i_ < kk), s.event_at(ex.store, k, wq, sel2(H(st0)['e'], wq), i_)), s.cnt(k)(i_))
            out += [('%s events: count' % EVK[k], size), ('%s events: positions' % EVK[k], mono), ('%s events: content' % EVK[k], content)]
        # delivery loop
        def nobs(st): return st['ecs'].f['eventLists'].f[k].f['observers'].f
        pos = s.opos(k)
        def delivered(ex, st0, kk):
            wq = wqf(st0); ob = nobs(st0); o = sel2(ob['data'].t, p_)
            h0, h1 = H(st0), H(ex.store)
            ln = sel2(h0['e'], wq) - sel2(h0['b'], wq)
            return FA([p_], imp(land(p_ >= 0, p_ < kk), s.appended(h0, h1, o, wq)), o)
        def untouched(ex, st0, kk):
            x = z3.Int('x'); ob = nobs(st0)
            fs = [z3.Select(a, x) == z3.Select(b, x) for (_, a), (_, b) in zip(leaves(ex.store[hk].t), leaves(st0[hk].t))]
            return FA([x], imp(lnot(land(pos(x) >= 0, pos(x) < kk, sel2(ob['data'].t, pos(x)) == x)), land(*fs)), *[z3.Select(a, x) for _, a in leaves(ex.store[hk].t)])
        out += [('%s observers: delivered so far' % EVK[k], delivered), ('%s observers: others untouched' % EVK[k], untouched)]
        return out
    def opos(s, k): return z3.Function('opos_%d' % k, Int, Int)
    def appended(s, h0, h1, o, wq):
        """queue o of h1 is queue o of h0 followed by queue wq of h0"""
        ln = sel2(h0['e'], wq) - sel2(h0['b'], wq)
        e0 = sel2(h0['e'], o)
        fs = []
        for (_, a), (_, b) in zip(leaves(h0['data']), leaves(h1['data'])):
            fs.append(z3.ForAll([j_], imp(land(j_ >= sel2(h0['b'], o), j_ < e0), sel2(sel2(b, o), j_) == sel2(sel2(a, o), j_)), patterns=[sel2(sel2(b, o), j_)]))
            fs.append(z3.ForAll([j_], imp(land(j_ >= e0, j_ < e0 + ln), sel2(sel2(b, o), j_) == sel2(sel2(a, wq), j_ - e0 + sel2(h0['b'], wq))), patterns=[sel2(sel2(b, o), j_)]))
        return land(sel2(h1['b'], o) == sel2(h0['b'], o), sel2(h1['e'], o) == e0 + ln, *fs)
    # ------------------------------------------------------------ events of a commit
    def events(s, k): return k == 0 or k - 1 in ENTC
    def cnt(s, k): return z3.Function('cnt_%d' % k, Int, Int)
    def ev(s, k, i):
        """(removed, added) at slot i"""
        v = s.v0
        c = 'm' if k == 0 else k - 1
        inr = i < v.N('read')
        old = land(inr, v.has('read', c, i)); new = v.has('write', c, i)
        samegen = v.gen('write', i) == v.gen('read', i)
        return land(old, lnot(land(new, samegen))), land(new, lnot(land(old, samegen)))
    def nev(s, k, i):
        r, a = s.ev(k, i)
        return z3.If(r, I(1), I(0)) + z3.If(a, I(1), I(0))
    def cnt_def(s, ex, k, i):
        """instance of the definition of cnt at i"""
        c = s.cnt(k)
        ex.assume(c(I(0)) == 0)
        ex.assume(imp(i >= 0, c(i + 1) == c(i) + s.nev(k, i)))
    def event_at(s, st, k, wq, base, i):
        v = s.v0
        c = 'm' if k == 0 else k - 1
        d = st[s.hk[k]].t.f['data'].t.f
        r, a = s.ev(k, i)
        pr = base + s.cnt(k)(i)
        pa = pr + z3.If(r, I(1), I(0))
        at = lambda x, p: sel2(sel2(x, wq), p)
        def is_(p, ty, g, val):
            fs = [at(d['type'], p) == ty, at(d['entity'].f['index'], p) == i, at(d['entity'].f['generation'], p) == g]
            if k: fs.append(at(d['component'], p) == val)
            return land(*fs)
        return land(imp(r, is_(pr, 2, v.gen('read', i), v.val('read', c, i) if k else None)),
                    imp(a, is_(pa, 1, v.gen('write', i), v.val('write', c, i) if k else None)))

def mentions(x, out):
    """members named and functions called in a body, lambdas excepted"""
    if isinstance(x, list):
        for y in x: mentions(y, out)
    elif isinstance(x, dict):
        if x.get('k') == 'Mem': out.add(x['n'])
        if isinstance(x.get('f'), int): out.add(x['f'])
        for y in x.values(): mentions(y, out)
    return out
def assign_roles(ir):
    """The functions under a contract of their own in the commit path. If one of them no longer goes by its name, the
    function which does its work is looked for: called directly by the destructor, without parameters, and handling the
    same data. (A contract is checked against the body whatever its name; without one the body is verified in place.)"""
    if getattr(ir, 'roles_done', False): return
    ir.roles_done = True
    fs = [f for f in ir.funcs.values() if 'body' in f and not f['params'] and not f.get('ctor') and not f.get('dtor')]
    tx = [f for f in fs if (f.get('parent') or '').startswith('Tecs::Transaction<')]
    def comp(f): return len(f.get('targs') or []) == 1 and f['targs'][0].get('t') in COMPS
    for f in tx:
        if f['name'] == 'PreCommitAddRemoveMetadata' and not f.get('targs'): f['role'] = ('pre', 'm')
        if f['name'] == 'PreCommitAddRemove' and comp(f): f['role'] = ('pre', COMPS.index(f['targs'][0]['t']))
    ol = [f for f in fs if (f.get('parent') or '').startswith(ECS + '::ObserverList<')]
    for f in ol:
        if f['name'] in ('Commit', 'Init'): f['role'] = (f['name'].lower(),)
    def closure(f, seen):
        if f['id'] in seen: return set()
        seen.add(f['id']); out = set()
        for x in mentions(f['body'], set()):
            if isinstance(x, int):
                g = ir.funcs.get(str(x))
                if g and 'body' in g and (g.get('parent') or '') == f.get('parent'): out |= closure(g, seen)
            else: out.add(x)
        return out
    for d in [f for f in ir.funcs.values() if f.get('dtor') and 'body' in f and (f.get('parent') or '').startswith('Tecs::Transaction<')]:
        mine = [f for f in tx if f['parent'] == d['parent']]
        direct = {x for x in mentions(d['body'], set()) if isinstance(x, int)}
        for l in [x for x in direct if (ir.funcs.get(str(x), {}).get('parent') or '').startswith('lambda')]: direct |= {x for x in mentions(ir.funcs[str(l)].get('body'), set()) if isinstance(x, int)}
        cand = [f for f in mine if f['id'] in direct and 'role' not in f]
        if not any(f.get('role') == ('pre', 'm') for f in mine):
            c = [f for f in cand if not f.get('targs') and {'freeEntities', 'writeValidEntities', 'writeQueue'} <= closure(f, set())]
            if len(c) == 1: c[0]['role'] = ('pre', 'm')
        for i, t in enumerate(COMPS):
            if any(f.get('role') == ('pre', i) for f in mine): continue
            c = [f for f in cand if comp(f) and f['targs'][0]['t'] == t and 'writeQueue' in closure(f, set()) and 'freeEntities' not in closure(f, set())]
            if len(c) == 1: c[0]['role'] = ('pre', i)
    for par in {f['parent'] for f in ol}:
        mine = [f for f in ol if f['parent'] == par]
        if not any(f.get('role') == ('commit',) for f in mine):
            c = [f for f in mine if 'role' not in f and {'observers', 'writeQueue'} <= closure(f, set())]
            if len(c) == 1: c[0]['role'] = ('commit',)
        if not any(f.get('role') == ('init',) for f in mine):
            c = [f for f in mine if 'role' not in f and 'writeQueue' in closure(f, set()) and 'observers' not in closure(f, set())]
            if len(c) == 1: c[0]['role'] = ('init',)
def helper_kind(f):
    par = f.get('parent') or ''
    role = f.get('role')
    if role is None: return None
    if role[0] == 'pre': return role
    if par.startswith(ECS + '::ObserverList<'):
        kind = role[0]
        ev = par[len(ECS + '::ObserverList<'):-1]
        if ev == 'Tecs::EntityEvent': return (kind, 0)
        for i, c in enumerate(COMPS):
            if ev == 'Tecs::ComponentEvent<%s>' % c: return (kind, 1 + i)
    return None
def getpath(v, path):
    for p in path: v = v.t if p == '*' else v.f[p]
    return v
def setpath(v, path, x):
    if not path: return x
    if path[0] == '*': return Lift(setpath(v.t, path[1:], x))
    return v.set(path[0], setpath(v.f[path[0]], path[1:], x))
def refresh(ex, a, root, path):
    n = z3.Const(ex.name('c:%s.%s' % (root, '.'.join(map(str, path)))), a.sort())
    if z3.is_int(a):
        r = (0, BIG) if path[-1] in ('size', 'b', 'e') else ex.interval_of(a)
        ex.ranges[n.decl().name()] = r; ex.assume(land(n >= r[0], n <= r[1]))
    elif z3.is_array(a):
        r = ex.root_range(a)
        if r: ex.ranges[n.decl().name()] = r
    return n
def helper_frame(w, hk):
    kind, c = hk
    if kind == 'init': return [('ecs', ('eventLists', c, 'writeQueue')), ('live', ('*',))] + [(w.hk[c], ('*', x)) for x in ('b', 'e', 'data')]
    if kind == 'commit': return [(w.hk[c], ('*', x)) for x in ('b', 'e', 'data')]
    k = 0 if c == 'm' else 1 + c
    out = [(w.hk[k], ('*', x)) for x in ('e', 'data')]
    base = ('metadata',) if c == 'm' else ('indexes', c)
    if c not in GLBS: out += [('ecs', base + ('writeValidEntities', 'size')), ('ecs', base + ('writeValidEntities', 'data')), ('ecs', base + ('validEntityIndexes', 'data'))]
    if c == 'm': out += [('ecs', ('freeEntities', x)) for x in ('b', 'e', 'data')]
    return out
def helper_pre(w, ex, v, hk):
    kind, c = hk
    out = []
    if kind == 'pre':
        n, nr = v.N('write'), v.N('read')
        out.append(('entity counts', ('C14',), land(nr >= 0, nr <= n, n <= NMAX)))
        if c not in GLBS: out.append(('list positions', ('C14',), v.Vn(c) == n))
        if c in ENTC: out.append(('storage sizes', ('C14',), land(v.csize('write', c) == n, v.csize('read', c) == nr)))
        if c in GLBS: out.append(('global storage', ('C14', 'C17'), land(imp(v.g('write', c), v.gsize('write', c) >= 1), imp(v.g('read', c), v.gsize('read', c) >= 1))))
        k = 0 if c == 'm' else 1 + c
    else: k = c
    if kind == 'init': return [x for x in q_events(ex, v, w.hk) if x[0].startswith(EVK[k] + ' ')]
    wq = v.e['eventLists'].f[k].f['writeQueue']
    h = heap(v.store, k).f
    out.append(('pending queue', ('C15',), land(wq != 0, sel2(v.store['live'].t, wq), sel2(h['b'], wq) <= sel2(h['e'], wq))))
    if kind == 'commit':
        out += [x for x in obs_inv(ex, v) if x[0].startswith(EVK[k] + ' observers')]
    return out
def G_event(w, st, o, base, c):
    """the event (if any) of the global component stands at position base of queue o"""
    v = w.v0
    rem, add_ = land(v.g('read', c), lnot(v.g('write', c))), land(v.g('write', c), lnot(v.g('read', c)))
    d = st[w.hk[1 + c]].t.f['data'].t.f
    at = lambda y: sel2(sel2(y, o), base)
    nul = land(at(d['entity'].f['index']) == 0, at(d['entity'].f['generation']) == 0)
    return land(imp(rem, land(at(d['type']) == 2, nul, at(d['component']) == v.gval('read', c))), imp(add_, land(at(d['type']) == 1, nul, at(d['component']) == v.gval('write', c))))
def G_count(v, c): return z3.If(v.g('read', c) != v.g('write', c), I(1), I(0))
def helper_post(w, ex, st0, hk):
    kind, c = hk
    v1 = Vw(ex.store)
    n = Vw(st0).N('write')
    out = []
    if kind == 'pre':
        k = 0 if c == 'm' else 1 + c
        cands = []
        if c not in GLBS: cands += [(x, ('C13', 'C02')) for x in w.list_cands(c)]
        if c == 'm': cands += [(x, ('C09', 'C10')) for x in w.free_cands()]
        if c not in GLBS: cands += [(x, ('C15',)) for x in w.queue_cands(k, w.hk[k])[:4]]
        for (tag, fn), props in cands: out.append((tag, props, fn(ex, st0, n)))
        if c in GLBS:
            wq = st0['ecs'].f['eventLists'].f[k].f['writeQueue']
            h0, h1 = st0[w.hk[k]].t.f, ex.store[w.hk[k]].t.f
            x = z3.Int('x')
            e0 = sel2(h0['e'], wq)
            out.append(('global queues: only the pending queue grows', ('C15', 'C16'), FA([x], imp(x != wq, land(*[z3.Select(a, x) == z3.Select(b, x) for (_, a), (_, b) in zip(leaves(SV(h1)), leaves(SV(h0)))])), *[z3.Select(a, x) for _, a in leaves(SV(h1))])))
            out.append(('global events: count', ('C15', 'C17'), land(sel2(h1['e'], wq) == e0 + G_count(w.v0, c), sel2(h1['b'], wq) == sel2(h0['b'], wq))))
            out.append(('global events: content', ('C15', 'C17'), G_event(w, ex.store, wq, e0, c)))
    elif kind == 'init':
        h0, h1 = st0[w.hk[c]].t.f, ex.store[w.hk[c]].t.f
        wq0, wq1 = st0['ecs'].f['eventLists'].f[c].f['writeQueue'], v1.e['eventLists'].f[c].f['writeQueue']
        l0, l1 = (lambda x: sel2(st0['live'].t, x)), (lambda x: sel2(v1.store['live'].t, x))
        x = z3.Int('x')
        out.append(('%s: the pending queue exists and is empty' % EVK[c], ('C15',), land(wq1 != 0, l1(wq1), sel2(h1['b'], wq1) == sel2(h1['e'], wq1))))
        out.append(('%s: the pending queue is the old one or a new one' % EVK[c], ('C15', 'C16'), land(imp(wq0 != 0, wq1 == wq0), imp(wq0 == 0, lnot(l0(wq1))))))
        out.append(('%s: no other queue appears or goes away' % EVK[c], ('C15', 'C16'), FA([x], l1(x) == lor(l0(x), x == wq1), l1(x), l0(x))))
        out.append(('%s: existing queues are untouched' % EVK[c], ('C15', 'C16'), FA([x], imp(l0(x), land(*[z3.Select(a, x) == z3.Select(b, x) for (_, a), (_, b) in zip(leaves(SV(h1)), leaves(SV(h0)))])), *[z3.Select(a, x) for _, a in leaves(SV(h1))])))
    else:
        k = c
        h0, h1 = st0[w.hk[k]].t.f, ex.store[w.hk[k]].t.f
        ol = st0['ecs'].f['eventLists'].f[k].f
        ob, wq = ol['observers'].f, ol['writeQueue']
        o = sel2(ob['data'].t, p_)
        x = z3.Int('x'); pos = w.opos(k)
        out.append(('%s: every observer receives the pending events' % EVK[k], ('C15', 'C16'), FA([p_], imp(land(p_ >= 0, p_ < ob['size']), w.appended(h0, h1, o, wq)), o)))
        out.append(('%s: other queues are untouched' % EVK[k], ('C15', 'C16'), FA([x], imp(land(x != wq, lnot(land(pos(x) >= 0, pos(x) < ob['size'], sel2(ob['data'].t, pos(x)) == x))),
                    land(*[z3.Select(a, x) == z3.Select(b, x) for (_, a), (_, b) in zip(leaves(SV(h1)), leaves(SV(h0)))])), *[z3.Select(a, x) for _, a in leaves(SV(h1))])))
        out.append(('%s: pending events are delivered once' % EVK[k], ('C15',), sel2(h1['b'], wq) == sel2(h1['e'], wq)))
    return out
def name_positions(ex, w, v, ks=FLAGS):
    for k in ks:
        ob = v.e['eventLists'].f[k].f['observers'].f
        # names the position of a queue in the observer list (the entries are distinct)
        ex.assume(FA([p_], imp(land(p_ >= 0, p_ < ob['size']), w.opos(k)(sel2(ob['data'].t, p_)) == p_), sel2(ob['data'].t, p_)))
def helper_unit(ir, f, hk):
    T = Perm(['Tecs::AddRemove'])
    def run(ex):
        w = base_state(ir, ex, T); w.phase = 'start' if hk[0] == 'init' else 'end'; w.verifying = f['id']
        st = ex.store
        st['base'] = ex.fresh_val(ir.shape(BASE), 'base').set('instance', LV('ecs'))
        kind, c = hk
        t = C if kind == 'commit' else W
        st['ghost:tok'] = SV({x: I(t if x == 'm' or x == c and kind == 'pre' else NONE) for x in IDX})
        v = Vw(dict(st)); w.v0 = v
        for _, _, fm in helper_pre(w, ex, v, hk): ex.assume(fm)
        if kind == 'commit': name_positions(ex, w, v, [c])
        if ex.solver.check() == z3.unsat: raise Unsup('vacuous precondition')
        st0 = dict(ex.store)
        this = LV('base') if kind == 'pre' else LV('ecs', ('eventLists', c))
        try: ex.call(f['id'], this, [])
        except ThrowEx: ex.oblige('does not throw', FALSE, ('C02', 'C15')); return
        for tag, props, fm in helper_post(w, ex, st0, hk): ex.oblige(tag, fm, props)
        # frame: nothing outside the declared frame changes
        cur = dict(ex.store)
        for root, path in helper_frame(w, hk):
            cur[root] = setpath(cur[root], path, getpath(st0[root], path))
        for root in st0:
            if root.startswith('ghost:rpos'): continue
            for e in eq_tree(st0[root], cur[root]): ex.oblige('nothing else changes (%s)' % root, e, ('C02', 'C11', 'C15'))
    return run

class TxnHooks(OpHooks): pass

def quiescent(ex, v, ev=True):
    """the state between transactions: both sides agree, nothing is pending (flags read as false)"""
    w = Vw(dict(v.store)); w.store['base'] = SV({'writeAccessedFlags': SV({i: FALSE for i in FLAGS})})
    cl = read_inv(v) + write_inv(v) + flags_inv(w)
    for k in FLAGS:
        ol = v.e['eventLists'].f[k].f
        wq = ol['writeQueue']
    return cl
def q_events(ex, v, hk):
    """observer state between transactions: the pending queue may not exist yet"""
    out = []
    for tag, props, f in obs_inv(ex, v):
        if 'pending event queue exists' in tag:
            continue
        out.append((tag, props, f))
    for k in FLAGS:
        wq = v.e['eventLists'].f[k].f['writeQueue']
        h = heap(v.store, k)
        out.append(('%s pending queue is unset or empty' % EVK[k], ('C15',), lor(wq == 0, land(sel2(v.store['live'].t, wq), sel2(h.f['b'], wq) == sel2(h.f['e'], wq)))))
    return out

def base_state(ir, ex, T, cls=TxnWorld):
    w = cls(ir, T)
    ex.hooks.w = w
    st = ex.store
    st['ecs'] = ex.fresh_val(ir.shape(ECS), 'ecs')
    for k, hk in w.hk.items(): st[hk] = Lift(ex.fresh_val(ir.shape(hk[5:]), 'q%d' % k, 1))
    st['live'] = Lift(z3.Const('live!init', z3.ArraySort(Int, Bool)))
    st['ghost:rpos'] = SV({c: Lift(z3.Const('rpos_%s' % c, z3.ArraySort(Int, Int))) for c in ('m',) + ENTC})
    st['ghost:tok'] = SV({c: I(NONE) for c in IDX})
    st['ghost:rel'] = SV({'v': I(0)})
    return w

def txn_key(f): return f['parent']
def start_unit(ir, f, T, tracing=False):
    def run(ex):
        w = base_state(ir, ex, T)
        v = Vw(dict(ex.store)); w.v0 = v
        for _, _, fm in quiescent(ex, v) + q_events(ex, v, w.hk): ex.assume(fm)
        ex.store['base'] = ex.fresh_val(ir.shape(BASE), 'base')
        thrown = False
        try: ex.call(f['id'], LV('base'), [LV('ecs')])
        except ThrowEx: thrown = True
        v1 = Vw(dict(ex.store))
        if tracing: ex.oblige('a start is recorded once if it succeeds', TRUE if w.traced(ex) == (0 if thrown else 1) else FALSE, ('C23',))
        if 'ghost:refused' in ex.store:
            ex.oblige('a refused transaction is not started', TRUE if thrown else FALSE, ('C19',))
            for c in IDX: ex.oblige('a refused start holds no lock (%s)' % nm(c), TRUE if w.tok(ex, c) == NONE else FALSE, ('C19', 'C06', 'C07'))
            for root in v.store:
                if root.startswith('ghost:') or root == 'base': continue
                for e in eq_tree(v.store[root], ex.store[root]): ex.oblige('a refused start changes nothing', e, ('C19',))
            return
        ex.oblige('starting a transaction does not throw once it is not nested', FALSE if thrown else TRUE, ('C06', 'C19'))
        want = T.tokens()
        for c in IDX: ex.oblige('the transaction holds exactly the locks of its permissions (%s)' % nm(c), TRUE if w.tok(ex, c) == want[c] else FALSE, ('C06', 'C04'))
        for b in FLAGS: ex.oblige('nothing is marked as modified at the start', lnot(v1.flag(b)), ('C02', 'C07'))
        inst = ex.store['base'].f['instance']
        ex.oblige('the transaction refers to its instance', TRUE if isinstance(inst, LV) and inst.root == 'ecs' and not inst.path else FALSE, ('C02',))
        # nothing but the (empty) pending queues is touched
        for c in IDX:
            for n in ('readComponents', 'writeComponents', 'readValidEntities', 'writeValidEntities', 'validEntityIndexes', 'readers', 'writer'):
                for e in eq_tree(v.st(c)[n], v1.st(c)[n]): ex.oblige('starting a transaction changes nothing (%s.%s)' % (nm(c), n), e, ('C01', 'C02', 'C08'))
        for n in ('globalReadMetadata', 'globalWriteMetadata', 'freeEntities', 'ecsId'):
            for e in eq_tree(v.e[n], v1.e[n]): ex.oblige('starting a transaction changes nothing (%s)' % n, e, ('C01', 'C02', 'C09'))
        for k, h in w.hk.items():
            for e in eq_tree(v.e['eventLists'].f[k].f['observers'], v1.e['eventLists'].f[k].f['observers']): ex.oblige('observer lists are untouched by a start', e, ('C15', 'C16'))
            x = z3.Int('x')
            for (_, a), (_, b) in zip(leaves(v.store[h].t), leaves(v1.store[h].t)):
                ex.oblige('queues are untouched by a start', FA([x], imp(sel2(v.store['live'].t, x), sel2(a, x) == sel2(b, x))), ('C15', 'C16'))
        if T.ar:
            for tag, props, fm in write_inv(v1) + flags_inv(v1) + obs_inv(ex, v1) + pending_empty(ex, v1): ex.oblige('start: ' + tag, fm, props)
        else:
            for tag, props, fm in part_inv(v1, T.w): ex.oblige('start: ' + tag, fm, props)
    return run

def end_unit(ir, f, T, flags, tracing=False):
    """destructor from every in-transaction state; `flags`: the modification marks (case split)"""
    def run(ex):
        w = TxnWorld(ir, T); w.phase = 'end'
        ex.hooks.w = w
        v = w.build(ex)
        ex.store['ghost:rel'] = SV({'v': I(0)})
        fl = ex.store['base'].f['writeAccessedFlags']
        # the case split is complete: one unit per combination of marks
        for b in FLAGS: ex.assume(fl.f[b] if b in flags else lnot(fl.f[b]))
        ex.put(LV('base', ('writeAccessedFlags',)), SV({b: TRUE if b in flags else FALSE for b in FLAGS}))
        v = Vw(dict(ex.store)); w.v0 = v
        if T.ar: name_positions(ex, w, v)
        if ex.solver.check() == z3.unsat: raise PathEnd()
        ex.covered = True
        try: ex.call(f['id'], LV('base'), [])
        except ThrowEx:
            ex.oblige('ending a transaction does not throw', FALSE, ('C07', 'C02')); return
        if tracing: ex.oblige('an end is recorded once', TRUE if w.traced(ex) == 2 else FALSE, ('C23',))
        end_post(ex, w, v, T, flags)
    return run

def end_post(ex, w, v, T, flags):
    m = T.ar and 0 in flags
    for c in IDX: ex.oblige('every lock is released (%s)' % nm(c), TRUE if w.tok(ex, c) == NONE else FALSE, ('C07',))
    # ghost: positions of the entries of the committed lists
    rp = ex.store['ghost:rpos']
    for c in ('m',) + ENTC:
        if m and (c == 'm' or 1 + c in flags): rp = rp.set(c, Vw(ex.store).st(c)['validEntityIndexes'].f['data'])
    ex.store['ghost:rpos'] = rp
    v1 = Vw(dict(ex.store))
    n = v.N('write' if m else 'read')
    src = 'write' if m else 'read'
    ex.oblige('the committed entity count is the one of the transaction', v1.N('read') == n, ('C02',))
    ex.oblige('exactly the entities of the transaction become committed', FA([i_], imp(land(i_ >= 0, i_ < n), land(v1.alive('read', i_) == v.alive(src, i_), v1.gen('read', i_) == v.gen(src, i_)))), ('C02', 'C10', 'C09', 'C03'))
    for c in ENTC:
        ex.oblige('exactly the presence of %s of the transaction becomes committed' % CNAME[c], FA([i_], imp(land(i_ >= 0, i_ < n), v1.has('read', c, i_) == v.has(src, c, i_))), ('C02', 'C11', 'C03'))
        if 1 + c in flags: ex.oblige('written values of %s become committed' % CNAME[c], FA([i_], imp(land(i_ >= 0, i_ < n, v.has(src, c, i_)), v1.val('read', c, i_) == v.val('write', c, i_))), ('C02', 'C12', 'C03'))
        else: ex.oblige('values of %s that were not written stay committed' % CNAME[c], FA([i_], imp(land(i_ >= 0, i_ < v.N('read'), v.has('read', c, i_)), v1.val('read', c, i_) == v.val('read', c, i_))), ('C02', 'C12'))
    for c in GLBS:
        ex.oblige('exactly the presence of global %s of the transaction becomes committed' % CNAME[c], v1.g('read', c) == v.g(src, c), ('C02', 'C17'))
        if 1 + c in flags: ex.oblige('the written value of global %s becomes committed' % CNAME[c], imp(v.g(src, c), v1.gval('read', c) == v.gval('write', c)), ('C02', 'C17'))
        else: ex.oblige('a value of global %s that was not written stays committed' % CNAME[c], imp(v.g('read', c), land(v1.gval('read', c) == v.gval('read', c))), ('C02', 'C17'))
    for e in eq_tree(v.e['ecsId'], v1.e['ecsId']): ex.oblige('instance identifier is untouched', e, ('C20',))
    # the next transaction starts from a consistent, fully restored state
    fv = Vw(dict(v1.store)); fv.store['base'] = fv.store['base'].set('writeAccessedFlags', SV({i: FALSE for i in FLAGS}))
    for tag, props, fm in read_inv(v1): ex.oblige('after commit: ' + tag, fm, props + ('C02',))
    if T.ar:
        for tag, props, fm in write_inv(v1) + flags_inv(fv) + obs_inv(ex, v1): ex.oblige('next transaction: ' + tag, fm, props + ('C02',))
    else:
        for tag, props, fm in part_inv(fv, T.w): ex.oblige('next transaction: ' + tag, fm, props + ('C02',))
        for c in IDX:
            names = ['readValidEntities', 'writeValidEntities', 'validEntityIndexes']
            if c == 'm' or c not in T.w: names += ['readComponents', 'writeComponents']
            for x in names:
                for e in eq_tree(v.st(c)[x], v1.st(c)[x]): ex.oblige('data that is not writable is untouched (%s.%s)' % (nm(c), x), e, ('C02', 'C11', 'C08'))
        for x in ('globalReadMetadata', 'globalWriteMetadata', 'freeEntities'):
            for e in eq_tree(v.e[x], v1.e[x]): ex.oblige('data that is not writable is untouched (%s)' % x, e, ('C02', 'C11', 'C09'))
    # events
    for k, h in w.hk.items():
        for e in eq_tree(v.e['eventLists'].f[k], v1.e['eventLists'].f[k]): ex.oblige('observer lists are untouched', e, ('C15', 'C16'))
        if not m:
            for e in eq_tree(v.store[h], v1.store[h]): ex.oblige('no events without entity or component changes', e, ('C15', 'C16'))
            continue
        wq = w.wq(ex, k)
        # facts about the queues of other event types do not matter here
        far = [x for j, hj in w.hk.items() if j != k for x in ('q%d!' % j, 'q%d.' % j, hj, 'opos_%d' % j, 'cnt_%d' % j)]
        h0, h1 = v.store[h].t.f, v1.store[h].t.f
        ob = v.e['eventLists'].f[k].f['observers'].f
        ex.oblige('%s pending events are all delivered' % EVK[k], sel2(h1['b'], wq) == sel2(h1['e'], wq), ('C15',), avoid=far)
        x = z3.Int('x')
        for (_, a), (_, b) in zip(leaves(v.store[h].t), leaves(v1.store[h].t)):
            ex.oblige('queues that are not observed are untouched', FA([x], imp(land(x != wq, lnot(land(w.opos(k)(x) >= 0, w.opos(k)(x) < ob['size'], sel2(ob['data'].t, w.opos(k)(x)) == x))), sel2(a, x) == sel2(b, x))), ('C15', 'C16'), avoid=far)
        p = ex.fresh(Int, 'observer'); ex.assume(land(p >= 0, p < ob['size']))
        o = sel2(ob['data'].t, p)
        e0 = sel2(h0['e'], o)
        ex.oblige('undelivered events of %s observers stay first in line' % EVK[k], land(sel2(h1['b'], o) == sel2(h0['b'], o),
                  *[FA([j_], imp(land(j_ >= sel2(h0['b'], o), j_ < e0), sel2(sel2(b, o), j_) == sel2(sel2(a, o), j_))) for (_, a), (_, b) in zip(leaves(h0['data']), leaves(h1['data']))]), ('C15', 'C16'), avoid=far)
        if w.events(k):
            w.cnt_def(ex, k, n)
            ex.oblige('every %s observer receives one event per change, no more' % EVK[k], sel2(h1['e'], o) == e0 + w.cnt(k)(n), ('C15',), avoid=far)
            i = ex.fresh(Int, 'slot'); ex.assume(land(i >= 0, i < n))
            ex.assume(w.cnt(k)(i) == w.cnt(k)(i))
            st = ex.store
            ex.oblige('every %s change is reported once, with handle and value' % EVK[k], w.event_at(ex.store, k, o, e0, i), ('C15',), avoid=far)
            # events of slot i precede those of every later slot
        else:
            ex.oblige('every global observer receives one event per change, no more', sel2(h1['e'], o) == e0 + G_count(v, k - 1), ('C15', 'C17'), avoid=far)
            ex.oblige('global changes are reported with the right value', G_event(w, ex.store, o, e0, k - 1), ('C15', 'C17'), avoid=far)

def txn_perm(key): return Perm(split_args(key)[1:])
def short(key): return ', '.join(split_args(key)[1:]).replace('Tecs::', '').replace('v::', '') or 'no permissions'
def units(ir, cfg):
    us = []
    assign_roles(ir)
    for f in ir.funcs.values():
        par = f.get('parent') or ''
        if helper_kind(f) and 'body' in f:
            us.append(Unit('%s [%s]' % (f['name'], EVK[helper_kind(f)[1]] if helper_kind(f)[0] != 'pre' else nm(helper_kind(f)[1])), cfg, (), helper_unit(ir, f, helper_kind(f)), f))
        if not par.startswith('Tecs::Transaction<' + ECS) or 'body' not in f: continue
        T = txn_perm(par)
        if f.get('ctor') == 'other': us.append(Unit('start of transaction <%s>' % short(par), cfg, (), start_unit(ir, f, T, 'TRACING' in cfg), f))
        if f.get('dtor'):
            can = [b for b in FLAGS if (b == 0 and T.ar) or (b > 0 and b - 1 in T.w)]
            for bits in range(1 << len(can)):
                fl = {b for i, b in enumerate(can) if bits >> i & 1}
                us.append(Unit('end of transaction <%s> having modified {%s}' % (short(par), ', '.join('entities' if b == 0 else CNAME[b - 1] for b in sorted(fl))), cfg, (), end_unit(ir, f, T, fl, 'TRACING' in cfg), f))
    return us
