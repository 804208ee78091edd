"""Units for handles (C21), views (C22), identifiers (C20), nesting bookkeeping (C19), lock conversion (C18),
traces (C23) and the initial state of an instance."""
import z3
from .core import *
from .spec import *
from .world import *
from .ops import Unit
from . import txn as _txn

ACT, CNT, NTXN, NECS = 'g:Tecs::activeTransactions', 'g:Tecs::activeTransactionsCount', 'g:Tecs::nextTransactionId', 'g:Tecs::nextEcsId'
MAXTXN = 64
HALF = 1 << 63

class MiscHooks(Hooks):
    def __init__(s, _=None): s.counter = None; s.span = None
    def contract(s, ex, f, this, args, loc):
        if f['q'] == 'std::make_shared' and 'Transaction<' in str(f['ret']):
            lv = ex.rd(args[0]) if isinstance(args[0], LV) and isinstance(ex.store.get(args[0].root), LV) else args[0]
            ex.store['base'] = SV({'instance': lv}); ex.store['ghost:ttype'] = f['ret']
            return (LV('base'),)
        if f['q'].startswith('Tecs::Transaction<') : return None
        return None
    def candidates(s, ex, st0, W_, affine):
        out = []
        if (ACT, ()) in W_ or any(r == ACT for r, p in W_): pass
        return out
    def atomic(s, ex, lv, op, args, loc):
        if lv is not None and lv.root in (NTXN, NECS) and not lv.path: return (s.ident(ex, lv, op, args, loc),)
        return None
    # identifier counters: other threads may advance them between any two operations, never move them back
    def ident(s, ex, lv, op, args, loc):
        V = lambda a: ex.rd(a) if isinstance(a, LV) else a
        seen = ex.store['ghost:id'] if 'ghost:id' in ex.store else None
        last = ex.store[lv.root].f['v']
        now = ex.fresh(Int, 'counter'); ex.ranges[now.decl().name()] = (0, 1 << 63)
        ex.assume(land(now >= last, now < (1 << 63)))        # fewer than 2^63 identifiers
        def put(v):
            ex.oblige('the identifier counter only moves forward', v > now, ('C20',), loc)
            ex.store[lv.root] = SV({'v': v})
            ex.store['ghost:own'] = SV({'lo': now, 'hi': v})     # identifiers nobody else gets
        if op in ('load', 'conv'): ex.store[lv.root] = SV({'v': now}); return now
        if op in ('fetch_add', 'operator+=', 'operator++'):
            d = V(args[0]) if op in ('fetch_add', 'operator+=') else I(1)
            new = ex.wrap(add(now, d), 64, False)
            put(new)
            if op == 'fetch_add': return now
            if op == 'operator++' and args: return now
            return new
        if op in ('compare_exchange_weak', 'compare_exchange_strong'):
            exp = args[0]
            if ex.fork(now == ex.rd(exp)):
                if op.endswith('weak') and ex.choose(2) == 1: return FALSE
                put(V(args[1])); return TRUE
            ex.wr(exp, now); ex.store[lv.root] = SV({'v': now}); return FALSE
        if op in ('store', 'operator=', 'exchange'):
            ex.oblige('the identifier counter is advanced atomically', FALSE, ('C20',), loc); raise PathEnd()
        raise Unsup('atomic ' + op)

def fns(ir, name): return [f for f in ir.funcs.values() if f['q'] == 'u::' + name and 'body' in f]
def fn(ir, name):
    l = fns(ir, name)
    if len(l) != 1: raise Unsup('wrapper ' + name)
    return l[0]
def call(ex, name, *args):
    f = fn(ex.ir, name)
    r = ex.call(f['id'], None, list(args))
    return r
def mk_unit(us, name, cfg, props, run):
    u = Unit(name, cfg, props, run); u.hooks = MiscHooks; us.append(u)

# ------------------------------------------------------------------ handles
def handle(ex, n):
    ex.store['h:' + n] = ex.fresh_val(ex.ir.shape('Tecs::Entity'), n)
    return LV('h:' + n)
def heq(a, b): return land(a.f['index'] == b.f['index'], a.f['generation'] == b.f['generation'])
def asb(v): return v if z3.is_bool(v) else v != 0
def handle_units(ir, cfg, us):
    P = ('C21',)
    gb = 24
    def conv(ex):
        a = handle(ex, 'a'); b = handle(ex, 'b')
        x = call(ex, 'HTo', a); y = call(ex, 'HTo', b)
        back = call(ex, 'HFrom', x)
        ex.oblige('converting to an integer and back gives the same handle', heq(back, ex.get(a)), P)
        ex.oblige('distinct handles convert to distinct integers', imp(x == y, heq(ex.get(a), ex.get(b))), P)
    mk_unit(us, 'handle: integer conversion', cfg, P, conv)
    def back(ex):
        u = ex.fresh(Int, 'u'); ex.ranges[u.decl().name()] = (0, (1 << 64) - 1); ex.assume(land(u >= 0, u < (1 << 64)))
        ex.store['h:x'] = call(ex, 'HFrom', u)
        ex.oblige('an integer converts to a handle and back', call(ex, 'HTo', LV('h:x')) == u, P)
    mk_unit(us, 'handle: from integer', cfg, P, back)
    def eqne(ex):
        a = handle(ex, 'a'); b = handle(ex, 'b')
        A, B = ex.get(a), ex.get(b)
        e, n = asb(call(ex, 'HEq', a, b)), asb(call(ex, 'HNe', a, b))
        ex.oblige('equality compares generation and index', e == heq(A, B), P)
        ex.oblige('inequality is the negation of equality', n == lnot(heq(A, B)), P)
    mk_unit(us, 'handle: equality', cfg, P, eqne)
    def hsh(ex):
        a = handle(ex, 'a'); b = handle(ex, 'b')
        A, B = ex.get(a), ex.get(b)
        x, y = call(ex, 'HHash', a), call(ex, 'HHash', b)
        ex.oblige('equal handles have equal hashes', imp(heq(A, B), x == y), P)
    mk_unit(us, 'handle: hash', cfg, P, hsh)
    def order(ex):
        a, b, c = handle(ex, 'a'), handle(ex, 'b'), handle(ex, 'c')
        A, B, C_ = ex.get(a), ex.get(b), ex.get(c)
        ab, ba, bc, ac, aa = (asb(call(ex, 'HLt', x, y)) for x, y in ((a, b), (b, a), (b, c), (a, c), (a, a)))
        ex.oblige('ordering is irreflexive', lnot(aa), P)
        ex.oblige('ordering is asymmetric', lnot(land(ab, ba)), P)
        ex.oblige('ordering is transitive', imp(land(ab, bc), ac), P)
        ex.oblige('ordering is total and agrees with equality', lor(ab, ba) == lnot(heq(A, B)), P)
    mk_unit(us, 'handle: ordering', cfg, P, order)
    def truth(ex):
        a = handle(ex, 'a'); g = ex.get(a).f['generation']
        ex.oblige('operator! is true exactly for generation zero', asb(call(ex, 'HNot', a)) == (g == 0), P)
        ex.oblige('operator bool is true exactly for nonzero generations', asb(call(ex, 'HBool', a)) == (g != 0), P)
    mk_unit(us, 'handle: truth value', cfg, P, truth)
    def makes(ex):
        i, g = ex.fresh_val(('int', 32, False), 'i'), ex.fresh_val(('int', 32, False), 'g')
        d = ex.fresh_val(('int', 8, False), 'id')
        n = call(ex, 'HNull')
        ex.oblige('a default handle has generation zero', land(n.f['generation'] == 0, n.f['index'] == 0), P)
        m = call(ex, 'HMake2', i, g)
        ex.oblige('a handle made from index and generation has them', land(m.f['index'] == i, m.f['generation'] == g), P)
        m = call(ex, 'HMake3', i, g, d)
        ex.oblige('a handle carries index, generation and identifier', land(m.f['index'] == i, imp(g < (1 << gb), m.f['generation'] == g + d * (1 << gb))), P + ('C20',))
    mk_unit(us, 'handle: construction', cfg, P + ('C20',), makes)
    def gen(ex):
        g = ex.fresh_val(('int', 32, False), 'g'); d = ex.fresh_val(('int', 8, False), 'id')
        x = call(ex, 'GWith', g, d)
        ex.oblige('the packed identifier can be extracted', call(ex, 'GId', x) == d, P + ('C20',))
        ex.oblige('the packed generation can be extracted', call(ex, 'GWithout', x) == g % (1 << gb), P)
        ex.oblige('the generation without identifier drops nothing else', call(ex, 'GWithout', g) == g % (1 << gb), P)
        ex.oblige('packing both parts of a generation gives it back', call(ex, 'GWith', call(ex, 'GWithout', g), call(ex, 'GId', g)) == g, P)
    mk_unit(us, 'handle: generation and identifier', cfg, P + ('C20',), gen)

# ------------------------------------------------------------------ views
def view_units(ir, cfg, us):
    P = ('C22',)
    chk = 'UNCHECKED' not in cfg
    vkey = ir.strip(fn(ir, 'ViewAll')['params'][0]['t'])
    def setup(ex, null=False):
        s = ex.store['s'] = ex.fresh_val(ir.shape(vkey), 's')
        if null: ex.store['v'] = SV({'storage': NULL, 'start_index': I(0), 'end_index': I(0)}); return s, I(0), I(0)
        a, b = (ex.fresh_val(('int', 64, False), n) for n in ('start', 'end'))
        ex.assume(land(a <= b, b <= s.f['size']))
        ex.store['v'] = SV({'storage': LV('s'), 'start_index': a, 'end_index': b})
        return s, a, b
    def run(ex, name, *args):
        try: return call(ex, name, *args), False
        except ThrowEx: return None, True
    def at(r, pos):
        """the result designates element pos of the storage"""
        if isinstance(r, Iter): return land(TRUE if r.lv.root == 's' else FALSE, r.pos == pos)
        if isinstance(r, LV) and r.root == 's' and len(r.path) == 2 and isinstance(r.path[1], tuple): return r.path[1][1] == pos
        raise Unsup('result %r' % (r,))
    def isview(r, lo, hi):
        st = r.f['storage']
        return land(TRUE if isinstance(st, LV) and st.root == 's' and not st.path else FALSE, r.f['start_index'] == lo, r.f['end_index'] == hi)
    def indexed(name, inside, pos, signed=True, props=P + ('C14',)):
        for null in (False, True):
            def go(ex, null=null):
                s, a, b = setup(ex, null)
                n = ex.fresh_val(('int', 64, signed), 'n')
                ok = inside(b - a, n)
                if not chk: ex.assume(ok)
                r, thrown = run(ex, name, LV('v'), n)
                if thrown: ex.oblige('refused only outside the range', lnot(ok), P); return
                ex.oblige('anything outside the range is refused', ok, props)
                ex.oblige('designates the right element', at(r, pos(a, b, n)), P)
            if null and not chk: continue
            mk_unit(us, 'view: %s%s' % (name, ' on an empty view without storage' if null else ''), cfg, props, go)
    # iterator positions are size_t: offsets up to 2^62 do not wrap
    fwd = lambda sz, n: land(n >= 0, n < sz)
    indexed('VIndex', fwd, lambda a, b, n: a + n, False)
    indexed('VBeginPlus', fwd, lambda a, b, n: a + n)
    indexed('VBeginIndex', fwd, lambda a, b, n: a + n)
    indexed('VArrow', fwd, lambda a, b, n: a + n)
    indexed('VEndMinus', lambda sz, n: land(n >= 1, n <= sz), lambda a, b, n: b - n)
    indexed('VReverse', fwd, lambda a, b, n: b - 1 - n)
    def sizes(ex):
        s, a, b = setup(ex)
        ex.oblige('size() is the length of the range', call(ex, 'VSize', LV('v')) == b - a, P)
        ex.oblige('empty() tells whether the range is empty', asb(call(ex, 'VEmpty', LV('v'))) == (b == a), P)
    mk_unit(us, 'view: size', cfg, P, sizes)
    def sizes0(ex):
        setup(ex, True)
        ex.oblige('a view without storage is empty', land(call(ex, 'VSize', LV('v')) == 0, asb(call(ex, 'VEmpty', LV('v')))), P)
    mk_unit(us, 'view: size without storage', cfg, P, sizes0)
    def ends(name):
        def go(ex):
            s, a, b = setup(ex)
            n = ex.fresh_val(('int', 64, False), 'n'); ex.assume(n < BIG)
            ex.oblige('iteration ends after exactly size() elements', asb(call(ex, name, LV('v'), n)) == (n == b - a), P)
        mk_unit(us, 'view: ' + name, cfg, P, go)
    ends('VAtEnd'); ends('VReverseAtEnd')
    def step(ex):
        s, a, b = setup(ex)
        n = ex.fresh_val(('int', 64, True), 'n'); ex.assume(land(n > -BIG, n < BIG))
        ex.oblige('stepping an iterator moves it by exactly the step', asb(call(ex, 'VStep', LV('v'), n)), P)
    mk_unit(us, 'view: iterator steps', cfg, P, step)
    for null in (False, True):
        for tail in (False, True):
            def sub_(ex, null=null, tail=tail):
                s, a, b = setup(ex, null)
                o, c = (ex.fresh_val(('int', 64, False), n) for n in ('offset', 'count'))
                ok = land(FALSE if null else TRUE, o <= b - a)
                if not chk: ex.assume(ok)
                r, thrown = run(ex, *(('VSubTail', LV('v'), o) if tail else ('VSub', LV('v'), o, c)))
                if thrown: ex.oblige('a subview is refused only outside the range', lnot(ok), P); return
                ex.oblige('a subview outside the range is refused', ok, P + ('C14',))
                if null: return
                rest = b - a - o
                ex.oblige('a subview is the requested part clipped to the end', isview(r, a + o, a + o + (rest if tail else z3.If(c < rest, c, rest))), P)
            if null and not chk: continue
            mk_unit(us, 'view: subview%s%s' % (' to the end' if tail else '', ' without storage' if null else ''), cfg, P + ('C14',), sub_)
    def rng(ex):
        s, a, b = setup(ex)
        x, y = (ex.fresh_val(('int', 64, False), n) for n in ('x', 'y'))
        ok = land(x <= y, y <= s.f['size'])
        if not chk: ex.assume(ok)
        r, thrown = run(ex, 'ViewRange', LV('s'), x, y)
        if thrown: ex.oblige('a range inside the list is accepted', lnot(ok), P); return
        ex.oblige('a range outside the list is refused', ok, P + ('C14',))
        ex.oblige('the view presents exactly the range', isview(r, x, y), P)
    mk_unit(us, 'view: of a range', cfg, P + ('C14',), rng)
    def all_(ex):
        s, a, b = setup(ex)
        ex.oblige('a view of a list presents all of it', isview(call(ex, 'ViewAll', LV('s')), I(0), s.f['size']), P + ('C13',))
    mk_unit(us, 'view: of a list', cfg, P + ('C13',), all_)

# ------------------------------------------------------------------ identifiers
def fld(f, n):
    if n not in f: raise Unsup('field ' + n)
    return f[n]
def base_fn(ir, dtor=False):
    l = [f for f in ir.funcs.values() if f.get('parent') == BASE and 'body' in f and (f.get('dtor') if dtor else f.get('ctor') == 'other')]
    if len(l) != 1: raise Unsup('BaseTransaction functions')
    return l[0]
def nest_state(ex, ir):
    ecs = ex.store['ecs'] = ex.fresh_val(ir.shape(ECS), 'ecs')
    act = ex.store[ACT] = ex.fresh_val(('sv', {'data': ('lift', ('int', 64, False))}), 'act')
    n = ex.store[CNT] = ex.fresh_val(('int', 64, False), 'cnt')
    last = ex.store[NTXN] = ex.fresh_val(('sv', {'v': ('int', 64, False)}), 'ctr')
    ex.assume(n <= MAXTXN)
    a = act.f['data'].t
    # the active instances of a thread are distinct
    ex.assume(FA([p_, q_], imp(land(p_ >= 0, p_ < q_, q_ < n), z3.Select(a, p_) != z3.Select(a, q_)), z3.MultiPattern(z3.Select(a, p_), z3.Select(a, q_))))
    return fld(ecs.f, 'ecsId'), a, n, last.f['v']
def listed(a, n, x):
    return z3.Exists([p_], land(p_ >= 0, p_ < n, z3.Select(a, p_) == x))
def distinct_after(ex, a1, n1):
    i, j = ex.fresh(Int, 'i'), ex.fresh(Int, 'j')
    return imp(land(i >= 0, i < j, j < n1), z3.Select(a1, i) != z3.Select(a1, j))
def nesting_units(ir, cfg, us):
    P = ('C19',)
    def begin(ex):
        idv, a, n, last = nest_state(ex, ir)
        ctr0 = ex.store[NTXN]
        ex.store['base'] = ex.fresh_val(ir.shape(BASE), 'base')
        thrown = False
        try: ex.call(base_fn(ir)['id'], LV('base'), [LV('ecs')])
        except ThrowEx: thrown = True
        a1, n1 = ex.store[ACT].f['data'].t, ex.store[CNT]
        k = ex.fresh(Int, 'k'); ex.assume(land(k >= 0, k < n))
        if thrown:
            # refused: the instance is active, or the limit is reached
            z = lor(n == MAXTXN, listed(a, n, idv))
            ex.oblige('a start is refused only if nested or over the limit', z, P)
            ex.oblige('a refused start leaves the active transactions as they are', land(n1 == n, z3.Select(a1, k) == z3.Select(a, k)), P)
            return
        ex.oblige('a start beyond the limit is refused', n < MAXTXN, P + ('C14',))
        ex.oblige('a nested start is refused', z3.Select(a, k) != idv, P)
        ex.oblige('the started transaction is recorded', land(n1 == n + 1, z3.Select(a1, n) == idv), P)
        ex.oblige('the other active transactions stay recorded', z3.Select(a1, k) == z3.Select(a, k), P)
        ex.oblige('at most the limit is recorded', n1 <= MAXTXN, P + ('C14',))
        b = ex.store['base']
        own = ex.store.get('ghost:own')
        tid = fld(b.f, 'transactionId')
        if own is None: ex.oblige('every transaction draws a fresh identifier', FALSE, ('C20',))
        else: ex.oblige('the identifier is one nobody else gets, above all earlier ones', land(tid > own.f['lo'], tid <= own.f['hi'], own.f['lo'] >= last), ('C20',))
        inst = b.f['instance']
        ex.oblige('the transaction refers to its instance', TRUE if isinstance(inst, LV) and inst.root == 'ecs' and not inst.path else FALSE, ('C02', 'C18'))
        for i in FLAGS: ex.oblige('nothing is marked as modified at the start', lnot(b.f['writeAccessedFlags'].f[i]), ('C02', 'C07'))
        for e in eq_tree(ex.store['ecs'], ex.store['ecs']): pass
    mk_unit(us, 'transaction bookkeeping: start', cfg, P + ('C20', 'C14', 'C02', 'C07', 'C18'), begin)
    def end(ex):
        idv, a, n, last = nest_state(ex, ir)
        ex.store['base'] = ex.fresh_val(ir.shape(BASE), 'base').set('instance', LV('ecs'))
        pos = ex.fresh(Int, 'mine'); ex.assume(land(pos >= 0, pos < n, z3.Select(a, pos) == idv))
        try: ex.call(base_fn(ir, True)['id'], LV('base'), [])
        except ThrowEx: ex.oblige('ending does not throw', FALSE, P); return
        a1, n1 = ex.store[ACT].f['data'].t, ex.store[CNT]
        k = ex.fresh(Int, 'k'); ex.assume(land(k >= 0, k < n))
        j = ex.fresh(Int, 'j'); ex.assume(land(j >= 0, j < n1))
        _ = z3.Select(a, k)
        ex.oblige('exactly one record goes away', n1 == n - 1, P)
        ex.oblige('the ended transaction is no longer recorded', z3.Select(a1, j) != idv, P)
        # the order of the records is not part of the contract
        kk = lambda x: z3.Exists([p_], land(p_ >= 0, p_ < n1, z3.Select(a1, p_) == x))
        ex.oblige('every other active transaction stays recorded', imp(k != pos, lor(z3.Select(a1, k) == z3.Select(a, k), z3.Select(a1, k - 1) == z3.Select(a, k), z3.Select(a1, pos) == z3.Select(a, k), kk(z3.Select(a, k)))), P)
        ex.oblige('nothing else becomes recorded', z3.Exists([p_], land(p_ >= 0, p_ < n, z3.Select(a, p_) == z3.Select(a1, j))), P)
        ex.oblige('the records stay distinct', distinct_after(ex, a1, n1), P)
    mk_unit(us, 'transaction bookkeeping: end', cfg, P, end)
    def inst(ex):
        ecs = ex.store['ecs'] = ex.fresh_val(ir.shape(ECS), 'ecs')
        ex.oblige('the instance identifier is exposed in its width', call(ex, 'InstanceId', LV('ecs')) == fld(ecs.f, 'ecsId') % 256, ('C20',))
    mk_unit(us, 'instance identifier', cfg, ('C20',), inst)
    def necs(ex):
        last = ex.store[NECS] = ex.fresh_val(('sv', {'v': ('int', 64, False)}), 'ectr')
        l = [f for f in ir.funcs.values() if f.get('parent') == ECS and f.get('ctor') == 'default' and 'body' in f]
        if len(l) != 1: raise Unsup('ECS constructor')
        ex.store['ecs'] = ex.fresh_val(ir.shape(ECS), 'ecs')
        w = _txn.TxnWorld(ir, Perm(['Tecs::AddRemove']))
        for k, hk in w.hk.items(): ex.store[hk] = Lift(ex.fresh_val(ir.shape(hk[5:]), 'q%d' % k, 1))
        ex.store['live'] = Lift(z3.Const('live!init', z3.ArraySort(Int, Bool)))
        ex.store['ghost:rpos'] = SV({c: Lift(z3.Const('rpos_%s' % c, z3.ArraySort(Int, Int))) for c in ('m',) + ENTC})
        try: ex.call(l[0]['id'], LV('ecs'), [])
        except ThrowEx: ex.oblige('creating an instance does not throw', FALSE, ('C20',)); return
        own = ex.store.get('ghost:own')
        idv = fld(ex.store['ecs'].f, 'ecsId')
        if own is None: ex.oblige('every instance draws a fresh identifier', FALSE, ('C20',))
        else:
            ex.oblige('the instance identifier is one nobody else gets', land(idv > own.f['lo'], idv <= own.f['hi']), ('C20',))
            ex.oblige('the first 255 instances have distinct, nonzero exposed identifiers', own.f['hi'] == own.f['lo'] + 1, ('C20',))
        v = Vw(dict(ex.store))
        ex.assume(land(idv % 256 != 0))
        for tag, props, f in _txn.quiescent(ex, v) + _txn.q_events(ex, v, w.hk): ex.oblige('a new instance: ' + tag, f, props)
        ex.oblige('a new instance is empty', land(v.N('read') == 0, v.N('write') == 0, *[lnot(v.g('read', c)) for c in GLBS], v.Ln('read', 'm') == 0, *[v.Ln('read', c) == 0 for c in ENTC], v.Ln('write', 'm') == 0), ('C01', 'C10', 'C13'))
        for c in IDX: ex.oblige('a new instance is unlocked', land(v.st(c)['readers'].f['v'] == 0, v.st(c)['writer'].f['v'] == 0), ('C04', 'C05', 'C06'))
        for k in FLAGS: ex.oblige('a new instance has no observers', v.e['eventLists'].f[k].f['observers'].f['size'] == 0, ('C16', 'C15'))
    u = Unit('new instance', cfg, (), necs); u.hooks = MiscHooks; us.append(u)
    def ctr0(ex):
        for q in ('Tecs::nextEcsId', 'Tecs::nextTransactionId'):
            g = [g for g in ir.globals.values() if g['q'] == q]
            if len(g) != 1: raise Unsup('counter ' + q)
            g = g[0]
            ini = g.get('init')
            if ini is None: v = I(0)
            else:
                ex.frames.append((None, {}))
                try: v = ex.eval_as(ini, g['t'])
                finally: ex.frames.pop()
                v = v.f['v'] if isinstance(v, SV) else v
            ex.oblige('identifiers start at one: none is ever zero', v >= 0 if q.endswith('TransactionId') else v == 0, ('C20',))
    mk_unit(us, 'identifier counters: initial values', cfg, ('C20',), ctr0)
    for f in fns(ir, 'TxnId'):
        def tid(ex, f=f):
            lk = ex.ir.strip(f['params'][0]['t']).replace('const ', '')
            ex.store['base'] = ex.fresh_val(ir.shape(BASE), 'base').set('instance', LV('ecs')); ex.store['ecs'] = ex.fresh_val(ir.shape(ECS), 'ecs')
            lock_root(ex, ir, lk, 'l')
            r = ex.call(f['id'], None, [LV('l')])
            ex.oblige('every lock reports the identifier of its transaction', r == fld(ex.store['base'].f, 'transactionId'), ('C20',))
        mk_unit(us, 'transaction identifier of %s' % f['params'][0]['t'], cfg, ('C20',), tid)

# ------------------------------------------------------------------ lock conversion
def lock_root(ex, ir, key, name):
    """an arbitrary valid lock: its bits are held by the transaction, its static writes are among them"""
    T = perm_of(key)
    bits = ex.fresh_val(ir.shape('std::bitset<%d>' % len(FLAGS)), name + '.bits')
    sv = {'instance': LV('ecs'), 'base': LV('base'), 'permissions': bits}
    ex.assume(land(*[bits.f[1 + c] for c in T.w], *([bits.f[0]] if T.ar else []), imp(bits.f[0], land(*[bits.f[1 + c] for c in CS]))))
    for n, ft, _ in ir.fields(ir.ty(key)['rid']):
        if n not in sv:
            if n != 'readPermissions': raise Unsup('lock field ' + n)
            rp = ex.fresh_val(ir.shape('std::bitset<%d>' % len(FLAGS)), name + '.reads'); sv[n] = rp
            # a lock that may write may read; the static permissions are among those of the source
            ex.assume(land(rp.f[0], *[rp.f[1 + c] for c in T.r]))
    ex.store[name] = SV(sv)
    return T, sv
def lock_units(ir, cfg, us):
    P = ('C18',)
    def world(ex):
        ex.store['ecs'] = ex.fresh_val(ir.shape(ECS), 'ecs')
        ex.store['base'] = ex.fresh_val(ir.shape(BASE), 'base').set('instance', LV('ecs'))
    def shares(ex, r, what='the new lock'):
        for n, root in (('instance', 'ecs'), ('base', 'base')):
            x = r.f[n]
            ex.oblige('%s shares the transaction of its source' % what, TRUE if isinstance(x, LV) and x.root == root and not x.path else FALSE, P)
    def tkey(t): return ir.strip(t).replace('const ', '')
    def nm(k): return (', '.join(split_args(k)[1:]) or 'none').replace('Tecs::', '').replace('v::', '')
    for wrapper in ('Convert', 'ReadOnly', 'SubsetReadA', 'MakeDynamic'):
        for f in fns(ir, wrapper):
            src, dst = tkey(f['params'][0]['t']), tkey(f['ret'])
            def go(ex, f=f, src=src, dst=dst, wrapper=wrapper):
                world(ex)
                S, sv = lock_root(ex, ir, src, 'l')
                D = perm_of(dst)
                ex.oblige('the permissions of the new lock are among those of its source', TRUE if D.r <= S.r and D.w <= S.w and (S.ar or not D.ar) else FALSE, P)
                if wrapper == 'ReadOnly': ex.oblige('a read-only subset reads exactly what its source reads', TRUE if D.r == S.r and not D.w and not D.ar else FALSE, P)
                try: r = ex.call(f['id'], None, [LV('l')])
                except ThrowEx: ex.oblige('conversion does not throw', FALSE, P); return
                if isinstance(r, LV): r = ex.get(r)
                shares(ex, r)
                for i in FLAGS:
                    b = r.f['permissions'].f[i]
                    if wrapper == 'ReadOnly': ex.oblige('a read-only subset sees no uncommitted data', lnot(b), P + ('C01',))
                    else: ex.oblige('the run-time permissions stay those of the transaction', b == sv['permissions'].f[i], P + ('C01',))
                ex.oblige('what the new lock may write is held', land(*[r.f['permissions'].f[1 + c] for c in D.w], *([r.f['permissions'].f[0]] if D.ar else [])), P)
                if 'readPermissions' in r.f:
                    for c in CS: ex.oblige('a dynamic lock knows exactly the read permissions of its source', r.f['readPermissions'].f[1 + c] == (TRUE if c in S.r else FALSE), P)
                    ex.oblige('a dynamic lock may look at entities', r.f['readPermissions'].f[0], P)
                for e in eq_tree(sv['permissions'], ex.store['l'].f['permissions']): ex.oblige('the source lock is unchanged', e, P)
            mk_unit(us, 'lock conversion (%s) <%s> to <%s>' % (wrapper, nm(src), nm(dst)), cfg, P + ('C01',), go)
    for f in fns(ir, 'TryLock'):
        D = tkey(f['params'][0]['t'])
        want_t = f['targs'][0]['t'] if f.get('targs') else None
        def go(ex, f=f, D=D, want_t=want_t):
            world(ex)
            S, sv = lock_root(ex, ir, D, 'l')
            Q = Perm([want_t])
            bits, rp = sv['permissions'].f, sv['readPermissions'].f
            held_r = lambda c: lor(TRUE if c in S.r else FALSE, rp[1 + c])
            held_w = lambda c: bits[1 + c]
            # consistent source: it may read what it may write
            ex.assume(land(*[imp(bits[1 + c], rp[1 + c]) for c in CS]))
            ok = land(*[held_r(c) for c in Q.r], *[held_w(c) for c in Q.w], *([bits[0]] if Q.ar else []))
            try: r = ex.call(f['id'], None, [LV('l')])
            except ThrowEx: ex.oblige('try-lock does not throw', FALSE, P); return
            if isinstance(r, LV): r = ex.get(r)
            has = r.has
            ex.oblige('a try-lock succeeds only if every requested permission is held' if has else 'a try-lock succeeds whenever every requested permission is held', ok if has else lnot(ok), P)
            if has:
                l = r.v
                if isinstance(l, LV): l = ex.get(l)
                shares(ex, l, 'the granted lock')
                for i in FLAGS: ex.oblige('the granted lock has the run-time permissions of the transaction', l.f['permissions'].f[i] == bits[i], P + ('C01',))
        mk_unit(us, 'try-lock <%s> on dynamic <%s>' % (want_t.replace('Tecs::', '').replace('v::', ''), nm(D)), cfg, P + ('C01',), go)
    for f in fns(ir, 'StartLock'):
        dst = tkey(f['ret'])
        def go(ex, f=f, dst=dst):
            ex.store['ecs'] = ex.fresh_val(ir.shape(ECS), 'ecs')
            D = perm_of(dst)
            r = ex.call(f['id'], None, [LV('ecs')])
            shares(ex, r)
            want = {0: D.ar, **{1 + c: c in D.w for c in CS}}
            for i in FLAGS: ex.oblige('the run-time permissions of a new transaction are its write permissions', r.f['permissions'].f[i] == (TRUE if want[i] else FALSE), P + ('C01', 'C08'))
        mk_unit(us, 'start of a transaction <%s>' % nm(dst), cfg, P + ('C01', 'C08'), go)
    for f in fns(ir, 'Instance'):
        def go(ex, f=f):
            world(ex); lock_root(ex, ir, tkey(f['params'][0]['t']), 'l')
            r = ex.call(f['id'], None, [LV('l')])
            ex.oblige('a lock refers to the instance of its transaction', TRUE if isinstance(r, LV) and r.root == 'ecs' and not r.path else FALSE, P)
        mk_unit(us, 'instance of a lock <%s>' % nm(tkey(f['params'][0]['t'])), cfg, P, go)

def units(ir, cfg):
    us = []
    if 'TRACING' in cfg:
        from . import trace
        trace.units(ir, cfg, us); return us
    if 'UNCHECKED' in cfg:
        view_units(ir, cfg, us); return us
    handle_units(ir, cfg, us); view_units(ir, cfg, us); nesting_units(ir, cfg, us); lock_units(ir, cfg, us)
    return us
