"""Observer handles: Watch, Stop, StopWatching, Poll, operator bool."""
import z3
from .core import *
from .spec import *
from .world import *
from . import stl
from .ops import Unit, cases, bits_of, BITS_ALL

EVT = {'Tecs::EntityEvent': 0, **{'Tecs::ComponentEvent<%s>' % COMPS[c]: 1 + c for c in CS}}

def setup(ir, ex, f, T, bits, checked, k, attached):
    w = World(ir, T, checked)
    ex.hooks.w = w
    v0 = w.build(ex)
    if not T.ar:
        # the observer lists as every commit leaves them
        for _, _, fm in obs_inv(ex, v0): 
            if 'pending event queue' not in _: ex.assume(fm)
    lk = w.lock(ex, bits)
    q = ex.fresh(Int, 'handle')
    ob = v0.e['eventLists'].f[k].f['observers'].f
    live = lambda x: sel2(v0.store['live'].t, x)
    # a handle designates nothing, a queue that is gone, or the queue of a registered observer (never the pending queue)
    pos = ex.fresh(Int, 'slot')
    ex.assume(q >= 0); ex.assume(lnot(live(I(0))))
    ex.assume(imp(live(q), land(pos >= 0, pos < ob['size'], sel2(ob['data'].t, pos) == q)))
    ex.assume(q != v0.e['eventLists'].f[k].f['writeQueue'])
    h = heap(v0.store, k)
    w.ownq = q
    x = z3.Int('x')
    ex.assume(FA([x], land(sel2(h.f['b'], x) <= sel2(h.f['e'], x)), sel2(h.f['e'], x)))
    ex.store['arg:o'] = SV({'ecs': LV('ecs') if attached else NULL, 'eventListWeak': q})
    if not attached: ex.assume(q == 0)
    return w, v0, lk, q, pos

def entries(h, o, j): return [sel2(sel2(a, o), j) for _, a in leaves(h['data'])]

def frame(w, ex, v0, v1, k, props, lists=True):
    """everything except the queues/observers of event type k"""
    for c in IDX:
        for nm in ('readComponents', 'writeComponents', 'readValidEntities', 'writeValidEntities', 'validEntityIndexes', 'readers', 'writer'):
            for e in eq_tree(v0.st(c)[nm], v1.st(c)[nm]): ex.oblige('stored data is unchanged (%s.%s)' % ('entities' if c == 'm' else CNAME[c], nm), e, props)
    for nm in ('globalReadMetadata', 'globalWriteMetadata', 'freeEntities', 'ecsId'):
        for e in eq_tree(v0.e[nm], v1.e[nm]): ex.oblige('stored data is unchanged (%s)' % nm, e, props)
    for b in FLAGS: ex.oblige('nothing is marked as modified', v0.flag(b) == v1.flag(b), ('C07', 'C02'))
    for kk, h in w.hk.items():
        if kk != k:
            for e in eq_tree(v0.store[h], v1.store[h]): ex.oblige('queues of other event types are untouched', e, props)
        if kk != k or not lists:
            for e in eq_tree(v0.e['eventLists'].f[kk], v1.e['eventLists'].f[kk]): ex.oblige('observer lists are untouched', e, props)
    for e in eq_tree(v0.e['eventLists'].f[k].f['writeQueue'], v1.e['eventLists'].f[k].f['writeQueue']): ex.oblige('pending queue is untouched', e, props)

def queues_same(w, ex, v0, v1, k, cond, tag, props):
    h0, h1 = heap(v0.store, k), heap(v1.store, k)
    x = z3.Int('x')
    for (_, a), (_, b) in zip(leaves(h0), leaves(h1)):
        ex.oblige(tag, FA([x], imp(cond(x), sel2(a, x) == sel2(b, x)), sel2(b, x)), props)

def poll_unit(ir, f, T, bits, checked, k, attached):
    def run(ex):
        w, v0, lk, q, pos = setup(ir, ex, f, T, bits, checked, k, attached)
        et = f['params'][2]['t']; key = ir.strip(et)
        ex.store['arg:out'] = ex.fresh_val(ir.shape(key), 'out')
        out0 = ex.store['arg:out']
        thrown, ret = False, None
        try: ret = ex.call(f['id'], None, [lk, LV('arg:o'), LV('arg:out')])
        except ThrowEx: thrown = True
        P = ('C16',)
        ex.oblige('polling never throws', FALSE if thrown else TRUE, P)
        if thrown: return
        v1 = Vw(dict(ex.store))
        h0, h1 = heap(v0.store, k).f, heap(v1.store, k).f
        live = sel2(v0.store['live'].t, q)
        b, e = sel2(h0['b'], q), sel2(h0['e'], q)
        have = land(live, b < e)
        ret = ex.tobool(ret)
        ex.oblige('returns an event exactly when an undelivered one exists', ret == have, P)
        o1 = ex.store['arg:out']
        for (_, x), (_, y), (_, z) in zip(leaves(o1), leaves(out0), [(p, sel2(sel2(a, q), b)) for p, a in leaves(h0['data'])]):
            ex.oblige('the oldest undelivered event is returned', imp(have, x == z), P)
            ex.oblige('the output is untouched when there is none', imp(lnot(have), x == y), P)
        b1, e1 = sel2(h1['b'], q), sel2(h1['e'], q)
        ex.oblige('exactly that event is removed', imp(have, e1 - b1 == e - b - 1), P)
        ex.oblige('nothing is removed when there is no event', imp(lnot(have), e1 - b1 == e - b), P)
        # the i-th element afterwards is the (i+1)-th before, wherever in memory the queue starts
        j = z3.Int('j')
        for (_, a), (_, c) in zip(leaves(h0['data']), leaves(h1['data'])):
            was = lambda n: FA([j], imp(land(j >= b1, j < e1), sel2(sel2(a, q), j - b1 + b + n) == sel2(sel2(c, q), j)), sel2(sel2(c, q), j))
            ex.oblige('the remaining events stay, in order', imp(have, was(1)), P)
            ex.oblige('nothing is removed when there is no event', imp(lnot(have), was(0)), P)
        queues_same(w, ex, v0, v1, k, lambda x: x != q, 'other observers keep their queues', P)
        frame(w, ex, v0, v1, k, P, lists=False)
        for x, y in zip([ex.store['arg:o'].f['eventListWeak']], [q]): ex.oblige('the handle keeps its queue', x == y, P)
    return run

def watch_unit(ir, f, T, checked, k):
    def run(ex):
        w, v0, lk, q, pos = setup(ir, ex, f, T, BITS_ALL, checked, k, True)
        thrown = False
        try: ex.call(f['id'], None, [lk, LV('arg:o')])
        except ThrowEx: thrown = True
        P = ('C16', 'C15')
        ex.oblige('watching never throws', FALSE if thrown else TRUE, P)
        if thrown: return
        v1 = Vw(dict(ex.store))
        o0, o1 = v0.e['eventLists'].f[k].f['observers'].f, v1.e['eventLists'].f[k].f['observers'].f
        h = ex.store['arg:o']
        n = h.f['eventListWeak']
        ex.oblige('the handle refers to this instance', TRUE if isinstance(h.f['ecs'], LV) and h.f['ecs'].root == 'ecs' else FALSE, P)
        ex.oblige('the new observer has a queue of its own', land(n != 0, lnot(sel2(v0.store['live'].t, n)), sel2(v1.store['live'].t, n), n != v1.e['eventLists'].f[k].f['writeQueue']), P)
        h1 = heap(v1.store, k).f
        ex.oblige('a new observer starts without events', sel2(h1['b'], n) == sel2(h1['e'], n), P)
        ex.oblige('the new observer is registered', lnot(z3.ForAll([p_], imp(land(p_ >= 0, p_ < o1['size']), sel2(o1['data'].t, p_) != n), patterns=[sel2(o1['data'].t, p_)])), P)
        reg_kept(ex, o0, o1, None, P)
        ex.oblige('only the new observer is added', FA([p_], imp(land(p_ >= 0, p_ < o1['size'], sel2(o1['data'].t, p_) != n), sel2(v0.store['live'].t, sel2(o1['data'].t, p_))), sel2(o1['data'].t, p_)), P)
        for tag, props, fm in obs_inv(ex, v1): ex.oblige('invariant: ' + tag, fm, props)
        queues_same(w, ex, v0, v1, k, lambda x: x != n, 'other observers keep their queues', P)
        frame(w, ex, v0, v1, k, P)
    return run

def reg_kept(ex, o0, o1, q, P):
    p = ex.fresh(Int, 'observer'); ex.assume(land(p >= 0, p < o0['size']))
    x = ex.fresh(Int, 'queue'); ex.assume(x == sel2(o0['data'].t, p))
    if q is not None: ex.assume(x != q)
    # candidate places in the new list (only names the terms)
    for w_ in [p, p - 1] + ([ex.lastremove[1](p)] if getattr(ex, 'lastremove', None) else []): ex.assume(ex.fresh(Int, 'at') == sel2(o1['data'].t, w_))
    ex.oblige('every other observer stays registered', lnot(z3.ForAll([p_], imp(land(p_ >= 0, p_ < o1['size']), sel2(o1['data'].t, p_) != x), patterns=[sel2(o1['data'].t, p_)])), P)

def stop_unit(ir, f, T, checked, k, attached):
    def run(ex):
        w, v0, lk, q, pos = setup(ir, ex, f, T, BITS_ALL, checked, k, attached)
        thrown = False
        try: ex.call(f['id'], None, [lk, LV('arg:o')])
        except ThrowEx: thrown = True
        P = ('C16', 'C15')
        ex.oblige('stopping never throws', FALSE if thrown else TRUE, P)
        if thrown: return
        v1 = Vw(dict(ex.store))
        o0, o1 = v0.e['eventLists'].f[k].f['observers'].f, v1.e['eventLists'].f[k].f['observers'].f
        n = ex.store['arg:o'].f['eventListWeak']
        live1 = v1.store['live'].t
        ex.oblige('the stopped handle yields nothing any more', lor(n == 0, lnot(sel2(live1, n))) if isinstance(n, z3.ExprRef) else TRUE, P)
        ex.oblige('the stopped observer is no longer registered', FA([p_], imp(land(p_ >= 0, p_ < o1['size']), sel2(o1['data'].t, p_) != q), sel2(o1['data'].t, p_)), P)
        queues_same(w, ex, v0, v1, k, lambda x: TRUE, 'other observers keep their queues', P)
        for tag, props, fm in obs_inv(ex, v1): ex.oblige('invariant: ' + tag, fm, props)
        frame(w, ex, v0, v1, k, P)
        # nobody else is affected
        r = ex.fresh(Int, 'registered'); ex.assume(land(r >= 0, r < o1['size']))
        y = ex.fresh(Int, 'queue'); ex.assume(y == sel2(o1['data'].t, r))
        ex.oblige('no observer is added by a stop', lnot(z3.ForAll([p_], imp(land(p_ >= 0, p_ < o0['size']), sel2(o0['data'].t, p_) != y), patterns=[sel2(o0['data'].t, p_)])), P)
        reg_kept(ex, o0, o1, q, P)
    return run

def active_unit(ir, f, k, attached):
    def run(ex):
        T = Perm([])
        w, v0, lk, q, pos = setup(ir, ex, f, T, bits_of(T), True, k, attached)
        try: ret = ex.tobool(ex.call(f['id'], None, [LV('arg:o')]))
        except ThrowEx: ex.oblige('never throws', FALSE, ('C16',)); return
        ex.oblige('reports activity exactly while the observer is registered', ret == land(TRUE if attached else FALSE, sel2(v0.store['live'].t, q)), ('C16',))
    return run

def units(ir, cfg):
    us = []
    chk = 'UNCHECKED' not in cfg
    for f in ir.funcs.values():
        if not f['q'].startswith('u::') or 'body' not in f or f['name'] not in ('Watch', 'StopWatching', 'Stop', 'Poll', 'Active'): continue
        ev = f['targs'][0]['t'] if f.get('targs') else None
        k = EVT.get(ev)
        if k is None: continue
        n = f['name']
        lt = [p['t'] for p in f['params'] if 'Tecs::Lock<' in p['t']]
        if n == 'Poll':
            for cname, T, bits in cases(perm_of(lt[0]), 'Poll'):
                for att in (True, False): us.append(Unit('Poll %s [%s, %s handle]' % (EVK[k], cname, 'attached' if att else 'empty'), cfg, (), poll_unit(ir, f, T, bits, chk, k, att), f))
        elif n == 'Active':
            for att in (True, False): us.append(Unit('operator bool of %s observer [%s]' % (EVK[k], 'attached' if att else 'empty'), cfg, (), active_unit(ir, f, k, att), f))
        elif n == 'Watch': us.append(Unit('Watch %s' % EVK[k], cfg, (), watch_unit(ir, f, perm_of(lt[0]), chk, k), f))
        else:
            for att in (True, False): us.append(Unit('%s %s [%s handle]' % (n, EVK[k], 'attached' if att else 'empty'), cfg, (), stop_unit(ir, f, perm_of(lt[0]), chk, k, att), f))
    return us
