"""Units for performance traces (C23)."""
import z3
from .core import *
from .spec import *
from .world import *
from .ops import Unit
from . import misc as _m
P = ('C23',)
TI = 'Tecs::TraceInfo'

class TraceHooks(Hooks):
    """other threads may record events between any two operations of Trace"""
    def __init__(s, _=None): s.live = False
    def contract(s, ex, f, this, args, loc):
        q = f['q']
        if q == 'std::this_thread::get_id': return (z3.Const('this_thread', opsort('thread_id')),)
        if q.endswith('clock::now'):
            v = ex.fresh(opsort('time_point'), 'now')
            n = ex.store['ghost:now'].f['n'] if 'ghost:now' in ex.store else None
            ex.store['ghost:now'] = SV({'n': v}); return (v,)
        return None
    def atomic(s, ex, lv, op, args, loc):
        if not s.live or lv is None or lv.root != 't' or lv.path != ('nextEventIndex',): return None
        V = lambda a: ex.rd(a) if isinstance(a, LV) else a
        last = ex.store['t'].f['nextEventIndex'].f['v']
        now = ex.fresh(Int, 'index'); ex.ranges[now.decl().name()] = (0, (1 << 32) - 2)
        ex.assume(land(now >= last, now < (1 << 32) - 1))      # fewer than 2^32 - 1 events per trace
        def put(v):
            ex.oblige('one index is drawn per event', v == now + 1, P, loc)
            ex.store['t'] = ex.store['t'].set('nextEventIndex', SV({'v': v}))
            g = ex.store['ghost:drawn']
            ex.store['ghost:drawn'] = SV({'n': I(ival(g.f['n']) + 1), 'i': now})
        def other(): ex.store['t'] = ex.store['t'].set('nextEventIndex', SV({'v': now}))
        if op in ('load', 'conv'): other(); return (now,)
        if op in ('fetch_add', 'operator+=', 'operator++'):
            d = V(args[0]) if op in ('fetch_add', 'operator+=') else I(1)
            new = ex.wrap(add(now, d), 32, False)
            post = op == 'fetch_add' or op == 'operator++' and args
            put(new); return (now if post else new,)
        if op in ('compare_exchange_weak', 'compare_exchange_strong'):
            exp = args[0]
            if ex.fork(now == ex.rd(exp)):
                if op.endswith('weak') and ex.choose(2) == 1: return (FALSE,)
                put(V(args[1])); return (TRUE,)
            ex.wr(exp, now); other(); return (FALSE,)
        ex.oblige('indexes are drawn atomically', FALSE, P, loc); raise PathEnd()

def info(ex, name, ir):
    t = ex.store[name] = ex.fresh_val(ir.shape(TI), name)
    if not {'traceEnabled', 'nextEventIndex', 'events'} <= set(t.f): raise Unsup('trace layout')
    return t
def span_is(r, lv, n):
    """the result is the first n events of this buffer"""
    if not isinstance(r, SV) or 'it' not in r.f: raise Unsup('span %r' % (r,))
    it = r.f['it']
    ok = isinstance(it, Iter) and it.lv.root == lv.root and it.lv.path == lv.path
    return land(TRUE if ok else FALSE, it.pos == 0 if ok else FALSE, r.f['n'] == n)
def zmin(a, b): return z3.If(a < b, a, b)
def units(ir, cfg, us):
    def mk(name, run):
        u = Unit(name, cfg, P, run); u.hooks = TraceHooks; us.append(u)
    def record(ex):
        t = info(ex, 't', ir)
        ex.hooks.live = True
        ex.store['ghost:drawn'] = SV({'n': I(0), 'i': I(0)})
        ty = ex.fresh_val(('int', 32, True), 'type')
        try: _m.call(ex, 'TTrace', LV('t'), ty)
        except ThrowEx: ex.oblige('recording an event does not throw', FALSE, P); return
        t1 = ex.store['t']
        g = ex.store['ghost:drawn'].f
        en = t.f['traceEnabled'].f['v']
        n = ival(g['n'])
        ex.oblige('an event is recorded exactly once while a trace runs, else not at all', (en == (n == 1)) if n <= 1 else FALSE, P)
        ex.oblige('recording does not start or stop a trace', t1.f['traceEnabled'].f['v'] == en, P)
        sz = t.f['events'].f['size']
        ex.oblige('the buffer keeps its capacity', t1.f['events'].f['size'] == sz, P)
        k = ex.fresh(Int, 'k'); ex.assume(land(k >= 0, k < sz))
        a, b = t.f['events'].f['data'].t, t1.f['events'].f['data'].t
        own = land(TRUE if n == 1 else FALSE, k == g['i'])
        for f_ in a.f: ex.oblige('recorded events are not overwritten', imp(lnot(own), z3.Select(b.f[f_], k) == z3.Select(a.f[f_], k)), P)
        ex.oblige('the event has its type', imp(own, z3.Select(b.f['type'], k) == ty), P)
        ex.oblige('the event has the thread that recorded it', imp(own, z3.Select(b.f['thread'], k) == z3.Const('this_thread', opsort('thread_id'))), P)
        if n == 1 and 'ghost:now' in ex.store: ex.oblige('the event has the time it was recorded', imp(own, z3.Select(b.f['time'], k) == ex.store['ghost:now'].f['n']), P)
        elif n == 1: ex.oblige('the event has the time it was recorded', imp(own, FALSE), P)
    mk('trace: record an event', record)
    def start(ex):
        t = info(ex, 't', ir); en = t.f['traceEnabled'].f['v']
        thrown = False
        try: _m.call(ex, 'TStart', LV('t'))
        except ThrowEx: thrown = True
        t1 = ex.store['t']
        if thrown:
            ex.oblige('a start is refused only while a trace runs', en, P)
            for e in eq_tree(t, t1): ex.oblige('a refused start changes nothing', e, P)
            return
        ex.oblige('starting twice is refused', lnot(en), P)
        ex.oblige('a new trace starts empty', t1.f['nextEventIndex'].f['v'] == 0, P)
        ex.oblige('a started trace is running', t1.f['traceEnabled'].f['v'], P)
        ex.oblige('the buffer keeps its capacity', t1.f['events'].f['size'] == t.f['events'].f['size'], P)
    mk('trace: start', start)
    def stop(ex):
        t = info(ex, 't', ir); en = t.f['traceEnabled'].f['v']
        r, thrown = None, False
        try: r = _m.call(ex, 'TStop', LV('t'))
        except ThrowEx: thrown = True
        t1 = ex.store['t']
        if thrown:
            ex.oblige('a stop is refused only while no trace runs', lnot(en), P)
            for e in eq_tree(t, t1): ex.oblige('a refused stop changes nothing', e, P)
            return
        ex.oblige('stopping without a running trace is refused', en, P)
        ex.oblige('a stopped trace is not running', lnot(t1.f['traceEnabled'].f['v']), P)
        ex.oblige('the result is exactly the recorded events', span_is(r, LV('t', ('events',)), zmin(t.f['events'].f['size'], t.f['nextEventIndex'].f['v'])), P)
        for e in eq_tree(t.f['events'], t1.f['events']): ex.oblige('stopping leaves the recorded events as they are', e, P)
    mk('trace: stop', stop)
    def new(ex):
        ctor = [f for f in ir.funcs.values() if f.get('parent') == TI and f.get('ctor') and not f['params'] and 'body' in f]
        if len(ctor) != 1: raise Unsup('TraceInfo constructor')
        info(ex, 't', ir)
        ex.call(ctor[0]['id'], LV('t'), [])
        t = ex.store['t']
        ex.oblige('no trace runs initially', lnot(t.f['traceEnabled'].f['v']), P)
        ex.oblige('the buffer has its capacity', t.f['events'].f['size'] == 10000, P)
    mk('trace: new', new)
    INF = [('transactionTrace',), ('metadata', 'traceInfo')] + [('indexes', c, 'traceInfo') for c in CS]
    def getp(v, path):
        for p in path:
            if not isinstance(v, SV) or p not in v.f: raise Unsup('trace field')
            v = v.f[p]
        return v
    def world(ex):
        ecs = ex.store['ecs'] = ex.fresh_val(ir.shape(ECS), 'ecs')
        en = getp(ecs, INF[0] + ('traceEnabled', 'v'))
        # the traces of an instance run together
        for p in INF: ex.assume(getp(ecs, p + ('traceEnabled', 'v')) == en)
        return ecs, en
    def estart(ex):
        ecs, en = world(ex)
        thrown = False
        try: _m.call(ex, 'EStart', LV('ecs'))
        except ThrowEx: thrown = True
        e1 = ex.store['ecs']
        if thrown:
            ex.oblige('a start is refused only while a trace runs', en, P)
            for e in eq_tree(ecs, e1): ex.oblige('a refused start changes nothing', e, P)
            return
        ex.oblige('starting twice is refused', lnot(en), P)
        for p in INF: ex.oblige('a new trace starts empty and running everywhere (%s)' % '.'.join(map(str, p)), land(getp(e1, p + ('traceEnabled', 'v')), getp(e1, p + ('nextEventIndex', 'v')) == 0), P)
    mk('instance trace: start', estart)
    def estop(ex):
        ecs, en = world(ex)
        r, thrown = None, False
        try: r = _m.call(ex, 'EStop', LV('ecs'))
        except ThrowEx: thrown = True
        e1 = ex.store['ecs']
        if thrown:
            ex.oblige('a stop is refused only while no trace runs', lnot(en), P)
            for e in eq_tree(ecs, e1): ex.oblige('a refused stop changes nothing', e, P)
            return
        ex.oblige('stopping without a running trace is refused', en, P)
        for p in INF: ex.oblige('a stopped trace runs nowhere (%s)' % '.'.join(map(str, p)), lnot(getp(e1, p + ('traceEnabled', 'v'))), P)
        if isinstance(r, LV): r = ex.get(r)
        comps = r.f['componentEvents']
        comps = comps.f['items'] if isinstance(comps, SV) and 'items' in comps.f else comps
        got = [r.f['transactionEvents'], r.f['metadataEvents']] + [comps.f[i] for i in CS]
        for p, g in zip(INF, got):
            ex.oblige('the result has exactly the recorded events of every lock (%s)' % '.'.join(map(str, p)), span_is(g, LV('ecs', p + ('events',)), zmin(getp(ecs, p + ('events', 'size')), getp(ecs, p + ('nextEventIndex', 'v')))), P)
    mk('instance trace: stop', estop)
