"""The lock words of one component type, thread-modularly.

Shared state: readers R, writer W (atomics).  J: R = MAX <=> some thread owns m (then no read token exists), otherwise
R = number of read tokens; W in {1,2} <=> exactly one thread owns the writer word, else W = 0.  Every atomic operation
is executed on an arbitrary shared state allowed by J and the tokens this thread owns (other threads run between any two
operations); it must perform one of the allowed transitions, each of which preserves J:
   R -> R+1 (R != MAX)          gains a read token          R -> R-1   gives up an owned read token
   0 -> MAX owning the writer   gains m                     MAX -> 0   owning m, gives it up
   W: 0 -> 1                    gains the writer word       W: any change while owning it, -> 0 gives it up"""
import z3
from .loops import getp as getpath
from .core import *
from .spec import *
from .ops import Unit
from .world import *

LOCKFN = ('ReadLock', 'ReadUnlock', 'WriteLock', 'WriteUnlock', 'CommitLock', 'CommitUnlock')
MAX = (1 << 32) - 1
RELAXED, CONSUME, ACQUIRE, RELEASE, ACQREL, SEQ = range(6)
TRTYPE = {'ReadLock': 4, 'ReadUnlock': 5, 'WriteLock': 7, 'CommitLock': 9, 'CommitUnlock': 10, 'WriteUnlock': 11}
TRWAIT = {'ReadLock': 3, 'WriteLock': 6, 'CommitLock': 8}

class LockHooks(Hooks):
    def __init__(s, _=None): s.w = None
    def access(s, ex, lv, write, loc):
        # members this verifier does not know (statistics, say) are not component data
        if lv.root == 'idx' and lv.path and lv.path[0] in ('readComponents', 'writeComponents', 'readValidEntities', 'writeValidEntities', 'validEntityIndexes'):
            ex.oblige('lock operations do not touch the component data', FALSE, ('C04', 'C08'), loc)
    def contract(s, ex, f, this, args, loc):
        if f['q'].startswith('Tecs::TraceInfo::'):
            if f['name'] != 'Trace': raise Unsup('TraceInfo::' + f['name'])
            t = ex.rd(args[0]) if isinstance(args[0], LV) else args[0]
            if not isint(t): raise Unsup('symbolic trace event')
            s.w.traced(ex, ival(t), loc)
            return (None,)
        return None
    def candidates(s, ex, st0, W_, affine):
        # the wait is recorded once: the count is tied to whatever the loop remembers it by
        if ('nw', ('v',)) not in W_: return []
        out = [('one wait recorded at most', lambda ex, st, k: ex.store['nw'].f['v'] <= 1)]
        for r, p in W_:
            v = getpath(st0[r], p)
            if not isinstance(v, z3.ExprRef) or r in ('nw', 'g', 'owe'): continue
            if z3.is_bool(v):
                out += [('wait recorded iff %s' % r, lambda ex, st, k, r=r, p=p: ex.store['nw'].f['v'] == z3.If(getpath(ex.store[r], p), I(1), I(0))),
                        ('wait recorded iff not %s' % r, lambda ex, st, k, r=r, p=p: ex.store['nw'].f['v'] == z3.If(getpath(ex.store[r], p), I(0), I(1)))]
            elif z3.is_int(v): out.append(('wait recorded iff %s > 0' % r, lambda ex, st, k, r=r, p=p: ex.store['nw'].f['v'] == z3.If(getpath(ex.store[r], p) > 0, I(1), I(0))))
        return out
    def atomic(s, ex, lv, op, args, loc):
        if lv is None: raise Unsup('memory fence')
        if lv.root != 'idx' or lv.path not in (('readers',), ('writer',)): return None
        return (s.w.atomic(ex, 'R' if lv.path[0] == 'readers' else 'W', op, args, loc),)

class LockWorld:
    def __init__(s, fn, pending=False):
        s.fn, s.pending, s.block = fn, pending, None
    def g(s, ex, k): return ival(ex.store['g'].f[k])
    def setg(s, ex, k, v): ex.store['g'] = ex.store['g'].set(k, I(v))
    def owe(s, ex, k): return ex.store['owe'].f[k]
    def setowe(s, ex, k, b): ex.store['owe'] = ex.store['owe'].set(k, b)
    def traced(s, ex, t, loc):
        n = s.g(ex, 'ntr')      # the sequence of recorded events (without waits), in base 16
        if t == TRWAIT.get(s.fn):
            ex.oblige('a wait is recorded before the lock it waits for', TRUE if n == 0 else FALSE, ('C23',), loc)
            ex.store['nw'] = SV({'v': ex.store['nw'].f['v'] + 1}); return
        if n >= 1 << 16: ex.oblige('every lock event is recorded exactly once, with its type', FALSE, ('C23',), loc); raise PathEnd()
        s.setg(ex, 'ntr', n * 16 + t)
    # ------------------------------------------------------------ shared values
    def value(s, ex, which):
        """the current value of a lock word, as far as the tokens owned here determine it"""
        if which == 'W':
            w = s.g(ex, 'w')
            if w: return I(w)
            if s.pending: return I(2)
            v = ex.fresh(Int, 'W'); ex.ranges[v.decl().name()] = (0, 2); ex.assume(land(v >= 0, v <= 2)); return v
        if s.g(ex, 'm'): return I(MAX)
        v = ex.fresh(Int, 'R')
        lo, hi = (1 if s.g(ex, 'rd') else 0), MAX
        ex.ranges[v.decl().name()] = (lo, hi)
        ex.assume(land(v >= lo, v <= hi, v != MAX - 1))
        if s.g(ex, 'rd') or s.g(ex, 'w'): ex.assume(v != MAX)
        return v
    def transition(s, ex, which, old, new, order, loc):
        old = z3.simplify(old); new = z3.simplify(new)
        if ex.proves(old == new): return
        need_acq = need_rel = False
        w, m, rd = s.g(ex, 'w'), s.g(ex, 'm'), s.g(ex, 'rd')
        if which == 'W':
            if w:
                if ex.proves(new == 0):
                    ex.oblige('the commit lock is given up before the write lock', FALSE if m else TRUE, ('C04',), loc)
                    s.setg(ex, 'w', 0); need_rel = True
                elif ex.proves(new == 1): s.setg(ex, 'w', 1)
                elif ex.proves(new == 2): s.setg(ex, 'w', 2)
                else: ex.oblige('the writer word takes one of its three values', FALSE, ('C04',), loc); raise PathEnd()
                if w == 2: s.setowe(ex, 'Wall', TRUE)
                if s.g(ex, 'w') == 0: s.setowe(ex, 'Wone', TRUE)
            else:
                ex.oblige('the write lock is only taken when it is free', old == 0, ('C04',), loc)
                ex.oblige('taking the write lock marks it as locked', new == 1, ('C04', 'C05'), loc)
                if not ex.proves(land(old == 0, new == 1)): raise PathEnd()
                s.setg(ex, 'w', 1); need_acq = True
        else:
            if m:
                ex.oblige('releasing the commit lock frees the readers', new == 0, ('C04',), loc)
                if not ex.proves(new == 0): raise PathEnd()
                s.setg(ex, 'm', 0); need_rel = True
                s.setowe(ex, 'Rall', TRUE)
            elif ex.proves(new == MAX):
                ex.oblige('a commit starts only when no reader is active', old == 0, ('C04',), loc)
                ex.oblige('only the writer commits', TRUE if w else FALSE, ('C04',), loc)
                ex.oblige('a pending commit is announced to new readers', TRUE if w == 2 else FALSE, ('C05',), loc)
                s.setg(ex, 'm', 1); need_acq = True
            elif ex.proves(new == old + 1):
                ex.oblige('no reader gets in during a commit', old != MAX, ('C04',), loc)
                ex.oblige('a thread takes a shared lock once', TRUE if not rd else FALSE, ('C04',), loc)
                if s.pending: ex.oblige('no new reader gets in while a commit is pending', FALSE, ('C05',), loc)
                s.setg(ex, 'rd', 1); need_acq = True
            elif ex.proves(new == old - 1):
                ex.oblige('a shared lock is only given up by its holder', TRUE if rd else FALSE, ('C04',), loc)
                if not rd: raise PathEnd()
                s.setg(ex, 'rd', 0); need_rel = True
                s.setowe(ex, 'Rone', lor(s.owe(ex, 'Rone'), new == 0))
            else: ex.oblige('reader count changes by one lock at a time', FALSE, ('C04',), loc); raise PathEnd()
        if need_acq: ex.oblige('taking a lock synchronizes with its previous holder', TRUE if order in (ACQUIRE, ACQREL, SEQ) else FALSE, ('C08', 'C04'), loc)
        if need_rel: ex.oblige('giving up a lock publishes what was done under it', TRUE if order in (RELEASE, ACQREL, SEQ) else FALSE, ('C08', 'C04'), loc)
    def atomic(s, ex, which, op, args, loc):
        V = lambda a: ex.rd(a) if isinstance(a, LV) else a
        def order(k):
            if len(args) <= k: return SEQ
            o = V(args[k])
            if not isint(o): raise Unsup('symbolic memory order')
            return ival(o)
        if op in ('load', 'conv'): return s.value(ex, which)
        if op in ('store', 'operator='):
            old, new = s.value(ex, which), V(args[0])
            s.transition(ex, which, old, new, order(1) if op == 'store' else SEQ, loc); return new
        if op == 'exchange':
            old = s.value(ex, which); s.transition(ex, which, old, V(args[0]), order(1), loc); return old
        if op in ('fetch_add', 'fetch_sub', 'operator++', 'operator--', 'operator+=', 'operator-='):
            arg = op in ('fetch_add', 'fetch_sub', 'operator+=', 'operator-=')
            d = V(args[0]) if arg else I(1)
            old = s.value(ex, which)
            new = ex.wrap(sub(old, d) if op in ('fetch_sub', 'operator--', 'operator-=') else add(old, d), 32, False)
            s.transition(ex, which, old, new, order(1) if op.startswith('fetch') else SEQ, loc)
            if op in ('operator++', 'operator--') : return old if args else new
            return old if op.startswith('fetch') else new
        if op in ('compare_exchange_weak', 'compare_exchange_strong'):
            exp = args[0]
            cur = s.value(ex, which)
            ok = ex.fork(cur == ex.rd(exp))
            if ok and op.endswith('weak') and ex.choose(2) == 1: return FALSE
            if ok:
                s.transition(ex, which, ex.rd(exp), V(args[1]), order(2), loc)
                return TRUE
            ex.wr(exp, cur); return FALSE
        if op == 'wait':
            v = V(args[0])
            blocks = {'ReadLock': v == (MAX if which == 'R' else 2), 'WriteLock': v != 0 if which == 'W' else FALSE, 'CommitLock': v != 0 if which == 'R' else FALSE}.get(s.fn, FALSE)
            ex.oblige('sleeps only on a value that blocks', blocks, ('C05',), loc)
            if s.block is not None: ex.oblige('a non-blocking attempt never waits', s.block, ('C05', 'C06'), loc)
            s.settled(ex, loc)
            return None
        if op in ('notify_all', 'notify_one'):
            s.setowe(ex, which + 'one', FALSE)
            if op == 'notify_all': s.setowe(ex, which + 'all', FALSE)
            return None
        raise Unsup('atomic ' + op)
    def settled(s, ex, loc=''):
        for k, t in (('Rone', 'a thread waiting for the last reader is woken'), ('Rall', 'threads waiting for the end of a commit are woken'),
                     ('Wone', 'a thread waiting for the write lock is woken'), ('Wall', 'readers held off by a commit are woken')):
            ex.oblige(t, lnot(s.owe(ex, k)), ('C05',), loc)

PRE = {'ReadLock': [(0, 0, 0)], 'WriteLock': [(0, 0, 0)], 'ReadUnlock': [(1, 0, 0)], 'CommitLock': [(0, 1, 0)], 'CommitUnlock': [(0, 2, 1)], 'WriteUnlock': [(0, 1, 0), (0, 2, 1)]}
POST = {'ReadLock': (1, 0, 0), 'WriteLock': (0, 1, 0), 'ReadUnlock': (0, 0, 0), 'CommitLock': (0, 2, 1), 'CommitUnlock': (0, 1, 0), 'WriteUnlock': (0, 0, 0)}
NAMES = {(0, 0, 0): 'nothing held', (1, 0, 0): 'shared lock held', (0, 1, 0): 'write lock held', (0, 2, 1): 'commit lock held'}

def unit(ir, f, pre, pending, tracing):
    fn = f['name']
    def run(ex):
        w = LockWorld(fn, pending)
        ex.hooks.w = w
        ex.store['idx'] = ex.fresh_val(ir.shape(f['parent']), 'idx')
        ex.store['g'] = SV({'rd': I(pre[0]), 'w': I(pre[1]), 'm': I(pre[2]), 'ntr': I(0)})
        ex.store['nw'] = SV({'v': I(0)})
        ex.store['owe'] = SV({k: FALSE for k in ('Rone', 'Rall', 'Wone', 'Wall')})
        args = []
        if f['params']:
            if ir.ty(ir.strip(f['params'][0]['t']))['k'] != 'bool': raise Unsup('lock parameter')
            w.block = ex.fresh(Bool, 'block'); args = [w.block]
        idx0 = ex.store['idx']
        P = ('C04',)
        ret = None
        try: ret = ex.call(f['id'], LV('idx'), args)
        except ThrowEx:
            ex.oblige('does not throw when used as documented', FALSE, ('C04', 'C05', 'C07')); return
        got = (w.g(ex, 'rd'), w.g(ex, 'w'), w.g(ex, 'm'))
        granted = TRUE
        if f['params']:
            granted = ex.tobool(ret)
            ex.oblige('reports success exactly when the lock was granted', granted == (TRUE if got == POST[fn] else FALSE), P)
            ex.oblige('a failed attempt changes nothing', lor(granted, TRUE if got == pre else FALSE), P)
            ex.oblige('a blocking attempt returns only with the lock', lor(lnot(w.block), granted), P + ('C06',))
        else: ex.oblige('leaves exactly the locks of its contract', TRUE if got == POST[fn] else FALSE, P)
        w.settled(ex)
        for e in eq_tree(SV({k: v for k, v in idx0.f.items() if k not in ('readers', 'writer')}), SV({k: v for k, v in ex.store['idx'].f.items() if k not in ('readers', 'writer')})):
            ex.oblige('nothing but the lock words changes', e, P + ('C08',))
        if tracing:
            seq = []
            x = w.g(ex, 'ntr')
            while x: seq.insert(0, x % 16); x //= 16
            ex.oblige('every lock event is recorded exactly once, with its type', TRUE if seq == ([TRTYPE[fn]] if z3.is_true(z3.simplify(granted)) else []) else FALSE, ('C23',))
            ex.oblige('a wait is recorded at most once', ex.store['nw'].f['v'] <= 1, ('C23',))
    return run

def units(ir, cfg):
    us = []
    tracing = 'TRACING' in cfg
    for f in ir.funcs.values():
        if f['name'] not in LOCKFN or not (f.get('parent') or '').startswith('Tecs::ComponentIndex<') or 'body' not in f: continue
        c = f['parent'][len('Tecs::ComponentIndex<'):-1].replace('v::', '')
        if 'EntityMetadata' in c: c = 'entities'
        for pre in PRE[f['name']]:
            for pend in ((False, True) if f['name'] == 'ReadLock' else (False,)):
                u = Unit('%s of %s [%s%s]' % (f['name'], c, NAMES[pre], ', commit pending' if pend else ''), cfg, (), unit(ir, f, pre, pend, tracing), f)
                u.hooks = LockHooks
                us.append(u)
    return us
