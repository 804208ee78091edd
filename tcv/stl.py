"""Assumed contracts of the standard-library operations the library uses (trusted base)."""
import z3
from .core import *

def val(ex, a, loc=''):
    return ex.rd(a, loc=loc) if isinstance(a, LV) else a

def argt(ex, f, i=0):
    """type key of container parent template argument i"""
    return ex.ir.ty(ex.ir.strip(f['parent']))['args'][i]['t']

def make(ex, tkey, args, loc):
    """construct a T from these arguments"""
    tkey = ex.ir.strip(tkey)
    t = ex.ir.ty(tkey)
    if t['k'] in ('int', 'enum', 'bool', 'ptr'):
        return val(ex, args[0], loc) if args else default_val(ex.ir.shape(tkey))
    n = t['name']
    if n.startswith(ex.ir.OPAQUE_NS):
        return opaque_ctor(ex, n, [val(ex, a, loc) for a in args], None)
    if n in ('std::shared_ptr', 'std::weak_ptr'):
        return val(ex, args[0], loc) if args else default_val(ex.ir.shape(tkey)) if ex.ir.shape(tkey)[0] != 'py' else NULL
    if not t.get('user'):
        if len(args) == 1: return val(ex, args[0], loc)
        if not args: return default_val(ex.ir.shape(tkey))
        raise Unsup('construct ' + tkey)
    if len(args) == 1:
        v = val(ex, args[0], loc)
        if isinstance(v, SV): return v
    base = tkey[6:] if tkey.startswith('const ') else tkey
    cands = [f for (p, nm), l in ex.ir.byparent.items() if p == base for f in l if f.get('ctor') == 'other' or (f.get('ctor') == 'default' and not args)
             if len(f['params']) == len(args)]
    cands = [f for f in cands if f['ctor'] not in ('copy', 'move')]
    if len(cands) > 1:
        def ok(f):
            for p, a in zip(f['params'], args):
                pk = ex.ir.ty(ex.ir.strip(p['t']))['k']; v = val(ex, a, loc)
                isrec = isinstance(v, SV)
                if (pk == 'rec') != isrec and not (pk == 'rec' and isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_UNINTERPRETED_SORT): return False
            return True
        cands = [f for f in cands if ok(f)]
    if not cands:
        if not args: return ex.default_construct(tkey)
        raise Unsup('no constructor of %s with %d arguments' % (tkey, len(args)))
    lv = ex.new_root('emp', ex.uninit(ex.ir.shape(tkey)))
    f = cands[0]
    conv = []
    for p, a in zip(f['params'], args):
        pt = ex.ir.ty(p['t'])
        if pt['k'] in ('lref', 'rref'): conv.append(a)
        else:
            v = val(ex, a, loc)
            if pt['k'] in ('int', 'enum') and isinstance(v, z3.ExprRef): v = ex.wrap(v if not z3.is_bool(v) else z3.If(v, I(1), I(0)), pt['w'], pt['s'])
            conv.append(v)
    ex.call(f['id'], lv, conv, loc)
    return ex.store.pop(lv.root)

def opaque_ctor(ex, n, args, f):
    srt = opsort(n)
    if not args: return z3.Const('dflt_' + n.replace('::', '_'), srt)
    if len(args) == 1 and isinstance(args[0], z3.ExprRef) and args[0].sort() == srt: return args[0]
    args = [a for a in args if isinstance(a, z3.ExprRef)]
    return z3.Function('make_%s_%d' % (n.replace('::', '_'), len(args)), *[a.sort() for a in args], srt)(*args)

def csize(ex, lv, vec):
    """(first position, one-past-last position)"""
    v = ex.get(lv)
    if set(v.f) == {'data'}:       # std::array modelled as a whole: its length is fixed
        n = ex.arrlen.get(lv.root)
        if n is None: raise Unsup('length of a std::array')
        return I(0), I(n)
    return (I(0), v.f['size']) if 'size' in v.f else (v.f['b'], v.f['e'])
def isvec(ex, lv): return 'size' in ex.get(lv).f

def iter_elem(ex, it, loc):
    pos = it.pos if not it.rev else sub(it.pos, I(1))
    b, e = csize(ex, it.lv, None)
    ex.hooks.access(ex, it.lv, False, loc)
    ex.oblige('iterator dereference in bounds', land(pos >= b, pos < e), ('mem',), loc)
    return ex.elem(it.lv, pos)

def addr(ex, v):
    if isinstance(v, LV) and v.path and isinstance(v.path[-1], tuple) and len(v.path) >= 2 and v.path[-2] == 'data':
        return Iter(LV(v.root, v.path[:-2], v.eps[:-1]), v.path[-1][1])
    return v

def ilist(ex, t, args, e):
    n = t['name']
    if n == 'std::vector' and not args: return default_val(ex.ir.shape(e['t']))
    if n == 'std::hash': return OPAQUE
    if n == 'std::optional': return Opt(False, None)
    if not args: return default_val(ex.ir.shape(e['t']))
    if n.startswith(ex.ir.OPAQUE_NS): return opaque_ctor(ex, n, [val(ex, a) for a in args], None)
    if n in ('std::vector', 'nonstd::span_lite::span', 'std::span', 'std::map'):
        return SV({'items': SV(dict(enumerate(val(ex, a) for a in args)))})
    raise Unsup('init list of ' + n)

class Opt:
    def __init__(s, has, v): s.has, s.v = has, v
NULLOPT = Opt(False, None)
class BackIns:
    def __init__(s, lv): s.lv = lv
    def __repr__(s): return 'BackIns(%r)' % s.lv
def isvec(ex, lv): return 'size' in ex.get(lv).f
def same_range(ex, lv, new, cur):
    for (_, na), (_, ca) in zip(leaves(new), leaves(cur)):
        d = ex.ranges.get(ca.decl().name()) if ca.num_args() == 0 else ex.root_range(ca)
        if d: ex.ranges[na.decl().name()] = d
def put_range(ex, o, at, a, b, loc, grow):
    """elements [a,b) of another container stored at positions at.. of o (appended if grow)"""
    if a.rev or b.rev or not same(a.lv, b.lv): raise Unsup('copied range')
    if same(a.lv, o) or len(a.lv.path) != len(o.path): raise Unsup('copy within a container')
    if a.lv.key() == o.key(): ex.oblige('copied range belongs to another container', lor(*[x[1] != y[1] for x, y in zip(a.lv.path, o.path) if isinstance(x, tuple)]), ('mem',), loc)
    ex.check_eps(o, loc); ex.check_eps(a.lv, loc); ex.hooks.access(ex, o, True, loc); ex.hooks.access(ex, a.lv, False, loc)
    cnt = sub(b.pos, a.pos)
    ex.oblige('valid range', a.pos <= b.pos, ('mem',), loc)
    beg, en = csize(ex, o, None)
    sb, se = csize(ex, a.lv, None)
    ex.oblige('source range in bounds', land(sb <= a.pos, b.pos <= se), ('mem',), loc)
    if not grow: ex.oblige('destination range in bounds', land(beg <= at, add(at, cnt) <= en), ('mem',), loc)
    cur = ex.get(o).f['data']; src = ex.get(a.lv).f['data']
    if not isinstance(cur, Lift) or not isinstance(src, Lift): raise Unsup('copied range')
    new = map_leaves(lambda x: z3.Const(ex.name('copied'), x.sort()), cur)
    same_range(ex, o, new, cur)
    j = z3.Int('j')
    for (_, na), (_, ca), (_, sa) in zip(leaves(new), leaves(cur), leaves(src)):
        ex.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(land(j >= at, j < at + cnt), z3.Select(sa, j - at + a.pos), z3.Select(ca, j)), patterns=[z3.Select(na, j)]))
    if grow: ex.bump(o)
    ex.put(o.fld('data'), new)
    if grow:
        ex.put(o.fld('size' if isvec(ex, o) else 'e'), add(en, cnt))
        ex.assume(add(en, cnt) <= BIG)
    return add(at, cnt)
def py(fn, l=''): return {'k': 'Py', 'fn': fn, 'l': l}
def walk(ex, e, a, b, step, loc):
    """for (it = a; it != b; ++it) step(it)   -> iterator where it stopped; step returns True to stop there"""
    if not isinstance(a, Iter) or not isinstance(b, Iter) or not same(a.lv, b.lv) or a.rev != b.rev: raise Unsup('algorithm over this range')
    from . import loops
    it = ex.new_root('it', a); end = ex.new_root('end', b); hit = ex.new_root('hit', FALSE)
    nodes = ex.ir.__dict__.setdefault('_pyloops', {})
    key = id(e)
    if key not in nodes:
        st = {}
        n = {'k': 'PyLoop', 'call': e, 'st': st, 'l': loc}
        n['c'] = py(lambda: z3.simplify(st['ex'].get(st['it']).pos != st['ex'].get(st['end']).pos))
        n['inc'] = py(lambda: st['ex'].put(st['it'], Iter(st['ex'].get(st['it']).lv, add(st['ex'].get(st['it']).pos, I(1)))))
        n['body'] = py(lambda: st['step'](st['ex'].get(st['it'])))
        nodes[key] = (n, e)
    n = nodes[key][0]
    if a.rev: raise Unsup('algorithm over a reversed range')
    n['st'].update(ex=ex, it=it, end=end, step=lambda i: brk(step(i)))
    def brk(stop):
        if stop:
            ex.put(hit, TRUE)
            raise BreakEx()
    loops.run(ex, n, n['c'], n['inc'], n['body'], False)
    return ex.get(it)
def pure_pred(ex, c, lv, loc):
    """formula of a side-effect free predicate over the elements of lv -> function of the position"""
    i = z3.Int(ex.name('elt'))
    got = []
    def run():
        ex.dry += 1
        try:
            before = dict(ex.store); pc0 = len(ex.pc); syms = set()
            from .loops import symbols
            r = ex.call_closure(c, [ex.elem(lv, i)], loc)
            r = ex.rd(r) if isinstance(r, LV) else r
            for k, v in before.items():
                if not same(ex.store.get(k), v): raise Unsup('predicate with side effects')
            got.append((land(*[f for f in ex.pc[pc0:] if f.get_id() not in ex.implied]), ex.tobool(r)))
        finally: ex.dry -= 1
    ex.sub_explore(run)
    f = lor(*[land(a, b) for a, b in got])
    return lambda p: z3.substitute(f, (i, p))

def first_where(ex, b, en, c, neg, loc):
    """first position of [b,en) whose element satisfies (neg: fails) a side-effect free predicate; None if the predicate is not of that kind"""
    if not isinstance(b, Iter) or not isinstance(en, Iter) or not same(b.lv, en.lv) or b.rev or en.rev or not isinstance(c, Closure): return None
    try: pred = pure_pred(ex, c, b.lv, loc)
    except (Unsup, ThrowEx): return None
    lo, hi = csize(ex, b.lv, None)
    ex.oblige('valid range', land(lo <= b.pos, b.pos <= en.pos, en.pos <= hi), ('mem',), loc)
    ex.hooks.access(ex, b.lv, False, loc)
    def inside():       # what the predicate itself relies on, for an arbitrary element
        i = ex.fresh(Int, 'elt'); ex.assume(land(i >= b.pos, i < en.pos))
        ex.call_closure(c, [ex.elem(b.lv, i)], loc)
    ex.sub_explore(inside)
    p = (lambda i: lnot(pred(i))) if neg else pred
    r = ex.fresh(Int, 'found'); j = z3.Int('j')
    ex.assume(land(r >= b.pos, r <= en.pos))
    ex.assume(imp_(r < en.pos, p(r)))
    ex.assume(z3.ForAll([j], z3.Implies(land(j >= b.pos, j < r), lnot(p(j)))))
    return Iter(b.lv, r)
def imp_(a, b): return z3.Implies(a, b)
def construct(ex, e, args):
    """constructor call of a library type -> value"""
    t = ex.ir.ty(ex.ir.strip(e['t']))
    n = t['name']
    loc = e.get('l', '')
    f = ex.ir.fn(e['f'])
    sh = ex.ir.shape(ex.ir.strip(e['t']))
    if n == 'std::bitset':
        N = t['args'][0]['i']
        if not args: return default_val(sh)
        v = val(ex, args[0], loc)
        if isinstance(v, SV): return SV({i: v.f[i] for i in range(N)})
        if isint(v): return SV({i: z3.BoolVal(bool(ival(v) >> i & 1)) for i in range(N)})
        return SV({i: (v / I(1 << i)) % 2 == 1 for i in range(N)})
    if n in ('std::vector', 'std::deque'):
        if len(args) > 1 and val(ex, args[-1]) is OPAQUE: args = args[:-1]      # allocator
        if not args: return default_val(sh)
        if len(args) == 1 and isinstance(val(ex, args[0]), SV) and set(val(ex, args[0]).f) == set(range(len(val(ex, args[0]).f))):
            return SV({'items': val(ex, args[0])})      # from a list of values
        if len(args) == 1:
            v = val(ex, args[0], loc)
            if isinstance(v, SV): emptied(ex, f, None, args[0], loc); return v
            if isinstance(v, z3.ExprRef): return default_val(sh).set('size', v)
        raise Unsup('container constructor')
    if n in ('std::shared_ptr', 'std::weak_ptr'):
        if not args: return NULL if sh[0] == 'py' else I(0)
        v = val(ex, args[0], loc)
        moved_ptr(ex, f, None, args[0], loc)
        return (I(0) if sh[0] != 'py' else NULL) if v is NULL else v
    if n == 'std::function':
        if not args: return NULL
        return val(ex, args[0], loc)
    if n == 'std::nullopt_t': return NULLOPT
    if n == 'std::optional':
        if not args: return Opt(False, None)
        v = val(ex, args[0], loc)
        if v is NULLOPT: return Opt(False, None)
        if isinstance(v, Opt): return v
        return Opt(True, v)
    if n in ('__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::__atomic_base', 'std::atomic'):
        if not args: return default_val(sh)
        v = val(ex, args[0], loc)
        if n in ('std::atomic', 'std::__atomic_base'): return SV({'v': v})
        return v
    if n == 'std::reverse_iterator':
        if not args: raise Unsup('reverse_iterator')
        v = val(ex, args[0], loc)
        return SV({'current': v}) if not (isinstance(v, SV) and 'current' in v.f) else v
    if n in ('std::tuple', 'std::array', 'std::pair'):
        if not args: return default_val(sh)
        v = val(ex, args[0], loc)
        if len(args) == 1 and isinstance(v, SV): return v
        ts = [x.get('t') for x in flat(ex.ir.ty(ex.ir.strip(f['parent'])).get('args') or [])] if n != 'std::array' else []
        ref = lambda i: i < len(ts) and ts[i] and ex.ir.ty(ts[i])['k'] in ('lref', 'rref')
        return SV({i: a if ref(i) and isinstance(a, LV) else val(ex, a, loc) for i, a in enumerate(args)})
    if n in ('std::hash', 'std::map'): return OPAQUE
    if n in ('std::basic_string', 'std::runtime_error', 'std::allocator', 'std::logic_error'): return OPAQUE
    if n in ('nonstd::span_lite::span', 'std::span'):
        if len(args) == 1: return val(ex, args[0], loc)
        return SV({'it': val(ex, args[0], loc), 'n': val(ex, args[1], loc)})
    if n.startswith(ex.ir.OPAQUE_NS): return opaque_ctor(ex, n, [val(ex, a, loc) for a in args], f)
    if len(args) == 1 and sh[0] == 'op': return val(ex, args[0], loc)
    if not args and sh[0] == 'op': return default_leaf(sh)
    raise Unsup('constructor of ' + n)

def emptied(ex, f, o, src, loc):
    """a container which is moved from is left empty"""
    ps = f.get('params') or []
    if not isinstance(src, LV) or not ps or ex.ir.ty(ps[0]['t'])['k'] != 'rref' or o is not None and o.key() == src.key(): return
    ex.bump(src); ex.wr(src, default_val(ex.ir.shape(ex.ir.strip(f['parent']))), loc=loc)
def moved_ptr(ex, f, o, src, loc):
    """a pointer which is moved from is left null"""
    ps = f.get('params') or []
    if not isinstance(src, LV) or not ps or ex.ir.ty(ps[0]['t'])['k'] != 'rref' or o is not None and o.key() == src.key(): return
    ex.wr(src, I(0) if isinstance(ex.get(src), z3.ExprRef) else NULL, loc=loc)
def setc(ex, lv, loc, **kw):
    """update container fields; checks access rights once"""
    ex.check_eps(lv, loc)
    ex.hooks.access(ex, lv, True, loc)
    v = ex.get(lv)
    for k, x in kw.items(): v = v.set(k, x)
    ex.put(lv, v)

def fresh_elems(ex, tkey, base):
    return Lift(ex.fresh_val(ex.ir.shape(tkey), base, 1))

def push(ex, f, o, v, loc):
    if isvec(ex, o):
        n = ex.get(o).f['size']
        ex.check_eps(o, loc); ex.hooks.access(ex, o, True, loc)
        ex.bump(o)
        lv = ex.elem(o, n)
        ex.put(lv, v)
        ex.put(o.fld('size'), add(n, I(1)))
        ex.assume(add(n, I(1)) <= BIG)
        return lv
    e = ex.get(o).f['e']
    ex.check_eps(o, loc); ex.hooks.access(ex, o, True, loc)
    lv = ex.elem(o, e)
    ex.put(lv, v)
    ex.put(o.fld('e'), add(e, I(1)))
    ex.assume(add(e, I(1)) <= BIG)
    return lv

def container(ex, f, o, args, loc, name, e):
    rd = lambda: (ex.check_eps(o, loc), ex.hooks.access(ex, o, False, loc))
    vec = isvec(ex, o)
    if name == 'size':
        rd(); v = ex.get(o)
        return v.f['size'] if vec else sub(v.f['e'], v.f['b'])
    if name == 'empty':
        rd(); v = ex.get(o)
        return z3.simplify(v.f['size'] == 0) if vec else z3.simplify(v.f['e'] == v.f['b'])
    if name in ('begin', 'cbegin', 'data'):
        rd(); return Iter(o, csize(ex, o, None)[0])
    if name in ('end', 'cend'):
        rd(); return Iter(o, csize(ex, o, None)[1])
    if name in ('operator[]', 'at'):
        rd(); i = val(ex, args[0], loc)
        b, en = csize(ex, o, None)
        if name == 'at':
            if not ex.fork(land(i >= 0, i < sub(en, b))): raise ThrowEx('std::out_of_range')
        else:
            p = ('mem', 'index')
            ex.oblige('container index in bounds', land(i >= 0, i < sub(en, b)), p, loc)
        return ex.elem(o, add(b, i) if not vec else i)
    if name in ('front', 'back'):
        rd(); b, en = csize(ex, o, None)
        ex.oblige(name + '() on a non-empty container', b < en, ('mem',), loc)
        return ex.elem(o, b if name == 'front' else sub(en, I(1)))
    if name == 'pop_front':
        b, en = csize(ex, o, None)
        ex.oblige('pop_front() on a non-empty container', b < en, ('mem',), loc)
        ex.bump(o); setc(ex, o, loc, b=add(b, I(1))); return None
    if name == 'pop_back':
        b, en = csize(ex, o, None)
        ex.oblige('pop_back() on a non-empty container', b < en, ('mem',), loc)
        ex.bump(o)
        if vec:
            ex.check_eps(o, loc); ex.hooks.access(ex, o, True, loc)
            ex.put(ex.elem(o, sub(en, I(1))), default_val(ex.ir.shape(argt(ex, f))))
            ex.put(o.fld('size'), sub(en, I(1)))
        else: setc(ex, o, loc, e=sub(en, I(1)))
        return None
    if name in ('emplace_back', 'push_back'):
        v = make(ex, argt(ex, f), args, loc)
        return push(ex, f, o, v, loc)
    if name in ('emplace_front', 'push_front') and not vec:
        v = make(ex, argt(ex, f), args, loc)
        b, en = csize(ex, o, None)
        ex.check_eps(o, loc); ex.hooks.access(ex, o, True, loc)
        ex.put(ex.elem(o, sub(b, I(1))), v); ex.put(o.fld('b'), sub(b, I(1)))
        return ex.elem(o, sub(b, I(1)))
    if name == 'clear':
        ex.bump(o)
        if vec: setc(ex, o, loc, size=I(0), data=Lift(default_val(ex.ir.shape(argt(ex, f)), 1)))
        else: setc(ex, o, loc, e=ex.get(o).f['b'])
        return None
    if name in ('reserve', 'shrink_to_fit'):
        ex.hooks.access(ex, o, True, loc); ex.bump(o); return None
    if name == 'resize' and vec:
        n = val(ex, args[0], loc)
        old = ex.get(o).f['size']
        ex.bump(o)
        ex.assume(n <= BIG)
        with_v = val(ex, args[1], loc) if len(args) > 1 else None
        if isinstance(with_v, LV): with_v = ex.get(with_v)
        if ex.fork(n >= old):
            # appended elements are value-initialised, or copies of the given value
            new = fresh_elems(ex, argt(ex, f), 'grown')
            cur = ex.get(o).f['data']
            j = z3.Int('j')
            dv = [z3.Select(d, j) for _, d in leaves(Lift(default_val(ex.ir.shape(argt(ex, f)), 1)))] if with_v is None else [d for _, d in leaves(with_v)]
            for (p, a), (_, b) , d in zip(leaves(new), leaves(cur), dv):
                ex.assume(z3.ForAll([j], z3.Select(a, j) == z3.If(land(j >= old, j < n), d, z3.Select(b, j)), patterns=[z3.Select(a, j)]))
            setc(ex, o, loc, size=n, data=new)
        else:
            sh = ex.ir.shape(argt(ex, f))
            new = fresh_elems(ex, argt(ex, f), 'shrunk')
            cur = ex.get(o).f['data']
            j = z3.Int('j')
            for (p, a), (_, b) , (_, d) in zip(leaves(new), leaves(cur), leaves(Lift(default_val(sh, 1)))):
                ex.assume(z3.ForAll([j], z3.Select(a, j) == z3.If(j < n, z3.Select(b, j), z3.Select(d, j)), patterns=[z3.Select(a, j)]))
            setc(ex, o, loc, size=n, data=new)
        return None
    if name == 'swap':
        a, b = o, args[0]
        ex.bump(a); ex.bump(b)
        for x in (a, b): ex.check_eps(x, loc); ex.hooks.access(ex, x, True, loc)
        x, y = ex.get(a), ex.get(b)
        ex.put(a, y); ex.put(b, x); return None
    if name == 'operator=':
        src = args[0]
        v = val(ex, src, loc)
        if not isinstance(v, SV): raise Unsup('container assignment')
        ex.bump(o); ex.wr(o, v, loc=loc)
        emptied(ex, f, o, src, loc)
        return o
    if name == 'assign' and vec and len(args) == 2 and all(isinstance(val(ex, a), Iter) for a in args):
        a, b = (val(ex, x) for x in args)
        if not same(a.lv, b.lv) or a.rev or b.rev or a.lv.key() == o.key(): raise Unsup('assigned range')
        ex.check_eps(o, loc); ex.hooks.access(ex, o, True, loc); ex.hooks.access(ex, a.lv, False, loc)
        sb, se = csize(ex, a.lv, None)
        ex.oblige('valid range', land(sb <= a.pos, a.pos <= b.pos, b.pos <= se), ('mem',), loc)
        cnt = sub(b.pos, a.pos); src = ex.get(a.lv).f['data']
        if isint(a.pos) and ival(a.pos) == 0 and same(b.pos, se): new = src
        else:
            new = fresh_elems(ex, argt(ex, f), 'assigned'); j = z3.Int('j')
            for (_, na), (_, sa), (_, d) in zip(leaves(new), leaves(src), leaves(Lift(default_val(ex.ir.shape(argt(ex, f)), 1)))):
                ex.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(land(j >= 0, j < cnt), z3.Select(sa, j + a.pos), z3.Select(d, j)), patterns=[z3.Select(na, j)]))
        ex.bump(o); ex.put(o.fld('data'), new); ex.put(o.fld('size'), cnt)
        return None
    if name == 'insert':
        # insert(end, first, last): append a range of another container
        if len(args) == 3 and all(isinstance(val(ex, a), Iter) for a in args):
            p, a, b = (val(ex, x) for x in args)
            en = csize(ex, o, None)[1]
            ex.oblige('range insertion at the end', p.pos == en, ('model',), loc)
            if not same(a.lv, b.lv): raise Unsup('insert range')
            ex.check_eps(o, loc); ex.hooks.access(ex, o, True, loc); ex.hooks.access(ex, a.lv, False, loc)
            srcb, srce = a.pos, b.pos
            cnt = sub(srce, srcb)
            ex.oblige('valid range', srcb <= srce, ('mem',), loc)
            cur = ex.get(o).f['data']; src = ex.get(a.lv).f['data']
            new = fresh_elems(ex, argt(ex, f), 'appended')
            j = z3.Int('j')
            for (_, na), (_, ca), (_, sa) in zip(leaves(new), leaves(cur), leaves(src)):
                ex.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(land(j >= en, j < en + cnt), z3.Select(sa, j - en + srcb), z3.Select(ca, j)), patterns=[z3.Select(na, j)]))
            ex.bump(o)
            ex.put(o.fld('data'), new)
            ex.put(o.fld('size' if vec else 'e'), add(en, cnt))
            ex.assume(add(en, cnt) <= BIG)
            return p
        raise Unsup('insert')
    if name == 'erase':
        its = [val(ex, a) for a in args]
        if len(its) == 2 and all(isinstance(x, Iter) for x in its):
            a, b = its
            en = csize(ex, o, None)[1]
            beg = csize(ex, o, None)[0]
            ex.oblige('valid erase range', land(beg <= a.pos, a.pos <= b.pos, b.pos <= en), ('mem',), loc)
        elif len(its) == 1:
            a = its[0]; b = Iter(a.lv, add(a.pos, I(1)))
            en = csize(ex, o, None)[1]; beg = csize(ex, o, None)[0]
            ex.oblige('valid erase position', land(beg <= a.pos, a.pos < en), ('mem',), loc)
        else: raise Unsup('erase')
        cnt = sub(b.pos, a.pos)
        cur = ex.get(o).f['data']
        sh = ex.ir.shape(argt(ex, f))
        new = fresh_elems(ex, argt(ex, f), 'erased')
        j = z3.Int('j')
        for (_, na), (_, ca), (_, d) in zip(leaves(new), leaves(cur), leaves(Lift(default_val(sh, 1)))):
            ex.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(j < a.pos, z3.Select(ca, j), z3.If(j < en - cnt, z3.Select(ca, j + cnt), z3.Select(d, j))), patterns=[z3.Select(na, j)]))
        ex.bump(o); ex.check_eps(o, loc); ex.hooks.access(ex, o, True, loc)
        ex.put(o.fld('data'), new); ex.put(o.fld('size' if vec else 'e'), sub(en, cnt))
        return Iter(o, a.pos)
    if name in ('(dtor)',) or name.startswith('~'): return None
    raise Unsup('container operation ' + name)

def atomic(ex, f, o, args, loc, name):
    r = ex.hooks.atomic(ex, o, name, args, loc)
    if r is not None: return r[0]
    return atomic_plain(ex, f, o, args, loc, name)

def atomic_plain(ex, f, o, args, loc, name, cell=None):
    """sequential semantics of one atomic operation"""
    c = o.fld('v')
    t = ex.ir.shape(ex.ir.ty(ex.ir.strip(f['parent']))['args'][0]['t']) if f.get('parent') and ex.ir.ty(ex.ir.strip(f['parent'])).get('args') else ('int', 32, False)
    cur = ex.rd(c, loc=loc)
    W = lambda v: ex.wr(c, v, loc=loc)
    A = [val(ex, a, loc) for a in args]
    if name in ('load', 'conv'): return cur
    if name in ('store', 'operator='):
        W(A[0]); return A[0]
    if name == 'exchange': W(A[0]); return cur
    if name in ('fetch_add', 'fetch_sub', 'operator++', 'operator--', 'operator+=', 'operator-='):
        d = A[0] if name in ('fetch_add', 'fetch_sub', 'operator+=', 'operator-=') else I(1)
        neg = name in ('fetch_sub', 'operator--', 'operator-=')
        new = ex.wrap(sub(cur, d) if neg else add(cur, d), t[1], t[2])
        W(new)
        if name in ('fetch_add', 'fetch_sub'): return cur
        if name in ('operator++', 'operator--') and args: return cur   # postfix
        return new
    if name in ('compare_exchange_weak', 'compare_exchange_strong'):
        exp = args[0]
        ok = ex.fork(cur == ex.rd(exp))
        if ok and name.endswith('weak') and ex.choose(2) == 1:
            return FALSE
        if ok: W(A[1]); return TRUE
        ex.wr(exp, cur); return FALSE
    if name in ('wait', 'notify_all', 'notify_one'): return None
    raise Unsup('atomic ' + name)

def call(ex, f, o, args, loc, e=None):
    q = f['q']; name = f['name']
    if f.get('conv') or name.startswith('operator ') : name = 'conv'
    cls = q.rsplit('::', 1)[0]
    if cls in ('std::vector', 'std::deque'):
        if f.get('ctor'): return construct(ex, e, args)
        return container(ex, f, o, args, loc, name, e)
    if cls in ('std::__atomic_base', 'std::atomic', 'std::__atomic_ref'):
        return atomic(ex, f, o, args, loc, name)
    if cls == 'std::bitset' or cls == 'std::bitset::reference' or (cls == 'std' and name in ('operator&', 'operator|', 'operator^') ):
        return bitset(ex, f, o, args, loc, name, cls)
    if cls in ('std::__shared_ptr_access', 'std::shared_ptr', 'std::__shared_ptr', 'std::weak_ptr', 'std::__weak_ptr', 'std::__shared_count'):
        return shared(ex, f, o, args, loc, name, cls)
    if cls in ('__gnu_cxx::__normal_iterator', '__gnu_cxx', 'std::_Deque_iterator', 'std::reverse_iterator') or (cls == 'std' and args and name.startswith('operator') and (lambda v: isinstance(v, Iter) or isinstance(v, SV) and 'current' in v.f)(val(ex, args[0]))):
        return iterop(ex, f, o, args, loc, name, cls)
    if cls == 'std::function':
        if name == 'operator()':
            c = val(ex, o, loc)
            if c is NULL: ex.oblige('call through an empty function', FALSE, ('mem',), loc); raise PathEnd()
            fs = [g for (p, n), l in ex.ir.byparent.items() if p == 'lambda#%s' % c.rid and n == 'operator()' for g in l if 'body' in g]
            return ex.call_closure(c, [a for a in args], loc)
        if name == 'conv': return FALSE if val(ex, o) is NULL else TRUE
        if name == 'operator=': ex.wr(o, val(ex, args[0])); return o
    if cls == 'std::optional':
        v = val(ex, o, loc)
        if name in ('has_value', 'conv'): return TRUE if v.has else FALSE
        if name in ('operator*', 'value', 'operator->'):
            if not v.has: raise Unsup('empty optional')
            return ex.new_root('opt', v.v)
        if name == 'reset': ex.wr(o, NULLOPT); return None
        if name == 'operator=':
            w = val(ex, args[0], loc)
            ex.wr(o, w if isinstance(w, Opt) else Opt(True, w)); return o
        if name == 'emplace':
            raise Unsup('optional::emplace')
    if cls == 'std::array':
        if name in ('operator[]', 'at'):
            a = ex.get(o)
            i = val(ex, args[0], loc)
            n = ex.arrlen[o.root] = ex.ir.ty(ex.ir.strip(f['parent']))['args'][1]['i']
            ex.oblige('array index in bounds', land(i >= 0, i < n), ('mem', 'index'), loc)
            if 'data' in a.f: return ex.elem(o, i)
            if not isint(i): raise Unsup('symbolic std::array index')
            return o.fld(ival(i))
        n = ex.arrlen[o.root] = ex.ir.ty(ex.ir.strip(f['parent']))['args'][1]['i']
        if name in ('begin', 'cbegin', 'data'): return Iter(o, I(0))
        if name in ('end', 'cend'): return Iter(o, I(n))
        if name in ('size', 'max_size'): return I(n)
        if name == 'empty': return z3.BoolVal(n == 0)
    if name == 'operator=' and cls in ('std::thread::id', 'std::chrono::time_point') and o is not None:
        ex.wr(o, val(ex, args[0], loc), loc=loc); return o
    if cls in ('std::numeric_limits',): raise Unsup('numeric_limits call')
    if cls == 'std':
        return stdfn(ex, f, o, args, loc, name, e)
    if cls in ('std::this_thread', 'std::chrono::_V2::steady_clock', 'std::chrono::steady_clock', 'std::thread') or q.startswith('std::chrono'):
        if name == 'yield': 
            ex.hooks.atomic(ex, None, 'yield', [], loc); return None
        sh = ex.ir.shape(f['ret'])
        return ex.hooks.contract(ex, f, o, args, loc) or ex.fresh_val(sh, name)
    if cls in ('std::basic_string', 'std::__cxx11::basic_string', 'std::runtime_error', 'std::type_info', 'std::basic_ostream', 'std::allocator'): return OPAQUE
    if cls.startswith('nonstd'):
        if f.get('ctor'): return construct(ex, e, args)
        raise Unsup(q)
    if cls == 'std::hash' and name == 'operator()': return val(ex, args[0], loc)
    if name.startswith('~') or f.get('dtor'): return None
    if cls.startswith(ex.ir.OPAQUE_NS):
        if name == 'operator=':
            v = val(ex, args[0], loc)
            if not isinstance(v, z3.ExprRef): v = default_leaf(('op', cls))
            ex.wr(o, v, loc=loc)
            ex.moved_from(f, args[0], loc); return o
        if name == '(dtor)': return None
    if cls in ('std::integral_constant',): return TRUE if 'true' in str(f.get('parent')) else FALSE
    raise Unsup('library function ' + q)

def bitset(ex, f, o, args, loc, name, cls):
    if cls == 'std::bitset::reference':
        # o evaluates to the lvalue of the bit itself
        while isinstance(o, LV) and isinstance(ex.get(o), LV): o = ex.get(o)
        if name == 'operator=':
            ex.wr(o, val(ex, args[0], loc), loc=loc); return o
        if name == 'conv': return ex.rd(o, loc=loc)
        if name == 'operator~': return lnot(ex.rd(o, loc=loc))
        if name == 'flip': ex.wr(o, lnot(ex.rd(o, loc=loc)), loc=loc); return o
        raise Unsup('bitset::reference::' + name)
    bits = lambda v: {k: x for k, x in v.f.items() if isinstance(k, int)}
    if cls == 'std':
        a, b = (bits(val(ex, x, loc)) for x in args)
        op = {'operator&': land, 'operator|': lor, 'operator^': z3.Xor}[name]
        return SV({k: op(a[k], b[k]) for k in a})
    if name == 'operator[]' or name == 'test':
        i = val(ex, args[0], loc)
        if not isint(i): raise Unsup('symbolic bit index')
        N = len(bits(ex.get(o)))if isinstance(o, LV) else len(bits(o))
        if ival(i) >= N or ival(i) < 0:
            ex.oblige('bit index in bounds', FALSE, ('mem', 'index'), loc); raise PathEnd()
        if not isinstance(o, LV): return o.f[ival(i)]
        if f.get('const') or name == 'test': return ex.rd(o.fld(ival(i)), loc=loc)
        return o.fld(ival(i))
    if name in ('operator==', 'operator!='):
        a, b = bits(val(ex, o, loc)), bits(val(ex, args[0], loc))
        r = land(*[z3.simplify(a[k] == b[k]) for k in a])
        return r if name == 'operator==' else lnot(r)
    if name in ('operator=', 'operator&=', 'operator|=', 'operator^='):
        b = bits(val(ex, args[0], loc))
        a = bits(ex.rd(o, loc=loc))
        for k in b:
            v = b[k] if name == 'operator=' else {'operator&=': land, 'operator|=': lor, 'operator^=': z3.Xor}[name](a[k], b[k])
            ex.wr(o.fld(k), v, loc=loc)
        return o
    v = bits(val(ex, o, loc)) if not f.get('ctor') else None
    if name in ('set', 'reset', 'flip') :
        if args:
            i = val(ex, args[0], loc)
            if not isint(i): raise Unsup('symbolic bit index')
            ks = [ival(i)]
        else: ks = list(v)
        nv = val(ex, args[1], loc) if name == 'set' and len(args) > 1 else TRUE if name == 'set' else FALSE
        for k in ks: ex.wr(o.fld(k), lnot(v[k]) if name == 'flip' else nv, loc=loc)
        return o
    if name == 'all': return land(*v.values())
    if name == 'none': return lnot(lor(*v.values()))
    if name == 'any': return lor(*v.values())
    if name == 'size': return I(len(v))
    if name == 'count':
        return z3.simplify(z3.Sum([z3.If(x, I(1), I(0)) for x in v.values()]))
    if name in ('to_ulong', 'to_ullong'):
        return z3.simplify(z3.Sum([z3.If(x, I(1 << k), I(0)) for k, x in v.items()]))
    if name == 'operator~': return SV({k: lnot(x) for k, x in v.items()})
    raise Unsup('bitset::' + name)

HEAPS = {}
def heap_lv(ex, tkey, pid):
    """lvalue of the heap object of deque type tkey with identity pid"""
    root = 'heap:' + tkey
    if root not in ex.store:
        ex.store[root] = Lift(ex.fresh_val(ex.ir.shape(tkey), 'heap', 1))
    return LV(root, (('i', pid),))
def live_lv(ex, pid):
    if 'live' not in ex.store: ex.store['live'] = Lift(z3.Const('live!init', z3.ArraySort(Int, Bool)))
    return LV('live', (('i', pid),))

def pointee(ex, f):
    t = ex.ir.ty(ex.ir.strip(f['parent']))
    return t['args'][0]['t']

def shared(ex, f, o, args, loc, name, cls):
    if name in ('operator->', 'operator*', 'get'):
        v = val(ex, o, loc)
        if isinstance(v, LV): return v
        if v is NULL: ex.oblige('no null dereference', FALSE, ('mem',), loc); raise PathEnd()
        if isinstance(v, z3.ExprRef):
            if name != 'get': ex.oblige('no null dereference', v != 0, ('mem',), loc)
            return heap_lv(ex, pointee(ex, f), v)
        raise Unsup('shared_ptr deref')
    if name == 'conv':
        v = val(ex, o, loc)
        return lnot(v == 0) if isinstance(v, z3.ExprRef) else FALSE if v is NULL else TRUE
    if name == 'lock':
        v = val(ex, o, loc)
        if isint(v): return v
        return z3.If(ex.get(live_lv(ex, v)), v, I(0))
    if name == 'expired':
        v = val(ex, o, loc)
        return lnot(ex.get(live_lv(ex, v)))
    if name == 'operator=':
        v = val(ex, args[0], loc)
        ex.wr(o, v, loc=loc); moved_ptr(ex, f, o, args[0], loc); return o
    if name == 'reset':
        cur = ex.get(o)
        ex.wr(o, I(0) if isinstance(cur, z3.ExprRef) else NULL, loc=loc); return None
    if name == 'use_count': return ex.fresh(Int, 'use_count')
    if name == 'swap':
        a, b = ex.rd(o, loc=loc), ex.rd(args[0], loc=loc)
        ex.wr(o, b, loc=loc); ex.wr(args[0], a, loc=loc); return None
    raise Unsup(cls + '::' + name)

def reviter(ex, f, allv, a, loc, name):
    """std::reverse_iterator over a user-defined iterator: its operations call those of the iterator"""
    cur = a.f['current']
    if isinstance(cur, Iter): raise Unsup('reverse_iterator over a library iterator')
    ikey = ex.ir.strip(ex.ir.ty(ex.ir.strip(f.get('parent') or allv and f['params'][0]['t']))['args'][0]['t'])
    def user(op, o, *args, n=None):
        fs = [g for g in ex.ir.byparent.get((ikey, op), []) if len(g['params']) == (len(args) if n is None else n)]
        if len(fs) != 1: raise Unsup('iterator function ' + op)
        return ex.call(fs[0]['id'], o, list(args), loc)
    tmp = lambda v: ex.new_root('it', v)
    if name == 'base': return cur
    if name in ('operator*', 'operator->', 'operator[]'):
        o = tmp(cur)
        if name == 'operator[]':
            r = user('operator-', o, val(ex, allv[1]))
            o = tmp(r) if not isinstance(r, LV) else r
        user('operator--', o)
        r = user('operator*', o)
        return r
    if name in ('operator++', 'operator--'):
        o = tmp(cur)
        user('operator--' if name == 'operator++' else 'operator++', o)
        ex.wr(allv[0], SV({'current': ex.rd(o)}), loc=loc)
        return a if len(allv) > 1 else allv[0]
    if name in ('operator+', 'operator-', 'operator+=', 'operator-='):
        b = val(ex, allv[1])
        if not isinstance(b, z3.ExprRef): raise Unsup('reverse_iterator difference')
        flip = {'operator+': 'operator-', 'operator-': 'operator+', 'operator+=': 'operator-=', 'operator-=': 'operator+='}[name]
        o = tmp(cur)
        r = user(flip, o, b)
        if name in ('operator+', 'operator-'): return SV({'current': ex.rd(r) if isinstance(r, LV) else r})
        ex.wr(allv[0], SV({'current': ex.rd(o)}), loc=loc); return allv[0]
    if name in ('operator==', 'operator!='):
        b = val(ex, allv[1])
        return user(name, tmp(cur), tmp(b.f['current']))
    if name == 'operator=': ex.wr(allv[0], val(ex, allv[1])); return allv[0]
    if f.get('ctor'): return a
    raise Unsup('reverse_iterator::' + name)

def iterop(ex, f, o, args, loc, name, cls):
    allv = ([o] if o is not None else []) + list(args)
    a = val(ex, allv[0], loc)
    if isinstance(a, SV) and 'current' in a.f: return reviter(ex, f, allv, a, loc, name)
    if name == 'operator*': return iter_elem(ex, a, loc)
    if name == 'operator->': return iter_elem(ex, a, loc)
    if name == 'operator[]': return iter_elem(ex, Iter(a.lv, add(a.pos, val(ex, allv[1]))), loc)
    if name in ('operator++', 'operator--'):
        new = Iter(a.lv, add(a.pos, I(1)) if name == 'operator++' else sub(a.pos, I(1)), a.rev)
        ex.wr(allv[0], new, loc=loc)
        return a if len(allv) > 1 else allv[0]
    if name in ('operator+', 'operator-') :
        b = val(ex, allv[1], loc)
        if isinstance(b, Iter): return sub(a.pos, b.pos)
        return Iter(a.lv, add(a.pos, b) if name == 'operator+' else sub(a.pos, b), a.rev)
    if name in ('operator+=', 'operator-='):
        b = val(ex, allv[1], loc)
        ex.wr(allv[0], Iter(a.lv, add(a.pos, b) if name == 'operator+=' else sub(a.pos, b), a.rev), loc=loc); return allv[0]
    if name in ('operator==', 'operator!=', 'operator<', 'operator<=', 'operator>', 'operator>='):
        b = val(ex, allv[1], loc)
        if not same(a.lv, b.lv): raise Unsup('iterators of different containers')
        return ex.cmp(name[8:], a.pos, b.pos)
    if name == 'operator=': ex.wr(o, val(ex, args[0])); return o
    if name == 'base': return a
    if name == '(ctor)' or f.get('ctor'): return val(ex, args[0])
    raise Unsup(cls + '::' + name)

def elem_eq(ex, a, b):
    """value equality used by std algorithms (operator==)"""
    if isinstance(a, z3.ExprRef): return a == b
    return land(*[x == y for (_, x), (_, y) in zip(leaves(a), leaves(b))])

def stdfn(ex, f, o, args, loc, name, e):
    if name in ('move', 'forward', 'as_const', 'addressof', '__addressof'):
        v = args[0]
        return addr(ex, v) if 'addressof' in name else v
    if name in ('min', 'max'):
        a, b = val(ex, args[0], loc), val(ex, args[1], loc)
        r = z3.If(b < a, b, a) if name == 'min' else z3.If(a < b, b, a)
        r = z3.simplify(r) if isint(a) and isint(b) else r
        return ex.new_root('minmax', r)
    if name == 'swap':
        a, b = args
        if isinstance(ex.get(a), SV) and 'data' in ex.get(a).f: return container(ex, f, a, [b], loc, 'swap', e)
        x, y = ex.rd(a, loc=loc), ex.rd(b, loc=loc)
        ex.wr(a, y, loc=loc); ex.wr(b, x, loc=loc); return None
    if name == 'exchange':
        x = ex.rd(args[0], loc=loc); ex.wr(args[0], val(ex, args[1], loc), loc=loc); return x
    if name == 'get':
        ta = f['targs']
        tt = ex.ir.ty(ex.ir.strip(e['a'][0]['t']))
        def element(i):
            v = ex.get(args[0].fld(i)) if isinstance(args[0], LV) else args[0].f[i]
            return v if isinstance(v, LV) and ex.ir.ty(flat(tt['args'])[i]['t'])['k'] in ('lref', 'rref') else args[0].fld(i) if isinstance(args[0], LV) else v
        if 'i' in ta[0]: return element(ta[0]['i']) if tt.get('name') != 'std::array' else args[0].fld(ta[0]['i'])
        want = ta[0]['t']
        for i, x in enumerate(flat(tt['args'])):
            if x.get('t') == want: return element(i)
        raise Unsup('std::get')
    if name == 'apply':
        fnv = val(ex, args[0], loc)
        tt = ex.ir.ty(ex.ir.strip(e['a'][1]['t']))
        n = len(flat(tt['args']))
        tup = args[1]
        return ex.call_closure(fnv, [tup.fld(i) for i in range(n)], loc)
    if name == 'invoke':
        return ex.call_closure(val(ex, args[0], loc), args[1:], loc)
    if name == 'make_shared':
        t = f['targs'][0]['t']
        tt = ex.ir.ty(t)
        if tt.get('name') == 'std::deque':
            p = ex.fresh(Int, 'newptr')
            lv = heap_lv(ex, t, p)
            ex.assume(land(p > 0, p < (1 << 62)))
            live = live_lv(ex, p)
            ex.assume(lnot(ex.get(live)))
            ex.put(live, TRUE)
            ex.hooks.allocated(ex, p, t) if hasattr(ex.hooks, 'allocated') else None
            d = default_val(ex.ir.shape(t))
            ex.put(lv.fld('b'), I(0)); ex.put(lv.fld('e'), I(0))
            return p
        base = t[6:] if t.startswith('const ') else t
        cands = [g for (p, nm), l in ex.ir.byparent.items() if p == base for g in l if g.get('ctor') in ('other', 'default') and len(g['params']) == len(args)]
        if not cands: raise Unsup('make_shared<%s>' % t)
        lv = ex.new_root('obj', ex.uninit(ex.ir.shape(t)))
        ex.hooks.allocated(ex, lv, t) if hasattr(ex.hooks, 'allocated') else None
        ex.call(cands[0]['id'], lv, args, loc)
        return lv
    if name == 'to_string' or name in ('operator+', 'operator<<'): return OPAQUE
    if name == 'remove':
        b, en, v = val(ex, args[0]), val(ex, args[1]), val(ex, args[2], loc)
        return algo_remove(ex, b, en, lambda x: elem_eq(ex, x, v), loc)
    if name == 'remove_if':
        b, en, c = val(ex, args[0]), val(ex, args[1]), val(ex, args[2], loc)
        return algo_remove(ex, b, en, None, loc, pure_pred(ex, c, b.lv, loc))
    if name in ('erase', 'erase_if') and len(args) == 2:
        o = args[0]; v = val(ex, args[1], loc)
        cb, ce = csize(ex, o, None)
        r = algo_remove(ex, Iter(o, cb), Iter(o, ce), lambda x: elem_eq(ex, x, v), loc, pure_pred(ex, v, o, loc) if name == 'erase_if' else None)
        ex.bump(o)
        ex.put(o.fld('size' if isvec(ex, o) else 'e'), r.pos)
        return sub(ce, r.pos)
    if name in ('for_each', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of'):
        b, en, c = val(ex, args[0]), val(ex, args[1]), val(ex, args[2], loc)
        r = first_where(ex, b, en, c, name in ('find_if_not', 'all_of'), loc) if name != 'for_each' else None
        if r is not None: return r if name in ('find_if', 'find_if_not') else ex.cmp('==' if name in ('all_of', 'none_of') else '!=', r.pos, en.pos)
        def step(i):
            r = ex.call_closure(c, [iter_elem(ex, i, loc)], loc)
            if name == 'for_each': return False
            t = ex.tobool(ex.rd(r) if isinstance(r, LV) else r)
            return ex.fork(lnot(t) if name in ('find_if_not', 'all_of') else t)
        it = walk(ex, e, b, en, step, loc)
        if name == 'for_each': return c
        if name in ('find_if', 'find_if_not'): return it
        return ex.cmp('==' if name in ('all_of', 'none_of') else '!=', it.pos, en.pos)
    if name in ('back_inserter', 'inserter'):
        if name == 'inserter':
            p = val(ex, args[1])
            ex.oblige('insertion at the end', p.pos == csize(ex, args[0], None)[1], ('model',), loc)
        return BackIns(args[0])
    if name in ('copy', 'copy_n'):
        a, b, d = val(ex, args[0]), val(ex, args[1]), val(ex, args[2], loc)
        if name == 'copy_n': b = Iter(a.lv, add(a.pos, b), a.rev)
        if isinstance(d, BackIns):
            put_range(ex, d.lv, csize(ex, d.lv, None)[1], a, b, loc, True); return d
        if not isinstance(d, Iter) or d.rev: raise Unsup('copy to this destination')
        return Iter(d.lv, put_range(ex, d.lv, d.pos, a, b, loc, False))
    if name in ('find', 'count'):
        b, en, v = val(ex, args[0]), val(ex, args[1]), val(ex, args[2], loc)
        r = ex.fresh(Int, 'found')
        j = z3.Int('j')
        ex.hooks.access(ex, b.lv, False, loc)
        at = lambda i: ex.get(ex.elem(b.lv, i))
        ex.assume(land(r >= b.pos, r <= en.pos))
        ex.assume(z3.Implies(r < en.pos, elem_eq(ex, at(r), v)))
        ex.assume(z3.ForAll([j], z3.Implies(land(j >= b.pos, j < r), lnot(elem_eq(ex, at(j), v)))))
        if name == 'count':      # how many is left open, except for none
            n = ex.fresh(Int, 'count')
            ex.assume(land(n >= 0, n <= en.pos - r, (n == 0) == (r == en.pos)))
            return n
        return Iter(b.lv, r)
    if name in ('begin', 'end', 'size', 'empty', 'cbegin', 'cend', 'data'):
        g = dict(f); g['parent'] = ex.ir.strip(e['a'][0]['t']); g['name'] = name
        return container(ex, g, args[0], [], loc, name, e)
    if name == 'distance': return sub(val(ex, args[1]).pos, val(ex, args[0]).pos)
    if name in ('next', 'prev'):
        a = val(ex, args[0]); n = val(ex, args[1]) if len(args) > 1 else I(1)
        return Iter(a.lv, add(a.pos, n) if name == 'next' else sub(a.pos, n), a.rev)
    if name == 'tie': return SV(dict(enumerate(args)))
    if name == 'make_optional' and len(args) == 1: return Opt(True, val(ex, args[0], loc))
    if name == 'make_tuple': return SV({i: val(ex, a, loc) for i, a in enumerate(args)})
    if name == 'tuple_cat': raise Unsup('std::' + name)
    if name in ('atomic_thread_fence',): ex.hooks.atomic(ex, None, 'fence', args, loc); return None
    if name in ('operator==', 'operator!='):
        a, b = val(ex, args[0], loc), val(ex, args[1], loc)
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            a = I(0) if a is NULL else a; b = I(0) if b is NULL else b
        return ex.cmp(name[8:], a, b)
    if name in ('lock_guard', 'terminate', 'abort'): raise Unsup(name)
    raise Unsup('std::' + name)

def algo_remove(ex, b, en, drop, loc, pred=None):
    """std::remove over [b,en): order-preserving compaction, specified through the (unique)
    strictly increasing map from result positions to source positions."""
    lv = b.lv
    ex.check_eps(lv, loc); ex.hooks.access(ex, lv, True, loc)
    cur = ex.get(lv).f['data']
    nm = ex.name('remove')
    src = z3.Function(nm + '.src', Int, Int)   # result position -> source position
    dst = z3.Function(nm + '.dst', Int, Int)   # source position -> result position
    r = ex.fresh(Int, 'newend')
    j, k = z3.Int('j'), z3.Int('k')
    atc = lambda i: ex.get(ex.elem(lv, i))
    keep = lambda i: lnot(pred(i) if pred else drop(atc(i)))
    ex.assume(land(r >= b.pos, r <= en.pos))
    new = map_leaves(lambda a: z3.Const(ex.name('compacted'), a.sort()), cur)
    for (_, na), (_, ca) in zip(leaves(new), leaves(cur)):
        d = ex.ranges.get(ca.decl().name()) if ca.num_args() == 0 else None
        if d: ex.ranges[na.decl().name()] = d
        # source positions outside [b,en) keep their value; the tail [r,en) is unspecified
        ex.assume(z3.ForAll([j], z3.Implies(lor(j < b.pos, j >= en.pos), z3.Select(na, j) == z3.Select(ca, j)), patterns=[z3.Select(na, j)]))
        ex.assume(z3.ForAll([j], z3.Implies(land(j >= b.pos, j < r), z3.Select(na, j) == z3.Select(ca, src(j))), patterns=[z3.Select(na, j)]))
        ex.assume(z3.ForAll([j], z3.Implies(land(j >= b.pos, j < en.pos, keep(j)), z3.Select(na, dst(j)) == z3.Select(ca, j)), patterns=[dst(j), z3.Select(ca, j)]) if False else
                  z3.ForAll([j], z3.Implies(land(j >= b.pos, j < en.pos, keep(j)), z3.Select(na, dst(j)) == z3.Select(ca, j)), patterns=[z3.Select(ca, j)]))
    ex.assume(z3.ForAll([j], z3.Implies(land(j >= b.pos, j < r), land(src(j) >= j, src(j) < en.pos, keep(src(j)), dst(src(j)) == j)), patterns=[src(j)]))
    ca0 = [x for _, x in leaves(cur)][0]
    ex.assume(z3.ForAll([j], z3.Implies(land(j >= b.pos, j < en.pos, keep(j)), land(dst(j) >= b.pos, dst(j) < r, dst(j) <= j, src(dst(j)) == j)), patterns=[z3.Select(ca0, j)]))
    ex.assume(z3.ForAll([j, k], z3.Implies(land(j >= b.pos, j < k, k < r), src(j) < src(k)), patterns=[z3.MultiPattern(src(j), src(k))]))
    # how many elements went away: none, exactly one (w1), or at least two (w1, w2)
    w1, w2 = ex.fresh(Int, 'removed'), ex.fresh(Int, 'removed')
    gone = lambda i: land(i >= b.pos, i < en.pos, lnot(keep(i)))
    ex.assume(lor(land(r == en.pos, z3.ForAll([j], z3.Implies(land(j >= b.pos, j < en.pos), keep(j)), patterns=[z3.Select(ca0, j)])),
                  land(r == sub(en.pos, I(1)), gone(w1), w1 == w2), land(r <= sub(en.pos, I(2)), gone(w1), gone(w2), w1 < w2)))
    ex.put(lv.fld('data'), new)
    ex.lastremove = (src, dst, b.pos, en.pos, r)
    return Iter(lv, r)
