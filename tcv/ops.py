"""Contracts of the operations available inside a transaction (one entry per wrapper in tu/main.cpp)."""
import z3
from .core import *
from .spec import *
from .world import *
from . import stl

BITS_ALL = (True,) * len(FLAGS)
def bits_of(p): return (p.ar,) + tuple(c in p.w for c in CS)

class Unit:
    """one function under contract, in one configuration and one case"""
    def __init__(s, name, cfg, props, run, fn=None): s.name, s.cfg, s.props, s.run, s.fn = name, cfg, set(props), run, fn

def side(b): return 'write' if b else 'read'

class Op:
    def __init__(s, ex, w, bits, v0, e, mut=False):
        s.ex, s.w, s.bits, s.v0, s.e = ex, w, bits, v0, e
    def exist(s, v, sd, e=None):
        e = e or s.e
        i, g = e
        return land(i < v.N(sd), v.alive(sd, i), v.gen(sd, i) == g)

def ref_value(ex, ret):
    if not isinstance(ret, LV): raise Unsup('expected a reference result')
    return ex.get(ret)

def run_unit(ir, f, T, bits, alias, checked, static, valias=False):
    """symbolic execution of one wrapper in one case; returns run() for Ex.explore"""
    op = f['name']
    def run_(ex):
        w = World(ir, T, checked)
        ex.hooks.w = w
        v0 = w.build(ex)
        lk = w.lock(ex, bits)
        args, e = [], None
        for p in f['params']:
            pt = p['t']
            key = ir.strip(pt); key = key[6:] if key.startswith('const ') else key
            if key.startswith('Tecs::Lock<'): args.append(lk)
            elif key == 'Tecs::Entity':
                if alias is None:
                    ex.store['arg:e'] = ex.fresh_val(ir.shape('Tecs::Entity'), 'e')
                    lv = LV('arg:e')
                else:
                    side_, c = alias
                    base = LV('ecs', ('metadata',) if c == 'm' else ('indexes', c)).fld(side_ + 'ValidEntities')
                    pos = ex.fresh(Int, 'aliaspos')
                    ex.assume(land(pos >= 0, pos < v0.Ln(side_, c)))
                    lv = ex.elem(base, pos)
                args.append(lv)
                ev = ex.get(lv)
                e = (ev.f['index'], ev.f['generation'])
                for x in e: ex.leaf_range(x, ('int', 32, False))
            elif ir.ty(key)['k'] == 'int': args.append(ex.fresh_val(ir.shape(key), p['name']))
            elif ir.shape(key)[0] == 'op' and valias:
                # the argument is a reference obtained from the storage itself
                c = CG if op == 'GSet' else CA
                pos = ex.fresh(Int, 'valuepos')
                ex.assume(land(pos >= 0, pos < v0.csize('write', c)))
                if c == CG: ex.assume(land(v0.g('write'), pos == 0))
                args.append(ex.elem(LV('ecs', ('indexes', c, 'writeComponents')), pos))
            elif ir.shape(key)[0] == 'op':
                ex.store['arg:' + p['name']] = ex.fresh_val(ir.shape(key), p['name']); args.append(LV('arg:' + p['name']))
            else: raise Unsup('parameter ' + key)
        o = Op(ex, w, bits, v0, e)
        if op in ('Set', 'GSet'): o.given = ex.get(args[-1])
        o.args = args; o.static = static; o.checked = checked
        if op in PRE: PRE[op](o)
        if not checked: unchecked_pre(o, op)
        if ex.solver.check() == z3.unsat: raise Unsup('vacuous precondition')
        ex.covered = True
        thrown, ret = False, None
        try:
            ret = ex.call(f['id'], None, args)
            if isinstance(ret, LV) and not ret.path and ret.root.startswith(('tmp', 'ret')): pass
        except ThrowEx as t: thrown = True
        v1 = Vw(dict(ex.store))
        SPEC[op](o, v1, ret, thrown)
        if op in ('Set', 'GSet') and not valias:
            ex.oblige('the value passed in stays as it was', ex.get(args[-1]) == o.given, ('C12',) if op == 'Set' else ('C17',))
        if not thrown or op != 'NewEntity':
            w.check_inv(ex, v1)
            w.check_read_side(ex, v0, v1)
            if T.ar: w.list_stability(ex, v0, v1)
            w.flags_kept(ex, v0, v1)
    return run_

# ---------------------------------------------------------------- preconditions
PRE = {}
def unchecked_pre(o, op):
    """unchecked mode: the caller guarantees what the checks would have established"""
    ex, v, b = o.ex, o.v0, o.bits
    if op in ('GetConst', 'Get', 'Set', 'SetArgs', 'SetNone', 'UnsetA', 'UnsetAB', 'Destroy', 'DestroyMut'):
        sd = side(b[0])
        ex.assume(o.exist(v, sd))
        if op == 'GetConst' or not o.static.ar and op in ('Get', 'Set', 'SetArgs', 'SetNone'): ex.assume(v.has(sd, CA, o.e[0]))
    if op == 'GetPrevious': ex.assume(land(o.exist(v, 'read'), v.has('read', CA, o.e[0])))
    if op in ('GGetConst',) or not o.static.ar and op in ('GGet', 'GSet', 'GSetArgs', 'GSetNone'): ex.assume(v.g(side(b[0])))
    if op == 'GGetPrevious': ex.assume(v.g('read'))
def pre_new(o):
    v = o.v0
    # the stated exception: a slot whose generation counter is exhausted
    o.ex.assume(FA([q_], imp(land(q_ >= v.fb(), q_ < v.fe()), low24(v.gen('write', v.fi(q_))) < M24 - 1), v.fi(q_)))
PRE['NewEntity'] = pre_new

SPEC = {}
def spec(*names):
    def deco(fn):
        for n in names: SPEC[n] = fn
        return fn
    return deco

def readonly(o, v1, flags=True):
    o.w.all_unchanged(o.ex, o.v0, v1, True, ('C01', 'C11', 'C10'))

def query(o, v1, ret, thrown, sd, cond, props):
    ex = o.ex
    ex.oblige('never throws', FALSE if thrown else TRUE, ('C14',) + props)
    if not thrown: ex.oblige('returns the exact answer', ret == cond, props)
    readonly(o, v1)

@spec('Exists')
def _(o, v1, ret, thrown): query(o, v1, ret, thrown, 0, o.exist(o.v0, side(o.bits[0])), ('C01', 'C10'))
@spec('Existed')
def _(o, v1, ret, thrown): query(o, v1, ret, thrown, 0, o.exist(o.v0, 'read'), ('C01', 'C10'))
@spec('HasA')
def _(o, v1, ret, thrown):
    sd = side(o.bits[0]); query(o, v1, ret, thrown, 0, land(o.exist(o.v0, sd), o.v0.has(sd, CA, o.e[0])), ('C01', 'C11', 'C10'))
@spec('HasAB')
def _(o, v1, ret, thrown):
    sd = side(o.bits[0]); query(o, v1, ret, thrown, 0, land(o.exist(o.v0, sd), o.v0.has(sd, CA, o.e[0]), o.v0.has(sd, CB, o.e[0])), ('C01', 'C11', 'C10'))
@spec('HadA')
def _(o, v1, ret, thrown): query(o, v1, ret, thrown, 0, land(o.exist(o.v0, 'read'), o.v0.has('read', CA, o.e[0])), ('C01', 'C10'))
@spec('HadAB')
def _(o, v1, ret, thrown): query(o, v1, ret, thrown, 0, land(o.exist(o.v0, 'read'), o.v0.has('read', CA, o.e[0]), o.v0.has('read', CB, o.e[0])), ('C01', 'C10'))

def reference_ok(o, ret, write, props=('C08',)):
    """the returned reference may be used under the locks held"""
    r = o.w.rule(o.ex, ret, write)
    o.ex.oblige('returned reference is covered by a lock', FALSE if r is None else r, props)
    o.ex.check_eps(ret, 'returned reference')

@spec('GetConst')
def _(o, v1, ret, thrown):
    v, i = o.v0, o.e[0]
    cond = land(o.exist(v, side(o.bits[0])), v.has(side(o.bits[0]), CA, i))
    o.ex.oblige('throws exactly when the entity or component does not exist', lnot(cond) if thrown else cond, ('C14', 'C10'))
    if not thrown:
        reference_ok(o, ret, False)
        o.ex.oblige('returns the current value', ref_value(o.ex, ret) == v.val(side(o.bits[1 + CA]), CA, i), ('C01', 'C12'))
        live_ref(o, ret, CA, i, side(o.bits[1 + CA]), ('C01',))
    readonly(o, v1)
@spec('GetPrevious')
def _(o, v1, ret, thrown):
    v, i = o.v0, o.e[0]
    cond = land(o.exist(v, 'read'), v.has('read', CA, i))
    o.ex.oblige('throws exactly when the entity or component did not exist', lnot(cond) if thrown else cond, ('C14', 'C10'))
    if not thrown:
        reference_ok(o, ret, False)
        o.ex.oblige('returns the committed value', ref_value(o.ex, ret) == v.val('read', CA, i), ('C01', 'C12'))
        live_ref(o, ret, CA, i, 'read', ('C01',))
    readonly(o, v1)

def others(*bs): return [b for b in FLAGS if b not in bs]
def mutate_a(o, v1, ret, thrown, value):
    """Get (mutable) and Set: value(v0, existed) is the value expected at the reference"""
    ex, w, v, i = o.ex, o.w, o.v0, o.e[0]
    sd = side(o.bits[0])
    ar = o.static.ar
    exists = o.exist(v, sd)
    had = v.has(sd, CA, i)
    cond = exists if ar else land(exists, had)
    ex.oblige('throws exactly when the entity or component does not exist', lnot(cond) if thrown else cond, ('C14', 'C10', 'C11'))
    if thrown:
        w.all_unchanged(ex, v, v1, False, ('C14',))
        w.flags_same(ex, v, v1, others(1 + CA), 'a rejected access marks nothing else')
        return
    reference_ok(o, ret, True)
    stored_ref(o, ret, CA, i)
    ex.oblige('the modification is marked for commit', v1.flag(1 + CA), ('C02', 'C03'))
    w.flags_same(ex, v, v1, others(0, 1 + CA), 'only the written component is marked')
    ex.oblige('reference yields the expected value', ref_value(ex, ret) == value(had), ('C12', 'C01'))
    if ar:
        ex.oblige('component exists afterwards', land(v1.has('write', CA, i), v1.alive('write', i)), ('C11',))
        ex.oblige('added component marks the entity set', imp(lnot(had), v1.flag(0)), ('C02', 'C03', 'C11'))
        ex.oblige('entity set is only marked when a component is added', imp(had, v1.flag(0) == v.flag(0)), ('C07',))
        w.others_unchanged(ex, v, v1, i, (CA,))
        w.no_growth(ex, v, v1)
    else: value_only(o, v1, CA, i)
    w.queues_untouched(ex, v, v1)
    free_kept(o, v1)
def live_ref(o, ret, c, i, sd, props):
    """the reference designates the copy itself, so that it also shows what is written later (or keeps showing the committed value)"""
    p = ret.path
    good = ret.root == 'ecs' and len(p) >= 4 and p[0] == 'indexes' and p[1] == c and p[2] == sd + 'Components' and isinstance(p[-1], tuple)
    o.ex.oblige('reference designates the %s copy of this value' % ('in-progress' if sd == 'write' else 'committed'), p[-1][1] == I(i) if good and isinstance(i, int) else p[-1][1] == i if good else FALSE, props)
def stored_ref(o, ret, c, i):
    """the reference designates the stored in-progress value of exactly this entity"""
    p = ret.path
    good = ret.root == 'ecs' and len(p) >= 4 and p[0] == 'indexes' and p[1] == c and p[2] == 'writeComponents' and isinstance(p[-1], tuple)
    o.ex.oblige('reference designates the stored value of this entity', p[-1][1] == i if good else FALSE, ('C12', 'C01', 'C11'))
def value_only(o, v1, c, i):
    """without add/remove access only the value of component c (of entity i) may change"""
    ex, v = o.ex, o.v0
    for k in IDX:
        for nm in ('writeValidEntities', 'validEntityIndexes') + (('writeComponents',) if k != c else ()):
            for e in eq_tree(v.st(k)[nm], v1.st(k)[nm]): ex.oblige('nothing else changes (%s.%s)' % ('entities' if k == 'm' else CNAME[k], nm), e, ('C11', 'C12', 'C08'))
    for nm in ('globalReadMetadata', 'globalWriteMetadata', 'freeEntities'):
        for e in eq_tree(v.e[nm], v1.e[nm]): ex.oblige('nothing else changes (%s)' % nm, e, ('C11',))
    j = z3.Int('j')
    ex.oblige('values of other entities are unchanged', FA([j], imp(land(j >= 0, j < v.csize('write', c), j != i), v1.val('write', c, j) == v.val('write', c, j))), ('C12', 'C11'))
    ex.oblige('storage size is unchanged', v1.csize('write', c) == v.csize('write', c), ('C14',))
def free_kept(o, v1):
    for e in eq_tree(o.v0.e['freeEntities'], v1.e['freeEntities']): o.ex.oblige('free list is untouched', e, ('C09', 'C10'))

def dflt(c): return default_leaf(('op', COMPS[c]))
@spec('Get')
def _(o, v1, ret, thrown): mutate_a(o, v1, ret, thrown, lambda had: z3.If(had, o.v0.val('write', CA, o.e[0]), dflt(CA)))
@spec('Set')
def _(o, v1, ret, thrown): mutate_a(o, v1, ret, thrown, lambda had: o.given)
@spec('SetArgs')
def _(o, v1, ret, thrown): mutate_a(o, v1, ret, thrown, lambda had: stl.opaque_ctor(o.ex, 'v::A', [o.args[2], o.args[3]], None))
@spec('SetNone')
def _(o, v1, ret, thrown): mutate_a(o, v1, ret, thrown, lambda had: dflt(CA))

def removal(o, v1, thrown, comps, destroy):
    ex, w, v, i = o.ex, o.w, o.v0, o.e[0]
    cond = o.exist(v, 'write')
    ex.oblige('throws exactly when the entity does not exist', lnot(cond) if thrown else cond, ('C14', 'C10'))
    if thrown:
        w.all_unchanged(ex, v, v1, False, ('C14',))
        w.flags_same(ex, v, v1, others(0), 'a rejected access marks nothing else')
        return
    for c in comps:
        ex.oblige('component %s is removed' % CNAME[c], lnot(v1.has('write', c, i)), ('C11', 'C10'))
        ex.oblige('value of removed %s is dropped' % CNAME[c], imp(v.has('write', c, i), v1.val('write', c, i) == dflt(c)), ('C12',))
        ex.oblige('removal of %s is marked for commit' % CNAME[c], imp(v.has('write', c, i), land(v1.flag(0), v1.flag(1 + c))), ('C02', 'C03'))
        ex.oblige('unmodified %s is not marked' % CNAME[c], imp(lnot(v.has('write', c, i)), v1.flag(1 + c) == v.flag(1 + c)), ('C07',))
    for c in CS:
        if c not in comps: w.flags_same(ex, v, v1, [1 + c], 'unrelated components are not marked')
    if destroy:
        ex.oblige('entity no longer exists', lnot(v1.alive('write', i)), ('C10',))
        ex.oblige('destruction is marked for commit', v1.flag(0), ('C02',))
    else:
        anyrem = lor(*[v.has('write', c, i) for c in comps])
        ex.oblige('entity set is only marked when something is removed', imp(lnot(anyrem), v1.flag(0) == v.flag(0)), ('C07',))
    w.others_unchanged(ex, v, v1, i, comps, newx=False) if not destroy else destroy_frame(o, v1, i)
    w.no_growth(ex, v, v1)
    w.queues_untouched(ex, v, v1)
    free_kept(o, v1)
def destroy_frame(o, v1, i):
    ex, v, w = o.ex, o.v0, o.w
    n = v.N('write')
    ex.oblige('no other entity is affected', FA([i_], imp(land(i_ >= 0, i_ < n, i_ != i), land(v1.alive('write', i_) == v.alive('write', i_), v1.gen('write', i_) == v.gen('write', i_)))), ('C10', 'C11', 'C09'))
    ex.oblige('the generation of the slot is remembered', v1.gen('write', i) == v.gen('write', i), ('C09', 'C10'))
    for c in ENTC:
        ex.oblige('other entities keep %s and its value' % CNAME[c], FA([i_], imp(land(i_ >= 0, i_ < n, i_ != i), land(v1.has('write', c, i_) == v.has('write', c, i_),
                  imp(v.has('write', c, i_), v1.val('write', c, i_) == v.val('write', c, i_))))), ('C10', 'C11', 'C12'))
    for c in GLBS: ex.oblige('global component %s is untouched' % CNAME[c], land(v1.g('write', c) == v.g('write', c), imp(v.g('write', c), v1.gval('write', c) == v.gval('write', c))), ('C17', 'C10'))
@spec('UnsetA')
def _(o, v1, ret, thrown): removal(o, v1, thrown, (CA,), False)
@spec('UnsetAB')
def _(o, v1, ret, thrown): removal(o, v1, thrown, ENTC, False)
@spec('Destroy')
def _(o, v1, ret, thrown): removal(o, v1, thrown, ENTC, True)
@spec('DestroyMut')
def _(o, v1, ret, thrown):
    removal(o, v1, thrown, ENTC, True)
    ev = o.ex.get(o.args[1])
    if not thrown: o.ex.oblige('the destroyed handle becomes null', land(ev.f['index'] == 0, ev.f['generation'] == 0), ('C10',))
    else: o.ex.oblige('a rejected destruction leaves the handle as it was', land(ev.f['index'] == o.e[0], ev.f['generation'] == o.e[1]), ('C14', 'C10'))

@spec('NewEntity')
def _(o, v1, ret, thrown):
    ex, w, v = o.ex, o.w, o.v0
    if thrown:
        ex.oblige('creation fails only when the index space is exhausted', v.N('write') >= (1 << 31), ('C09', 'C10'))
        return
    if isinstance(ret, LV): ret = ex.get(ret)
    i, g = ret.f['index'], ret.f['generation']
    n = v.N('write')
    ex.oblige('new handle is not null and carries the instance identifier', land(g != 0, low24(g) != 0, idof(g) == v.ecsid()), ('C09', 'C20'))
    ex.oblige('new handle exists', land(i < v1.N('write'), v1.alive('write', i), v1.gen('write', i) == g), ('C10', 'C09'))
    ex.oblige('the slot was not in use', imp(i < n, lnot(v.alive('write', i))), ('C09', 'C10'))
    ex.oblige('the handle is newer than every handle handed out for its slot', imp(i < n, low24(g) > low24(v.gen('write', i))), ('C09', 'C10'))
    for c in ENTC: ex.oblige('a new entity has no %s' % CNAME[c], lnot(v1.has('write', c, i)), ('C11', 'C12', 'C10'))
    ex.oblige('storage never shrinks', v1.N('write') >= n, ('C09',))
    ex.oblige('creation is marked for commit', v1.flag(0), ('C02', 'C03'))
    for c in ENTC:
        ex.oblige('grown storage of %s is marked for commit' % CNAME[c], imp(v1.N('write') != n, v1.flag(1 + c)), ('C02', 'C14'))
        ex.oblige('%s is not marked when storage does not grow' % CNAME[c], imp(v1.N('write') == n, v1.flag(1 + c) == v.flag(1 + c)), ('C07',))
    w.flags_same(ex, v, v1, [1 + c for c in GLBS], 'global component is not marked')
    w.others_unchanged(ex, v, v1, i, ENTC, newx=True)
    ex.oblige('newly allocated slots are empty', FA([i_], imp(land(i_ >= n, i_ < v1.N('write'), i_ != i), land(lnot(v1.alive('write', i_)), *[lnot(v1.has('write', c, i_)) for c in ENTC]))), ('C10', 'C11'))
    w.queues_untouched(ex, v, v1)

def view_is(o, ret, sd, c, v1):
    ex = o.ex
    if isinstance(ret, LV): ret = ex.get(ret)
    st = ret.f['storage']
    want = LV('ecs', ('metadata',) if c == 'm' else ('indexes', c)).fld(sd + 'ValidEntities')
    n = o.v0.Ln(sd, c)
    # observable contents: same number of entries, entry for entry
    ex.oblige('the view presents the whole list', land(ret.f['end_index'] - ret.f['start_index'] == n, ret.f['start_index'] >= 0), ('C01', 'C13'))
    if isinstance(st, LV):
        r = o.w.rule(ex, st.fld('data'), False) if st.root == 'ecs' else TRUE
        ex.oblige('the list is covered by a lock', FALSE if r is None else r, ('C08',))
        arr = ex.get(st).f['data'].t
        x = lambda nm: z3.Select(arr.f[nm], p_ + ret.f['start_index'])
        ex.oblige('the view presents the list of the right state', FALSE if not isinstance(st, LV) else
                  FA([p_], imp(land(p_ >= 0, p_ < n), land(x('index') == o.v0.Li(sd, c, p_), x('generation') == o.v0.Lg(sd, c, p_)))), ('C01', 'C13'))
        ex.oblige('the view stays valid while the list grows', TRUE if same(LV(st.root, st.path), want) else FALSE, ('C13',))
    else: raise Unsup('entity view without storage')
@spec('Entities')
def _(o, v1, ret, thrown): view_is(o, ret, side(o.bits[0]), 'm', v1); readonly(o, v1)
@spec('PreviousEntities')
def _(o, v1, ret, thrown): view_is(o, ret, 'read', 'm', v1); readonly(o, v1)
@spec('EntitiesWith')
def _(o, v1, ret, thrown): view_is(o, ret, side(o.bits[0]), CA, v1); readonly(o, v1)
@spec('PreviousEntitiesWith')
def _(o, v1, ret, thrown): view_is(o, ret, 'read', CA, v1); readonly(o, v1)

# ---------------------------------------------------------------- global components
@spec('GHas')
def _(o, v1, ret, thrown): query(o, v1, ret, thrown, 0, o.v0.g(side(o.bits[0])), ('C17', 'C01'))
@spec('GHad')
def _(o, v1, ret, thrown): query(o, v1, ret, thrown, 0, o.v0.g('read'), ('C17', 'C01'))
def gread(o, v1, ret, thrown, psd, vsd):
    cond = o.v0.g(psd)
    o.ex.oblige('throws exactly when the global component is absent', lnot(cond) if thrown else cond, ('C17', 'C14'))
    if not thrown:
        reference_ok(o, ret, False)
        o.ex.oblige('returns the stored global value', ref_value(o.ex, ret) == o.v0.gval(vsd), ('C17', 'C01'))
        live_ref(o, ret, CG, 0, vsd, ('C01', 'C17'))
    readonly(o, v1)
@spec('GGetConst')
def _(o, v1, ret, thrown): gread(o, v1, ret, thrown, side(o.bits[0]), side(o.bits[1 + CG]))
@spec('GGetPrevious')
def _(o, v1, ret, thrown): gread(o, v1, ret, thrown, 'read', 'read')
def gmut(o, v1, ret, thrown, value):
    ex, w, v = o.ex, o.w, o.v0
    ar = o.static.ar
    had = v.g(side(o.bits[0]))
    cond = TRUE if ar else had
    ex.oblige('throws exactly when the global component is absent and may not be added', lnot(cond) if thrown else cond, ('C17', 'C14'))
    if thrown:
        w.all_unchanged(ex, v, v1, False, ('C14', 'C17')); w.flags_same(ex, v, v1, others(1 + CG), 'a rejected access marks nothing else'); return
    reference_ok(o, ret, True)
    p = ret.path
    good = ret.root == 'ecs' and p[0] == 'indexes' and p[1] == CG and p[2] == 'writeComponents' and isinstance(p[-1], tuple)
    ex.oblige('reference designates the stored global value', p[-1][1] == 0 if good else FALSE, ('C17', 'C01'))
    ex.oblige('reference yields the expected global value', ref_value(ex, ret) == value(had), ('C17',))
    ex.oblige('the modification is marked for commit', v1.flag(1 + CG), ('C02', 'C17'))
    w.flags_same(ex, v, v1, others(0, 1 + CG), 'unrelated components are not marked')
    if ar:
        ex.oblige('global component is present', v1.g('write'), ('C17',))
        ex.oblige('added global component marks the entity set', imp(lnot(had), v1.flag(0)), ('C02', 'C17'))
        ex.oblige('entity set is only marked when the global is added', imp(had, v1.flag(0) == v.flag(0)), ('C07',))
        w.others_unchanged(ex, v, v1, None, (), 'global', glob=(CG,))
        w.no_growth(ex, v, v1)
    else: value_only(o, v1, CG, I(0))
    w.queues_untouched(ex, v, v1); free_kept(o, v1)
@spec('GGet')
def _(o, v1, ret, thrown): gmut(o, v1, ret, thrown, lambda had: z3.If(had, o.v0.gval('write'), dflt(CG)))
@spec('GSet')
def _(o, v1, ret, thrown): gmut(o, v1, ret, thrown, lambda had: o.given)
@spec('GSetArgs')
def _(o, v1, ret, thrown): gmut(o, v1, ret, thrown, lambda had: stl.opaque_ctor(o.ex, 'v::G', [o.args[1], o.args[2]], None))
@spec('GSetNone')
def _(o, v1, ret, thrown): gmut(o, v1, ret, thrown, lambda had: dflt(CG))
@spec('GUnset')
def _(o, v1, ret, thrown):
    ex, w, v = o.ex, o.w, o.v0
    ex.oblige('never throws', FALSE if thrown else TRUE, ('C17', 'C14'))
    had = v.g('write')
    ex.oblige('global component is absent', lnot(v1.g('write')), ('C17',))
    ex.oblige('removal is marked for commit', imp(had, land(v1.flag(0), v1.flag(1 + CG))), ('C02', 'C17'))
    ex.oblige('nothing is marked if nothing was removed', imp(lnot(had), land(v1.flag(0) == v.flag(0), v1.flag(1 + CG) == v.flag(1 + CG))), ('C07',))
    ex.oblige('value of the removed global is dropped', imp(had, v1.gval('write') == dflt(CG)), ('C12', 'C17'))
    w.flags_same(ex, v, v1, others(0, 1 + CG), 'unrelated components are not marked')
    w.others_unchanged(ex, v, v1, None, (), 'global', glob=(CG,))
    w.no_growth(ex, v, v1); w.queues_untouched(ex, v, v1); free_kept(o, v1)
@spec('TxnId')
def _(o, v1, ret, thrown):
    o.ex.oblige('reports the identifier of its transaction', ret == o.v0.store['base'].f['transactionId'] if not thrown else FALSE, ('C20', 'C18'))
    readonly(o, v1)
@spec('Instance')
def _(o, v1, ret, thrown):
    o.ex.oblige('refers to the instance of its transaction', TRUE if not thrown and isinstance(ret, LV) and ret.root == 'ecs' and not ret.path else FALSE, ('C18',))
    readonly(o, v1)

# ---------------------------------------------------------------- enumeration
READ_OPS = {'Exists', 'Existed', 'HasA', 'HasAB', 'HadA', 'HadAB', 'Entities', 'PreviousEntities', 'EntitiesWith', 'PreviousEntitiesWith', 'GHas', 'GHad', 'GetConst', 'GetPrevious', 'GGetConst', 'GGetPrevious', 'TxnId', 'Instance'}
def cases(L, op):
    """(transaction type, permission bits) under which a lock of static type L may be used"""
    P = Perm
    out = [('own', L, bits_of(L))]
    full = P(['Tecs::AddRemove']); wall = P(['Tecs::WriteAll'])
    if not L.ar: out.append(('subset of add/remove', full, BITS_ALL))
    if not L.ar and len(L.w) < NC: out.append(('subset of write-all', wall, bits_of(wall)))
    if not L.w and not L.ar:
        out.append(('read-only subset of add/remove', full, (False,) * len(FLAGS)))
        out.append(('read-only subset of write-all', wall, (False,) * len(FLAGS)))
    return out
def op_units(ir, cfg):
    us = []
    for f in ir.funcs.values():
        if not f['q'].startswith('u::') or f['name'] not in SPEC or 'body' not in f: continue
        op = f['name']
        lt = [p['t'] for p in f['params'] if 'Tecs::Lock<' in p['t']]
        if not lt: continue
        L = perm_of(lt[0])
        for cname, T, bits in cases(L, op):
            al = [None]
            if op in ('Get', 'Set', 'SetNone', 'UnsetA', 'UnsetAB', 'Destroy') and T.ar and cname == 'own': al = [None, ('write', 'm'), ('write', CA), ('write', CB)]
            if op == 'DestroyMut': al = [None]
            for a in al:
                nm = '%s on %s [%s%s]' % (op, lt[0].replace('const ', '').replace(ECS, 'ECS').rstrip(' &'), cname, '' if a is None else ', handle in %s list' % (a[1] if a[1] == 'm' else CNAME[a[1]]))
                us.append(Unit(nm, cfg, (), run_unit(ir, f, T, bits, a, 'UNCHECKED' not in cfg, L), f))
            if op in ('Set', 'GSet') and cname == 'own':
                us.append(Unit('%s on %s [own, value in storage]' % (op, lt[0].replace('const ', '').replace(ECS, 'ECS').rstrip(' &')), cfg, (), run_unit(ir, f, T, bits, None, 'UNCHECKED' not in cfg, L, True), f))
    return us
units = op_units
