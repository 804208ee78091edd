"""Specification vocabulary: views of the ECS state, representation invariants, tags."""
import os
import z3
from .core import *

i_, j_, p_, q_ = z3.Int('i'), z3.Int('j'), z3.Int('p'), z3.Int('q')
M24 = 1 << 24
NMAX = (1 << 32) - 1
# entity and global components alternate; which instantiation is verified: the component types in the order A, G, B, H, or (TCV_ORDER=2) the other way round
ORDER2 = os.environ.get('TCV_ORDER') == '2'
CA, CG, CB, CH = (3, 2, 1, 0) if ORDER2 else (0, 1, 2, 3)
CNAME = {CA: 'A', CG: 'G', CB: 'B', CH: 'H'}
CS = tuple(sorted(CNAME))
NC = len(CS)
FLAGS = tuple(range(NC + 1))   # bit 0: entities (add/remove); bit 1 + c: component c
ENTC = tuple(sorted((CA, CB)))          # tuple index of per-entity component types
GLBS = tuple(sorted((CG, CH)))          # tuple index of global component types
COMPS = ['v::' + CNAME[c] for c in CS]
def sel2(a, i): return z3.Select(a, i)
def low24(g): return g % I(M24)
def idof(g): return g / I(M24)
def has_ite(t):
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE): return True
    return any(has_ite(c) for c in t.children()) if z3.is_app(t) else False
def FA(vs, body, *pats):
    if pats and not any(has_ite(p) for p in pats):
        try: return z3.ForAll(vs, body, patterns=list(pats))
        except z3.Z3Exception: pass
    return z3.ForAll(vs, body)
imp = z3.Implies

class Vw:
    """a named view of one ECS state (value tree of root 'ecs', plus heap roots)"""
    def __init__(s, store):
        s.store = store
        s.e = store['ecs'].f
        s.m = s.e['metadata'].f
        s.idx = s.e['indexes'].f
    def st(s, c): return s.m if c == 'm' else s.idx[c].f
    # metadata
    def meta(s, side): return s.m[side + 'Components'].f
    def N(s, side): return s.meta(side)['size']
    def bit(s, side, b, i): return sel2(s.meta(side)['data'].t.f[b], i)
    def alive(s, side, i): return s.bit(side, 0, i)
    def gen(s, side, i): return sel2(s.meta(side)['data'].t.f['generation'], i)
    def has(s, side, c, i): return s.bit(side, 0, i) if c == 'm' else s.bit(side, 1 + c, i)
    # components
    def cvec(s, side, c): return s.idx[c].f[side + 'Components'].f
    def csize(s, side, c): return s.cvec(side, c)['size']
    def val(s, side, c, i): return sel2(s.cvec(side, c)['data'].t, i)
    # lists
    def L(s, side, c): return s.st(c)[side + 'ValidEntities'].f
    def Ln(s, side, c): return s.L(side, c)['size']
    def Li(s, side, c, p): return sel2(s.L(side, c)['data'].t.f['index'], p)
    def Lg(s, side, c, p): return sel2(s.L(side, c)['data'].t.f['generation'], p)
    def V(s, c, i): return sel2(s.st(c)['validEntityIndexes'].f['data'].t, i)
    def Vn(s, c): return s.st(c)['validEntityIndexes'].f['size']
    # ghost: position of entity i in the committed list of c
    def rpos(s, c, i): return sel2(s.store['ghost:rpos'].f[c].t, i)
    # free list
    def fb(s): return s.e['freeEntities'].f['b']
    def fe(s): return s.e['freeEntities'].f['e']
    def fi(s, q): return sel2(s.e['freeEntities'].f['data'].t.f['index'], q)
    def fg(s, q): return sel2(s.e['freeEntities'].f['data'].t.f['generation'], q)
    # globals
    def g(s, side, c=CG): return s.e['globalReadMetadata' if side == 'read' else 'globalWriteMetadata'].f[1 + c]
    def gval(s, side, c=CG): return s.val(side, c, I(0))
    def gsize(s, side, c=CG): return s.csize(side, c)
    # flags
    def flag(s, b): return s.store['base'].f['writeAccessedFlags'].f[b]
    def ecsid(s): return s.e['ecsId'] % I(256)

def no_leaf(v, side, i):
    """equality of metadata entry i on both sides"""

def read_inv(v, tag=''):
    """invariants of the committed (read) side"""
    n = v.N('read')
    out = [('committed entity count bounded', ('C14',), land(n >= 0, n <= NMAX))]
    for c in ENTC:
        out.append(('committed %s storage has one slot per entity' % CNAME[c], ('C14', 'C02'), v.csize('read', c) == n))
        out.append(('committed %s only on existing entities' % CNAME[c], ('C10', 'C11'),
                    FA([i_], imp(land(i_ >= 0, i_ < n, v.has('read', c, i_)), v.alive('read', i_)), v.has('read', c, i_))))
    out.append(('committed entities have a valid handle of this instance', ('C10', 'C09'),
                FA([i_], imp(land(i_ >= 0, i_ < n, v.alive('read', i_)), land(low24(v.gen('read', i_)) != 0, idof(v.gen('read', i_)) == v.ecsid())), v.alive('read', i_))))
    for c in ('m',) + ENTC:
        nm = 'entity list' if c == 'm' else 'list of ' + CNAME[c]
        out.append(('committed %s: every entry matches' % nm, ('C13',),
                    FA([p_], imp(land(p_ >= 0, p_ < v.Ln('read', c)),
                                 land(v.Li('read', c, p_) >= 0, v.Li('read', c, p_) < n, v.has('read', c, v.Li('read', c, p_)),
                                      v.Lg('read', c, p_) == v.gen('read', v.Li('read', c, p_)))), v.Li('read', c, p_))))
        out.append(('committed %s: no duplicates, slot order' % nm, ('C13',),
                    FA([p_, q_], imp(land(p_ >= 0, p_ < q_, q_ < v.Ln('read', c)), v.Li('read', c, p_) < v.Li('read', c, q_)),
                       z3.MultiPattern(v.Li('read', c, p_), v.Li('read', c, q_)))))
        out.append(('committed %s: complete' % nm, ('C13',),
                    FA([i_], imp(land(i_ >= 0, i_ < n, v.has('read', c, i_)),
                                 land(v.rpos(c, i_) >= 0, v.rpos(c, i_) < v.Ln('read', c), v.Li('read', c, v.rpos(c, i_)) == i_)), v.has('read', c, i_))))
    for c in GLBS: out.append(('committed presence and value of global %s agree' % CNAME[c], ('C17',), imp(v.g('read', c), v.gsize('read', c) >= 1)))
    return out

def write_inv(v):
    """invariants of the in-progress (write) side during an add/remove transaction"""
    n, nr = v.N('write'), v.N('read')
    out = [('entity count bounded', ('C14',), land(nr <= n, n <= NMAX)),
           ('list positions: one per entity', ('C14',), v.Vn('m') == n)]
    for c in ENTC:
        out.append(('%s storage has one slot per entity' % CNAME[c], ('C14',), land(v.csize('write', c) == n, v.Vn(c) == n)))
        out.append(('%s only on existing entities' % CNAME[c], ('C10', 'C11'),
                    FA([i_], imp(land(i_ >= 0, i_ < n, v.has('write', c, i_)), v.alive('write', i_)), v.has('write', c, i_))))
    out.append(('existing entities have a valid handle of this instance', ('C10', 'C09'),
                FA([i_], imp(land(i_ >= 0, i_ < n, v.alive('write', i_)), land(low24(v.gen('write', i_)) != 0, idof(v.gen('write', i_)) == v.ecsid())), v.alive('write', i_))))
    out.append(('handles of committed entities keep their generation', ('C09', 'C10', 'C15'),
                FA([i_], imp(land(i_ >= 0, i_ < nr, v.alive('read', i_)), v.gen('write', i_) == v.gen('read', i_)), v.alive('read', i_))))
    for c in ('m',) + ENTC:
        nm = 'entity list' if c == 'm' else 'list of ' + CNAME[c]
        out.append(('%s: every entry is null or matches' % nm, ('C13',),
                    FA([p_], imp(land(p_ >= 0, p_ < v.Ln('write', c)),
                                 lor(land(v.Li('write', c, p_) == 0, v.Lg('write', c, p_) == 0),
                                     land(v.Li('write', c, p_) >= 0, v.Li('write', c, p_) < n, v.has('write', c, v.Li('write', c, p_)),
                                          v.Lg('write', c, p_) == v.gen('write', v.Li('write', c, p_)), v.V(c, v.Li('write', c, p_)) == p_))), v.Li('write', c, p_))))
        out.append(('%s: complete' % nm, ('C13',),
                    FA([i_], imp(land(i_ >= 0, i_ < n, v.has('write', c, i_)),
                                 land(v.V(c, i_) >= 0, v.V(c, i_) < v.Ln('write', c), v.Li('write', c, v.V(c, i_)) == i_,
                                      v.Lg('write', c, v.V(c, i_)) == v.gen('write', i_))), v.has('write', c, i_))))
    fb, fe = v.fb(), v.fe()
    out.append(('free list: unused slots only', ('C09', 'C10'),
                FA([q_], imp(land(q_ >= fb, q_ < fe), land(v.fi(q_) >= 0, v.fi(q_) < n, lnot(v.alive('write', v.fi(q_))),
                                                        imp(v.fi(q_) < nr, lnot(v.alive('read', v.fi(q_)))))), v.fi(q_))))
    out.append(('free list: no slot twice', ('C09', 'C10'),
                FA([p_, q_], imp(land(p_ >= fb, p_ < q_, q_ < fe), v.fi(p_) < v.fi(q_)), z3.MultiPattern(v.fi(p_), v.fi(q_)))))
    out.append(('free list: handles are newer than any handed out for the slot', ('C09', 'C10'),
                FA([q_], imp(land(q_ >= fb, q_ < fe), land(idof(v.fg(q_)) == v.ecsid(),
                     lor(low24(v.gen('write', v.fi(q_))) == M24 - 1, low24(v.fg(q_)) > low24(v.gen('write', v.fi(q_)))))), v.fg(q_))))
    out.append(('free list bounded', ('C09',), land(fb <= fe)))
    for c in GLBS: out.append(('in-progress presence and value of global %s agree' % CNAME[c], ('C17',), imp(v.g('write', c), v.gsize('write', c) >= 1)))
    return out

def flags_inv(v):
    """what is not flagged is unchanged: nothing that was written is missed by the commit"""
    n, nr = v.N('write'), v.N('read')
    f0 = v.flag(0)
    out = []
    same_m = [n == nr, FA([i_], imp(land(i_ >= 0, i_ < n), land(v.alive('write', i_) == v.alive('read', i_), v.gen('write', i_) == v.gen('read', i_),
                          *[v.has('write', c, i_) == v.has('read', c, i_) for c in ENTC])), v.alive('write', i_), *[v.has('write', c, i_) for c in ENTC], v.gen('write', i_))]
    out.append(('unflagged entity set is unchanged', ('C02', 'C07', 'C03'), imp(lnot(f0), land(*same_m))))
    for c in ENTC:
        out.append(('unflagged %s is unchanged' % CNAME[c], ('C02', 'C03', 'C11', 'C12'), imp(lnot(v.flag(1 + c)), land(n == nr, FA([i_], imp(land(i_ >= 0, i_ < n),
                    land(v.has('write', c, i_) == v.has('read', c, i_), imp(v.has('read', c, i_), v.val('write', c, i_) == v.val('read', c, i_)))), v.has('write', c, i_), v.has('read', c, i_))))))
    for c in GLBS:
        gf = v.flag(1 + c)
        out.append(('unflagged presence of global %s is unchanged' % CNAME[c], ('C02', 'C17'), imp(lnot(land(f0, gf)), v.g('write', c) == v.g('read', c))))
        out.append(('unflagged value of global %s is unchanged' % CNAME[c], ('C02', 'C17'), imp(lnot(gf), imp(v.g('read', c), land(v.g('write', c) == v.g('read', c), v.gval('write', c) == v.gval('read', c), v.gsize('write', c) >= 1)))))
    return out

def list_same(v, w, c, sv, sw):
    """committed/unchanged list equality between two views/sides"""
    return land(v.Ln(sv, c) == w.Ln(sw, c),
                FA([p_], imp(land(p_ >= 0, p_ < v.Ln(sv, c)), land(v.Li(sv, c, p_) == w.Li(sw, c, p_), v.Lg(sv, c, p_) == w.Lg(sw, c, p_))), v.Li(sv, c, p_)))

EVK = {0: 'entity', **{1 + c: CNAME[c] for c in CS}}
def obs_inv(ex, v):
    """observer lists: every queue is a distinct live object, separate from the pending queue"""
    out = []
    for k in FLAGS:
        ol = v.e['eventLists'].f[k].f
        obs, wq = ol['observers'].f, ol['writeQueue']
        o = lambda p: sel2(obs['data'].t, p)
        live = lambda x: sel2(v.store['live'].t, x)
        out.append(('%s observers: distinct live queues' % EVK[k], ('C16', 'C15'),
                    FA([p_], imp(land(p_ >= 0, p_ < obs['size']), land(o(p_) != 0, live(o(p_)), o(p_) != wq)), o(p_))))
        out.append(('%s observers: one queue each' % EVK[k], ('C16', 'C15'),
                    FA([p_, q_], imp(land(p_ >= 0, p_ < q_, q_ < obs['size']), o(p_) != o(q_)), z3.MultiPattern(o(p_), o(q_)))))
        out.append(('%s pending event queue exists' % EVK[k], ('C15',), land(wq != 0, live(wq))))
    return out
def pending_empty(ex, v):
    out = []
    for k in FLAGS:
        wq = v.e['eventLists'].f[k].f['writeQueue']
        h = heap(v.store, k)
        if h is None: continue
        out.append(('%s pending events delivered' % EVK[k], ('C15',), sel2(h.f['b'], wq) == sel2(h.f['e'], wq)))
    return out
HEAPKEY = {}
def heap(store, k):
    r = HEAPKEY.get(k)
    return store[r].t if r in store else None
