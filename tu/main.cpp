// Translation unit that instantiates the library for verification.  Each function u::X is a thin
// wrapper around one public operation; the verifier executes the wrapper, and through it the
// real code of /repo, symbolically.  Component types are opaque to the executor (it never looks
// inside them), so every obligation holds for any component value.
#include <Tecs.hh>
namespace v {
    struct A { int x = 0; A() = default; explicit A(int, int) {} };
    struct B { int y = 0; };
    struct G { int z = 0; G() = default; explicit G(int, int) {} };
    struct H { int z = 0; };
}
TECS_GLOBAL_COMPONENT(v::G);
TECS_GLOBAL_COMPONENT(v::H);
using namespace Tecs;
// entity and global components alternate, so that nothing holds only because of the order of the types
#ifdef TCV_ORDER2
using E = ECS<v::H, v::B, v::G, v::A>;
#else
using E = ECS<v::A, v::G, v::B, v::H>;
#endif
namespace u {
    // entity queries
    template<typename L> bool Exists(const L &l, const Entity &e) { return e.Exists(l); }
    template<typename L> bool Existed(const L &l, const Entity &e) { return e.Existed(l); }
    template<typename L> bool HasA(const L &l, const Entity &e) { return e.template Has<v::A>(l); }
    template<typename L> bool HasAB(const L &l, const Entity &e) { return e.template Has<v::A, v::B>(l); }
    template<typename L> bool HadA(const L &l, const Entity &e) { return e.template Had<v::A>(l); }
    template<typename L> bool HadAB(const L &l, const Entity &e) { return e.template Had<v::A, v::B>(l); }
    template<typename L> const v::A &GetConst(const L &l, const Entity &e) { return e.template Get<const v::A>(l); }
    template<typename L> const v::A &GetPrevious(const L &l, const Entity &e) { return e.template GetPrevious<v::A>(l); }
    // entity updates
    template<typename L> v::A &Get(const L &l, const Entity &e) { return e.template Get<v::A>(l); }
    template<typename L> v::A &Set(const L &l, const Entity &e, v::A &a) { return e.template Set<v::A>(l, a); }
    template<typename L> v::A &SetArgs(const L &l, const Entity &e, int a, int b) { return e.template Set<v::A>(l, a, b); }
    template<typename L> v::A &SetNone(const L &l, const Entity &e) { return e.template Set<v::A>(l); }
    template<typename L> void UnsetA(const L &l, const Entity &e) { e.template Unset<v::A>(l); }
    template<typename L> void UnsetAB(const L &l, const Entity &e) { e.template Unset<v::A, v::B>(l); }
    template<typename L> void Destroy(const L &l, const Entity &e) { e.Destroy(l); }
    template<typename L> void DestroyMut(const L &l, Entity &e) { e.Destroy(l); }
    template<typename L> Entity NewEntity(const L &l) { return l.NewEntity(); }
    // lists
    template<typename L> EntityView Entities(const L &l) { return l.Entities(); }
    template<typename L> EntityView PreviousEntities(const L &l) { return l.PreviousEntities(); }
    template<typename L> EntityView EntitiesWith(const L &l) { return l.template EntitiesWith<v::A>(); }
    template<typename L> EntityView PreviousEntitiesWith(const L &l) { return l.template PreviousEntitiesWith<v::A>(); }
    // globals
    template<typename L> bool GHas(const L &l) { return l.template Has<v::G>(); }
    template<typename L> bool GHad(const L &l) { return l.template Had<v::G>(); }
    template<typename L> const v::G &GGetConst(const L &l) { return l.template Get<const v::G>(); }
    template<typename L> const v::G &GGetPrevious(const L &l) { return l.template GetPrevious<v::G>(); }
    template<typename L> v::G &GGet(const L &l) { return l.template Get<v::G>(); }
    template<typename L> v::G &GSet(const L &l, v::G &g) { return l.template Set<v::G>(g); }
    template<typename L> v::G &GSetArgs(const L &l, int a, int b) { return l.template Set<v::G>(a, b); }
    template<typename L> v::G &GSetNone(const L &l) { return l.template Set<v::G>(); }
    template<typename L> void GUnset(const L &l) { l.template Unset<v::G>(); }
    // observers
    template<typename Ev> void Watch(const Lock<E, AddRemove> &l, Observer<E, Ev> &o) { o = l.template Watch<Ev>(); }
    template<typename Ev> void StopWatching(const Lock<E, AddRemove> &l, Observer<E, Ev> &o) { l.StopWatching(o); }
    template<typename Ev> void Stop(const Lock<E, AddRemove> &l, Observer<E, Ev> &o) { o.Stop(l); }
    template<typename Ev> bool Poll(const Lock<E> &l, const Observer<E, Ev> &o, Ev &ev) { return o.Poll(l, ev); }
    template<typename Ev> bool Active(const Observer<E, Ev> &o) { return (bool)o; }
    // locks
    template<typename To, typename From> To Convert(const From &l) { return l; }
    template<typename L> auto ReadOnly(const L &l) { return l.ReadOnlySubset(); }
    template<typename L> auto SubsetReadA(const L &l) { return l.template Subset<Read<v::A>>(); }
    template<typename D, typename From> D MakeDynamic(const From &l) { return D(l); }
    template<typename P, typename D> auto TryLock(const D &d) { return d.template TryLock<P>(); }
    template<typename L> size_t TxnId(const L &l) { return l.GetTransactionId(); }
    template<typename... P> Lock<E, P...> StartLock(E &ecs) { return ecs.StartTransaction<P...>(); }
    template<typename L> E &Instance(const L &l) { return l.GetInstance(); }
    // transactions
    template<typename... P> void Begin(E &ecs) { auto l = ecs.StartTransaction<P...>(); }
    uint8_t InstanceId(const E &ecs) { return ecs.GetInstanceId(); }
    void NewECS() { E ecs; }
    // views
    EntityView ViewAll(const std::vector<Entity> &s) { return EntityView(s); }
    EntityView ViewRange(const std::vector<Entity> &s, size_t a, size_t b) { return EntityView(s, a, b); }
    const Entity &VIndex(const EntityView &v, size_t i) { return v[i]; }
    size_t VSize(const EntityView &v) { return v.size(); }
    bool VEmpty(const EntityView &v) { return v.empty(); }
    EntityView VSub(const EntityView &v, size_t a, size_t b) { return v.subview(a, b); }
    EntityView VSubTail(const EntityView &v, size_t a) { return v.subview(a); }
    const Entity &VBeginPlus(const EntityView &v, ptrdiff_t n) { return *(v.begin() + n); }
    const Entity &VBeginIndex(const EntityView &v, ptrdiff_t n) { return v.begin()[n]; }
    const Entity &VEndMinus(const EntityView &v, ptrdiff_t n) { return *(v.end() - n); }
    const Entity *VArrow(const EntityView &v, ptrdiff_t n) { return (v.begin() + n).operator->(); }
    bool VStep(const EntityView &v, ptrdiff_t n) {
        auto it = v.begin() + n; auto a = it; ++a; auto b = it; b++; auto c = a; --c; auto d = a; d--;
        auto e = it; e += 3; e -= 2; auto f = it++; auto g = it--;
        return a == b && c == d && c == it && a == e && f == it && g == a && !(a == it) && (a != it) && !(a != b);
    }
    bool VAtEnd(const EntityView &v, size_t n) { return v.begin() + n == v.end(); }
    const Entity &VReverse(const EntityView &v, ptrdiff_t n) { return *(v.rbegin() + n); }
    bool VReverseAtEnd(const EntityView &v, ptrdiff_t n) { return v.rbegin() + n == v.rend(); }
    // handles
    Entity HFrom(uint64_t u) { return Entity(u); }
    uint64_t HTo(const Entity &a) { return (uint64_t)a; }
    bool HEq(const Entity &a, const Entity &b) { return a == b; }
    bool HNe(const Entity &a, const Entity &b) { return a != b; }
    bool HLt(const Entity &a, const Entity &b) { return a < b; }
    bool HNot(const Entity &a) { return !a; }
    bool HBool(const Entity &a) { return (bool)a; }
    size_t HHash(const Entity &a) { return std::hash<Entity>()(a); }
    Entity HMake2(TECS_ENTITY_INDEX_TYPE i, TECS_ENTITY_GENERATION_TYPE g) { return Entity(i, g); }
    Entity HMake3(TECS_ENTITY_INDEX_TYPE i, TECS_ENTITY_GENERATION_TYPE g, TECS_ENTITY_ECS_IDENTIFIER_TYPE id) { return Entity(i, g, id); }
    Entity HNull() { return Entity(); }
    TECS_ENTITY_GENERATION_TYPE GWithout(TECS_ENTITY_GENERATION_TYPE g) { return GenerationWithoutIdentifier(g); }
    TECS_ENTITY_GENERATION_TYPE GWith(TECS_ENTITY_GENERATION_TYPE g, TECS_ENTITY_ECS_IDENTIFIER_TYPE id) { return GenerationWithIdentifier(g, id); }
    TECS_ENTITY_ECS_IDENTIFIER_TYPE GId(TECS_ENTITY_GENERATION_TYPE g) { return IdentifierFromGeneration(g); }
#ifdef TECS_ENABLE_PERFORMANCE_TRACING
    void TTrace(TraceInfo &t, TraceEvent::Type ty) { t.Trace(ty); }
    void TStart(TraceInfo &t) { t.StartTrace(); }
    auto TStop(TraceInfo &t) { return t.StopTrace(); }
    void TNew() { TraceInfo t; }
    void EStart(E &ecs) { ecs.StartTrace(); }
    auto EStop(E &ecs) { return ecs.StopTrace(); }
#endif
}
#define ENT_READ(L) \
    template bool u::Exists(const L &, const Entity &); template bool u::Existed(const L &, const Entity &); \
    template bool u::HasA(const L &, const Entity &); template bool u::HasAB(const L &, const Entity &); \
    template bool u::HadA(const L &, const Entity &); template bool u::HadAB(const L &, const Entity &); \
    template EntityView u::Entities(const L &); template EntityView u::PreviousEntities(const L &); \
    template EntityView u::EntitiesWith(const L &); template EntityView u::PreviousEntitiesWith(const L &); \
    template bool u::GHas(const L &); template bool u::GHad(const L &); template size_t u::TxnId(const L &); template E &u::Instance(const L &);
#define A_READ(L) template const v::A &u::GetConst(const L &, const Entity &); template const v::A &u::GetPrevious(const L &, const Entity &);
#define A_WRITE(L) template v::A &u::Get(const L &, const Entity &); template v::A &u::Set(const L &, const Entity &, v::A &); \
    template v::A &u::SetArgs(const L &, const Entity &, int, int); template v::A &u::SetNone(const L &, const Entity &);
#define G_READ(L) template const v::G &u::GGetConst(const L &); template const v::G &u::GGetPrevious(const L &);
#define G_WRITE(L) template v::G &u::GGet(const L &); template v::G &u::GSet(const L &, v::G &); template v::G &u::GSetArgs(const L &, int, int); template v::G &u::GSetNone(const L &);
#define AR(L) template void u::UnsetA(const L &, const Entity &); template void u::UnsetAB(const L &, const Entity &); \
    template void u::Destroy(const L &, const Entity &); template void u::DestroyMut(const L &, Entity &); template Entity u::NewEntity(const L &); template void u::GUnset(const L &);
#define COMMA ,
#define LK(...) Lock<E __VA_OPT__(,) __VA_ARGS__>
#define OBS(Ev) template void u::Watch(const LK(AddRemove) &, Observer<E, Ev> &); template void u::StopWatching(const LK(AddRemove) &, Observer<E, Ev> &); \
    template void u::Stop(const LK(AddRemove) &, Observer<E, Ev> &); template bool u::Poll(const LK() &, const Observer<E, Ev> &, Ev &); template bool u::Active(const Observer<E, Ev> &);
using LAR = LK(AddRemove); using LWA = LK(Write<v::A>); using LRA = LK(Read<v::A>); using LN = LK(); using LWAll = LK(WriteAll);
using LRAll = LK(ReadAll); using LWG = LK(Write<v::G>); using LRG = LK(Read<v::G>);
using LWARB = LK(Write<v::A>, Read<v::B>); using LRAllWA = LK(ReadAll, Write<v::A>);
ENT_READ(LAR) A_READ(LAR) A_WRITE(LAR) G_READ(LAR) G_WRITE(LAR) AR(LAR)
ENT_READ(LWA) A_READ(LWA) A_WRITE(LWA)
ENT_READ(LRA) A_READ(LRA)
ENT_READ(LN)
ENT_READ(LWAll) A_READ(LWAll) A_WRITE(LWAll) G_READ(LWAll) G_WRITE(LWAll)
ENT_READ(LRAll) A_READ(LRAll) G_READ(LRAll)
ENT_READ(LRAllWA) A_READ(LRAllWA) A_WRITE(LRAllWA)
G_READ(LWG) G_WRITE(LWG) G_READ(LRG)
OBS(EntityEvent) OBS(ComponentEvent<v::A>) OBS(ComponentEvent<v::G>)
template void u::Begin<AddRemove>(E &); template void u::Begin<Write<v::A>>(E &); template void u::Begin<Read<v::A>>(E &); template void u::Begin<>(E &);
template void u::Begin<WriteAll>(E &); template void u::Begin<ReadAll>(E &); template void u::Begin<Write<v::G>>(E &); template void u::Begin<Write<v::A>, Read<v::B>>(E &);
template void u::Begin<Read<v::A, v::G>>(E &); template void u::Begin<Write<v::G>, Read<v::H>>(E &); template void u::Begin<ReadAll, Write<v::B>>(E &);
#define CONV(To, From) template To u::Convert<To, From>(const From &);
CONV(LAR, LAR) CONV(LWAll, LAR) CONV(LWA, LAR) CONV(LRA, LAR) CONV(LN, LAR) CONV(LRAll, LAR) CONV(LRAllWA, LAR) CONV(LWA, LWAll) CONV(LRA, LWAll) CONV(LRA, LWA) CONV(LRA, LRAll) CONV(LN, LRA) CONV(LWA, LRAllWA) CONV(LWG, LWAll)
#define RO(L) template auto u::ReadOnly(const L &);
RO(LAR) RO(LWA) RO(LRA) RO(LN) RO(LWAll) RO(LRAll) RO(LRAllWA)
template auto u::SubsetReadA(const LAR &); template auto u::SubsetReadA(const LWA &);
#define SLOCK(...) template Lock<E __VA_OPT__(,) __VA_ARGS__> u::StartLock<__VA_ARGS__>(E &);
SLOCK(AddRemove) SLOCK(WriteAll) SLOCK(ReadAll) SLOCK() SLOCK(Write<v::A>) SLOCK(Read<v::A>) SLOCK(Write<v::A>, Read<v::B>) SLOCK(Write<v::G>) SLOCK(ReadAll, Write<v::B>)
#define DYN(D, From) template D u::MakeDynamic<D, From>(const From &);
#define DL(...) DynamicLock<E __VA_OPT__(,) __VA_ARGS__>
using DN = DL(); using DRA = DL(Read<v::A>); using DWA = DL(Write<v::A>); using DRAll = DL(ReadAll); using DWAll = DL(WriteAll); using DAR = DL(AddRemove);
DYN(DN, LN) DYN(DN, LRA) DYN(DN, LWA) DYN(DN, LRAll) DYN(DN, LWAll) DYN(DN, LAR) DYN(DN, LRAllWA) DYN(DRA, LRA) DYN(DRA, LAR) DYN(DWA, LWAll) DYN(DWA, LAR) DYN(DRAll, LRAll) DYN(DRAll, LAR) DYN(DWAll, LAR) DYN(DWAll, LWAll) DYN(DAR, LAR)
#define TRYL(D, P) template auto u::TryLock<P, D>(const D &);
#define TRYALL(D) TRYL(D, Read<v::A>) TRYL(D, Read<v::B>) TRYL(D, Read<v::G>) TRYL(D, Write<v::A>) TRYL(D, Write<v::B>) TRYL(D, Write<v::G>) TRYL(D, Read<v::A COMMA v::B>) TRYL(D, Write<v::A COMMA v::G>) TRYL(D, ReadAll) TRYL(D, WriteAll) TRYL(D, AddRemove)
TRYALL(DN) TRYALL(DRA) TRYALL(DWA) TRYALL(DRAll) TRYALL(DWAll) TRYALL(DAR)
#include TECS_SRC
