// Bounded runs of the real code against a reference model (one thread).  usage: seq FIRST_SEED COUNT [TX]
// Prints "FAIL <properties> :: <what>" followed by the operations that led there, and exits with 3.
#include <Tecs.hh>
#include <array>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>

namespace w {
    constexpr int DEF = -7; // the value of a default-constructed component
    // what was moved away, destroyed or never constructed does not look like a value
    constexpr int GONE = 424242;
    struct A {
        int v = DEF; int mark = 0x600d;
        A() {} explicit A(int n) : v(n) {}
        A(const A &o) : v(o.val()) {} A(A &&o) : v(o.val()) { o.v = GONE; }
        A &operator=(const A &o) { v = o.val(); return *this; } A &operator=(A &&o) { int n = o.val(); o.v = GONE; v = n; return *this; }
        ~A() { *(volatile int *)&mark = 0; }
        int val() const { return *(const volatile int *)&mark == 0x600d ? v : GONE; }
    };
    inline std::string str(int n) { return std::to_string(n) + "........................"; } // too long to be stored in place
    inline int num(const std::string &s) { return s.empty() ? GONE : std::atoi(s.c_str()); }
    struct B { std::string s = str(DEF); B() {} explicit B(int n) : s(str(n)) {} int val() const { return num(s); } };
    struct C { std::vector<int> d{DEF}; C() {} explicit C(int n) : d(3, n) {} int val() const { return d.empty() ? GONE : d.back(); } };
    struct G { std::string s = str(DEF); G() {} explicit G(int n) : s(str(n)) {} int val() const { return num(s); } };
    struct H { int v = DEF; H() {} explicit H(int n) : v(n) {} int val() const { return v; } };
}
TECS_GLOBAL_COMPONENT(w::G);
TECS_GLOBAL_COMPONENT(w::H);
using namespace Tecs;
using w::A; using w::B; using w::C; using w::G; using w::H; using w::DEF;
using ECS_ = Tecs::ECS<A, G, B, C, H>;

static std::vector<std::string> logv;
static unsigned long seed;
static void note(const char *f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); logv.push_back(b); }
[[noreturn]] static void fail(const char *props, const char *f, ...) {
    char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    printf("FAIL %s :: %s\nseed %lu, operations of this run:\n", props, b, seed);
    size_t from = logv.size() > 120 ? logv.size() - 120 : 0;
    if (from) printf("  ... %zu earlier operations\n", from);
    for (size_t i = from; i < logv.size(); i++) printf("  %s\n", logv[i].c_str());
    fflush(stdout); _exit(3);
}
static const char *phase = "C14";
static void onsig(int g) {
    signal(g, SIG_DFL);
    std::string last = logv.empty() ? "" : logv.back(), p = phase;
    if (g == SIGALRM) fail(p == "C14,C06,C07" ? "C06,C07" : "C07", "the run hangs: one thread alone waits forever (after: %s)", last.c_str());
    if (p == "C14") {
        if (last.find("NewEntity") == 0) p += ",C09,C13"; else if (last.find("Unset") == 0) p += ",C11,C13"; else if (last.find("Destroy") == 0) p += ",C10,C13";
        else if (last.find("global") == 0) p += ",C17"; else if (last.find("Set") == 0 || last.find("Get") == 0) p += ",C12,C11,C13"; else if (last.find("Watch") == 0 || last.find("stop") == 0) p += ",C15,C16";
    }
    fail(p.c_str(), "the library crashes: signal %d (after: %s)", g, last.c_str());
}
static unsigned feat = ~0u; // which kinds of operation this run uses (swarm testing)
enum { GLOB = 1, OBSV = 2, INV = 4, UNSET = 8, DESTR = 16, LISTREF = 32, NEST = 64, MGET = 128, PREVG = 256, DYN = 512, SUBS = 1024, VIEWS = 2048, BIG = 4096 };
static bool F(unsigned f) { return feat & f; }
static void mark(const char *p) { phase = p; }
static std::mt19937_64 rng;
static unsigned R(unsigned n) { return (unsigned)(rng() % n); }
static bool P(unsigned pct) { return R(100) < pct; }
static int val() { return (int)R(1000); }

template<typename T> struct CI;
template<> struct CI<A> { static constexpr int i = 0; static constexpr const char *n = "A"; };
template<> struct CI<B> { static constexpr int i = 1; static constexpr const char *n = "B"; };
template<> struct CI<C> { static constexpr int i = 2; static constexpr const char *n = "C"; };
template<> struct CI<G> { static constexpr int i = 0; static constexpr const char *n = "G"; };
template<> struct CI<H> { static constexpr int i = 1; static constexpr const char *n = "H"; };

struct Rec { std::optional<int> c[3]; };
struct State { std::map<uint64_t, Rec> ent; std::optional<int> g[2]; };
static uint64_t u(const Entity &e) { return (uint64_t)e; }
static std::string hs(uint64_t h) { char b[60]; snprintf(b, sizeof b, "e(%u,%x)", (unsigned)h, (unsigned)(h >> 32)); return b; }

struct EvModel { std::deque<std::tuple<int, uint64_t, int>> q; };
template<typename Ev> struct Obs { Observer<ECS_, Ev> o; std::deque<std::tuple<int, uint64_t, int>> q; bool active = true; };
// saved list views of the running transaction
struct Saved { EntityView v; std::vector<uint64_t> snap; int list; bool prev; };

struct World {
    std::unique_ptr<ECS_> ecs{new ECS_()};
    State com, cur;
    bool ar = false;
    std::vector<uint64_t> known;
    std::set<uint64_t> ever;
    std::vector<Saved> saved;
    std::vector<Obs<EntityEvent>> oe; std::vector<Obs<ComponentEvent<A>>> oa; std::vector<Obs<ComponentEvent<B>>> ob; std::vector<Obs<ComponentEvent<G>>> og;
    size_t lastTx = 0;
    World *other = nullptr;
    bool structural = false; // an operation of this transaction may have changed the entity set

    void removed(uint64_t h, int list) { // entries of removed entities become null in place
        for (auto &s : saved) if (!s.prev && s.list == list) for (auto &x : s.snap) if (x == h) x = 0;
    }
    uint64_t pick() {
        unsigned k = F(INV) ? R(20) : 6 + R(10);
        if (!F(INV) && cur.ent.empty()) return ~(uint64_t)0;
        if (k == 0) return 0;
        if (k == 1) return u(Entity(R(200), R(5), (uint8_t)ecs->GetInstanceId()));
        if (k == 2 && other && !other->known.empty()) return other->known[R(other->known.size())];
        if (k == 3) return ((uint64_t)rng());
        if (k == 4 && !known.empty()) { auto h = known[R(known.size())]; return h + ((uint64_t)1 << 32); }
        if (k == 5 && !known.empty()) { auto h = known[R(known.size())]; return h ^ ((uint64_t)1 << (56 + R(8))); }
        if (k < 16 && !cur.ent.empty()) { auto it = cur.ent.begin(); std::advance(it, R(cur.ent.size())); return it->first; }
        if (!known.empty()) return known[R(known.size())];
        return 0;
    }
};

// ---- comparing everything visible through a lock with the model
template<typename T, typename L> void cmpList(World &w, const L &, const EntityView &v, const State &s, bool exact, const char *props, const char *what) {
    std::map<uint64_t, int> n;
    for (size_t i = 0; i < v.size(); i++) n[u(v[i])]++;
    for (auto &[h, r] : s.ent) {
        bool in; if constexpr (std::is_same_v<T, void>) in = true; else in = r.c[CI<T>::i].has_value();
        if (n[h] != (in ? 1 : 0)) fail(props, "%s: entity %s is listed %d times, expected %d", what, hs(h).c_str(), n[h], in ? 1 : 0);
    }
    for (auto &[h, k] : n) if (k && h && !s.ent.count(h)) fail(props, "%s: lists %s, which does not exist", what, hs(h).c_str());
    if (exact && n[0]) fail(props, "%s: %d null entries in a committed list", what, n[0]);
}
template<typename T, typename L> void cmpComp(World &w, const L &l, uint64_t h, const Rec *cur, const Rec *old, const char *pc, const char *pp) {
    Entity e(h);
    bool want = cur && cur->c[CI<T>::i], had = old && old->c[CI<T>::i];
    std::string P1 = std::string("C11") + pc, P2 = std::string("C11") + pp, V1 = std::string("C12") + pc, V2 = std::string("C12") + pp;
    if (!cur) P1 += ",C10"; 
    if (!old) P2 += ",C10";
    if (e.Has<T>(l) != want) fail(P1.c_str(), "Has<%s>(%s) is %d, expected %d", CI<T>::n, hs(h).c_str(), !want, want);
    if (e.Had<T>(l) != had) fail(P2.c_str(), "Had<%s>(%s) is %d, expected %d", CI<T>::n, hs(h).c_str(), !had, had);
    if constexpr (is_read_allowed<T, L>()) {
        bool thrown = false; int x = 0;
        try { x = e.Get<const T>(l).val(); } catch (const std::runtime_error &) { thrown = true; }
        if (thrown != !want) fail(want ? V1.c_str() : "C14,C10", "Get<const %s>(%s) %s", CI<T>::n, hs(h).c_str(), thrown ? "throws although present" : "does not throw although missing");
        if (want && x != *cur->c[CI<T>::i]) fail(V1.c_str(), "Get<const %s>(%s) is %d, expected %d", CI<T>::n, hs(h).c_str(), x, *cur->c[CI<T>::i]);
        thrown = false;
        try { x = e.GetPrevious<T>(l).val(); } catch (const std::runtime_error &) { thrown = true; }
        if (thrown != !had) fail(had ? V2.c_str() : "C14,C10", "GetPrevious<%s>(%s) %s", CI<T>::n, hs(h).c_str(), thrown ? "throws although it was present" : "does not throw although it was missing");
        if (had && x != *old->c[CI<T>::i]) fail(V2.c_str(), "GetPrevious<%s>(%s) is %d, expected %d", CI<T>::n, hs(h).c_str(), x, *old->c[CI<T>::i]);
    }
}
template<typename T, typename L> void cmpGlobal(World &w, const L &l, const State &cur, const State &old, const char *pc, const char *pp) {
    auto &want = cur.g[CI<T>::i]; auto &had = old.g[CI<T>::i];
    std::string V1 = std::string("C17,C12") + pc, V2 = std::string("C17,C12") + pp, P1 = std::string("C17,C11") + pc, P2 = std::string("C17,C11") + pp;
    if (l.template Has<T>() != want.has_value()) fail(P1.c_str(), "global Has<%s> is %d, expected %d", CI<T>::n, !want, !!want);
    if (l.template Had<T>() != had.has_value()) fail(P2.c_str(), "global Had<%s> is %d, expected %d", CI<T>::n, !had, !!had);
    if constexpr (is_read_allowed<T, L>()) {
        bool thrown = false; int x = 0;
        try { x = l.template Get<const T>().val(); } catch (const std::runtime_error &) { thrown = true; }
        if (thrown != !want) fail(want ? P1.c_str() : "C14,C17", "global Get<const %s> %s", CI<T>::n, thrown ? "throws although present" : "does not throw although missing");
        if (want && x != *want) fail(V1.c_str(), "global Get<const %s> is %d, expected %d", CI<T>::n, x, *want);
        if (l.template Has<T>() != want.has_value()) fail(P1.c_str(), "const Get<%s> changed the presence of the global component", CI<T>::n);
        thrown = false;
        try { x = l.template GetPrevious<T>().val(); } catch (const std::runtime_error &) { thrown = true; }
        if (thrown != !had) fail(had ? P2.c_str() : "C14,C17", "global GetPrevious<%s> %s", CI<T>::n, thrown ? "throws although it was present" : "does not throw although it was missing");
        if (had && x != *had) fail(V2.c_str(), "global GetPrevious<%s> is %d, expected %d", CI<T>::n, x, *had);
    }
}
// cur: what current-value queries must show; pc/pp: properties a deviation in current / previous queries also breaks
template<typename L> void compare(World &w, const L &l, const State &cur, const State &old, bool exact, const char *pc, const char *pp, const std::vector<uint64_t> &which) {
    std::string E1 = std::string("C10") + pc, E2 = std::string("C10") + pp, L1 = std::string("C13") + pc, L2 = std::string("C13") + pp;
    for (auto h : which) {
        auto i = cur.ent.find(h), j = old.ent.find(h);
        const Rec *c = i == cur.ent.end() ? nullptr : &i->second, *o = j == old.ent.end() ? nullptr : &j->second;
        if (Entity(h).Exists(l) != (c != nullptr)) fail(E1.c_str(), "Exists(%s) is %d", hs(h).c_str(), c == nullptr);
        if (Entity(h).Existed(l) != (o != nullptr)) fail(E2.c_str(), "Existed(%s) is %d", hs(h).c_str(), o == nullptr);
        cmpComp<A>(w, l, h, c, o, pc, pp); cmpComp<B>(w, l, h, c, o, pc, pp); cmpComp<C>(w, l, h, c, o, pc, pp);
    }
    cmpList<void>(w, l, l.Entities(), cur, exact, L1.c_str(), "Entities()");
    cmpList<A>(w, l, l.template EntitiesWith<A>(), cur, exact, L1.c_str(), "EntitiesWith<A>()");
    cmpList<B>(w, l, l.template EntitiesWith<B>(), cur, exact, L1.c_str(), "EntitiesWith<B>()");
    cmpList<C>(w, l, l.template EntitiesWith<C>(), cur, exact, L1.c_str(), "EntitiesWith<C>()");
    cmpList<void>(w, l, l.PreviousEntities(), old, true, L2.c_str(), "PreviousEntities()");
    cmpList<A>(w, l, l.template PreviousEntitiesWith<A>(), old, true, L2.c_str(), "PreviousEntitiesWith<A>()");
    cmpList<B>(w, l, l.template PreviousEntitiesWith<B>(), old, true, L2.c_str(), "PreviousEntitiesWith<B>()");
    cmpList<C>(w, l, l.template PreviousEntitiesWith<C>(), old, true, L2.c_str(), "PreviousEntitiesWith<C>()");
    if (F(GLOB)) { cmpGlobal<G>(w, l, cur, old, pc, pp); cmpGlobal<H>(w, l, cur, old, pc, pp); }
}
static std::vector<uint64_t> sampleHandles(World &w, bool all) {
    std::vector<uint64_t> v; if (!F(INV)) { for (auto &[h, r] : w.cur.ent) v.push_back(h); for (auto &[h, r] : w.com.ent) v.push_back(h); return v; }
    v = {0, u(Entity(1u << 30, 1u, (uint8_t)w.ecs->GetInstanceId())), ~(uint64_t)0};
    if (w.other) for (size_t i = 0; i < 3 && i < w.other->known.size(); i++) v.push_back(w.other->known[w.other->known.size() - 1 - i]);
    for (size_t i = 0; i < w.known.size(); i++) if (all ? P(50) || i + 12 > w.known.size() : P(10)) { v.push_back(w.known[i]); if (P(10)) v.push_back(w.known[i] + ((uint64_t)1 << 32)), v.push_back(w.known[i] ^ ((uint64_t)1 << (56 + R(8)))); }
    // probing handles must not name live entities of the model by accident: the model decides, it knows them all
    return v;
}
static void checkSaved(World &w) {
    for (auto &s : w.saved) {
        if (s.v.size() != s.snap.size()) fail("C13", "a list view obtained earlier changed size from %zu to %zu", s.snap.size(), s.v.size());
        for (size_t i = 0; i < s.snap.size(); i++)
            if (u(s.v[i]) != s.snap[i]) fail(s.prev ? "C13,C01" : "C13", "entry %zu of a list view obtained earlier is %s, expected %s", i, hs(u(s.v[i])).c_str(), s.snap[i] ? hs(s.snap[i]).c_str() : "null");
    }
}
template<typename L> void checkTx(World &w, const L &l, bool all) {
    auto which = sampleHandles(w, all);
    compare(w, l, w.cur, w.com, !w.ar, ",C01", ",C01", which);
    auto ro = l.ReadOnlySubset();
    { // what was given up with the subset is not given back
        auto no = [&](bool x, const char *n) { if (x) fail("C18", "a dynamic lock made from a read-only subset grants %s", n); };
        DynamicLock<ECS_> d(ro);
        no(d.template TryLock<Write<A>>().has_value(), "Write<A>"); no(d.template TryLock<Write<G>>().has_value(), "Write<G>"); no(d.template TryLock<AddRemove>().has_value(), "AddRemove");
        if constexpr (is_read_allowed<A, L>()) if (!d.template TryLock<Read<A>>()) fail("C18", "a dynamic lock made from a read-only subset refuses Read<A>");
    }
    compare(w, ro, w.com, w.com, true, ",C01", ",C01", which);
    if constexpr (is_write_allowed<A, L>()) { Lock<ECS_, Write<A>> s = l; compare(w, s, w.cur, w.com, !w.ar, ",C01,C18", ",C01,C18", which); }
    if constexpr (is_write_allowed<B, L>() && is_write_allowed<G, L>()) if (P(30)) { Lock<ECS_, Write<B, G>> s = l; compare(w, s, w.cur, w.com, !w.ar, ",C01,C18", ",C01,C18", which); }
    checkSaved(w);
}

// ---- observers
template<typename Ev> struct EvVal;
template<> struct EvVal<EntityEvent> { static int v(const EntityEvent &) { return 0; } };
template<typename T> struct EvVal<ComponentEvent<T>> { static int v(const ComponentEvent<T> &e) { return e.component.val(); } };
template<typename Ev, typename L> void poll(World &w, const L &l, Obs<Ev> &o, unsigned k, const char *n) {
    struct M { const char *p = phase; M() { phase = "C14,C16"; } ~M() { phase = p; } } m;
    for (unsigned i = 0; i < k; i++) {
        Ev e; e.type = (EventType)9; e.entity = Entity(77u, 77u);
        bool r; if (P(20)) { auto copy = o.o; r = copy.Poll(l, e); } else r = o.o.Poll(l, e); // copies of a handle share the queue
        if (o.q.empty() || !o.active) {
            if (r) fail(o.active ? "C16,C15" : "C16", "Poll of %s observer returns an event (type %d %s value %d) although none is pending", n, (int)e.type, hs(u(e.entity)).c_str(), e.type == (EventType)9 ? 0 : EvVal<Ev>::v(e));
            if (e.type != (EventType)9 || e.entity != Entity(77u, 77u)) fail("C16", "Poll without an event changed the output (%s)", n);
            return;
        }
        auto [t, h, x] = o.q.front(); o.q.pop_front();
        if (!r) fail("C16,C15", "Poll of %s observer returns nothing, expected type %d %s value %d", n, t, hs(h).c_str(), x);
        if ((int)e.type != t || u(e.entity) != h || EvVal<Ev>::v(e) != x)
            fail("C15,C16", "Poll of %s observer returns type %d %s value %d, expected type %d %s value %d", n, (int)e.type, hs(u(e.entity)).c_str(), EvVal<Ev>::v(e), t, hs(h).c_str(), x);
    }
}
template<typename L> void pollSome(World &w, const L &l, unsigned k) {
    for (auto &o : w.oe) if (P(60)) poll(w, l, o, k, "entity");
    for (auto &o : w.oa) if (P(60)) poll(w, l, o, k, "A");
    for (auto &o : w.ob) if (P(60)) poll(w, l, o, k, "B");
    for (auto &o : w.og) if (P(60)) poll(w, l, o, k, "G");
}
template<typename Ev> void push(std::vector<Obs<Ev>> &os, int t, uint64_t h, int x) { for (auto &o : os) if (o.active) o.q.emplace_back(t, h, x); }
template<typename Ev> void diffComp(World &w, std::vector<Obs<Ev>> &os, int c) {
    std::map<uint32_t, std::vector<std::tuple<int, uint64_t, int>>> by; // removal before addition of the same slot
    for (auto &[h, r] : w.com.ent) if (r.c[c]) { auto i = w.cur.ent.find(h); if (i == w.cur.ent.end() || !i->second.c[c]) by[(uint32_t)h].insert(by[(uint32_t)h].begin(), {(int)EventType::REMOVED, h, *r.c[c]}); }
    for (auto &[h, r] : w.cur.ent) if (r.c[c]) { auto i = w.com.ent.find(h); if (i == w.com.ent.end() || !i->second.c[c]) by[(uint32_t)h].push_back({(int)EventType::ADDED, h, *r.c[c]}); }
    for (auto &[k, v] : by) for (auto &[t, h, x] : v) push(os, t, h, x);
}
static void events(World &w) {
    std::map<uint32_t, std::vector<std::pair<int, uint64_t>>> by;
    for (auto &[h, r] : w.com.ent) if (!w.cur.ent.count(h)) by[(uint32_t)h].insert(by[(uint32_t)h].begin(), {(int)EventType::REMOVED, h});
    for (auto &[h, r] : w.cur.ent) if (!w.com.ent.count(h)) by[(uint32_t)h].push_back({(int)EventType::ADDED, h});
    for (auto &[k, v] : by) for (auto &[t, h] : v) push(w.oe, t, h, 0);
    diffComp(w, w.oa, 0); diffComp(w, w.ob, 1);
    if (w.com.g[0] && !w.cur.g[0]) push(w.og, (int)EventType::REMOVED, 0, *w.com.g[0]);
    if (!w.com.g[0] && w.cur.g[0]) push(w.og, (int)EventType::ADDED, 0, *w.cur.g[0]);
}

// ---- operations
template<typename T, typename L> void opWrite(World &w, const L &l, uint64_t h) {
    constexpr bool AR = is_add_remove_allowed<L>();
    constexpr int c = CI<T>::i;
    Entity e(h);
    auto it = w.cur.ent.find(h);
    bool exists = it != w.cur.ent.end(), has = exists && it->second.c[c], ok = exists && (has || AR);
    unsigned k = R(F(MGET) ? 4 : 2); int x = val(); bool thrown = false; int got = 0;
    if (P(8)) { // a value which is stored in the instance itself
        std::vector<uint64_t> from; for (auto &[h2, r] : w.cur.ent) if (r.c[c] && (h2 == h || from.size() < 8 || P(20))) from.push_back(h2);
        if (ok && has && P(40)) from = {h};
        if (!from.empty()) {
            uint64_t h2 = from[R(from.size())]; x = *w.cur.ent[h2].c[c];
            note("Set<%s>(%s) from the component of %s, value %d%s", CI<T>::n, hs(h).c_str(), hs(h2).c_str(), x, AR ? "" : " without add/remove");
            try { got = e.Set<T>(l, Entity(h2).Get<T>(l)).val(); } catch (const std::runtime_error &) { thrown = true; }
            if (thrown != !ok) fail(ok ? "C11,C12" : (exists ? "C14,C11" : "C14,C10"), "Set<%s>(%s) %s", CI<T>::n, hs(h).c_str(), thrown ? "throws although it is allowed" : "does not throw although the access is invalid");
            if (!ok) return;
            if (got != x) fail("C12,C01", "Set<%s>(%s) from a stored component returns %d, expected %d", CI<T>::n, hs(h).c_str(), got, x);
            it->second.c[c] = x; return;
        }
    }
    note("%s<%s>(%s) %d%s", k == 0 ? "Set(value)" : k == 1 ? "Set(args)" : k == 2 ? "Get mutable" : "Get mutable, assign", CI<T>::n, hs(h).c_str(), x, AR ? "" : " without add/remove");
    try {
        if (k == 0) { T t(x); got = e.Set<T>(l, t).val(); }
        else if (k == 1) got = e.Set<T>(l, x).val();
        else if (k == 2) { T &t = e.Get<T>(l); got = t.val(); x = has ? *it->second.c[c] : DEF; }
        else { T &t = e.Get<T>(l); if (!has && ok && t.val() != DEF) fail("C12", "a component added by Get<%s>(%s) starts as %d, not default-constructed", CI<T>::n, hs(h).c_str(), t.val()); t = T(x); got = x; }
    } catch (const std::runtime_error &) { thrown = true; }
    if (thrown != !ok) fail(ok ? "C11,C12" : (exists ? "C14,C11" : "C14,C10"), "%s<%s>(%s) %s", k < 2 ? "Set" : "Get", CI<T>::n, hs(h).c_str(), thrown ? "throws although it is allowed" : "does not throw although the access is invalid");
    if (!ok) return;
    if (got != x) fail("C12,C01", "%s<%s>(%s) returns %d, expected %d", k < 2 ? "Set" : "Get", CI<T>::n, hs(h).c_str(), got, x);
    it->second.c[c] = x;
}
template<typename L> void doUnset(World &w, const L &l, const Entity &e, unsigned mask) {
    uint64_t h = u(e);
    auto it = w.cur.ent.find(h); bool exists = it != w.cur.ent.end(), thrown = false;
    note("Unset mask %u (%s)", mask, hs(h).c_str());
    try {
        switch (mask) {
            case 1: e.Unset<A>(l); break; case 2: e.Unset<B>(l); break; case 3: e.Unset<A, B>(l); break; case 4: e.Unset<C>(l); break;
            case 5: e.Unset<C, A>(l); break; case 6: e.Unset<B, C>(l); break; default: e.Unset<A, B, C>(l); break;
        }
    } catch (const std::runtime_error &) { thrown = true; }
    if (thrown != !exists) fail(exists ? "C11" : "C14,C10", "Unset(%s) %s", hs(h).c_str(), thrown ? "throws although the entity exists" : "does not throw although the handle does not exist");
    if (exists) for (int c = 0; c < 3; c++) if (mask & (1 << c)) { if (it->second.c[c]) w.removed(h, c); it->second.c[c].reset(); }
}
template<typename L> void doDestroy(World &w, const L &l, uint64_t h, const Entity *ref) {
    auto it = w.cur.ent.find(h); bool exists = it != w.cur.ent.end(), thrown = false;
    note("Destroy(%s)%s", hs(h).c_str(), ref ? " through a list entry" : "");
    Entity e(h);
    try { if (ref) ref->Destroy(l); else e.Destroy(l); } catch (const std::runtime_error &) { thrown = true; }
    if (thrown != !exists) fail(exists ? "C10" : "C14,C10", "Destroy(%s) %s", hs(h).c_str(), thrown ? "throws although the entity exists" : "does not throw although the handle does not exist");
    if (thrown && !ref && u(e) != h) fail("C14,C10", "Destroy(%s) was rejected but changed the handle it was called on", hs(h).c_str());
    if (!exists) return;
    if (!ref && e) fail("C10", "Destroy left the handle it was called on set");
    for (int c = 0; c < 3; c++) if (it->second.c[c]) w.removed(h, c);
    w.removed(h, 3); w.cur.ent.erase(it);
}
template<typename T, typename L> void opGlobal(World &w, const L &l) {
    constexpr bool AR = is_add_remove_allowed<L>();
    auto &g = w.cur.g[CI<T>::i];
    unsigned k = F(MGET) ? R(AR ? 5 : 4) : R(3) * 2 % 5; if (k == 4 && !AR) k = 0; if (!F(MGET) && k == 2) k = 1; int x = val(), got = 0; bool ok = g || AR, thrown = false;
    if (g && k != 4 && P(8)) {
        note("global Set<%s> from its own stored value %d", CI<T>::n, *g);
        try { got = l.template Set<T>(l.template Get<T>()).val(); } catch (const std::runtime_error &) { thrown = true; }
        if (thrown || got != *g) fail("C17,C12", "setting global %s from a reference to itself %s (value %d, expected %d)", CI<T>::n, thrown ? "throws" : "changes it", got, *g);
        return;
    }
    note("global %s<%s> %d", k == 0 ? "Set(value)" : k == 1 ? "Set(args)" : k == 2 ? "Get mutable" : k == 3 ? "Get mutable, assign" : "Unset", CI<T>::n, x);
    if constexpr (AR) if (k == 4) { l.template Unset<T>(); g.reset(); return; }
    try {
        if (k == 0) { T t(x); got = l.template Set<T>(t).val(); }
        else if (k == 1) got = l.template Set<T>(x).val();
        else if (k == 2) { got = l.template Get<T>().val(); x = g ? *g : DEF; }
        else { T &t = l.template Get<T>(); if (!g && t.val() != DEF) fail("C17", "a global component created by Get<%s> starts as %d, not default-constructed", CI<T>::n, t.val()); t = T(x); got = x; }
    } catch (const std::runtime_error &) { thrown = true; }
    if (thrown != !ok) fail(ok ? "C17" : "C17,C14", "global access to %s %s", CI<T>::n, thrown ? "throws although it is allowed" : "does not throw although it is missing");
    if (!ok) return;
    if (got != x) fail("C17,C01", "global access to %s returns %d, expected %d", CI<T>::n, got, x);
    g = x;
}
struct PI { int lv[5]; bool ar; }; // A B C G H
static bool sub(const PI &d, const PI &s) { for (int i = 0; i < 5; i++) if (d.lv[i] > s.lv[i]) return false; return s.ar || !d.ar; }
template<typename... Rq> struct Go : std::false_type {};
template<> struct Go<Write<A>> : std::true_type {}; template<> struct Go<ReadAll> : std::true_type {}; template<> struct Go<WriteAll> : std::true_type {}; template<> struct Go<AddRemove> : std::true_type {};
template<typename... Rq> using PIX = std::bool_constant<Go<Rq...>::value>;
template<typename L> void opStep(World &w, const L &l, const PI &pi, int depth);
template<typename L, typename... Rq> void tryOne(World &w, const L &l, const PI &have, const PI &want, const char *n) {
    DynamicLock<ECS_> d(l);
    auto r = d.template TryLock<Rq...>();
    if (r.has_value() != sub(want, have)) fail("C18", "dynamic try-lock of %s %s", n, r ? "succeeds although not all permissions are held" : "fails although all permissions are held");
    if constexpr (std::is_same_v<PIX<Rq...>, std::true_type>) if (r && P(30)) { note("through a try-lock of %s", n); opStep(w, *r, want, 2); }
}
template<typename L> void opTry(World &w, const L &l, const PI &pi, int depth) {
    switch (R(9)) {
        case 0: tryOne<L, Read<A>>(w, l, pi, {{1, 0, 0, 0, 0}, false}, "Read<A>"); break;
        case 1: tryOne<L, Write<A>>(w, l, pi, {{2, 0, 0, 0, 0}, false}, "Write<A>"); break;
        case 2: tryOne<L, ReadAll>(w, l, pi, {{1, 1, 1, 1, 1}, false}, "ReadAll"); break;
        case 3: tryOne<L, WriteAll>(w, l, pi, {{2, 2, 2, 2, 2}, false}, "WriteAll"); break;
        case 4: tryOne<L, AddRemove>(w, l, pi, {{2, 2, 2, 2, 2}, true}, "AddRemove"); break;
        case 5: tryOne<L, Write<G>, Read<A>>(w, l, pi, {{1, 0, 0, 2, 0}, false}, "Write<G>,Read<A>"); break;
        case 6: tryOne<L, Read<G, H>>(w, l, pi, {{0, 0, 0, 1, 1}, false}, "Read<G,H>"); break;
        case 7: tryOne<L, Write<B, C>>(w, l, pi, {{0, 2, 2, 0, 0}, false}, "Write<B,C>"); break;
        case 8: tryOne<L>(w, l, pi, {{0, 0, 0, 0, 0}, false}, "nothing"); break;
    }
}
template<typename L> const EntityView listOf(const L &l, int k, bool prev) {
    if (prev) return k == 0 ? l.template PreviousEntitiesWith<A>() : k == 1 ? l.template PreviousEntitiesWith<B>() : k == 2 ? l.template PreviousEntitiesWith<C>() : l.PreviousEntities();
    return k == 0 ? l.template EntitiesWith<A>() : k == 1 ? l.template EntitiesWith<B>() : k == 2 ? l.template EntitiesWith<C>() : l.Entities();
}
template<typename L> void nested(World &w, const L &l) {
    note("starting a second transaction on the instance");
    bool thrown = false;
    try { if (P(50)) { auto t = w.ecs->StartTransaction<>(); } else { auto t = w.ecs->StartTransaction<Read<A>>(); } } catch (const std::runtime_error &) { thrown = true; }
    if (!thrown) fail("C19", "a second transaction was started on an instance with an active one in the same thread");
}
static void tx(World &w, int depth);
template<typename L> void opStep(World &w, const L &l, const PI &pi, int depth) {
    constexpr bool AR = is_add_remove_allowed<L>();
    switch (R(AR ? 16 : 9)) {
        case 0: case 1: case 2: {
            uint64_t h = w.pick();
            int c = R(3);
            if (c == 0) { if constexpr (is_write_allowed<A, L>()) opWrite<A>(w, l, h); }
            if (c == 1) { if constexpr (is_write_allowed<B, L>()) opWrite<B>(w, l, h); }
            if (c == 2) { if constexpr (is_write_allowed<C, L>()) opWrite<C>(w, l, h); }
            break;
        }
        case 3:
            if (!F(GLOB)) break;
            if (P(50)) { if constexpr (is_write_allowed<G, L>()) opGlobal<G>(w, l); }
            else { if constexpr (is_write_allowed<H, L>()) opGlobal<H>(w, l); }
            break;
        case 4: { if (!F(VIEWS)) break; int k = R(4); bool prev = P(30); auto v = listOf(l, k, prev); if (w.saved.size() < 6) { Saved s{v, {}, k, prev || !w.ar}; for (size_t i = 0; i < v.size(); i++) s.snap.push_back(u(v[i])); w.saved.push_back(s); } break; }
        case 5: if (F(OBSV)) pollSome(w, l, 1 + R(4)); break;
        case 6: if (F(DYN) && depth < 2) opTry(w, l, pi, depth); break;
        case 7: if (F(NEST) && depth == 0 && P(40)) nested(w, l); break;
        case 8:
            if (depth == 0 && P(30) && w.other && F(NEST)) { note("-- transaction on the other instance"); tx(*w.other, 1); note("-- back"); }
            else if (depth < 2 && F(SUBS)) { // through subset locks of the same transaction
                unsigned k = R(3);
                if (k == 1) { if constexpr (is_write_allowed<A, L>()) { note("through a subset Write<A>"); Lock<ECS_, Write<A>> r = l; opStep(w, r, PI{{2, 0, 0, 0, 0}, false}, 2); break; } }
                if (k == 2) { if constexpr (is_write_allowed<B, L>() && is_write_allowed<G, L>()) { note("through a subset Write<B,G>"); auto r = l.template Subset<Write<B, G>>(); opStep(w, r, PI{{0, 2, 0, 2, 0}, false}, 2); break; } }
                auto r = l.template Subset<>(); PI none{{0, 0, 0, 0, 0}, false}; opStep(w, r, none, 2);
            }
            break;
        default:
            if constexpr (AR) switch (R(F(BIG) ? 10 : 8)) {
                case 0: case 1: case 2: {
                    Entity e = l.NewEntity(); uint64_t h = u(e);
                    note("NewEntity() -> %s", hs(h).c_str());
                    if (!e) fail("C09", "NewEntity returns a null handle");
                    if (w.ever.count(h)) fail("C09", "NewEntity returns %s, which was handed out before", hs(h).c_str());
                    for (auto &[x, r] : w.cur.ent) if ((uint32_t)x == (uint32_t)h) fail("C09,C10", "NewEntity returns %s in the slot of the existing %s", hs(h).c_str(), hs(x).c_str());
                    if (IdentifierFromGeneration(e.generation) != w.ecs->GetInstanceId()) fail("C09,C20", "the handle %s does not carry the instance identifier %d", hs(h).c_str(), (int)w.ecs->GetInstanceId());
                    w.ever.insert(h); w.known.push_back(h); w.cur.ent[h] = Rec();
                    if (P(60)) { unsigned c = R(3); if (c == 0) opWrite<A>(w, l, h); else if (c == 1) opWrite<B>(w, l, h); else opWrite<C>(w, l, h); }
                    break;
                }
                case 3: if (F(UNSET)) doUnset(w, l, Entity(w.pick()), 1 + R(7)); break;
                case 4: if (F(DESTR)) doDestroy(w, l, w.pick(), nullptr); break;
                case 5: { // through references into the lists
                    if (!F(LISTREF)) break;
                    int k = R(4); auto v = listOf(l, k, P(20));
                    if (v.size() == 0) break;
                    const Entity &e = v[R(v.size())];
                    if (!e) break;
                    if (P(50)) doUnset(w, l, e, 1 + R(7)); else doDestroy(w, l, u(e), &e);
                    break;
                }
                case 6: {
                    if (!F(OBSV)) break;
                    unsigned k = R(4);
                    if (w.oe.size() + w.oa.size() + w.ob.size() + w.og.size() > 8) break;
                    note("Watch %u", k);
                    if (k == 0) { w.oe.emplace_back(); w.oe.back().o = l.template Watch<EntityEvent>(); }
                    if (k == 1) { w.oa.emplace_back(); w.oa.back().o = l.template Watch<ComponentEvent<A>>(); }
                    if (k == 2) { w.ob.emplace_back(); w.ob.back().o = l.template Watch<ComponentEvent<B>>(); }
                    if (k == 3) { w.og.emplace_back(); w.og.back().o = l.template Watch<ComponentEvent<G>>(); }
                    break;
                }
                case 8: { // many entities at once
                    if (w.cur.ent.size() > 450 || P(60)) break;
                    unsigned k = P(50) ? 20 + R(60) : 100 + R(220), cs = R(8);
                    note("%u times NewEntity with components %u", k, cs);
                    for (unsigned i = 0; i < k; i++) {
                        Entity e = l.NewEntity(); uint64_t h = u(e);
                        if (!e || w.ever.count(h)) fail("C09", "NewEntity returns %s, which was handed out before", hs(h).c_str());
                        w.ever.insert(h); w.known.push_back(h); auto &r = w.cur.ent[h];
                        if (cs & 1) { int x = val(); e.Set<A>(l, x); r.c[0] = x; }
                        if (cs & 2) { int x = val(); e.Set<B>(l, x); r.c[1] = x; }
                        if (cs & 4) { int x = val(); e.Set<C>(l, x); r.c[2] = x; }
                    }
                    break;
                }
                case 9: { // remove many of them
                    unsigned pct = P(30) ? 100 : P(50) ? 50 : 5; bool d = P(50); unsigned mask = 1 + R(7);
                    if (P(50) || !F(d ? DESTR : UNSET)) break;
                    note("%s %u%% of %zu entities (components %u)", d ? "Destroy" : "Unset", pct, w.cur.ent.size(), mask);
                    std::vector<uint64_t> hv; for (auto &[h, r] : w.cur.ent) if (P(pct)) hv.push_back(h);
                    size_t keep = logv.size();
                    for (auto h : hv) { if (d) doDestroy(w, l, h, nullptr); else doUnset(w, l, Entity(h), mask); logv.resize(keep); }
                    break;
                }
                case 7: {
                    if (!P(40) || !F(OBSV)) break;
                    auto stop = [&](auto &os, const char *n) { if (os.empty()) return; auto &o = os[R(os.size())]; bool keep = P(50); note("stop observer of %s%s%s", n, o.active ? "" : " (already stopped)", keep ? ", keeping a copy of the handle" : "");
                        auto copy = o.o; if (P(50)) l.StopWatching(o.o); else o.o.Stop(l); if (keep) o.o = copy; o.active = false; o.q.clear(); };
                    unsigned k = R(4);
                    if (k == 0) stop(w.oe, "entities"); else if (k == 1) stop(w.oa, "A"); else if (k == 2) stop(w.ob, "B"); else stop(w.og, "G");
                    break;
                }
            }
    }
}
template<typename... Perms> void txOf(World &w, const PI &pi, const char *name, int depth) {
    using L = Lock<ECS_, Perms...>;
    note("start transaction <%s>", name);
    std::unique_ptr<L> l;
    mark("C14,C06,C07");
    try { l.reset(new L(w.ecs->StartTransaction<Perms...>())); } catch (const std::exception &e) { fail("C19", "starting a transaction <%s> throws although none is active on the instance: %s", name, e.what()); }
    if (l->GetTransactionId() <= w.lastTx) fail("C20", "transaction identifier %zu after %zu", l->GetTransactionId(), w.lastTx);
    mark("C14");
    w.lastTx = l->GetTransactionId(); if (w.other) w.other->lastTx = w.lastTx;
    w.ar = pi.ar; w.cur = w.com;
    compare(w, *l, w.com, w.com, true, ",C02", ",C02", sampleHandles(w, P(30)));
    unsigned n = 1 + R(10);
    for (unsigned i = 0; i < n; i++) { opStep(w, *l, pi, depth); if (P(30)) checkTx(w, *l, false); else checkSaved(w); }
    checkTx(w, *l, P(40));
    if (P(25) && F(SUBS)) {
        note("dropping the first lock, a subset keeps the transaction");
        auto ro = l->ReadOnlySubset(); auto sub = l->template Subset<>();
        l.reset();
        bool thrown = false; try { auto t = w.ecs->StartTransaction<>(); } catch (const std::runtime_error &) { thrown = true; }
        if (!thrown) fail("C18", "the transaction ended although one of its locks is still there");
        compare(w, ro, w.com, w.com, true, ",C18,C01", ",C18,C01", sampleHandles(w, false));
    }
    mark("C14,C02,C13,C15");
    l.reset();
    mark("C14");
    note("end transaction");
    w.saved.clear();
    if (pi.ar) events(w);
    w.com = w.cur; w.ar = false;
}
static void tx(World &w, int depth) {
    switch (R(15)) {
        case 0: txOf<ReadAll>(w, {{1, 1, 1, 1, 1}, false}, "ReadAll", depth); break;
        case 1: case 2: txOf<Write<A>>(w, {{2, 0, 0, 0, 0}, false}, "Write<A>", depth); break;
        case 3: txOf<Read<A>, Write<B, G>>(w, {{1, 2, 0, 2, 0}, false}, "Read<A>,Write<B,G>", depth); break;
        case 4: case 5: txOf<WriteAll>(w, {{2, 2, 2, 2, 2}, false}, "WriteAll", depth); break;
        case 6: txOf<>(w, {{0, 0, 0, 0, 0}, false}, "", depth); break;
        default: txOf<AddRemove>(w, {{2, 2, 2, 2, 2}, true}, "AddRemove", depth); break;
    }
}
int main(int argc, char **argv) {
    unsigned long first = strtoul(argv[1], 0, 10), count = strtoul(argv[2], 0, 10); unsigned ntx = argc > 3 ? atoi(argv[3]) : 25;
    unsigned long total = 0;
    for (int g : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(g, onsig);
    for (seed = first; seed < first + count; seed++) {
        rng.seed(seed * 7919 + 13); logv.clear(); alarm(120);
        if (seed % 4) feat = (unsigned)rng() | (unsigned)rng() * (P(50) ? 1u : 0u); else feat = ~0u;
        if (seed % 5 == 3) feat |= BIG; else feat &= ~BIG; // many entities at a time
        World a, b; a.other = &b; b.other = &a;
        if (a.ecs->GetInstanceId() == 0 && seed == first) fail("C20", "the first instance has identifier zero");
        if (a.ecs->GetInstanceId() == b.ecs->GetInstanceId()) fail("C20", "two consecutive instances have the same identifier");
        for (unsigned i = 0; i < ntx; i++) { tx(a, 0); if (P(20)) { note("-- other instance"); tx(b, 1); note("--"); } }
        // everything still pending
        auto l = a.ecs->StartTransaction<>();
        for (auto &o : a.oe) poll(a, l, o, 1000, "entity");
        for (auto &o : a.oa) poll(a, l, o, 1000, "A");
        for (auto &o : a.ob) poll(a, l, o, 1000, "B");
        for (auto &o : a.og) poll(a, l, o, 1000, "G");
        total += logv.size();
    }
    printf("OK seeds=%lu ops=%lu\n", count, total);
    fflush(stdout); _exit(0);
}
