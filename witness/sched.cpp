// Bounded runs of the real code under a controlled scheduler: every atomic operation of the library is a scheduling point.
// usage: sched locks|ecs|table SEED ROUNDS
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <random>
#include <semaphore>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <typeinfo>
#include <unistd.h>
#include <vector>
#include <version>

static unsigned long seed; static std::string hist;
[[noreturn]] static void fail(const char *props, const char *f, ...) {
    char b[700]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    if (hist.size() > 6000) hist = "..." + hist.substr(hist.size() - 6000);
    printf("FAIL %s :: %s\nseed %lu; schedule and operations:%s\n", props, b, seed, hist.c_str()); fflush(stdout); _exit(3);
}
[[noreturn]] static void giveup(const char *why) { printf("INCONCLUSIVE %s (seed %lu)\n", why, seed); fflush(stdout); _exit(4); }
static std::mt19937_64 rng;
static uint64_t R(uint64_t n) { return rng() % n; }

namespace sch {
    // happens-before clocks of the C++ memory model: what the orders of the atomic operations really publish
    using VC = std::array<uint32_t, 8>;
    static bool join(VC &a, const VC &b) { bool c = false; for (int i = 0; i < 8; i++) if (b[i] > a[i]) { a[i] = b[i]; c = true; } return c; }
    static bool within(const VC &a, const VC &b) { for (int i = 0; i < 8; i++) if (a[i] > b[i]) return false; return true; }
    static bool acq(std::memory_order o) { return o != std::memory_order_relaxed && o != std::memory_order_release; }
    static bool rel(std::memory_order o) { return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }
    struct Th { VC vc{}, relfence{}, seen{}; int id; std::thread t; std::binary_semaphore sem{0}; const void *blocked = nullptr; bool done = false, gate = false; int prio = 0; bool intry = false; unsigned trysteps = 0; bool inCommitLock = false; bool waited = false; std::function<void()> onwait; unsigned long steps = 0; int phase = 0; };
    static std::vector<std::unique_ptr<Th>> ths; static thread_local Th *me = nullptr;
    static std::binary_semaphore mainsem{0};
    static int mode; static unsigned pswitch; static unsigned long steps, limit; static std::set<unsigned long> changes; static Th *only = nullptr; static bool nogate;
    enum End { ALLDONE, DEADLOCK, ONLYBLOCKED, ONLYDONE, LIMIT, GATE };
    static End end;
    static Th *choose() {
        if (only) return (only->done || only->blocked) ? nullptr : only;
        std::vector<Th *> r; for (auto &t : ths) if (!t->done && !t->blocked && !t->gate) r.push_back(t.get());
        if (r.empty()) return nullptr;
        if (mode == 0) return r[R(r.size())];
        Th *b = r[0]; for (auto t : r) if (t->prio > b->prio) b = t; return b;
    }
    static void finish() { // nobody can run: back to the main thread
        bool alldone = true; for (auto &t : ths) if (!t->done && !t->gate) alldone = false;
        if (only) end = only->done ? ONLYDONE : only->gate ? GATE : ONLYBLOCKED; else end = alldone ? ALLDONE : DEADLOCK;
        mainsem.release();
    }
    static void pass(Th *next) { if (next) next->sem.release(); else finish(); }
    static void point() { // scheduling point of the running thread
        Th *s = me; if (!s) return;
        steps++; s->steps++;
        if (steps > limit) { end = LIMIT; mainsem.release(); s->sem.acquire(); return; }
        if (mode == 1 && changes.count(steps)) s->prio = -(int)steps;
        if (only == s) return;
        if (mode == 0 && R(100) >= pswitch) return;
        Th *n = choose(); if (n == s) return;
        pass(n); s->sem.acquire();
    }
    static void block(const void *addr) { Th *s = me; s->blocked = addr; s->waited = true; if (s->onwait) s->onwait(); pass(choose()); s->sem.acquire(); }
    static void gate() { Th *s = me; if (nogate) return; s->gate = true; if (only == s) { end = GATE; mainsem.release(); } else pass(choose()); s->sem.acquire(); }
    static void wake(const void *addr) { for (auto &t : ths) if (t->blocked == addr) { t->blocked = nullptr; if (mode == 1 && R(3) == 0) t->prio = (int)R(1000); } }
    static void wake1(const void *addr) { std::vector<Th *> w; for (auto &t : ths) if (t->blocked == addr) w.push_back(t.get()); if (!w.empty()) w[R(w.size())]->blocked = nullptr; }
    static Th *spawn(std::function<void()> f) {
        ths.emplace_back(new Th()); Th *t = ths.back().get(); t->id = (int)ths.size() - 1; t->prio = 1 + (int)R(1000);
        t->t = std::thread([t, f] { me = t; t->sem.acquire(); try { f(); } catch (const std::exception &e) { fail("C04,C05,C06,C07", "the library throws in correct use: %s", e.what()); } t->done = true; pass(choose()); });
        return t;
    }
    static void open() { nogate = true; for (auto &t : ths) t->gate = false; }
    static End run(Th *o = nullptr) { only = o; Th *n = choose(); if (!n) { finish(); mainsem.acquire(); return end; } n->sem.release(); mainsem.acquire(); return end; }
    static void reset(unsigned long lim) { for (auto &t : ths) if (t->done) t->t.join(); else giveup("threads left over"); ths.clear(); steps = 0; limit = lim; only = nullptr; nogate = false; mode = (int)R(2); pswitch = (unsigned)(R(3) == 0 ? 100 : R(2) ? 30 : 6); changes.clear(); for (unsigned i = 0; i < 1 + R(6); i++) changes.insert(1 + R(R(2) ? 60 : 400)); }
}
namespace std {
    template<typename T> struct sched_atomic {
        T v; constexpr sched_atomic() noexcept : v() {} constexpr sched_atomic(T x) noexcept : v(x) {} sched_atomic(const sched_atomic &) = delete;
        void p() const { sch::point(); if (sch::me && sch::me->intry && ++sch::me->trysteps > 3000) fail("C05", "a non-blocking lock attempt does not return"); }
        static constexpr bool is_always_lock_free = true; bool is_lock_free() const { return true; }
        mutable sch::VC clk{}; // what reading the current value makes visible to an acquiring thread
        void rd(memory_order o) const { if (auto *t = sch::me) { sch::join(t->seen, clk); if (sch::acq(o)) sch::join(t->vc, clk); } }
        void wr(memory_order o, bool rmw) { if (!rmw) clk = {}; if (auto *t = sch::me) sch::join(clk, sch::rel(o) ? t->vc : t->relfence); }
        static constexpr memory_order fo(memory_order o) { return o == memory_order_acq_rel ? memory_order_acquire : o == memory_order_release ? memory_order_relaxed : o; }
        T load(memory_order o = memory_order_seq_cst) const { p(); rd(o); return v; }
        operator T() const { return load(); }
        void store(T x, memory_order o = memory_order_seq_cst) { p(); wr(o, false); v = x; }
        T operator=(T x) { store(x); return x; }
        template<typename F> T rmw(memory_order o, F f) { p(); rd(o); wr(o, true); T x = v; v = f(x); return x; }
        T exchange(T x, memory_order o = memory_order_seq_cst) { return rmw(o, [&](T) { return x; }); }
        bool compare_exchange_strong(T &e, T d, memory_order o, memory_order q) { p(); if (v == e) { rd(o); wr(o, true); v = d; return true; } rd(q); e = v; return false; }
        bool compare_exchange_weak(T &e, T d, memory_order o, memory_order q) { p(); if (v == e && !(sch::me && sch::mode == 0 && R(12) == 0)) { rd(o); wr(o, true); v = d; return true; } rd(q); e = v; return false; }
        bool compare_exchange_strong(T &e, T d, memory_order o = memory_order_seq_cst) { return compare_exchange_strong(e, d, o, fo(o)); }
        bool compare_exchange_weak(T &e, T d, memory_order o = memory_order_seq_cst) { return compare_exchange_weak(e, d, o, fo(o)); }
        T fetch_add(T d, memory_order o = memory_order_seq_cst) { return rmw(o, [&](T x) { return (T)(x + d); }); }
        T fetch_sub(T d, memory_order o = memory_order_seq_cst) { return rmw(o, [&](T x) { return (T)(x - d); }); }
        T fetch_or(T d, memory_order o = memory_order_seq_cst) { return rmw(o, [&](T x) { return (T)(x | d); }); }
        T fetch_and(T d, memory_order o = memory_order_seq_cst) { return rmw(o, [&](T x) { return (T)(x & d); }); }
        T operator++() { return fetch_add(1) + 1; } T operator--() { return fetch_sub(1) - 1; } T operator++(int) { return fetch_add(1); } T operator--(int) { return fetch_sub(1); }
        T operator+=(T d) { return fetch_add(d) + d; } T operator-=(T d) { return fetch_sub(d) - d; }
        void wait(T old, memory_order o = memory_order_seq_cst) const {
            if (!sch::me) { if (v == old) giveup("the main thread would wait"); return; }
            p();
            if (sch::me->intry && v == old) fail("C05", "a non-blocking lock attempt waits");
            while (v == old) sch::block(this);
            rd(o);
        }
        void notify_one() { p(); sch::wake1(this); }
        void notify_all() { p(); sch::wake(this); }
    };
    using sched_atomic_uint32_t = sched_atomic<uint32_t>; using sched_atomic_size_t = sched_atomic<size_t>; using sched_atomic_bool = sched_atomic<bool>; using sched_atomic_int = sched_atomic<int>;
    using sched_atomic_uint64_t = sched_atomic<uint64_t>; using sched_atomic_int32_t = sched_atomic<int32_t>; using sched_atomic_uint = sched_atomic<unsigned>;
    static inline void sched_fence(memory_order o) { sch::point(); if (auto *t = sch::me) { if (sch::acq(o)) sch::join(t->vc, t->seen); if (sch::rel(o)) t->relfence = t->vc; } }
    namespace this_thread { static inline void sched_yield_() { sch::point(); } }
}
#define atomic sched_atomic
#define atomic_thread_fence sched_fence
#define atomic_uint32_t sched_atomic_uint32_t
#define atomic_size_t sched_atomic_size_t
#define atomic_bool sched_atomic_bool
#define atomic_int sched_atomic_int
#define atomic_uint64_t sched_atomic_uint64_t
#define atomic_int32_t sched_atomic_int32_t
#define atomic_uint sched_atomic_uint
#include <Tecs.hh>
#include TECS_SOURCE
using namespace Tecs;
namespace w { struct A { int v = 0; }; struct B { int v = 0; }; struct G { int v = 0; }; struct H { int v = 0; }; }
TECS_GLOBAL_COMPONENT(w::G);
TECS_GLOBAL_COMPONENT(w::H);
using w::A; using w::B; using w::G; using w::H;
using ECS_ = Tecs::ECS<A, G, B>;

// ---------------------------------------------------------------- one component lock
static void locks(unsigned long rounds) {
    for (unsigned long k = 0; k < rounds; k++, seed++) {
        rng.seed(seed * 9176 + 5); hist.clear(); sch::reset(40000);
        ComponentIndex<int> ix;
        int readers = 0, writers = 0, committing = 0, pending = 0, commits = 0; sch::VC readsDone{}, lastCommit{}, lastWrite{};
        enum { IDLE, INREAD, READING, INWRITE, WRITING, INCOMMIT, COMMITTING }; // INxxx: inside the call
        auto lost = [&] { // after an unlock has returned nobody is asleep whom nothing blocks any more
            bool r = false, w = false, c = false;
            for (auto &t : sch::ths) { r |= t->phase == READING || (t->phase == INREAD && !t->blocked); w |= t->phase >= WRITING || (t->phase == INWRITE && !t->blocked); c |= t->phase >= INCOMMIT; }
            for (auto &t : sch::ths) if (t->blocked) {
                if (t->phase == INREAD && !c) fail("C05", "T%d still sleeps in ReadLock although no commit is pending or running any more and the unlock that ended it has returned", t->id);
                if (t->phase == INWRITE && !w) fail("C05", "T%d still sleeps in WriteLock although nobody holds or is taking the write lock any more and its unlock has returned", t->id);
                if (t->phase == INCOMMIT && !r) fail("C05", "T%d still sleeps in CommitLock although no reader is left and its unlock has returned", t->id);
            }
        };
        auto stamp = [](sch::VC &c) { auto *t = sch::me; t->vc[t->id]++; sch::join(c, t->vc); }; unsigned nth = 2 + (unsigned)R(3);
        for (unsigned t = 0; t < nth; t++) sch::spawn([&, t] {
            auto *me = sch::me; auto H = [&](const char *s) { hist += " T" + std::to_string(t) + ":" + s; };
            for (int i = 0, n = 1 + (int)R(4); i < n; i++) {
                bool block = R(3) != 0;
                if (R(2)) {
                    int startedInCommit = pending ? commits + 1 : 0;
                    me->intry = !block; me->trysteps = 0; H(block ? "ReadLock" : "tryReadLock"); me->phase = INREAD; bool ok = ix.ReadLock(block); me->intry = false; me->phase = ok ? READING : IDLE;
                    H(ok ? "read" : "refused");
                    if (block && !ok) fail("C04", "a blocking ReadLock reports failure");
                    if (!ok) continue;
                    readers++;
                    if (!sch::within(lastCommit, me->vc)) fail("C04,C08", "data race: a commit does not happen before a read lock granted after it (memory order)");
                    if (committing) fail("C04,C08", "a read lock is granted while a commit is being copied");
                    if (startedInCommit && pending && commits + 1 == startedInCommit) fail("C05", "a new reader gets in although a commit was already waiting when it arrived");
                    for (unsigned j = R(4); j--;) sch::point();
                    stamp(readsDone); readers--; H("ReadUnlock"); ix.ReadUnlock(); me->phase = IDLE; lost();
                } else {
                    me->intry = !block; me->trysteps = 0; H(block ? "WriteLock" : "tryWriteLock"); me->phase = INWRITE; bool ok = ix.WriteLock(block); me->intry = false; me->phase = ok ? WRITING : IDLE;
                    H(ok ? "write" : "refused");
                    if (block && !ok) fail("C04", "a blocking WriteLock reports failure");
                    if (!ok) continue;
                    if (++writers != 1) fail("C04,C08", "two writers hold the lock at the same time");
                    if (!sch::within(lastWrite, me->vc)) fail("C04,C08", "data race: a write transaction does not happen before the next one (memory order)");
                    for (unsigned j = R(4); j--;) sch::point();
                    if (R(3)) {
                        me->onwait = [&] { pending = 1; };
                        H("CommitLock"); me->phase = INCOMMIT; ix.CommitLock(); me->phase = COMMITTING; H("commit"); me->onwait = nullptr; pending = 1; committing = 1;
                        if (!sch::within(readsDone, me->vc)) fail("C04,C08", "data race: a reader that has finished does not happen before the commit that replaces what it read (memory order)");
                        if (readers) fail("C04,C08", "a commit starts copying with %d readers active", readers);
                        for (unsigned j = R(4); j--;) sch::point();
                        if (readers) fail("C04,C08", "readers are active while a commit is being copied");
                        stamp(lastCommit); commits++; pending = 0; committing = 0;
                        if (R(2)) { H("CommitUnlock"); ix.CommitUnlock(); me->phase = WRITING; lost(); for (unsigned j = R(3); j--;) sch::point(); if (writers != 1) fail("C04", "CommitUnlock let a second writer in"); }
                    }
                    stamp(lastWrite); writers--; H("WriteUnlock"); ix.WriteUnlock(); me->phase = IDLE; lost();
                }
            }
        });
        auto e = sch::run();
        if (e == sch::DEADLOCK) fail("C05", "a thread sleeps forever although nothing holds the lock any more (%d readers, %d writers)", readers, writers);
        if (e == sch::LIMIT) giveup("step limit");
        hist += " all:";
        try {
            // several attempts: a weak exchange may fail spuriously
            auto tryn = [&](auto f) { for (int i = 0; i < 5; i++) if (f()) return true; return false; };
            if (!tryn([&] { return ix.WriteLock(false); })) fail("C04", "after all locks were released a write lock is refused");
            if (!tryn([&] { return ix.ReadLock(false); })) fail("C04", "after all locks were released a read lock is refused");
            ix.ReadUnlock(); ix.CommitLock();
            if (ix.ReadLock(false)) fail("C04", "a read lock is granted during a commit"); if (ix.WriteLock(false)) fail("C04", "a write lock is granted during a commit");
            ix.WriteUnlock();
            if (!tryn([&] { return ix.ReadLock(false); })) fail("C04", "after all locks were released a read lock is refused");
            ix.ReadUnlock();
        } catch (const std::exception &x) { fail("C04", "the released lock throws in correct use: %s", x.what()); }
    }
}
// ---------------------------------------------------------------- transactions
struct Tx { virtual ~Tx() {} virtual void mod(int c) = 0; virtual void start(ECS_ &) = 0; virtual void finish() = 0; };
struct Kind { const char *name; int lv[3]; bool ar; std::function<std::unique_ptr<Tx>()> make; };
static Entity E0;
template<typename... P> struct TxT : Tx {
    using L = Lock<ECS_, P...>; std::unique_ptr<L> l;
    void start(ECS_ &e) override { l.reset(new L(e.StartTransaction<P...>())); }
    void finish() override { l.reset(); }
    void mod(int c) override {
        if (c == 0) { if constexpr (is_write_allowed<A, L>()) E0.Get<A>(*l).v++; }
        if (c == 1) { if constexpr (is_write_allowed<B, L>()) E0.Get<B>(*l).v++; }
        if (c == 2) { if constexpr (is_write_allowed<G, L>()) l->template Get<G>().v++; }
        if (c == 4) { if constexpr (is_write_allowed<A, L>()) (void)E0.Get<const A>(*l).v; if constexpr (is_write_allowed<B, L>()) (void)E0.Get<const B>(*l).v; if constexpr (is_write_allowed<G, L>()) (void)l->template Get<const G>().v; }
        if (c == 3) { if constexpr (is_add_remove_allowed<L>()) l->NewEntity(); }
    }
};
template<typename... P> static Kind kind(const char *n, int a, int b, int g, bool ar) { return {n, {a, b, g}, ar, [] { return std::make_unique<TxT<P...>>(); }}; }
static std::vector<Kind> kinds() {
    return {kind<>("", 0, 0, 0, false), kind<Read<A>>("Read<A>", 1, 0, 0, false), kind<Read<B>>("Read<B>", 0, 1, 0, false), kind<Read<G>>("Read<G>", 0, 0, 1, false), kind<ReadAll>("ReadAll", 1, 1, 1, false),
            kind<Write<A>>("Write<A>", 2, 0, 0, false), kind<Write<B>>("Write<B>", 0, 2, 0, false), kind<Write<G>>("Write<G>", 0, 0, 2, false), kind<Read<A>, Write<B>>("Read<A>,Write<B>", 1, 2, 0, false),
            kind<Write<A>, Read<B>>("Write<A>,Read<B>", 2, 1, 0, false), kind<Read<B>, Write<G>>("Read<B>,Write<G>", 0, 1, 2, false), kind<Read<A>, Write<G>>("Read<A>,Write<G>", 1, 0, 2, false), kind<Read<G>, Write<A>>("Read<G>,Write<A>", 2, 0, 1, false), kind<Read<G>, Write<B>>("Read<G>,Write<B>", 0, 2, 1, false), kind<Write<A, B>>("Write<A,B>", 2, 2, 0, false), kind<WriteAll>("WriteAll", 2, 2, 2, false),
            kind<AddRemove>("AddRemove", 2, 2, 2, true)};
}
static void prep(ECS_ &e) { auto l = e.StartTransaction<AddRemove>(); E0 = l.NewEntity(); E0.Set<A>(l, 0); E0.Set<B>(l, 0); l.Set<G>(0); }
// what one transaction must and must not wait for while another one is running
static void table() {
    auto ks = kinds();
    auto desc = [](const Kind &m, const Kind &p, unsigned mods) { std::string s = std::string(" running <") + m.name + ">, then <" + p.name + "> modifying"; for (int c = 0; c < 4; c++) if (mods & (1 << c)) s += c == 0 ? " A" : c == 1 ? " B" : c == 2 ? " G" : " entities"; return s + (mods ? "" : " nothing"); };
    auto gone = [&](ECS_ &e) { // every lock is free again
        sch::reset(30000); sch::mode = 0; sch::pswitch = 0;
        sch::spawn([&] { auto l = e.StartTransaction<AddRemove>(); l.NewEntity(); E0.Get<A>(l).v++; E0.Get<B>(l).v++; l.Get<G>().v++; });
        auto r = sch::run(); if (r == sch::DEADLOCK) fail("C07,C04", "a lock is still held after all transactions have ended"); if (r == sch::LIMIT) giveup("step limit");
    };
    for (auto &m : ks) for (auto &p : ks) for (unsigned mods = 0; mods < 16; mods++) {
        bool possible = true; for (int c = 0; c < 3; c++) if ((mods & (1 << c)) && p.lv[c] < 2) possible = false; if ((mods & 8) && !p.ar) possible = false;
        if (!possible) continue;
        if ((mods & 8) && (mods & 7) != 7 && (mods & 7) != 0) continue;
        hist = desc(m, p, mods); seed = 0; rng.seed(1);
        ECS_ e; prep(e); sch::reset(30000); sch::mode = 0; sch::pswitch = 0;
        auto *tm = sch::spawn([&] { auto x = m.make(); x->start(e); sch::gate(); x->finish(); });
        bool started = false;
        auto *tp = sch::spawn([&] { auto x = p.make(); x->start(e); started = true; sch::gate(); x->mod(4); for (int c = 0; c < 4; c++) if (mods & (1 << c)) x->mod(c); x->finish(); });
        auto r = sch::run(tm); if (r != sch::GATE) { if (r == sch::LIMIT) giveup("step limit"); fail("C06", "a transaction <%s> cannot start on an idle instance", m.name); }
        bool conflict = m.ar && p.ar; for (int c = 0; c < 3; c++) if (m.lv[c] == 2 && p.lv[c] == 2) conflict = true;
        r = sch::run(tp); if (r == sch::LIMIT) giveup("step limit");
        if (conflict && started) fail("C06,C04", "a transaction <%s> starts while <%s> is running although both write the same data", p.name, m.name);
        if (!conflict && !started) fail("C06", "a transaction <%s> waits to start although the running <%s> holds nothing it needs", p.name, m.name);
        if (!conflict) {
            tp->gate = false; r = sch::run(tp); if (r == sch::LIMIT) giveup("step limit");
            bool wait = false; for (int c = 0; c < 3; c++) if ((mods & (1 << c)) && m.lv[c] == 1) wait = true; if ((mods & 8) && !m.ar) wait = true;
            // an add/remove transaction that changed entities or components publishes the entity set
            if (tp->done && wait) fail("C04,C07,C08", "the end of <%s> replaces data that the running <%s> is reading", p.name, m.name);
            if (!tp->done && !wait) fail("C07", "the end of <%s> waits although the running <%s> reads nothing it modified", p.name, m.name);
        }
        sch::open();
        r = sch::run(); if (r == sch::LIMIT) giveup("step limit"); if (r == sch::DEADLOCK) fail("C05,C06,C07", "the transactions never finish");
        gone(e);
    }
    // while it waits to start, a transaction holds nothing; while it waits to end, it holds no component read lock
    for (auto &m : ks) for (auto &t : ks) for (auto &p : ks) {
        auto clash = [](const Kind &x, const Kind &y) { bool c = x.ar && y.ar; for (int i = 0; i < 3; i++) if (x.lv[i] == 2 && y.lv[i] == 2) c = true; return c; };
        if (clash(m, t) && !clash(m, p) && clash(t, p)) {
            hist = std::string(" running <") + m.name + ">, waiting to start <" + t.name + ">, third <" + p.name + ">"; seed = 0; rng.seed(1);
            ECS_ e; prep(e); sch::reset(30000); sch::mode = 0; sch::pswitch = 0;
            auto *tm = sch::spawn([&] { auto x = m.make(); x->start(e); sch::gate(); x->finish(); });
            auto *tt = sch::spawn([&] { auto x = t.make(); x->start(e); x->finish(); });
            auto *tp = sch::spawn([&] { auto x = p.make(); x->start(e); x->finish(); });
            if (sch::run(tm) != sch::GATE) giveup("start"); auto r = sch::run(tt); if (r == sch::LIMIT) giveup("step limit");
            if (tt->blocked) { r = sch::run(tp); if (r == sch::LIMIT) giveup("step limit"); if (!tp->done) fail("C06", "a transaction <%s> that sleeps waiting to start holds a lock that <%s> needs", t.name, p.name); }
            sch::open(); r = sch::run(); if (r == sch::LIMIT) giveup("step limit"); if (r == sch::DEADLOCK) fail("C05,C06,C07", "the transactions never finish");
        }
        // t ends after modifying what m reads; p writes what t read
        bool blocks = false, want = !t.ar && !p.ar; unsigned tm_ = 0;
        for (int c = 0; c < 3; c++) { if (t.lv[c] == 2) { tm_ |= 1u << c; if (m.lv[c] == 1) blocks = true; if (p.lv[c] == 2) want = false; } if (m.lv[c] == 2 && (t.lv[c] == 2 || p.lv[c] == 2)) want = false; }
        bool useful = false; for (int c = 0; c < 3; c++) { if (p.lv[c] == 2 && t.lv[c] == 1 && m.lv[c] == 0) useful = true; if (p.lv[c] == 2 && m.lv[c] != 0) want = false; if (p.lv[c] == 1 && t.lv[c] == 2) want = false; }
        if (m.ar || !blocks || !want || !useful) continue;
        hist = std::string(" running <") + m.name + ">, waiting to end <" + t.name + ">, third <" + p.name + ">"; seed = 0; rng.seed(1);
        ECS_ e; prep(e); sch::reset(30000); sch::mode = 0; sch::pswitch = 0;
        auto *am = sch::spawn([&] { auto x = m.make(); x->start(e); sch::gate(); x->finish(); });
        auto *at = sch::spawn([&] { auto x = t.make(); x->start(e); sch::gate(); for (int c = 0; c < 3; c++) if (tm_ & (1 << c)) x->mod(c); x->finish(); });
        auto *ap = sch::spawn([&] { auto x = p.make(); x->start(e); for (int c = 0; c < 3; c++) if (p.lv[c] == 2) x->mod(c); x->finish(); });
        if (sch::run(am) != sch::GATE || sch::run(at) != sch::GATE) giveup("start");
        at->gate = false; auto r = sch::run(at); if (r == sch::LIMIT) giveup("step limit");
        if (at->blocked) { r = sch::run(ap); if (r == sch::LIMIT) giveup("step limit"); if (!ap->done) fail("C07", "a transaction <%s> that waits to end still holds a read lock that blocks <%s>", t.name, p.name); }
        sch::open(); r = sch::run(); if (r == sch::LIMIT) giveup("step limit"); if (r == sch::DEADLOCK) fail("C05,C06,C07", "the transactions never finish");
    }
}
// random transactions of several threads under random schedules
template<typename ECS_> static void ecs1() {
    {
        ECS_ e; const int N = 3; std::vector<Entity> es;
        { auto l = e.template StartTransaction<AddRemove>(); for (int i = 0; i < N; i++) { es.push_back(l.NewEntity()); es.back().template Set<A>(l, 0); es.back().template Set<B>(l, 0); } l.template Set<G>(N); l.template Set<H>(0); }
        int wr[4] = {0, 0, 0, 0}, incs = 0; size_t lastId = 0;
        auto pts = [] { for (unsigned j = R(3); j--;) sch::point(); };
        auto all = [&](auto &l, const char *who) { // one commit is seen entirely or not at all, and the view does not change
            int a0 = 0; size_t n0 = 0;
            for (int pass = 0; pass < 2; pass++) {
                int g = l.template GetPrevious<G>().v; size_t n = l.PreviousEntities().size(), na = l.template PreviousEntitiesWith<A>().size(), nb = l.template PreviousEntitiesWith<B>().size();
                if ((int)n != g || na != n || nb != n) fail("C03,C01", "%s sees a partial commit: %zu entities, %zu with A, %zu with B, recorded count %d", who, n, na, nb, g);
                int a = es[0].template GetPrevious<A>(l).v, b = es[0].template GetPrevious<B>(l).v;
                int h = l.template GetPrevious<H>().v; if (a != b || a != h) fail("C03,C01", "%s sees a partial commit: A is %d, B is %d, the global H is %d", who, a, b, h);
                for (auto &x : es) { if (x.template GetPrevious<A>(l).v != a || x.template GetPrevious<B>(l).v != b) fail("C03,C01", "%s sees a partial commit: entities disagree", who); sch::point(); }
                for (auto x : l.template PreviousEntitiesWith<A>()) if (!x.Existed(l) || !x.template Had<A, B>(l)) fail("C03,C13,C01", "%s: the committed list of A names an entity without it", who);
                if (pass && (a != a0 || n != n0)) fail("C01,C03,C08", "%s: committed data changes during the transaction", who);
                a0 = a; n0 = n; pts();
            }
        };
        auto enter = [&](int c, const char *who) { if (++wr[c] != 1) fail("C04,C06", "%s: two transactions with write access to the same data are active", who); };
        unsigned nth = 2 + (unsigned)R(3);
        for (unsigned t = 0; t < nth; t++) sch::spawn([&, t] {
            auto note = [&](const char *s) { hist += " T" + std::to_string(t) + ":" + s; };
            for (int i = 0, n = 1 + (int)R(3); i < n; i++) switch (R(11)) {
                case 0: case 1: { note("<ReadAll"); { auto l = e.template StartTransaction<ReadAll>(); note("started"); all(l, "ReadAll"); note("ending"); } note(">"); break; }
                case 2: { note("<Read<A>"); { auto l = e.template StartTransaction<Read<A>>(); note("started"); int a = es[0].template Get<A>(l).v; pts(); for (auto &x : es) if (x.template Get<A>(l).v != a) fail("C03,C01,C08", "Read<A>: committed data changes during the transaction"); size_t m = l.template EntitiesWith<B>().size(); if (m != l.Entities().size()) fail("C03", "entity list and component list disagree"); note("ending"); } note(">"); break; }
                case 3: case 8: { note("<Write<A,B,H>"); { auto l = e.template StartTransaction<Write<A, B, H>>(); note("started"); enter(0, "Write<A,B,H>"); enter(1, "Write<A,B,H>"); enter(3, "Write<A,B,H>");
                    if (es[0].template GetPrevious<A>(l).v != es[0].template Get<const A>(l).v) fail("C02,C01", "a writer does not start from the committed state"); int a = es[0].template Get<const A>(l).v, b = es[0].template Get<const B>(l).v, h = l.template Get<const H>().v; if (a != incs || b != incs || h != incs) fail("C02,C01", "an update is lost: A is %d, B is %d, the global H is %d, %d increments were committed", a, b, h, incs);
                    if (R(4) == 0) { wr[0]--; wr[1]--; wr[3]--; note("ending, nothing modified"); } else {
                    for (auto &x : es) { x.template Get<A>(l).v++; pts(); x.template Set<B>(l, B{b + 1}); } l.template Get<H>().v++; incs++; pts(); wr[0]--; wr[1]--; wr[3]--; note("ending"); } } note(">"); break; }
                case 4: { note("<Write<A>,Read<G,H>"); { auto l = e.template StartTransaction<Write<A>, Read<G, H>>(); note("started"); enter(0, "Write<A>,Read<G,H>"); int a = es[0].template Get<const A>(l).v; if (l.template Get<const G>().v != (int)l.Entities().size()) fail("C03", "Read<G> sees a partial commit"); pts(); if (l.template Get<const H>().v != a) fail("C03,C01", "a transaction sees a partial commit: A is %d, the global H is %d", a, l.template Get<const H>().v); pts(); if (R(2)) { for (auto &x : es) x.template Set<A>(l, A{a}); } wr[0]--; note("ending"); } note(">"); break; }
                case 9: { note("<Read<A>,Write<H>"); { auto l = e.template StartTransaction<Read<A>, Write<H>>(); note("started"); enter(3, "Read<A>,Write<H>"); int a = es[0].template Get<A>(l).v; pts(); int h = l.template Get<const H>().v; if (a != h) fail("C03,C01", "a transaction sees a partial commit: A is %d, the global H is %d", a, h); if (R(2)) l.template Set<H>(h); pts(); wr[3]--; note("ending"); } note(">"); break; }
                case 10: { note("<Read<B,H>"); { auto l = e.template StartTransaction<Read<B, H>>(); note("started"); int b = es[0].template Get<B>(l).v; pts(); int h = l.template Get<H>().v; if (b != h) fail("C03,C01", "a transaction sees a partial commit: B is %d, the global H is %d", b, h); pts(); if (es[0].template Get<B>(l).v != b || l.template Get<H>().v != h) fail("C01,C08", "Read<B,H>: committed data changes during the transaction"); note("ending"); } note(">"); break; }
                case 5: { note("<Read<A>,Write<B,G>"); { auto l = e.template StartTransaction<Read<A>, Write<B, G>>(); note("started"); enter(1, "Write<B,G>"); enter(2, "Write<B,G>"); int g = l.template Get<G>().v; if (g != (int)l.Entities().size()) fail("C03", "Write<G> sees a partial commit"); pts(); int b = es[0].template Get<const B>(l).v; for (auto &x : es) x.template Set<B>(l, B{b}); wr[1]--; wr[2]--; note("ending"); } note(">"); break; }
                case 6: { note("<AddRemove"); { auto l = e.template StartTransaction<AddRemove>(); note("started"); for (int c = 0; c < 4; c++) enter(c, "AddRemove"); all(l, "AddRemove"); if (es[0].template Get<const A>(l).v != incs || es[0].template Get<const B>(l).v != incs || l.template Get<const H>().v != incs) fail("C02,C01", "an update is lost: A is %d, B is %d, %d increments were committed", es[0].template Get<const A>(l).v, es[0].template Get<const B>(l).v, incs);
                    if (R(3)) { Entity x = l.NewEntity(); x.template Set<A>(l, 0); pts(); x.template Set<B>(l, 0); l.template Get<G>().v++; if (R(2)) { for (auto &y : es) { y.template Get<A>(l).v++; y.template Get<B>(l).v++; } l.template Get<H>().v++; incs++; } } pts(); for (int c = 0; c < 4; c++) wr[c]--; note("ending"); } note(">"); break; }
                case 7: { note("<"); { auto l = e.template StartTransaction<>(); note("started"); size_t n1 = l.Entities().size(), n2 = l.template EntitiesWith<A>().size(), n3 = l.template EntitiesWith<B>().size(); pts(); if (n1 != n2 || n1 != n3) fail("C03,C08", "entity list and component lists disagree: %zu %zu %zu", n1, n2, n3); if (l.Entities().size() != n1 || l.template EntitiesWith<A>().size() != n1) fail("C01,C08", "a committed list changes during a transaction"); note("ending"); } note(">"); break; }
            }
        });
        auto r = sch::run();
        if (r == sch::DEADLOCK) fail("C05,C06,C07", "the transactions wait for each other forever");
        if (r == sch::LIMIT) giveup("step limit");
        { auto l = e.template StartTransaction<ReadAll>(); all(l, "final ReadAll"); if (es[0].template Get<const A>(l).v != incs || l.template Get<const H>().v != incs) fail("C02", "an update is lost: A is %d after %d committed increments", es[0].template Get<const A>(l).v, incs); }
        (void)lastId;
    }
}
static void ecs(unsigned long rounds) {
    for (unsigned long k = 0; k < rounds; k++, seed++) {
        rng.seed(seed * 7411 + 9); hist.clear(); sch::reset(100000);
        switch (seed % 3) { case 0: ecs1<Tecs::ECS<A, B, G, H>>(); break; case 1: ecs1<Tecs::ECS<A, G, B, H>>(); break; default: ecs1<Tecs::ECS<G, H, B, A>>(); }
    }
}
int main(int argc, char **argv) {
    std::string m = argv[1]; seed = strtoul(argv[2], 0, 10); unsigned long rounds = strtoul(argv[3], 0, 10);
    signal(SIGALRM, [](int) { giveup("time limit"); }); alarm(argc > 4 ? atoi(argv[4]) : 120);
    if (m == "locks") locks(rounds); else if (m == "ecs") ecs(rounds); else table();
    printf("OK %s rounds=%lu\n", m.c_str(), rounds); fflush(stdout); _exit(0);
}
