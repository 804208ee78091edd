// Bounded runs of the real code with performance tracing.  usage: trace SEED ROUNDS
#include <Tecs.hh>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <random>
#include <thread>
#include <unistd.h>
#include <vector>
using namespace Tecs;
namespace w { struct A { int v = 0; }; struct B { int v = 0; }; struct G { int v = 0; }; }
TECS_GLOBAL_COMPONENT(w::G);
using w::A; using w::B; using w::G;
using ECS_ = Tecs::ECS<A, B, G>;
using T = TraceEvent::Type;
static unsigned long seed; static std::string hist;
[[noreturn]] static void fail(const char *f, ...) {
    char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    printf("FAIL C23 :: %s\nseed %lu; history:%s\n", b, seed, hist.c_str()); fflush(stdout); _exit(3);
}
static void onsig(int g) { signal(g, SIG_DFL); fail("the library %s (signal %d)", g == SIGALRM ? "hangs" : "crashes", g); }
static std::mt19937_64 rng;
static uint64_t R(uint64_t n) { return rng() % n; }
using Seq = std::vector<T>;
static void add(Seq &s, std::initializer_list<T> l) { s.insert(s.end(), l); }
constexpr size_t CAP = TECS_PERFORMANCE_TRACING_MAX_EVENTS;
template<typename S> static void cmp(const S &got, const Seq &want, const char *what) {
    size_t n = std::min(want.size(), CAP);
    if (got.size() != n) fail("%s: the trace has %zu events, expected %zu", what, (size_t)got.size(), n);
    for (size_t i = 0; i < n; i++) {
        if (got[i].type != want[i]) fail("%s: event %zu has type %d, expected %d", what, i, (int)got[i].type, (int)want[i]);
        if (got[i].thread != std::this_thread::get_id()) fail("%s: event %zu carries another thread", what, i);
        if (i && got[i].time < got[i - 1].time) fail("%s: event %zu is older than its predecessor", what, i);
    }
}
int main(int argc, char **argv) {
    seed = strtoul(argv[1], 0, 10); unsigned rounds = atoi(argv[2]);
    for (int g : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGALRM}) signal(g, onsig);
    alarm(200);
    for (unsigned k = 0; k < rounds; k++, seed++) {
        rng.seed(seed * 50021 + 3); hist.clear();
        ECS_ e; { auto l = e.StartTransaction<AddRemove>(); l.NewEntity().Set<A>(l); }
        Entity ent; { auto l = e.StartTransaction<Read<A>>(); ent = l.EntitiesWith<A>()[0]; }
        bool on = false; Seq tx, m, a, b, g;
        for (int step = 0, n = 20 + (int)R(40); step < n; step++) {
            unsigned op = R(10);
            if (op == 0 || (!on && op < 4)) {
                hist += " start-trace"; bool t = false; try { e.StartTrace(); } catch (const std::runtime_error &) { t = true; }
                if (t != on) fail(on ? "starting a running trace is not refused" : "starting a trace is refused although none is running");
                if (!on) { on = true; tx.clear(); m.clear(); a.clear(); b.clear(); g.clear(); }
            } else if (op == 1) {
                hist += " stop-trace"; bool t = false; PerformanceTrace tr; try { tr = e.StopTrace(); } catch (const std::runtime_error &) { t = true; }
                if (t == on) fail(on ? "stopping a running trace is refused" : "stopping without a running trace is not refused");
                if (on) {
                    cmp(tr.transactionEvents, tx, "transactions"); cmp(tr.metadataEvents, m, "entity locks");
                    if (tr.componentEvents.size() != 3) fail("the trace covers %zu component types, expected 3", tr.componentEvents.size());
                    cmp(tr.componentEvents[0], a, "locks of A"); cmp(tr.componentEvents[1], b, "locks of B"); cmp(tr.componentEvents[2], g, "locks of G");
                    on = false;
                }
            } else {
                unsigned kind = R(6); bool mod = R(2);
                hist += " tx" + std::to_string(kind) + (mod ? "*" : "");
                add(tx, {T::TransactionStart});
                if (kind == 0) { { auto l = e.StartTransaction<Read<A>>(); } add(m, {T::ReadLock, T::ReadUnlock}); add(a, {T::ReadLock, T::ReadUnlock}); }
                else if (kind == 1) { { auto l = e.StartTransaction<Write<A>>(); if (mod) ent.Set<A>(l); } add(m, {T::ReadLock, T::ReadUnlock}); if (mod) add(a, {T::WriteLock, T::CommitLock, T::CommitUnlock, T::WriteUnlock}); else add(a, {T::WriteLock, T::WriteUnlock}); }
                else if (kind == 2) { { auto l = e.StartTransaction<Write<A>, Read<B>>(); if (mod) ent.Set<A>(l); } add(m, {T::ReadLock, T::ReadUnlock}); if (mod) add(a, {T::WriteLock, T::CommitLock, T::CommitUnlock, T::WriteUnlock}); else add(a, {T::WriteLock, T::WriteUnlock}); add(b, {T::ReadLock, T::ReadUnlock}); }
                else if (kind == 3) { { auto l = e.StartTransaction<>(); } add(m, {T::ReadLock, T::ReadUnlock}); }
                else if (kind == 4) { { auto l = e.StartTransaction<AddRemove>(); if (mod) { l.Unset<G>(); l.Set<G>(); } }
                    if (mod) add(m, {T::WriteLock, T::CommitLock, T::CommitUnlock, T::WriteUnlock}); else add(m, {T::WriteLock, T::WriteUnlock});
                    add(a, {T::WriteLock, T::WriteUnlock}); add(b, {T::WriteLock, T::WriteUnlock}); if (mod) add(g, {T::WriteLock, T::CommitLock, T::CommitUnlock, T::WriteUnlock}); else add(g, {T::WriteLock, T::WriteUnlock});
                    if (mod) { { auto l = e.StartTransaction<AddRemove>(); l.Unset<G>(); } add(tx, {T::TransactionEnd, T::TransactionStart}); add(m, {T::WriteLock, T::CommitLock, T::CommitUnlock, T::WriteUnlock}); add(a, {T::WriteLock, T::WriteUnlock}); add(b, {T::WriteLock, T::WriteUnlock}); add(g, {T::WriteLock, T::CommitLock, T::CommitUnlock, T::WriteUnlock}); } }
                else { { auto l = e.StartTransaction<ReadAll>(); } add(m, {T::ReadLock, T::ReadUnlock}); add(a, {T::ReadLock, T::ReadUnlock}); add(b, {T::ReadLock, T::ReadUnlock}); add(g, {T::ReadLock, T::ReadUnlock}); }
                add(tx, {T::TransactionEnd});
                if (!on) { tx.clear(); m.clear(); a.clear(); b.clear(); g.clear(); }
            }
        }
        // many threads: one start and one end per transaction, locks balanced, each event in its thread
        if (on) e.StopTrace();
        hist = " two threads"; e.StartTrace(); std::vector<std::thread> th; std::vector<std::thread::id> ids; constexpr int N = CAP / 64;
        for (int t = 0; t < 2; t++) th.emplace_back([&, t] { for (int i = 0; i < N; i++) { if (t) { auto l = e.StartTransaction<Read<A>>(); } else { auto l = e.StartTransaction<Write<A>>(); if (i % 2) ent.Set<A>(l); } } });
        for (auto &t : th) { ids.push_back(t.get_id()); t.join(); }
        auto tr = e.StopTrace();
        for (auto id : ids) { int s = 0, d = 0; for (auto &x : tr.transactionEvents) if (x.thread == id) { if (x.type == T::TransactionStart) s++; else if (x.type == T::TransactionEnd) d++; else fail("a transaction event has type %d", (int)x.type); if (s - d < 0 || s - d > 1) fail("starts and ends of one thread are not recorded in order"); } if (s != N || d != N) fail("%d starts and %d ends are recorded for %d transactions", s, d, N); }
        if (tr.componentEvents[0].size() < CAP) for (auto id : ids) { int lk = 0, un = 0; for (auto &x : tr.componentEvents[0]) if (x.thread == id) { if (x.type == T::ReadLock || x.type == T::WriteLock) lk++; if (x.type == T::ReadUnlock || x.type == T::WriteUnlock) un++; } if (lk != un) fail("%d locks and %d unlocks of A are recorded for one thread", lk, un); if (lk < N) fail("%d locks of A are recorded for %d transactions", lk, N); }
        // more events than the buffer holds, from several threads
        if (k % 4 == 0) {
            hist = " four threads filling the buffers"; e.StartTrace(); std::vector<std::thread> ov; std::atomic<int> ready{0};
            for (int t = 0; t < 4; t++) ov.emplace_back([&] { ready++; while (ready < 4) {} for (int i = 0; i < (int)CAP / 4 + 4; i++) auto l = e.StartTransaction<Read<A>>(); });
            for (auto &t : ov) t.join();
            auto full = e.StopTrace();
            for (auto *v : {&full.transactionEvents, &full.metadataEvents, &full.componentEvents[0]}) {
                if (v->size() != CAP) fail("an overfull buffer of %zu events yields %zu", CAP, (size_t)v->size());
                for (auto &x : *v) if (x.thread == std::thread::id()) fail("an event of an overfull buffer was not recorded");
            }
            hist += ", then a short trace"; e.StartTrace(); { auto l = e.StartTransaction<Read<A>>(); } auto next = e.StopTrace();
            cmp(next.transactionEvents, {T::TransactionStart, T::TransactionEnd}, "transactions"); cmp(next.metadataEvents, {T::ReadLock, T::ReadUnlock}, "metadata locks"); cmp(next.componentEvents[0], {T::ReadLock, T::ReadUnlock}, "locks of A");
        }
        // lock waits are recorded once
        if (k % 8 == 0) {
            hist = " contended locks"; e.StartTrace(); std::atomic<int> st{0}; using namespace std::chrono_literals;
            auto nap = [&](int ms = 2) { auto until = std::chrono::steady_clock::now() + ms * 1ms; while (std::chrono::steady_clock::now() < until) std::this_thread::yield(); };
            unsigned kind = (k / 8) % 3; std::vector<std::thread> ct;
            ct.emplace_back([&] { if (kind == 1) { auto l = e.StartTransaction<Write<A>>(); ent.Set<A>(l); st = 1; nap(); } else { auto l = e.StartTransaction<Read<A>>(); st = 1; nap(); } });
            if (kind != 1) for (int more = 3; more < 6; more++) { std::atomic<bool> in{false}; ct.emplace_back([&, more] { auto l = e.StartTransaction<Read<A>>(); in = true; nap(more); }); while (!in) {} }
            while (!st) {}
            ct.emplace_back([&] { { auto l = e.StartTransaction<Write<A>>(); ent.Set<A>(l); st = 2; } });
            if (kind == 2) { while (st != 2) {} std::this_thread::sleep_for(500us); ct.emplace_back([&] { auto l = e.StartTransaction<Read<A>>(); }); }
            for (auto &t : ct) t.join();
            auto tr = e.StopTrace(); std::vector<std::thread::id> who;
            for (auto &v : tr.componentEvents) for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) if (v[j].thread == v[i].thread) {
                if (v[i].type == v[j].type) fail("event %d is recorded twice in a row by one thread", (int)v[i].type);
                break;
            }
        }
    }
    printf("OK rounds=%u\n", rounds); fflush(stdout); _exit(0);
}
