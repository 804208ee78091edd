// Bounded runs of the real code: handles, views, nesting, identifiers, wide permission sets.  usage: unit SEED ROUNDS
#include <Tecs.hh>
#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using namespace Tecs;
static unsigned long seed;
static std::string ctx;
[[noreturn]] static void fail(const char *props, const char *f, ...) {
    char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    printf("FAIL %s :: %s\nseed %lu; %s\n", props, b, seed, ctx.c_str()); fflush(stdout); _exit(3);
}
static const char *phase = "C14";
static void onsig(int g) { signal(g, SIG_DFL); fail(phase, "the library %s (signal %d)", g == SIGALRM ? "hangs" : "crashes", g); }
static std::mt19937_64 rng;
static uint64_t R(uint64_t n) { return rng() % n; }
static std::string S(uint64_t x) { char b[40]; snprintf(b, sizeof b, "%llx", (unsigned long long)x); return b; }

static void handles() {
    phase = "C21";
    std::vector<uint64_t> v{0, 1, ~0ull, 1ull << 32, (1ull << 32) - 1, 0xffffffff00000000ull, 1ull << 63, 0x0100000000000000ull, 0x00ffffff00000000ull, 0x80000000ull};
    for (int i = 0; i < 40; i++) v.push_back(rng() & (R(2) ? ~0ull : 0x0000000300000003ull) & (R(2) ? ~0ull : 0xff0000ff000000ffull));
    for (int i = 0; i < 10; i++) v.push_back(v[R(v.size())] ^ (1ull << R(64)));
    std::hash<Entity> hs;
    for (auto x : v) {
        Entity e(x); ctx = "handle " + S(x);
        if ((uint64_t)e != x) fail("C21", "%s converts back to %s", S(x).c_str(), S((uint64_t)e).c_str());
        if (Entity((uint64_t)e) != e || !(Entity((uint64_t)e) == e)) fail("C21", "the conversion to an integer and back gives a different handle");
        if ((bool)e != (e.generation != 0) || !e != (e.generation == 0)) fail("C21", "handle %s with generation %x is %s", S(x).c_str(), (unsigned)e.generation, e ? "truthy" : "falsy");
        Entity p(e.index, e.generation);
        if (p != e || (uint64_t)p != x) fail("C21", "handle made from its index and generation differs");
        for (auto y : v) {
            Entity f(y); bool eq = e == f, ne = e != f, lt = e < f, gt = f < e;
            if (eq != (x == y)) fail("C21", "handles %s and %s compare %s", S(x).c_str(), S(y).c_str(), eq ? "equal" : "different");
            if (eq == ne) fail("C21", "equality and inequality of %s and %s disagree", S(x).c_str(), S(y).c_str());
            if (((uint64_t)e == (uint64_t)f) != eq) fail("C21", "distinct handles convert to the same integer %s", S((uint64_t)e).c_str());
            if (lt + gt + eq != 1) fail("C21", "ordering of %s and %s is not a strict total order consistent with equality", S(x).c_str(), S(y).c_str());
            if (eq && hs(e) != hs(f)) fail("C21", "equal handles hash differently");
            if (lt) for (auto z : v) { Entity g(z); if (f < g && !(e < g)) fail("C21", "ordering is not transitive: %s %s %s", S(x).c_str(), S(y).c_str(), S(z).c_str()); }
        }
    }
    for (int i = 0; i < 300; i++) {
        uint32_t g = (uint32_t)rng() >> R(32); uint8_t d = (uint8_t)rng(); ctx = "generation " + S(g) + " identifier " + S(d);
        auto p = GenerationWithIdentifier(g & 0xffffff, d);
        if (IdentifierFromGeneration(p) != d) fail("C21,C20", "the identifier extracted from %x is %d, packed was %d", (unsigned)p, (int)IdentifierFromGeneration(p), (int)d);
        if (GenerationWithoutIdentifier(p) != (g & 0xffffff)) fail("C21", "the generation extracted from %x is %x, packed was %x", (unsigned)p, (unsigned)GenerationWithoutIdentifier(p), g & 0xffffff);
        if (GenerationWithIdentifier(p, (uint8_t)(d + 1)) != GenerationWithIdentifier(g & 0xffffff, (uint8_t)(d + 1))) fail("C21", "repacking keeps parts of the old identifier");
        Entity e((uint32_t)i, g & 0xffffff, d);
        if (e.index != (uint32_t)i || e.generation != p) fail("C21,C20", "a handle does not carry its index, generation and identifier");
    }
}
static void views() {
    phase = "C22";
    for (int round = 0; round < 40; round++) {
        std::vector<Entity> st; size_t n = R(9);
        for (size_t i = 0; i < n; i++) st.emplace_back((uint32_t)(100 + i), (uint32_t)(1 + i));
        const std::vector<Entity> &cs = st;
        size_t a = R(n + 3), b = R(n + 3);
        ctx = "list of " + std::to_string(n) + ", range " + std::to_string(a) + ".." + std::to_string(b);
        bool bad = a > n || b > n || a > b, thrown = false;
        try { EntityView v(cs, a, b); } catch (const std::exception &) { thrown = true; }
        if (thrown != bad) fail("C22,C14", "a view of the range %s", thrown ? "is refused although the range is valid" : "outside the list is accepted");
        if (bad) { a = 0; b = n; }
        EntityView v = R(2) || bad ? EntityView(cs, a, b) : EntityView(cs, a, b);
        if (R(4) == 0) { v = EntityView(cs); a = 0; b = n; }
        int depth = R(3);
        for (int k = 0; k <= depth; k++) {
            ctx = "list of " + std::to_string(n) + ", view of " + std::to_string(a) + ".." + std::to_string(b) + (k ? " (a subview)" : "");
            size_t len = b - a;
            if (v.size() != len) fail("C22", "size() is %zu, expected %zu", v.size(), len);
            if (v.empty() != (len == 0)) fail("C22", "empty() is wrong for %zu elements", len);
            for (size_t i = 0; i < len; i++) { bool t = false; Entity e; try { e = v[i]; } catch (const std::exception &) { t = true; } if (t) fail("C22", "operator[](%zu) throws inside the range", i); if (e != st[a + i]) fail("C22", "operator[](%zu) is the element %d of the list, expected %zu", i, (int)e.index - 100, a + i); }
            for (size_t i : {len, len + 1, n, n + 5, (size_t)-1, (size_t)-1 - a, (size_t)0 - a}) if (i >= len) { bool t = false; try { (void)v[i]; } catch (const std::exception &) { t = true; } if (!t) fail("C22,C14", "operator[](%zu) outside the range is not refused", i); }
            size_t i = 0;
            try {
                for (auto it = v.begin(); it != v.end(); ++it, ++i) { if (i > len) break; if (*it != st[a + i] || it->index != st[a + i].index) fail("C22", "forward iteration visits element %d at step %zu, expected %zu", (int)it->index - 100, i, a + i); }
                if (i != len) fail("C22", "forward iteration visits %zu elements, expected %zu", i, len);
                i = 0; for (const Entity &e : v) { if (i > len) break; if (i < len && e != st[a + i]) fail("C22", "range-for visits a wrong element at step %zu", i); i++; }
                if (i != len) fail("C22", "range-for visits %zu elements, expected %zu", i, len);
                i = 0; for (auto it = v.begin(); it != v.end(); it++) { if (i > len) break; if (*it != st[a + i]) fail("C22", "post-increment iteration is wrong at step %zu", i); i++; }
                i = 0;
                for (auto it = v.rbegin(); it != v.rend(); ++it, ++i) { if (i > len) break; if (*it != st[b - 1 - i]) fail("C22", "reverse iteration visits element %d at step %zu, expected %zu", (int)(*it).index - 100, i, b - 1 - i); }
                if (i != len) fail("C22", "reverse iteration visits %zu elements, expected %zu", i, len);
                { EntityView whole(cs); // iterators of views of one list denote positions of the list
                    for (size_t x = 0; x <= len; x++) for (size_t y = 0; y <= n; y++) {
                        auto p = v.begin() + (std::ptrdiff_t)x, q = whole.begin() + (std::ptrdiff_t)y;
                        if ((p == q) != (a + x == y) || (p != q) == (p == q)) fail("C22", "iterator comparison across a subview and the whole list is wrong");
                    } }
                for (size_t x = 0; x <= len; x++) for (size_t y = 0; y < len; y++) {
                    auto it = v.begin() + (std::ptrdiff_t)x;
                    if (it[(std::ptrdiff_t)y - (std::ptrdiff_t)x] != st[a + y]) fail("C22", "iterator subscript is wrong");
                    auto j = it; j += (std::ptrdiff_t)y - (std::ptrdiff_t)x; if (*j != st[a + y]) fail("C22", "iterator += is wrong");
                    auto j2 = v.end() - (std::ptrdiff_t)(len - y); if (*j2 != st[a + y]) fail("C22", "iterator - is wrong");
                    auto j3 = v.end() - (std::ptrdiff_t)(len - y); if (y) --j3; if (y && *j3 != st[a + y - 1]) fail("C22", "iterator -- is wrong");
                    if ((v.begin() + (std::ptrdiff_t)x == v.begin() + (std::ptrdiff_t)y) != (x == y)) fail("C22", "iterator comparison is wrong");
                    if ((v.begin() + (std::ptrdiff_t)x != v.begin() + (std::ptrdiff_t)y) != (x != y)) fail("C22", "iterator comparison is wrong");
                }
            } catch (const std::exception &e) { fail("C22", "iterating inside the range throws: %s", e.what()); }
            for (std::ptrdiff_t d : {(std::ptrdiff_t)0, (std::ptrdiff_t)1, (std::ptrdiff_t)(n - b)}) { bool t = false; auto it = v.end() + d; try { (void)*it; } catch (const std::exception &) { t = true; } if (!t) fail("C22,C14", "dereferencing past the end of the range is not refused"); t = false; try { (void)it->index; } catch (const std::exception &) { t = true; } if (!t) fail("C22,C14", "operator-> past the end of the range is not refused"); t = false; try { (void)v.begin()[(std::ptrdiff_t)len + d]; } catch (const std::exception &) { t = true; } if (!t) fail("C22,C14", "iterator subscript past the end of the range is not refused"); }
            { bool t = false; auto it = v.begin() - 1; try { (void)*it; } catch (const std::exception &) { t = true; } if (!t) fail("C22,C14", "dereferencing before the range is not refused"); t = false; try { (void)v.begin()[-1]; } catch (const std::exception &) { t = true; } if (!t) fail("C22,C14", "iterator subscript before the range is not refused"); }
            size_t o = R(len + 2), c = R(5) == 0 ? (size_t)-1 - R(3) : R(len + 3); bool tail = R(4) == 0, t = false; EntityView s;
            ctx += ", subview(" + std::to_string(o) + ", " + (tail ? "" : std::to_string(c)) + ")";
            try { s = tail ? v.subview(o) : v.subview(o, c); } catch (const std::exception &) { t = true; }
            if (t != (o > len)) fail("C22,C14", "subview %s", t ? "throws although the offset is inside the view" : "with an offset outside the view is not refused");
            if (t) continue;
            a += o; if (!tail && c < b - a) b = a + c;
            v = s;
        }
    }
    EntityView e; ctx = "view without a list";
    if (e.size() != 0 || !e.empty()) fail("C22", "a default view is not empty");
    bool t = false; try { (void)e[0]; } catch (const std::exception &) { t = true; } if (!t) fail("C22,C14", "indexing a default view is not refused");
    t = false; try { (void)e.subview(0); } catch (const std::exception &) { t = true; } if (!t) fail("C22,C14", "subview of a default view is not refused");
    for (auto &x : e) { (void)x; fail("C22", "a default view has elements"); }
}
struct X { int v = 0; };
using E1 = Tecs::ECS<X>;
static void nesting() {
    phase = "C19,C07";
    constexpr size_t MAX = TECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD;
    static std::vector<std::unique_ptr<E1>> es; // few instances: identifiers stay distinct
    while (es.size() < MAX + 2) es.push_back(std::make_unique<E1>());
    std::map<size_t, std::unique_ptr<Lock<E1, Read<X>>>> live;
    std::string hist; size_t last = 0;
    auto start = [&](size_t i) -> bool { try { live[i].reset(new Lock<E1, Read<X>>(es[i]->StartTransaction<Read<X>>())); } catch (const std::runtime_error &) { live.erase(i); return false; }
        if (live[i]->GetTransactionId() <= last) fail("C20", "transaction identifier %zu after %zu", live[i]->GetTransactionId(), last); last = live[i]->GetTransactionId(); return true; };
    for (int step = 0; step < 60; step++) {
        size_t i = R(R(2) ? 4 : MAX + 2); bool has = live.count(i);
        if (has && R(2)) { hist += " end" + std::to_string(i); ctx = "history:" + hist; live.erase(i); }
        else {
            bool want = !has && live.size() < MAX;
            hist += " start" + std::to_string(i); ctx = "history:" + hist;
            if (has) { // keep the running transaction
                bool t = false; try { auto l = es[i]->StartTransaction<>(); } catch (const std::runtime_error &) { t = true; }
                if (!t) fail("C19", "a nested transaction on an active instance is not refused");
                try { (void)live[i]->GetTransactionId(); (void)live[i]->PreviousEntities().size(); } catch (...) { fail("C19", "the running transaction stopped working"); }
            } else if (start(i) != want) fail("C19", "starting a transaction %s (%zu active)", want ? "is refused although none is active on the instance" : "beyond the limit is not refused", live.size());
        }
    }
    // up to the limit, then beyond it
    for (size_t i = 0; i < MAX + 2; i++) if (!live.count(i) && live.size() < MAX) { hist += " start" + std::to_string(i); ctx = "history:" + hist; if (!start(i)) fail("C19", "starting transaction %zu of %zu is refused", live.size() + 1, MAX); }
    for (size_t i = 0; i < MAX + 2; i++) if (!live.count(i)) { bool t = false; try { auto l = es[i]->StartTransaction<>(); } catch (const std::runtime_error &) { t = true; } if (!t) fail("C19", "more than %zu transactions are accepted in one thread", MAX); break; }
    std::thread other([&] { try { auto l = es[0]->StartTransaction<>(); } catch (...) { fail("C19", "transactions of another thread count for this thread"); } });
    other.join();
    while (!live.empty()) { auto it = live.begin(); std::advance(it, R(live.size())); size_t k = it->first; hist += " end" + std::to_string(k); ctx = "history:" + hist; live.erase(it);
        try { auto l = es[k]->StartTransaction<Write<X>>(); } catch (const std::exception &) { fail("C19", "a new transaction is refused right after the previous one on the instance ended"); } }
}
static void identifiers(bool first) {
    phase = "C20";
    if (first) {
        std::vector<std::unique_ptr<E1>> es; std::set<int> ids;
        for (int i = 0; i < 255; i++) { es.push_back(std::make_unique<E1>()); int d = es.back()->GetInstanceId(); ctx = "instance number " + std::to_string(i + 1); if (d == 0) fail("C20", "an instance has the identifier zero"); if (!ids.insert(d).second) fail("C20", "two instances have the identifier %d", d); }
        auto l = es[7]->StartTransaction<AddRemove>(); Entity e = l.NewEntity();
        if (IdentifierFromGeneration(e.generation) != es[7]->GetInstanceId()) fail("C20,C09", "a handle reveals the identifier %d, its instance has %d", (int)IdentifierFromGeneration(e.generation), (int)es[7]->GetInstanceId());
    }
    {
        std::vector<std::vector<std::unique_ptr<E1>>> es(4); std::vector<std::thread> th; std::atomic<int> ready{0};
        for (int t = 0; t < 4; t++) th.emplace_back([&, t] { es[t].reserve(50); ready++; while (ready < 4) {} for (int i = 0; i < 50; i++) es[t].push_back(std::make_unique<E1>()); });
        for (auto &t : th) t.join();
        std::set<int> ids; ctx = "four threads creating instances";
        for (auto &v : es) for (auto &e : v) { int d = e->GetInstanceId(); if (!ids.insert(d).second) fail("C20", "two instances have the identifier %d", d); }
    }
    static E1 *ecs = new E1(); static E1 *ecs2 = new E1();
    std::vector<std::vector<size_t>> got(4); std::vector<std::thread> th;
    for (int t = 0; t < 4; t++) th.emplace_back([&, t] { for (int i = 0; i < 200; i++) { auto l = ((t + i) % 2 ? ecs : ecs2)->StartTransaction<Read<X>>(); got[t].push_back(l.GetTransactionId()); } });
    for (auto &t : th) t.join();
    std::set<size_t> all; size_t mx = 0; ctx = "four threads starting transactions";
    for (auto &g : got) { size_t last = 0; for (auto x : g) { if (x <= last) fail("C20", "a transaction started later in the same thread has identifier %zu after %zu", x, last); last = x; mx = std::max(mx, x); if (!all.insert(x).second) fail("C20", "two transactions have the identifier %zu", x); } }
    auto l = ecs->StartTransaction<>(); if (l.GetTransactionId() <= mx) fail("C20", "a transaction started after all others has identifier %zu, an earlier one %zu", l.GetTransactionId(), mx);
}
int main(int argc, char **argv) {
    seed = strtoul(argv[1], 0, 10); unsigned rounds = atoi(argv[2]);
    for (int g : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGALRM}) signal(g, onsig);
    alarm(200);
    std::string only = argc > 3 ? argv[3] : "";
    auto want = [&](const char *n) { return only.empty() || only == n; };
    for (unsigned i = 0; i < rounds; i++, seed++) {
        rng.seed(seed * 104729 + 7);
        if (want("ids")) identifiers(i == 0);
        if (want("handles")) handles();
        if (want("views")) views();
        if (want("nesting")) nesting();
    }
    printf("OK rounds=%u\n", rounds); fflush(stdout); _exit(0);
}
