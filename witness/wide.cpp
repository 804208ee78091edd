// Bounded runs of the real code: dynamic locks of an instance with many component types.  usage: wide SEED ROUNDS
#include <Tecs.hh>
#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using namespace Tecs;
static unsigned long seed;
static std::string ctx;
[[noreturn]] static void fail(const char *props, const char *f, ...) {
    char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    printf("FAIL %s :: %s\nseed %lu; %s\n", props, b, seed, ctx.c_str()); fflush(stdout); _exit(3);
}
static const char *phase = "C14";
static void onsig(int g) { signal(g, SIG_DFL); fail(phase, "the library %s (signal %d)", g == SIGALRM ? "hangs" : "crashes", g); }
static std::mt19937_64 rng;
static uint64_t R(uint64_t n) { return rng() % n; }
static std::string S(uint64_t x) { char b[40]; snprintf(b, sizeof b, "%llx", (unsigned long long)x); return b; }

template<int N> struct K { int v = 0; };
template<typename S> struct Wide;
template<int... I> struct Wide<std::integer_sequence<int, I...>> { using E = Tecs::ECS<K<I>...>; };
template<typename... P> struct TL {};
template<typename EW, typename L, typename... P> static void tryw(const L &l, TL<P...>, bool want, const char *what) { ctx = what; if (DynamicLock<EW>(l).template TryLock<P...>().has_value() != want) fail("C18", "a dynamic try-lock %s", want ? "fails although the permissions are held" : "succeeds although the permissions are not held"); }
#define T_(want, ...) tryw<EW>(l, TL<__VA_ARGS__>(), want, w.c_str())
template<int N> static void wide() {
    using EW = typename Wide<std::make_integer_sequence<int, N>>::E; using Z = K<N - 1>; using Y = K<N - 2>;
    phase = "C18"; const std::string of = " of " + std::to_string(N) + " component types (Z: the last one, Y: the one before)";
    static EW *e = new EW();
    {
        auto l = e->template StartTransaction<Write<Y>, Read<K<3>>>(); std::string w = "transaction with Write<Y>, Read<K3>" + of;
        T_(true, Write<Y>); T_(true, Read<Y>); T_(true, Read<K<3>>); T_(false, Write<K<3>>); T_(false, Read<K<30>>); T_(false, Write<Z>); T_(false, Read<Z>);
        T_(false, Read<K<0>>); T_(false, ReadAll); T_(false, WriteAll); T_(false, AddRemove); T_(true); T_(false, Read<K<3>>, Write<Z>); T_(true, Read<K<3>>, Write<Y>);
    }
    {
        auto l = e->template StartTransaction<Write<Z>>(); std::string w = "transaction with Write<Z>" + of;
        T_(true, Write<Z>); T_(true, Read<Z>); T_(false, Read<Y>); T_(false, Write<Y>); T_(false, Write<K<0>>); T_(false, AddRemove); T_(false, ReadAll);
    }
    {
        auto l = e->template StartTransaction<Read<Z, K<0>>, Write<K<1>>>(); std::string w = "transaction with Read<Z, K0>, Write<K1>" + of;
        T_(true, Read<Z>); T_(true, Read<K<0>>); T_(true, Write<K<1>>); T_(true, Read<K<1>>); T_(false, Write<Z>); T_(false, Write<K<0>>); T_(false, Read<Y>); T_(false, AddRemove);
        DynamicLock<EW, Read<Z>> d(l); ctx = w; if (d.template TryLock<Write<Z>>() || !d.template TryLock<Write<K<1>>>() || !d.template TryLock<Read<Z>>() || !d.template TryLock<Read<K<0>>>()) fail("C18", "a try-lock on a dynamic lock with static permissions does not follow the permissions held");
    }
    {
        auto l = e->template StartTransaction<WriteAll>(); std::string w = "transaction with WriteAll" + of;
        T_(true, Write<Z>); T_(true, Write<Y>); T_(true, ReadAll); T_(true, WriteAll); T_(false, AddRemove);
    }
    {
        auto l = e->template StartTransaction<ReadAll>(); std::string w = "transaction with ReadAll" + of;
        T_(true, Read<Z>); T_(false, Write<Z>); T_(true, ReadAll); T_(false, AddRemove); T_(false, WriteAll);
    }
    {
        auto l = e->template StartTransaction<AddRemove>(); std::string w = "transaction with AddRemove" + of;
        T_(true, Read<Z>); T_(true, WriteAll); T_(true, AddRemove);
        auto en = l.NewEntity(); en.template Set<Z>(l, Z{5}); en.template Set<K<1>>(l, K<1>{6});
        if (!en.template Has<Z>(l) || en.template Has<Y>(l) || en.template Get<Z>(l).v != 5) fail("C11,C12", "a component of the last type is not stored");
    }
}
int main(int argc, char **argv) {
    for (int g : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGALRM}) signal(g, onsig);
    alarm(200);
#ifdef ALL_SIZES
    wide<63>(); wide<66>();
#endif
    wide<64>(); // from 64 types on there are more permission bits than a machine word has (needs the constexpr std::bitset of C++23)
    printf("OK rounds=1\n"); fflush(stdout); _exit(0);
}
