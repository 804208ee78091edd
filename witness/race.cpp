// Bounded runs of the real code with several threads under the thread sanitizer.  usage: race SEED ROUNDS
#include <Tecs.hh>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
using namespace Tecs;
namespace w { struct A { int v = 0; }; struct B { std::string s = "x"; }; struct G { int v = 0; }; }
TECS_GLOBAL_COMPONENT(w::G);
using w::A; using w::B; using w::G;
using E_ = Tecs::ECS<A, B, G>;
template<typename L> static long look(const L &l) {
    long n = 0;
    for (auto &e : l.Entities()) if (e) n += e.template Has<A>(l) + e.template Had<B>(l) + e.Exists(l) + e.Existed(l);
    for (auto &e : l.PreviousEntities()) n += e.index;
    n += l.template Has<G>() + l.template Had<G>();
    for (auto &e : l.template EntitiesWith<A>()) if (e) { n++; if constexpr (is_read_allowed<A, L>()) n += e.template Get<const A>(l).v; }
    for (auto &e : l.template PreviousEntitiesWith<A>()) { if constexpr (is_read_allowed<A, L>()) n += e.template GetPrevious<A>(l).v; n++; }
    for (auto &e : l.template EntitiesWith<B>()) if (e) { n++; if constexpr (is_read_allowed<B, L>()) n += e.template Get<const B>(l).s.size(); }
    for (auto &e : l.template PreviousEntitiesWith<B>()) { if constexpr (is_read_allowed<B, L>()) n += e.template GetPrevious<B>(l).s.size(); n++; }
    if constexpr (is_read_allowed<G, L>()) { if (l.template Has<G>()) n += l.template Get<const G>().v; if (l.template Had<G>()) n += l.template GetPrevious<G>().v; }
    return n;
}
int main(int argc, char **argv) {
    unsigned long seed = strtoul(argv[1], 0, 10); int rounds = atoi(argv[2]);
    alarm(240);
    for (int k = 0; k < rounds; k++, seed++) {
        E_ e; Entity keep[3];
        { auto l = e.StartTransaction<AddRemove>(); for (auto &x : keep) { x = l.NewEntity(); x.Set<A>(l); x.Set<B>(l); } l.Set<G>(); }
        std::vector<std::thread> th; std::atomic<long> sink{0};
        for (int t = 0; t < 4; t++) th.emplace_back([&, t] {
            std::mt19937 r((unsigned)seed * 31 + t); long n = 0; Observer<E_, ComponentEvent<A>> o; Observer<E_, EntityEvent> oe; ComponentEvent<A> ev; EntityEvent ee; std::vector<Entity> mine;
            for (int i = 0; i < 40; i++) switch (r() % 10) {
                case 0: { auto l = e.StartTransaction<ReadAll>(); n += look(l); while (o.Poll(l, ev)) n++; break; }
                case 1: { auto l = e.StartTransaction<Read<A>>(); n += look(l); while (oe.Poll(l, ee)) n++; break; }
                case 2: { auto l = e.StartTransaction<Write<A>>(); n += look(l); keep[r() % 3].Get<A>(l).v++; n += look(l); break; }
                case 3: { auto l = e.StartTransaction<Read<A>, Write<B>>(); n += look(l); keep[r() % 3].Set<B>(l).s = std::string(r() % 40, 'y'); n += look(l); break; }
                case 4: { auto l = e.StartTransaction<Write<G>, Read<B>>(); n += look(l); l.Get<G>().v++; n += look(l.ReadOnlySubset()); break; }
                case 5: case 6: { auto l = e.StartTransaction<AddRemove>(); n += look(l); for (int j = r() % 3; j >= 0; j--) { mine.push_back(l.NewEntity()); mine.back().Set<A>(l); if (r() % 2) mine.back().Set<B>(l); }
                    if (mine.size() > 3) { mine.front().Destroy(l); mine.erase(mine.begin()); } if (!mine.empty() && r() % 2) mine[0].Unset<A>(l); if (!o && r() % 2) o = l.Watch<ComponentEvent<A>>(); if (!oe && r() % 2) oe = l.Watch<EntityEvent>(); else if (oe && r() % 4 == 0) oe.Stop(l); keep[0].Get<A>(l).v++; n += look(l); n += look(l.ReadOnlySubset()); break; }
                case 7: { auto l = e.StartTransaction<>(); n += look(l); while (o.Poll(l, ev)) n++; break; }
                case 8: { auto l = e.StartTransaction<WriteAll>(); n += look(l); if (r() % 2) keep[1].Get<A>(l).v++; if (r() % 2) l.Get<G>().v++; n += look(l); break; }
                case 9: { auto l = e.StartTransaction<AddRemove>(); n += look(l); break; }
            }
            sink += n;
        });
        for (auto &t : th) t.join();
    }
    printf("OK rounds=%d\n", rounds); fflush(stdout); _exit(0);
}
