// measures of presortedness, and the utilities that only look at a collection
#include "../subjects.h"
#include <cpp-sort/probes.h>
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/spin_sorter.h>
#include <cpp-sort/sorters/tim_sorter.h>
#include <cpp-sort/utility/sorted_indices.h>
#include <cpp-sort/utility/sorted_iterators.h>
using namespace cppsort;
using namespace sim;
namespace
{
    template<typename P, typename T, typename Cat, typename Proj>
    std::int64_t call(void* lo, void* hi)
    {
        P p{};
        Range<T> r{static_cast<T*>(lo), static_cast<T*>(hi)};
        SimIter<T, Cat> f(r.lo, &r), l(r.hi, &r);
        Lib _;
        if constexpr (std::is_same_v<Proj, NoProj>) return (std::int64_t)p(f, l, SimLess{});
        else return (std::int64_t)p(SimRange<SimIter<T, Cat>>{f, l}, SimLess{}, Proj{});
    }
    template<typename P, typename Cat>
    void pc(const char* n, const char* cat, int which, std::uint32_t fl)
    {
        fl |= F_READONLY;
        std::string c = cat;
        add(n, c + "/elem", E_ELEM, C_ARRAY, O_PROBE, fl, call<P, Elem, Cat, NoProj>).aux = which;
        add(n, c + "/elem/proj", E_ELEM, C_ARRAY, O_PROBE, fl | F_PROJ, call<P, Elem, Cat, SimProj>).aux = which;
        add(n, c + "/pod", E_POD, C_ARRAY, O_PROBE, fl, call<P, Pod, Cat, NoProj>).aux = which;
    }
    
    template<typename P> void fw(const char* n, int w, std::uint32_t fl) { pc<P, RA>(n, "ra", w, fl); pc<P, BI>(n, "bi", w, fl); pc<P, FW>(n, "fw", w, fl); }

    template<typename Sorter, typename Cat, typename Proj, bool Indices>
    std::int64_t query(void* lo, void* hi)
    {
        Range<Elem> r{static_cast<Elem*>(lo), static_cast<Elem*>(hi)};
        SimIter<Elem, Cat> f(r.lo, &r), l(r.hi, &r);
        auto run = [&] {
            Lib _;
            if constexpr (Indices) {
                if constexpr (std::is_same_v<Proj, NoProj>) return utility::sorted_indices<Sorter>{}(f, l, SimLess{});
                else return utility::sorted_indices<Sorter>{}(f, l, SimLess{}, Proj{});
            } else {
                if constexpr (std::is_same_v<Proj, NoProj>) return utility::sorted_iterators<Sorter>{}(f, l, SimLess{});
                else return utility::sorted_iterators<Sorter>{}(f, l, SimLess{}, Proj{});
            }
        };
        auto v = run();
        std::size_t n = r.hi - r.lo;
        if (v.size() != n) return 2;
        std::vector<char> seen(n, 0);
        bool stable = true;
        const Elem* prev = nullptr;
        for (auto x : v) {
            std::size_t i;
            if constexpr (Indices) i = (std::size_t)x; else i = (std::size_t)(x.p - r.lo);
            if (i >= n || seen[i]) return 2;
            seen[i] = 1;
            const Elem* e = r.lo + i;
            if (prev) {
                int a = prev->key, b = e->key;
                if (g->reverse) std::swap(a, b);
                if (b < a) return 1;
                if (a == b && prev->id > e->id) stable = false;
            }
            prev = e;
        }
        return stable ? 0 : 3;
    }
    template<typename S>
    void q(const char* s, std::uint32_t fl)
    {
        fl |= F_READONLY;
        std::string a = std::string("sorted_indices<") + s + ">", b = std::string("sorted_iterators<") + s + ">";
        add(a, "ra/elem", E_ELEM, C_ARRAY, O_QUERY, fl, query<S, RA, NoProj, true>);
        add(a, "ra/elem/proj", E_ELEM, C_ARRAY, O_QUERY, fl | F_PROJ, query<S, RA, SimProj, true>);
        add(b, "fw/elem", E_ELEM, C_ARRAY, O_QUERY, fl, query<S, FW, NoProj, false>);
        add(b, "bi/elem/proj", E_ELEM, C_ARRAY, O_QUERY, fl | F_PROJ, query<S, BI, SimProj, false>);
        add(b, "ra/elem", E_ELEM, C_ARRAY, O_QUERY, fl, query<S, RA, NoProj, false>);
    }
    int go()
    {
        fw<decltype(probe::block)>("probe::block", P_BLOCK, 0);
        fw<decltype(probe::dis)>("probe::dis", P_DIS, F_TOLERANT);
        fw<decltype(probe::enc)>("probe::enc", P_ENC, 0);
        fw<decltype(probe::exc)>("probe::exc", P_EXC, 0);
        fw<decltype(probe::ham)>("probe::ham", P_HAM, 0);
        fw<decltype(probe::inv)>("probe::inv", P_INV, 0);
        fw<decltype(probe::max)>("probe::max", P_MAX, 0);
        fw<decltype(probe::mono)>("probe::mono", P_MONO, F_TOLERANT | F_NOALLOC);
        fw<decltype(probe::osc)>("probe::osc", P_OSC, F_TOLERANT);
        fw<decltype(probe::rem)>("probe::rem", P_REM, 0);
        fw<decltype(probe::runs)>("probe::runs", P_RUNS, F_TOLERANT | F_NOALLOC);
        fw<decltype(probe::sus)>("probe::sus", P_SUS, 0);
        q<heap_sorter>("heap", 0);
        q<merge_sorter>("merge", F_STABLE);
        q<tim_sorter>("tim", F_STABLE);
        q<pdq_sorter>("pdq", 0);
        q<spin_sorter>("spin", 0);
        q<stable_adapter<heap_sorter>>("stable<heap>", F_STABLE);
        return 0;
    }
    const int reg = go();
}
