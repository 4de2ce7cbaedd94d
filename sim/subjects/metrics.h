// metrics: adapters that measure the sorter they wrap
#ifndef SIM_METRICS_H_
#define SIM_METRICS_H_
#include "../subjects.h"
#include <chrono>
#include <cpp-sort/metrics.h>
#include <cpp-sort/adapters/counting_adapter.h>
using namespace cppsort;
using namespace sim;
namespace
{
    template<typename R> std::int64_t value_of(const R& r)
    {
        if constexpr (std::is_arithmetic_v<R>) return (std::int64_t)r;
        else if constexpr (std::is_arithmetic_v<decltype(r.value())>) return (std::int64_t)r.value();
        else return (std::int64_t)r.value().count();
    }
    template<typename M, typename Cat, typename Less, typename Proj, bool Iterable>
    std::int64_t call(void* lo, void* hi)
    {
        const M& m = shared_sorter<M>();
        Range<Elem> r{static_cast<Elem*>(lo), static_cast<Elem*>(hi)};
        SimIter<Elem, Cat> f(r.lo, &r), l(r.hi, &r);
        auto run = [&] {
            Lib _;
            if constexpr (Iterable) {
                SimRange<SimIter<Elem, Cat>> rg{f, l};
                if constexpr (std::is_same_v<Proj, NoProj>) return m(rg, Less{}); else return m(rg, Less{}, Proj{});
            } else {
                if constexpr (std::is_same_v<Proj, NoProj>) return m(f, l, Less{}); else return m(f, l, Less{}, Proj{});
            }
        };
        return value_of(run());
    }
    template<typename S, typename Cat, typename Less, typename Proj, bool Iterable>
    std::int64_t bare(void* lo, void* hi)
    {
        CallSort<S, Elem, Cat, Less, Proj, Iterable>::call(lo, hi);
        return 0;
    }
    template<typename S, typename Cat>
    struct Adder
    {
        std::string n, c; std::uint32_t fl;
        std::vector<std::string> twins;
        template<typename M, typename Less, typename Proj, bool Iterable>
        void one(const char* metric, const char* variant, int aux, std::uint32_t off = 0)
        {
            const bool proj = !std::is_same<Proj, NoProj>::value;
            std::string key = std::string("/") + (std::is_same<Less, SimLess>::value ? "" : "b") + (!proj ? "" : std::is_same<Proj, SimProj>::value ? "p" : "v") + (Iterable ? "r" : "i");
            std::string twin = "bare<" + n + ">/" + c + key;
            bool known = false;
            for (auto& t : twins) if (t == twin) known = true;
            std::uint32_t f = (fl | (proj ? F_PROJ : 0)) & ~off;
            if (!known) { twins.push_back(twin); add("bare<" + n + ">", c + key, E_ELEM, C_ARRAY, O_SORT, f, bare<S, Cat, Less, Proj, Iterable>).hidden = true; }
            Subject& s = add(std::string(metric) + "<" + n + ">", c + variant, E_ELEM, C_ARRAY, O_METRIC, f, call<M, Cat, Less, Proj, Iterable>);
            s.aux = aux; s.twin = twin;
        }
    };
    template<typename S, typename Cat>
    void m(const char* s, const char* cat, std::uint32_t fl)
    {
        using namespace std::chrono;
        Adder<S, Cat> a{s, cat, fl | F_ORDERED, {}};
        using C = metrics::comparisons<S>; using P = metrics::projections<S>; using V = metrics::moves<S>;
        using T = metrics::running_time<S>; using U = metrics::running_time<S, microseconds>; using K = counting_adapter<S>;
        using CL = metrics::comparisons<S, long long>;
        a.template one<C, SimLess, NoProj, false>("comparisons", "/elem", M_CMP);
        a.template one<CL, SimLessBranchless, NoProj, true>("comparisons", "/elem/it", M_CMP);
        a.template one<C, SimLess, SimProj, true>("comparisons", "/elem/proj", M_CMP);
        a.template one<C, SimLess, SimProj, false>("comparisons", "/elem/itproj", M_CMP);
        a.template one<C, SimLessBranchless, NoProj, false>("comparisons", "/elem/branchless", M_CMP);
        a.template one<K, SimLess, NoProj, true>("counting", "/elem/m", M_CMP);
        a.template one<K, SimLessBranchless, NoProj, false>("counting", "/elem/mbranchless", M_CMP);
        a.template one<K, SimLess, SimProj, false>("counting", "/elem/mproj", M_CMP);
        a.template one<P, SimLess, SimProj, true>("projections", "/elem/proj", M_PROJ);
        a.template one<P, SimLessBranchless, SimProj, false>("projections", "/elem/projbranchless", M_PROJ);
        a.template one<P, SimLess, SimProjVal, false>("projections", "/elem/projval", M_PROJ);
        a.template one<V, SimLess, NoProj, true>("moves", "/elem", M_MOVES, F_TOLERANT);
        a.template one<V, SimLess, SimProj, false>("moves", "/elem/proj", M_MOVES, F_TOLERANT);
        a.template one<T, SimLess, NoProj, true>("running_time", "/elem", M_TIME_NS);
        a.template one<T, SimLess, SimProj, false>("running_time", "/elem/proj", M_TIME_NS);
        a.template one<U, SimLess, NoProj, false>("running_time_us", "/elem", M_TIME_US);
    }
    // a metric around another one
    template<typename S, typename Cat>
    void mm(const char* s, const char* cat, std::uint32_t fl)
    {
        std::string n = std::string("nested,") + s;
        Adder<S, Cat> a{n, cat, fl | F_ORDERED, {}};
        using C = metrics::comparisons<metrics::projections<S>>; using P = metrics::projections<metrics::comparisons<S>>;
        using V = metrics::moves<metrics::comparisons<S>>; using CV = metrics::comparisons<metrics::moves<S>>;
        a.template one<C, SimLess, SimProj, false>("comparisons", "/elem/proj", M_CMP);
        a.template one<P, SimLess, SimProj, true>("projections", "/elem/proj", M_PROJ);
        a.template one<V, SimLess, SimProj, false>("moves", "/elem/proj", M_MOVES, F_TOLERANT);
        a.template one<CV, SimLess, NoProj, true>("comparisons_of_moves", "/elem", M_CMP, F_TOLERANT);
        a.template one<metrics::running_time<C>, SimLess, SimProj, false>("running_time", "/elem/proj", M_TIME_NS);
    }
}
#endif
