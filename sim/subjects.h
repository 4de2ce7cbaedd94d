// What the simulator can run: every public sorter, adapter, probe and utility,
// instantiated over simulated elements, iterators and callbacks.
#ifndef SIM_SUBJECTS_H_
#define SIM_SUBJECTS_H_

#include "core.h"
#include <forward_list>
#include <functional>
#include <list>
#include <string>
#include <vector>
#include <cpp-sort/fwd.h>
#include <cpp-sort/utility/branchless_traits.h>
#include <cpp-sort/utility/functional.h>

namespace cppsort
{
namespace utility
{
    template<typename T> struct is_probably_branchless_comparison<sim::SimLessBranchless, T>: std::true_type {};
}}

namespace sim
{
    enum ElemType { E_ELEM, E_POD, E_STRING, E_INT, E_UINT, E_LLONG, E_ULLONG, E_SHORT, E_UCHAR, E_FLOAT, E_DOUBLE };
    enum CollKind { C_ARRAY, C_LIST, C_FLIST };
    enum Op { O_SORT, O_PROBE, O_QUERY, O_METRIC, O_ORDER };
    enum Measure { P_BLOCK, P_DIS, P_ENC, P_EXC, P_HAM, P_INV, P_MAX, P_MONO, P_OSC, P_REM, P_RUNS, P_SUS };
    enum MetricKind { M_NONE, M_CMP, M_PROJ, M_MOVES, M_TIME_NS, M_TIME_US };

    enum Flag : std::uint32_t {
        F_STABLE = 1,          // documented stable
        F_TOLERANT = 2,        // documented as never reporting std::bad_alloc
        F_NOALLOC = 4,         // documented O(1) memory
        F_PROJ = 8,            // uses a projection
        F_INTONLY = 16,        // ignores the comparator
        F_QUADRATIC = 32,      // keep inputs small
        F_INDIRECT = 64,       // nothing moves before the last callback
        F_BUFFERED = 128,      // default-constructs elements
        F_ORDERED = 256,       // result must be sorted (off for measures and queries)
        F_READONLY = 512,      // must not modify the collection at all
        F_NLOGN = 1024,        // documented O(n log n) comparisons, worst case
        F_NLOG2N = 2048,       // documented O(n log^2 n) when memory is short
        F_LINKS = 8192,        // list algorithm: relinks nodes, moves nothing
        F_ONEPROJ = 16384,     // projects every element exactly once
        F_NOREVERSE = 32768,   // comparator order cannot be reversed
        F_SMALL = 65536,       // only small sizes (small_array)
        F_ADAPTER = 1u << 17,
        F_SIMBUF = 1u << 18,   // uses the simulated buffer provider
        F_BIG = 1u << 21,      // has a threshold near a thousand elements
        F_GLOBAL = 1u << 22,   // sets the global locale
        F_RADIX = 1u << 23,    // a sorter that looks at the representation of keys
        F_SIMSORTER = 1u << 24, // adapts a simulated sorter
        F_FIXED = 1u << 25,    // a fixed-size sorter
        F_ALIGN = 1u << 26,    // with over-aligned elements or keys
        F_PROXY = 1u << 20,    // works through proxy references
        F_NOTHROW = 1u << 19   // the operation itself must not let callbacks throw
    };

    struct Subject
    {
        std::string name;        // family/variant
        std::string family;
        int elem;
        int coll;
        int op;
        std::uint32_t flags;
        // array collections: [lo, hi) of elements; lists: pointer to the container in lo
        std::int64_t (*call)(void* lo, void* hi);
        int max_n = 0;
        int aux = 0;             // which metric, which measure
        std::string twin;        // the same call without the metric
        bool hidden = false;     // only run as the twin of another subject
    };
    std::vector<Subject>& registry();

    // marks the dynamic extent of library code
    struct Lib
    {
        Ctx* c;
        Lib(): c(g) { c->t_enter = sim_clock; c->in_lib = true; }
        ~Lib() { c->in_lib = false; c->t_exit = sim_clock; }
    };

    template<typename It>
    struct SimRange
    {
        It b, e;
        It begin() const { return b; }
        It end() const { return e; }
    };

    struct NoProj {};

    using List = std::list<Elem, SimAlloc<Elem>>;
    using FList = std::forward_list<Elem, SimAlloc<Elem>>;

    template<typename Sorter>
    const Sorter& shared_sorter() { static const Sorter s{}; return s; }

    template<typename R, typename F>
    std::int64_t to_i64(F&& f, std::true_type) { f(); return 0; }
    template<typename R, typename F>
    std::int64_t to_i64(F&& f, std::false_type) { return (std::int64_t)f(); }

    template<typename Sorter, typename T, typename Cat, typename Less, typename Proj, bool Iterable>
    struct CallSort
    {
        using It = SimIter<T, Cat>;
        static std::int64_t call(void* lo, void* hi)
        {
            const Sorter& s = shared_sorter<Sorter>();
            Range<T> r{static_cast<T*>(lo), static_cast<T*>(hi)};
            It f(r.lo, &r), l(r.hi, &r);
            Lib _;
            go(s, f, l, Proj{});
            return 0;
        }
        static void go(const Sorter& s, It f, It l, NoProj)
        {
            if constexpr (Iterable) { SimRange<It> rg{f, l}; s(rg, Less{}); }
            else s(f, l, Less{});
        }
        template<typename P>
        static void go(const Sorter& s, It f, It l, P p)
        {
            if constexpr (Iterable) { SimRange<It> rg{f, l}; s(rg, Less{}, p); }
            else s(f, l, Less{}, p);
        }
    };

    inline Subject& add(std::string family, std::string variant, int elem, int coll, int op, std::uint32_t flags,
                    std::int64_t (*call)(void*, void*), int max_n = 0)
    {
        registry().push_back(Subject{family + "/" + variant, family, elem, coll, op, flags, call, max_n});
        return registry().back();
    }

    // the standard set of variants for one sorter
    template<typename Sorter, typename Cat>
    void add_cat(const char* family, const char* cat, std::uint32_t fl)
    {
        fl |= F_ORDERED;
        add(family, std::string(cat) + "/elem", E_ELEM, C_ARRAY, O_SORT, fl, CallSort<Sorter, Elem, Cat, SimLess, NoProj, false>::call);
        add(family, std::string(cat) + "/elem/proj", E_ELEM, C_ARRAY, O_SORT, fl | F_PROJ, CallSort<Sorter, Elem, Cat, SimLess, SimProj, true>::call);
        add(family, std::string(cat) + "/pod", E_POD, C_ARRAY, O_SORT, fl, CallSort<Sorter, Pod, Cat, SimLess, NoProj, true>::call);
    }
    template<typename Sorter> void add_ra(const char* f, std::uint32_t fl) { add_cat<Sorter, RA>(f, "ra", fl); }
    template<typename Sorter> void add_bi(const char* f, std::uint32_t fl) { add_cat<Sorter, RA>(f, "ra", fl); add_cat<Sorter, BI>(f, "bi", fl); }
    template<typename Sorter> void add_fw(const char* f, std::uint32_t fl) { add_cat<Sorter, RA>(f, "ra", fl); add_cat<Sorter, BI>(f, "bi", fl); add_cat<Sorter, FW>(f, "fw", fl); }

    // sorters whose interesting behaviour needs a projection
    template<typename Sorter, typename Cat>
    void add_cat_p(const char* family, const char* cat, std::uint32_t fl)
    {
        fl |= F_ORDERED | F_PROJ;
        add(family, std::string(cat) + "/elem/proj", E_ELEM, C_ARRAY, O_SORT, fl, CallSort<Sorter, Elem, Cat, SimLess, SimProj, true>::call);
        add(family, std::string(cat) + "/elem/projval", E_ELEM, C_ARRAY, O_SORT, fl, CallSort<Sorter, Elem, Cat, SimLess, SimProjVal, false>::call);
        add(family, std::string(cat) + "/pod/proj", E_POD, C_ARRAY, O_SORT, fl, CallSort<Sorter, Pod, Cat, SimLess, SimProjVal, true>::call);
    }
    template<typename Sorter> void add_ra_p(const char* f, std::uint32_t fl) { add_cat_p<Sorter, RA>(f, "ra", fl); }
    template<typename Sorter> void add_bi_p(const char* f, std::uint32_t fl) { add_cat_p<Sorter, RA>(f, "ra", fl); add_cat_p<Sorter, BI>(f, "bi", fl); }
    template<typename Sorter> void add_fw_p(const char* f, std::uint32_t fl) { add_cat_p<Sorter, RA>(f, "ra", fl); add_cat_p<Sorter, BI>(f, "bi", fl); add_cat_p<Sorter, FW>(f, "fw", fl); }
}

#define SIM_REGISTER(id) static const bool sim_reg_##id = (sim_register_##id(), true)

#endif
