// default sorter, sort functions, arrays of a known size, plain pointers
#include "../subjects.h"
#include <array>
#include <cpp-sort/sort.h>
#include <cpp-sort/stable_sort.h>
#include <cpp-sort/adapters/hybrid_adapter.h>
#include <cpp-sort/adapters/small_array_adapter.h>
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/sorters/default_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/utility/apply_permutation.h>
#include <cpp-sort/utility/sorted_indices.h>
using namespace cppsort;
using namespace sim;
namespace
{
    template<bool Stable, typename Cat, typename Proj, bool Iterable>
    std::int64_t fn(void* lo, void* hi)
    {
        Range<Elem> r{static_cast<Elem*>(lo), static_cast<Elem*>(hi)};
        SimIter<Elem, Cat> f(r.lo, &r), l(r.hi, &r);
        SimRange<SimIter<Elem, Cat>> rg{f, l};
        Lib _;
        if constexpr (std::is_same_v<Proj, NoProj>) {
            if constexpr (Stable) { if constexpr (Iterable) stable_sort(rg, SimLess{}); else stable_sort(f, l, SimLess{}); }
            else { if constexpr (Iterable) cppsort::sort(rg, SimLess{}); else cppsort::sort(f, l, SimLess{}); }
        } else {
            if constexpr (Stable) { if constexpr (Iterable) stable_sort(rg, SimLess{}, Proj{}); else stable_sort(f, l, SimLess{}, Proj{}); }
            else { if constexpr (Iterable) cppsort::sort(rg, SimLess{}, Proj{}); else cppsort::sort(f, l, SimLess{}, Proj{}); }
        }
        return 0;
    }
    // sorts a permutation of indices, then applies it
    template<typename S, bool Range_, typename Proj>
    std::int64_t perm(void* lo, void* hi)
    {
        Range<Elem> r{static_cast<Elem*>(lo), static_cast<Elem*>(hi)};
        SimIter<Elem, RA> f(r.lo, &r), l(r.hi, &r);
        SimRange<SimIter<Elem, RA>> rg{f, l};
        Lib _;
        if constexpr (std::is_same_v<Proj, NoProj>) {
            auto v = utility::sorted_indices<S>{}(f, l, SimLess{});
            if constexpr (Range_) utility::apply_permutation(rg, v); else utility::apply_permutation(f, l, v.begin(), v.end());
        } else {
            auto v = utility::sorted_indices<S>{}(rg, SimLess{}, Proj{});
            if constexpr (Range_) utility::apply_permutation(rg, v); else utility::apply_permutation(f, l, v.begin(), v.end());
        }
        return 0;
    }
    template<typename S>
    void p(const char* f, std::uint32_t fl)
    {
        fl |= F_ORDERED | F_INDIRECT;
        add(f, "ra/elem", E_ELEM, C_ARRAY, O_SORT, fl, perm<S, false, NoProj>);
        add(f, "ra/elem/proj", E_ELEM, C_ARRAY, O_SORT, fl | F_PROJ, perm<S, true, SimProj>);
    }
    template<typename S, int N, typename Proj, bool CArray>
    std::int64_t arr(void* lo, void*)
    {
        const S& s = shared_sorter<S>();
        auto go = [&](auto& a) { Lib _; if constexpr (std::is_same_v<Proj, NoProj>) s(a, SimLess{}); else s(a, SimLess{}, Proj{}); };
        if constexpr (CArray) go(*static_cast<Elem(*)[N]>(lo)); else go(*static_cast<std::array<Elem, N>*>(lo));
        return 0;
    }
    template<typename S, int N>
    void a(const char* f, std::uint32_t fl)
    {
        fl |= F_ORDERED;
        std::string v = "arr/n" + std::to_string(N);
        add(f, v + "/elem", E_ELEM, C_ARRAY, O_SORT, fl, arr<S, N, NoProj, false>, -N);
        add(f, v + "/elem/proj", E_ELEM, C_ARRAY, O_SORT, fl | F_PROJ, arr<S, N, SimProj, false>, -N);
        add(f, v + "/elem/c", E_ELEM, C_ARRAY, O_SORT, fl, arr<S, N, NoProj, true>, -N);
    }
    template<int... Is> void all(std::integer_sequence<int, Is...>)
    {
        (a<small_array_adapter<low_comparisons_sorter>, Is>("small_array<low_comparisons>", F_TOLERANT | F_NOALLOC), ...);
        (a<small_array_adapter<low_moves_sorter>, Is>("small_array<low_moves>", F_TOLERANT | F_NOALLOC), ...);
        (a<default_sorter, Is>("default_sorter", F_TOLERANT), ...);
        (a<schwartz_adapter<small_array_adapter<low_comparisons_sorter>>, Is>("schwartz<small_array>", 0), ...);
    }
    int go()
    {
        add_fw<default_sorter>("default_sorter", F_TOLERANT);
        add_fw<stable_adapter<default_sorter>>("stable<default>", F_TOLERANT | F_STABLE);
        const std::uint32_t t = F_TOLERANT | F_ORDERED;
        add("cppsort::sort", "ra/elem", E_ELEM, C_ARRAY, O_SORT, t, fn<false, RA, NoProj, false>);
        add("cppsort::sort", "fw/elem", E_ELEM, C_ARRAY, O_SORT, t, fn<false, FW, NoProj, true>);
        add("cppsort::sort", "bi/elem/proj", E_ELEM, C_ARRAY, O_SORT, t | F_PROJ, fn<false, BI, SimProj, false>);
        add("cppsort::stable_sort", "ra/elem", E_ELEM, C_ARRAY, O_SORT, t | F_STABLE, fn<true, RA, NoProj, true>);
        add("cppsort::stable_sort", "fw/elem/proj", E_ELEM, C_ARRAY, O_SORT, t | F_STABLE | F_PROJ, fn<true, FW, SimProj, false>);
        p<heap_sorter>("apply_permutation<heap>", F_NLOGN);
        p<merge_sorter>("apply_permutation<merge>", F_STABLE);
        all(std::integer_sequence<int, 2, 3, 5, 8, 13>{});
        return 0;
    }
    const int reg = go();
}
