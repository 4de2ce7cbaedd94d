// type-specific sorters
#include "../subjects.h"
#include <cpp-sort/sorters/counting_sorter.h>
#include <cpp-sort/sorters/ska_sorter.h>
#include <cpp-sort/sorters/spread_sorter.h>
#include <cpp-sort/adapters/indirect_adapter.h>
#include <cpp-sort/adapters/out_of_place_adapter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
using namespace cppsort;
using namespace sim;

namespace
{
    template<typename Sorter, typename T, typename Cat, typename Proj>
    std::int64_t call(void* lo, void* hi)
    {
        const Sorter& s = shared_sorter<Sorter>();
        Range<T> r{static_cast<T*>(lo), static_cast<T*>(hi)};
        SimIter<T, Cat> f(r.lo, &r), l(r.hi, &r);
        Lib _;
        if constexpr (std::is_same_v<Proj, NoProj>) s(f, l); else s(f, l, Proj{});
        return 0;
    }
    constexpr std::uint32_t F = F_ORDERED | F_INTONLY | F_NOREVERSE;

    int go()
    {
        add("counting_sorter", "ra/int", E_INT, C_ARRAY, O_SORT, F, call<counting_sorter, int, RA, NoProj>);
        add("counting_sorter", "fw/int", E_INT, C_ARRAY, O_SORT, F, call<counting_sorter, int, FW, NoProj>);
        add("ska_sorter", "ra/int", E_INT, C_ARRAY, O_SORT, F | F_TOLERANT, call<ska_sorter, int, RA, NoProj>);
        add("ska_sorter", "ra/elem/proj", E_ELEM, C_ARRAY, O_SORT, F | F_TOLERANT | F_PROJ, call<ska_sorter, Elem, RA, SimProj>);
        add("ska_sorter", "ra/pod/proj", E_POD, C_ARRAY, O_SORT, F | F_TOLERANT | F_PROJ, call<ska_sorter, Pod, RA, SimProj>);
        add("ska_sorter", "ra/string", E_STRING, C_ARRAY, O_SORT, F | F_TOLERANT, call<ska_sorter, std::string, RA, NoProj>);
        add("spread_sorter", "ra/int", E_INT, C_ARRAY, O_SORT, F | F_BIG, call<spread_sorter, int, RA, NoProj>);
        add("spread_sorter", "ra/elem/proj", E_ELEM, C_ARRAY, O_SORT, F | F_BIG | F_PROJ, call<spread_sorter, Elem, RA, SimProj>);
        add("spread_sorter", "ra/pod/proj", E_POD, C_ARRAY, O_SORT, F | F_BIG | F_PROJ, call<spread_sorter, Pod, RA, SimProj>);
        add("spread_sorter", "ra/string", E_STRING, C_ARRAY, O_SORT, F | F_BIG, call<spread_sorter, std::string, RA, NoProj>);
        return 0;
    }
    const int reg = go();
}
