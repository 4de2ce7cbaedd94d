// type-specific sorters over every kind of key they document
#include "../subjects.h"
#include <cpp-sort/sorters/counting_sorter.h>
#include <cpp-sort/sorters/ska_sorter.h>
#include <cpp-sort/sorters/spread_sorter.h>
using namespace cppsort;
using namespace sim;
namespace
{
    template<typename Sorter, typename T, typename Cat>
    std::int64_t plain(void* lo, void* hi)
    {
        const Sorter& s = shared_sorter<Sorter>();
        Range<T> r{static_cast<T*>(lo), static_cast<T*>(hi)};
        SimIter<T, Cat> f(r.lo, &r), l(r.hi, &r);
        Lib _;
        s(SimRange<SimIter<T, Cat>>{f, l});
        return 0;
    }
    template<typename Sorter, typename T, typename Cat>
    std::int64_t both_ways(void* lo, void* hi)
    {
        const Sorter& s = shared_sorter<Sorter>();
        Range<T> r{static_cast<T*>(lo), static_cast<T*>(hi)};
        SimIter<T, Cat> f(r.lo, &r), l(r.hi, &r);
        Lib _;
        if (g->reverse) s(f, l, std::greater<>{}); else s(f, l);
        return 0;
    }
    constexpr std::uint32_t F = F_ORDERED | F_INTONLY;

    int go()
    {
        add("counting_sorter", "ra/int/both", E_INT, C_ARRAY, O_SORT, F, both_ways<counting_sorter, int, RA>);
        add("counting_sorter", "bi/short/both", E_SHORT, C_ARRAY, O_SORT, F, both_ways<counting_sorter, short, BI>);
        add("counting_sorter", "fw/uchar/both", E_UCHAR, C_ARRAY, O_SORT, F, both_ways<counting_sorter, unsigned char, FW>);
        const std::uint32_t K = F | F_NOREVERSE | F_TOLERANT, S = F | F_NOREVERSE | F_BIG;
        add("ska_sorter", "ra/uint", E_UINT, C_ARRAY, O_SORT, K, plain<ska_sorter, unsigned, RA>);
        add("ska_sorter", "ra/llong", E_LLONG, C_ARRAY, O_SORT, K, plain<ska_sorter, long long, RA>);
        add("ska_sorter", "ra/ullong", E_ULLONG, C_ARRAY, O_SORT, K, plain<ska_sorter, unsigned long long, RA>);
        add("ska_sorter", "ra/short", E_SHORT, C_ARRAY, O_SORT, K, plain<ska_sorter, short, RA>);
        add("ska_sorter", "ra/uchar", E_UCHAR, C_ARRAY, O_SORT, K, plain<ska_sorter, unsigned char, RA>);
        add("ska_sorter", "ra/float", E_FLOAT, C_ARRAY, O_SORT, K, plain<ska_sorter, float, RA>);
        add("ska_sorter", "ra/double", E_DOUBLE, C_ARRAY, O_SORT, K, plain<ska_sorter, double, RA>);
        add("spread_sorter", "ra/uint", E_UINT, C_ARRAY, O_SORT, S, plain<spread_sorter, unsigned, RA>);
        add("spread_sorter", "ra/llong", E_LLONG, C_ARRAY, O_SORT, S, plain<spread_sorter, long long, RA>);
        add("spread_sorter", "ra/ullong", E_ULLONG, C_ARRAY, O_SORT, S, plain<spread_sorter, unsigned long long, RA>);
        add("spread_sorter", "ra/short", E_SHORT, C_ARRAY, O_SORT, S, plain<spread_sorter, short, RA>);
        add("spread_sorter", "ra/float", E_FLOAT, C_ARRAY, O_SORT, S, plain<spread_sorter, float, RA>);
        add("spread_sorter", "ra/double", E_DOUBLE, C_ARRAY, O_SORT, S, plain<spread_sorter, double, RA>);
        add("spread_sorter", "ra/string/both", E_STRING, C_ARRAY, O_SORT, F | F_BIG, both_ways<string_spread_sorter, std::string, RA>);
        return 0;
    }
    const int reg = go();
}
