// every size of the fixed-size sorters
#pragma GCC optimize ("O0")     // hundreds of inlined compare-exchanges take minutes to optimise
#include "../subjects.h"
#include <utility>
#include <cpp-sort/fixed_sorters.h>
using namespace cppsort;
using namespace sim;
namespace
{
    template<typename S, int N>
    void f(const char* name)
    {
        add(name, "ra/n" + std::to_string(N) + "/elem", E_ELEM, C_ARRAY, O_SORT, F_TOLERANT | F_NOALLOC | F_ORDERED | F_FIXED,
            CallSort<S, Elem, RA, SimLess, NoProj, false>::call, -N);
    }
    template<int... Is> void net(std::integer_sequence<int, Is...>) { (f<sorting_network_sorter<Is>, Is>("sorting_network_sorter"), ...); }
    template<int... Is> void mex(std::integer_sequence<int, Is...>) { (f<merge_exchange_network_sorter<Is>, Is>("merge_exchange_network_sorter"), ...); }
    template<int... Is> void oem(std::integer_sequence<int, Is...>) { (f<odd_even_merge_network_sorter<Is>, Is>("odd_even_merge_network_sorter"), ...); }
    template<int... Is> void lowm(std::integer_sequence<int, Is...>) { (f<low_moves_sorter<Is>, Is>("low_moves_sorter"), ...); }
    int go()
    {
        net(std::integer_sequence<int, 6, 8, 10, 12, 14, 15, 17, 18, 19, 20, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39,
            40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64>{});
        mex(std::integer_sequence<int, 2, 3, 4, 5, 7, 10, 17, 21, 29>{});
        oem(std::integer_sequence<int, 2, 4, 16>{});
        lowm(std::integer_sequence<int, 7, 8, 10, 11, 12, 13>{});
        return 0;
    }
    const int reg = go();
}
