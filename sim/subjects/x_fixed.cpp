// fixed-size sorters
#include "../subjects.h"
#include <utility>
#include <cpp-sort/fixed_sorters.h>
using namespace cppsort;
using namespace sim;
namespace
{
    template<typename S, int N>
    void f(const char* name, std::uint32_t fl = 0)
    {
        fl |= F_TOLERANT | F_NOALLOC | F_ORDERED | F_FIXED;
        std::string v = "ra/n" + std::to_string(N);
        add(name, v + "/elem", E_ELEM, C_ARRAY, O_SORT, fl, CallSort<S, Elem, RA, SimLess, NoProj, false>::call, -N);
        add(name, v + "/elem/proj", E_ELEM, C_ARRAY, O_SORT, fl | F_PROJ, CallSort<S, Elem, RA, SimLess, SimProj, false>::call, -N);
    }
    template<int... Is> void lowc(std::integer_sequence<int, Is...>) { (f<low_comparisons_sorter<Is>, Is>("low_comparisons_sorter"), ...); }
    template<int... Is> void lowm(std::integer_sequence<int, Is...>) { (f<low_moves_sorter<Is>, Is>("low_moves_sorter"), ...); }
    template<int... Is> void net(std::integer_sequence<int, Is...>) { (f<sorting_network_sorter<Is>, Is>("sorting_network_sorter", Is <= 3 ? F_STABLE : 0), ...); }
    int go()
    {
        lowc(std::integer_sequence<int, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13>{});
        lowm(std::integer_sequence<int, 2, 3, 4, 5, 6, 9, 14>{});
        net(std::integer_sequence<int, 2, 3, 4, 5, 7, 9, 11, 13, 16, 21>{});
        f<merge_exchange_network_sorter<13>, 13>("merge_exchange_network_sorter");
        f<merge_exchange_network_sorter<32>, 32>("merge_exchange_network_sorter");
        f<odd_even_merge_network_sorter<8>, 8>("odd_even_merge_network_sorter");
        f<odd_even_merge_network_sorter<32>, 32>("odd_even_merge_network_sorter");
        return 0;
    }
    const int reg = go();
}
