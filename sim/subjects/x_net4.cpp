// generated networks, and networks run from their index pairs
#include "fixed.h"
namespace
{
    template<int... I> void mex(std::integer_sequence<int, I...>) { (net<merge_exchange_network_sorter<I>, I, merge_exchange(I), H_SORT>("merge_exchange"), ...); }
    template<int... I> void oem(std::integer_sequence<int, I...>) { (net<odd_even_merge_network_sorter<I>, I, odd_even(I), H_SORT>("odd_even_merge"), ...); }
    template<int... I> void pairs(std::integer_sequence<int, I...>)
    {
        (net<sorting_network_sorter<I>, I, documented(I), H_PAIRS>("sorting_network", I <= 3), ...);
        (net<sorting_network_sorter<I>, I, documented(I), H_UNROLL>("sorting_network", I <= 3), ...);
    }
    int go()
    {
        mex(std::integer_sequence<int, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 23, 27, 31, 32, 33, 48, 63, 64>{});
        oem(std::integer_sequence<int, 2, 4, 8, 16, 32, 64>{});
        pairs(std::integer_sequence<int, 2, 3, 4, 5, 8, 11, 16>{});
        return 0;
    }
    const int reg = go();
}
