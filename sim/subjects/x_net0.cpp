// sorting networks: the same compare-exchanges on every input
#pragma GCC optimize ("O0")     // hundreds of inlined compare-exchanges take minutes to optimise
#include "fixed.h"
namespace
{
    template<int... I> void all(std::integer_sequence<int, I...>) { (net<sorting_network_sorter<I + 1>, I + 1, documented(I + 1), H_SORT>("sorting_network", I < 3), ...); }
    int go() { all(std::make_integer_sequence<int, 27>{}); return 0; }
    const int reg = go();
}
