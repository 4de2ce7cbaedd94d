// sorting networks: the same compare-exchanges on every input
#pragma GCC optimize ("O0")     // hundreds of inlined compare-exchanges take minutes to optimise
#include "fixed.h"
namespace
{
    template<int... I> void all(std::integer_sequence<int, I...>) { (net<sorting_network_sorter<I + 28>, I + 28, documented(I + 28), H_SORT>("sorting_network"), ...); }
    int go() { all(std::make_integer_sequence<int, 13>{}); return 0; }
    const int reg = go();
}
