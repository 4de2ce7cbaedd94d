// sorting networks: the same compare-exchanges on every input
#pragma GCC optimize ("O0")     // hundreds of inlined compare-exchanges take minutes to optimise
#include "fixed.h"
namespace
{
    template<int... I> void all(std::integer_sequence<int, I...>) { (net<sorting_network_sorter<I + 53>, I + 53, documented(I + 53), H_SORT>("sorting_network"), ...); }
    int go() { all(std::make_integer_sequence<int, 12>{}); return 0; }
    const int reg = go();
}
