#include "proxy.h"
#include <cpp-sort/adapters/counting_adapter.h>
#include <cpp-sort/adapters/drop_merge_adapter.h>
#include <cpp-sort/adapters/hybrid_adapter.h>
#include <cpp-sort/adapters/indirect_adapter.h>
#include <cpp-sort/adapters/out_of_place_adapter.h>
#include <cpp-sort/adapters/self_sort_adapter.h>
#include <cpp-sort/adapters/split_adapter.h>
#include <cpp-sort/adapters/verge_adapter.h>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/sorters/quick_merge_sorter.h>
using namespace cppsort; using namespace sim;
namespace
{
    template<typename S, int N> int fx(const char* f)
    {
        const std::uint32_t fl = F_ORDERED | F_PROXY | F_TOLERANT | F_NOALLOC;
        std::string v = "ra/n" + std::to_string(N);
        add(f, v + "/elem/proxy", E_ELEM, C_ARRAY, O_SORT, fl, pcall<S, RA, NoProj, false>, -N);
        add(f, v + "/elem/proj/proxy", E_ELEM, C_ARRAY, O_SORT, fl | F_PROJ, pcall<S, RA, SimProj, false>, -N);
        return 0;
    }
    template<int... Is> int all(std::integer_sequence<int, Is...>)
    {
        return ((fx<low_comparisons_sorter<Is>, Is>("low_comparisons_sorter"), fx<low_moves_sorter<Is>, Is>("low_moves_sorter"),
                 fx<sorting_network_sorter<Is>, Is>("sorting_network_sorter")), ..., 0);
    }
}
static const int reg = (
    px<counting_adapter<pdq_sorter>, RA>("counting<pdq>", "ra", F_TOLERANT),
    px<drop_merge_adapter<heap_sorter>, RA>("drop_merge<heap>", "ra", 0),
    px<hybrid_adapter<quick_sorter, heap_sorter>, FW>("hybrid<quick,heap>", "fw", F_TOLERANT),
    px<hybrid_adapter<quick_sorter, heap_sorter>, RA>("hybrid<quick,heap>", "ra", F_TOLERANT),
    px<indirect_adapter<quick_sorter>, FW>("indirect<quick>", "fw", F_INDIRECT),
    px<indirect_adapter<pdq_sorter>, RA>("indirect<pdq>", "ra", F_INDIRECT),
    px<out_of_place_adapter<pdq_sorter>, FW>("out_of_place<pdq>", "fw", 0),
    px<out_of_place_adapter<merge_sorter>, BI>("out_of_place<merge>", "bi", F_STABLE),
    px<self_sort_adapter<quick_merge_sorter>, FW>("self_sort<quick_merge>", "fw", F_TOLERANT),
    px<split_adapter<quick_merge_sorter>, BI>("split<quick_merge>", "bi", F_TOLERANT),
    px<split_adapter<pdq_sorter>, RA>("split<pdq>", "ra", F_TOLERANT),
    px<verge_adapter<heap_sorter>, RA>("verge<heap>", "ra", 0),
    px<verge_adapter<quick_merge_sorter>, BI>("verge<quick_merge>", "bi", 0),
    all(std::integer_sequence<int, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13>{}),
    0);
