// comparators that the library believes to be branchless select other code paths
#include "../subjects.h"
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/quick_merge_sorter.h>
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/sorters/drop_merge_sorter.h>
#include <cpp-sort/sorters/verge_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/split_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/adapters/counting_adapter.h>
using namespace cppsort;
using namespace sim;
namespace
{
    template<typename S, typename Cat>
    void b(const char* f, const char* cat, std::uint32_t fl)
    {
        add(f, std::string(cat) + "/elem/branchless", E_ELEM, C_ARRAY, O_SORT, fl | F_ORDERED, CallSort<S, Elem, Cat, SimLessBranchless, NoProj, true>::call);
        add(f, std::string(cat) + "/pod/branchless", E_POD, C_ARRAY, O_SORT, fl | F_ORDERED, CallSort<S, Pod, Cat, SimLessBranchless, NoProj, false>::call);
    }
    int go()
    {
        b<pdq_sorter, RA>("pdq_sorter", "ra", F_TOLERANT | F_NLOGN);
        b<counting_adapter<pdq_sorter>, RA>("counting<pdq>", "ra", F_TOLERANT | F_NLOGN);
        b<quick_merge_sorter, RA>("quick_merge_sorter", "ra", F_TOLERANT | F_NLOGN);
        b<quick_merge_sorter, FW>("quick_merge_sorter", "fw", F_TOLERANT | F_NLOGN);
        b<quick_sorter, BI>("quick_sorter", "bi", F_TOLERANT | F_NLOGN);
        b<quick_sorter, FW>("quick_sorter", "fw", F_TOLERANT | F_NLOGN);
        b<drop_merge_sorter, BI>("drop_merge_sorter", "bi", F_NLOGN);
        b<verge_sorter, RA>("verge_sorter", "ra", F_NLOG2N);
        b<merge_sorter, FW>("merge_sorter", "fw", F_TOLERANT | F_STABLE | F_NLOG2N);
        b<split_sorter, RA>("split_sorter", "ra", F_TOLERANT | F_NLOG2N);
        b<heap_sorter, RA>("heap_sorter", "ra", F_TOLERANT | F_NLOGN);
        return 0;
    }
    const int reg = go();
}
