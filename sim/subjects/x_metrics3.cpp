#include "metrics.h"
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/quick_merge_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
namespace
{
    int go()
    {
        m<merge_sorter, RA>("merge", "ra", F_STABLE | F_TOLERANT);
        m<quick_merge_sorter, FW>("quick_merge", "fw", F_TOLERANT);
        m<stable_adapter<heap_sorter>, RA>("stable<heap>", "ra", F_STABLE);
        mm<merge_sorter, FW>("merge", "fw", F_STABLE | F_TOLERANT);
        return 0;
    }
    const int reg = go();
}
