#include "metrics.h"
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/sorters/tim_sorter.h>
namespace
{
    int go()
    {
        m<merge_sorter, FW>("merge", "fw", F_STABLE | F_TOLERANT);
        m<quick_sorter, BI>("quick", "bi", F_TOLERANT);
        m<tim_sorter, RA>("tim", "ra", F_STABLE);
        return 0;
    }
    const int reg = go();
}
