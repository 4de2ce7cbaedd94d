#include "metrics.h"
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/split_sorter.h>
namespace
{
    int go()
    {
        m<heap_sorter, RA>("heap", "ra", F_TOLERANT);
        m<pdq_sorter, RA>("pdq", "ra", F_TOLERANT);
        m<split_sorter, RA>("split", "ra", F_TOLERANT);
        mm<pdq_sorter, RA>("pdq", "ra", F_TOLERANT);
        return 0;
    }
    const int reg = go();
}
