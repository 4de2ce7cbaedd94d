#include "metrics.h"
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/poplar_sorter.h>
#include <cpp-sort/sorters/spin_sorter.h>
namespace
{
    int go()
    {
        m<insertion_sorter, BI>("insertion", "bi", F_STABLE | F_TOLERANT | F_QUADRATIC);
        m<poplar_sorter, RA>("poplar", "ra", 0);
        m<spin_sorter, RA>("spin", "ra", F_STABLE);
        return 0;
    }
    const int reg = go();
}
