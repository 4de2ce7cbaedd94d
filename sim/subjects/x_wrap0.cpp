#include "x_wrap.h"
namespace
{
    int go()
    {
        wraps<heap_sorter, RA, SimLess>("wrap<heap>", "ra", F_TOLERANT | F_NOALLOC, "");
        wraps<merge_sorter, FW, SimLessState>("wrap<merge>", "fw", F_TOLERANT | F_STABLE, "/state");
        wc<smooth_sorter, RA, AsComp<SimLess>>("wrap<smooth>", "ra/elem/as_comparison", F_ORDERED | F_TOLERANT | F_NOALLOC);
        wc<insertion_sorter, BI, CAsComp<SimLess>>("wrap<insertion>", "bi/elem/as_comparison_const", F_ORDERED | F_TOLERANT | F_NOALLOC | F_STABLE);
        return 0;
    }
    const int reg = go();
}
