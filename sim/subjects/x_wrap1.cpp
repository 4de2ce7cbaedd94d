#include "x_wrap.h"
namespace
{
    int go()
    {
        projs<pdq_sorter, RA, SimProj>("wrap<pdq>", "ra", F_TOLERANT | F_NOALLOC, "");
        projs<spin_sorter, RA, SimProjState>("wrap<spin>", "ra", F_STABLE, "/state");
        return 0;
    }
    const int reg = go();
}
