#include "../subjects.h"
#include <cpp-sort/sorters/smooth_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<smooth_sorter>("smooth_sorter", sim::F_TOLERANT|sim::F_NOALLOC|sim::F_NLOGN), 0);
