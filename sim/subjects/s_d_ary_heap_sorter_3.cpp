#include "../subjects.h"
#include <cpp-sort/sorters/d_ary_heap_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<d_ary_heap_sorter<3>>("d_ary_heap_sorter<3>", sim::F_TOLERANT|sim::F_NOALLOC|sim::F_NLOGN), 0);
