#include "../subjects.h"
#include <cpp-sort/sorters/heap_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<heap_sorter>("heap_sorter", sim::F_TOLERANT|sim::F_NOALLOC|sim::F_NLOGN), 0);
