#include "../subjects.h"
#include <cpp-sort/sorters/slab_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_bi<slab_sorter>("slab_sorter", sim::F_NLOGN), 0);
