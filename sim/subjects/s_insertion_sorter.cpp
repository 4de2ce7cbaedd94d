#include "../subjects.h"
#include <cpp-sort/sorters/insertion_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_bi<insertion_sorter>("insertion_sorter", sim::F_STABLE|sim::F_TOLERANT|sim::F_NOALLOC|sim::F_QUADRATIC), 0);
