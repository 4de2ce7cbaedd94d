#include "../subjects.h"
#include <cpp-sort/sorters/selection_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<selection_sorter>("selection_sorter", sim::F_TOLERANT|sim::F_NOALLOC|sim::F_QUADRATIC), 0);
