#include "../subjects.h"
#include <cpp-sort/sorters/merge_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<merge_sorter>("merge_sorter", sim::F_STABLE|sim::F_TOLERANT|sim::F_NLOG2N), 0);
