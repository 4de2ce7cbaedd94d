#include "../subjects.h"
#include <cpp-sort/sorters/split_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<split_sorter>("split_sorter", sim::F_TOLERANT|sim::F_NLOG2N), 0);
