#include "../subjects.h"
#include <cpp-sort/sorters/pdq_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<pdq_sorter>("pdq_sorter", sim::F_TOLERANT|sim::F_NLOGN), 0);
