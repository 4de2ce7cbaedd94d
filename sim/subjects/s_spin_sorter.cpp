#include "../subjects.h"
#include <cpp-sort/sorters/spin_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<spin_sorter>("spin_sorter", sim::F_STABLE|sim::F_NLOGN), 0);
