#include "../subjects.h"
#include <cpp-sort/sorters/tim_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<tim_sorter>("tim_sorter", sim::F_STABLE|sim::F_NLOGN), 0);
