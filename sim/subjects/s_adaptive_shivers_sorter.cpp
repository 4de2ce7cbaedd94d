#include "../subjects.h"
#include <cpp-sort/sorters/adaptive_shivers_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<adaptive_shivers_sorter>("adaptive_shivers_sorter", sim::F_STABLE|sim::F_NLOGN), 0);
