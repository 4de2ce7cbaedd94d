#include "../subjects.h"
#include <cpp-sort/sorters/std_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<std_sorter>("std_sorter", sim::F_TOLERANT), 0);
