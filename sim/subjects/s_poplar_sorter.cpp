#include "../subjects.h"
#include <cpp-sort/sorters/poplar_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<poplar_sorter>("poplar_sorter", sim::F_NLOGN), 0);
