#include "../subjects.h"
#include <cpp-sort/sorters/merge_insertion_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<merge_insertion_sorter>("merge_insertion_sorter", sim::F_NLOGN), 0);
