#include "../subjects.h"
#include <cpp-sort/sorters/drop_merge_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_bi<drop_merge_sorter>("drop_merge_sorter", sim::F_NLOGN), 0);
