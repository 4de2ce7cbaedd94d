#include "../subjects.h"
#include <cpp-sort/sorters/quick_merge_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<quick_merge_sorter>("quick_merge_sorter", sim::F_TOLERANT|sim::F_NLOGN), 0);
