#include "../subjects.h"
#include <cpp-sort/sorters/merge_insertion_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<stable_adapter<merge_insertion_sorter>>("stable<merge_insertion>", sim::F_STABLE|sim::F_NLOGN|sim::F_ADAPTER), 0);
