#include "../subjects.h"
#include <cpp-sort/sorters/drop_merge_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_bi<stable_adapter<drop_merge_sorter>>("stable<drop_merge>", sim::F_STABLE|sim::F_NLOGN|sim::F_ADAPTER), 0);
