#include "../subjects.h"
#include <cpp-sort/sorters/quick_merge_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<stable_adapter<quick_merge_sorter>>("stable<quick_merge>", sim::F_STABLE|sim::F_NLOGN|sim::F_ADAPTER), 0);
