#include "../subjects.h"
#include <cpp-sort/sorters/cartesian_tree_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<stable_adapter<cartesian_tree_sorter>>("stable<cartesian_tree>", sim::F_STABLE|sim::F_NLOGN|sim::F_ADAPTER), 0);
