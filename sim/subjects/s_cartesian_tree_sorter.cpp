#include "../subjects.h"
#include <cpp-sort/sorters/cartesian_tree_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<cartesian_tree_sorter>("cartesian_tree_sorter", sim::F_NLOGN), 0);
