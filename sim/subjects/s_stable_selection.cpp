#include "../subjects.h"
#include <cpp-sort/sorters/selection_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<stable_adapter<selection_sorter>>("stable<selection>", sim::F_STABLE|sim::F_QUADRATIC|sim::F_ADAPTER), 0);
