#include "../subjects.h"
#include <cpp-sort/sorters/std_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<stable_adapter<std_sorter>>("stable_adapter<std_sorter>", sim::F_STABLE|sim::F_TOLERANT|sim::F_NLOG2N), 0);
