#include "../subjects.h"
#include <cpp-sort/sorters/split_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_bi<stable_adapter<split_sorter>>("stable<split>", sim::F_STABLE|sim::F_NLOG2N|sim::F_ADAPTER), 0);
