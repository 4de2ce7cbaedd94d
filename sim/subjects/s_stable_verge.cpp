#include "../subjects.h"
#include <cpp-sort/sorters/verge_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_bi<stable_adapter<verge_sorter>>("stable<verge>", sim::F_STABLE|sim::F_NLOG2N|sim::F_ADAPTER), 0);
