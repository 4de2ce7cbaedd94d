#include "../subjects.h"
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<stable_adapter<pdq_sorter>>("stable<pdq>", sim::F_STABLE|sim::F_NLOGN|sim::F_ADAPTER), 0);
