#include "../subjects.h"
#include <cpp-sort/sorters/poplar_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<stable_adapter<poplar_sorter>>("stable<poplar>", sim::F_STABLE|sim::F_NLOGN|sim::F_ADAPTER), 0);
