#include "../subjects.h"
#include <cpp-sort/sorters/smooth_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<stable_adapter<smooth_sorter>>("stable<smooth>", sim::F_STABLE|sim::F_NLOGN|sim::F_ADAPTER), 0);
