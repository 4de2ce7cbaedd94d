#include "../subjects.h"
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/adapters/verge_adapter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<stable_adapter<verge_adapter<heap_sorter>>>("stable<verge_adapter<heap>>", sim::F_STABLE|sim::F_NLOG2N|sim::F_ADAPTER), 0);
