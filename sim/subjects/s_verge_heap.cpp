#include "../subjects.h"
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/adapters/verge_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<verge_adapter<heap_sorter>>("verge<heap>", sim::F_NLOG2N|sim::F_ADAPTER), 0);
