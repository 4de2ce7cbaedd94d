#include "../subjects.h"
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/adapters/split_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<split_adapter<heap_sorter>>("split<heap>", sim::F_TOLERANT|sim::F_NLOG2N|sim::F_ADAPTER), 0);
