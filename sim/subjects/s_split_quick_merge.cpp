#include "../subjects.h"
#include <cpp-sort/sorters/quick_merge_sorter.h>
#include <cpp-sort/adapters/split_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_bi<split_adapter<quick_merge_sorter>>("split<quick_merge>", sim::F_TOLERANT|sim::F_NLOG2N|sim::F_ADAPTER), 0);
