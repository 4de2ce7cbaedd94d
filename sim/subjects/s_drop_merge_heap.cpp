#include "../subjects.h"
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/adapters/drop_merge_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_bi<drop_merge_adapter<heap_sorter>>("drop_merge<heap>", sim::F_NLOGN|sim::F_ADAPTER), 0);
