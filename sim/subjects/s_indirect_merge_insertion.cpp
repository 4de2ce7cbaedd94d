#include "../subjects.h"
#include <cpp-sort/sorters/merge_insertion_sorter.h>
#include <cpp-sort/adapters/indirect_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<indirect_adapter<merge_insertion_sorter>>("indirect<merge_insertion>", sim::F_INDIRECT|sim::F_NLOGN|sim::F_ADAPTER), 0);
