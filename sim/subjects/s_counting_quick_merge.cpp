#include "../subjects.h"
#include <cpp-sort/sorters/quick_merge_sorter.h>
#include <cpp-sort/adapters/counting_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<counting_adapter<quick_merge_sorter>>("counting<quick_merge>", sim::F_TOLERANT|sim::F_NLOGN|sim::F_ADAPTER), 0);
