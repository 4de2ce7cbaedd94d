#include "../subjects.h"
#include <cpp-sort/sorters/quick_merge_sorter.h>
#include <cpp-sort/adapters/self_sort_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<self_sort_adapter<quick_merge_sorter>>("self_sort<quick_merge>", sim::F_TOLERANT|sim::F_NLOGN|sim::F_ADAPTER), 0);
