#include "../subjects.h"
#include <cpp-sort/sorters/spin_sorter.h>
#include <cpp-sort/adapters/drop_merge_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_bi<drop_merge_adapter<spin_sorter>>("drop_merge<spin>", sim::F_NLOGN|sim::F_ADAPTER), 0);
