#include "../subjects.h"
#include <cpp-sort/sorters/quick_merge_sorter.h>
#include <cpp-sort/adapters/verge_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_bi<verge_adapter<quick_merge_sorter>>("verge<quick_merge>", sim::F_NLOG2N|sim::F_ADAPTER), 0);
