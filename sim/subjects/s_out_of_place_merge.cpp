#include "../subjects.h"
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/adapters/out_of_place_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<out_of_place_adapter<merge_sorter>>("out_of_place<merge>", sim::F_STABLE|sim::F_NLOG2N|sim::F_ADAPTER), 0);
