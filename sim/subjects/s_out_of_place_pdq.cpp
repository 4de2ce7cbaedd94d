#include "../subjects.h"
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/adapters/out_of_place_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<out_of_place_adapter<pdq_sorter>>("out_of_place<pdq>", sim::F_NLOGN|sim::F_ADAPTER), 0);
