#include "../subjects.h"
#include <cpp-sort/sorters/tim_sorter.h>
#include <cpp-sort/adapters/split_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<split_adapter<tim_sorter>>("split<tim>", sim::F_NLOG2N|sim::F_ADAPTER), 0);
