#include "../subjects.h"
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/adapters/indirect_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<indirect_adapter<pdq_sorter>>("indirect<pdq>", sim::F_INDIRECT|sim::F_NLOGN|sim::F_ADAPTER), 0);
