#include "../subjects.h"
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/adapters/indirect_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<indirect_adapter<merge_sorter>>("indirect<merge>", sim::F_STABLE|sim::F_INDIRECT|sim::F_NLOG2N|sim::F_ADAPTER), 0);
