#include "../subjects.h"
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/adapters/container_aware_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<container_aware_adapter<merge_sorter>>("container_aware<merge>", sim::F_STABLE|sim::F_TOLERANT|sim::F_NLOG2N|sim::F_ADAPTER), 0);
