#include "../subjects.h"
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<make_stable<merge_sorter>>("make_stable<merge>", sim::F_STABLE|sim::F_NLOG2N|sim::F_ADAPTER), 0);
