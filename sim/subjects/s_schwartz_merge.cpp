#include "../subjects.h"
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw_p<schwartz_adapter<merge_sorter>>("schwartz<merge>", sim::F_STABLE|sim::F_ONEPROJ|sim::F_NLOG2N|sim::F_ADAPTER), 0);
