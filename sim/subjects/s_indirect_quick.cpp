#include "../subjects.h"
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/adapters/indirect_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<indirect_adapter<quick_sorter>>("indirect<quick>", sim::F_INDIRECT|sim::F_NLOGN|sim::F_ADAPTER), 0);
