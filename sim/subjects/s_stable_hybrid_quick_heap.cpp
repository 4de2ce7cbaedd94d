#include "../subjects.h"
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/adapters/hybrid_adapter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<stable_adapter<hybrid_adapter<quick_sorter,heap_sorter>>>("stable<hybrid<quick,heap>>", sim::F_STABLE|sim::F_NLOGN|sim::F_ADAPTER), 0);
