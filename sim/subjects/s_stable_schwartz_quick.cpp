#include "../subjects.h"
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw_p<stable_adapter<schwartz_adapter<quick_sorter>>>("stable<schwartz<quick>>", sim::F_STABLE|sim::F_NLOGN|sim::F_ADAPTER), 0);
