#include "../subjects.h"
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw_p<schwartz_adapter<quick_sorter>>("schwartz<quick>", sim::F_ONEPROJ|sim::F_NLOGN|sim::F_ADAPTER), 0);
