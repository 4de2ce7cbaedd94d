#include "../subjects.h"
#include <cpp-sort/sorters/tim_sorter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_ra_p<schwartz_adapter<tim_sorter>>("schwartz<tim>", sim::F_STABLE|sim::F_ONEPROJ|sim::F_NLOGN|sim::F_ADAPTER), 0);
