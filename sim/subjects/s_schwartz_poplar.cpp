#include "../subjects.h"
#include <cpp-sort/sorters/poplar_sorter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_ra_p<schwartz_adapter<poplar_sorter>>("schwartz<poplar>", sim::F_ONEPROJ|sim::F_NLOGN|sim::F_ADAPTER), 0);
