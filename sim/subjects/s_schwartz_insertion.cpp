#include "../subjects.h"
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_bi_p<schwartz_adapter<insertion_sorter>>("schwartz<insertion>", sim::F_STABLE|sim::F_QUADRATIC|sim::F_ONEPROJ|sim::F_ADAPTER), 0);
