#include "../subjects.h"
#include <cpp-sort/sorters/verge_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_bi<verge_sorter>("verge_sorter", sim::F_NLOG2N), 0);
