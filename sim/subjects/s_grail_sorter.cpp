#include "../subjects.h"
#include <cpp-sort/sorters/grail_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<grail_sorter<>>("grail_sorter<>", sim::F_STABLE|sim::F_TOLERANT|sim::F_NOALLOC|sim::F_NLOGN|sim::F_BUFFERED), 0);
