#include "../subjects.h"
#include <cpp-sort/sorters/grail_sorter.h>
#include <cpp-sort/utility/buffer.h>
using namespace cppsort;
static const int reg = (sim::add_ra<grail_sorter<utility::fixed_buffer<512>>>("grail_sorter<fixed512>", sim::F_STABLE|sim::F_TOLERANT|sim::F_NOALLOC|sim::F_NLOGN|sim::F_BUFFERED), 0);
