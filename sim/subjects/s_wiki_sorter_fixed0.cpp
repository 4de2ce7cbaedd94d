#include "../subjects.h"
#include <cpp-sort/sorters/wiki_sorter.h>
#include <cpp-sort/utility/buffer.h>
using namespace cppsort;
static const int reg = (sim::add_ra<wiki_sorter<utility::fixed_buffer<0>>>("wiki_sorter<fixed0>", sim::F_STABLE|sim::F_TOLERANT|sim::F_NOALLOC|sim::F_NLOGN|sim::F_BUFFERED), 0);
