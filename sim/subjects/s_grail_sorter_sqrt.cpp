#include "../subjects.h"
#include <cpp-sort/sorters/grail_sorter.h>
#include <cpp-sort/utility/buffer.h>
using namespace cppsort;
static const int reg = (sim::add_ra<grail_sorter<utility::dynamic_buffer<utility::sqrt>>>("grail_sorter<sqrt>", sim::F_STABLE|sim::F_NLOGN|sim::F_BUFFERED), 0);
