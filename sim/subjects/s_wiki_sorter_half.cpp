#include "../subjects.h"
#include <cpp-sort/sorters/wiki_sorter.h>
#include <cpp-sort/utility/buffer.h>
using namespace cppsort;
static const int reg = (sim::add_ra<wiki_sorter<utility::dynamic_buffer<utility::half>>>("wiki_sorter<half>", sim::F_STABLE|sim::F_NLOGN|sim::F_BUFFERED), 0);
