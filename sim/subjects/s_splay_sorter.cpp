#include "../subjects.h"
#include <cpp-sort/sorters/splay_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<splay_sorter>("splay_sorter", sim::F_STABLE|sim::F_NLOGN), 0);
