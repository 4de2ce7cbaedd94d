#include "../subjects.h"
#include <cpp-sort/sorters/d_ary_heap_sorter.h>
#include <cpp-sort/adapters/stable_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_ra<make_stable<d_ary_heap_sorter<4>>>("make_stable<d_ary_heap<4>>", sim::F_STABLE|sim::F_NLOGN|sim::F_ADAPTER), 0);
