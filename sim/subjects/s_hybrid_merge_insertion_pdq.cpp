#include "../subjects.h"
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/adapters/hybrid_adapter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<hybrid_adapter<merge_sorter,insertion_sorter,pdq_sorter>>("hybrid<merge,insertion,pdq>", sim::F_TOLERANT|sim::F_QUADRATIC|sim::F_ADAPTER), 0);
