#include "callbacks.h"
#include <cpp-sort/sorters/merge_insertion_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/poplar_sorter.h>
#include <cpp-sort/sorters/quick_merge_sorter.h>
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
#include <cpp-sort/sorters/slab_sorter.h>
#include <cpp-sort/sorters/smooth_sorter.h>
static const int reg = (
    st<merge_insertion_sorter, RA>("merge_insertion_sorter", "ra", 0),
    st<merge_sorter, FW>("merge_sorter", "fw", F_STABLE | F_TOLERANT),
    st<pdq_sorter, RA>("pdq_sorter", "ra", F_TOLERANT),
    st<poplar_sorter, RA>("poplar_sorter", "ra", 0),
    st<quick_merge_sorter, FW>("quick_merge_sorter", "fw", F_TOLERANT),
    st<quick_merge_sorter, RA>("quick_merge_sorter", "ra", F_TOLERANT),
    st<quick_sorter, BI>("quick_sorter", "bi", F_TOLERANT),
    st<selection_sorter, FW>("selection_sorter", "fw", F_TOLERANT | F_NOALLOC | F_QUADRATIC),
    st<slab_sorter, BI>("slab_sorter", "bi", 0),
    st<smooth_sorter, RA>("smooth_sorter", "ra", F_TOLERANT | F_NOALLOC),
    0);
