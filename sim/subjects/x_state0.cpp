#include "callbacks.h"
#include <cpp-sort/sorters/adaptive_shivers_sorter.h>
#include <cpp-sort/sorters/cartesian_tree_sorter.h>
#include <cpp-sort/sorters/d_ary_heap_sorter.h>
#include <cpp-sort/sorters/drop_merge_sorter.h>
#include <cpp-sort/sorters/grail_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/mel_sorter.h>
static const int reg = (
    st<adaptive_shivers_sorter, RA>("adaptive_shivers_sorter", "ra", F_STABLE),
    st<cartesian_tree_sorter, FW>("cartesian_tree_sorter", "fw", 0),
    st<d_ary_heap_sorter<5>, RA>("d_ary_heap_sorter<5>", "ra", F_TOLERANT | F_NOALLOC),
    st<drop_merge_sorter, BI>("drop_merge_sorter", "bi", 0),
    st<grail_sorter<>, RA>("grail_sorter<>", "ra", F_STABLE | F_TOLERANT | F_NOALLOC | F_BUFFERED),
    st<heap_sorter, RA>("heap_sorter", "ra", F_TOLERANT | F_NOALLOC),
    st<insertion_sorter, BI>("insertion_sorter", "bi", F_STABLE | F_TOLERANT | F_NOALLOC | F_QUADRATIC),
    st<mel_sorter, FW>("mel_sorter", "fw", 0),
    0);
