#include "proxy.h"
#include <cpp-sort/sorters/adaptive_shivers_sorter.h>
#include <cpp-sort/sorters/cartesian_tree_sorter.h>
#include <cpp-sort/sorters/d_ary_heap_sorter.h>
#include <cpp-sort/sorters/default_sorter.h>
#include <cpp-sort/sorters/drop_merge_sorter.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/mel_sorter.h>
#include <cpp-sort/sorters/merge_insertion_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/poplar_sorter.h>
using namespace cppsort; using namespace sim;
static const int reg = (
    px<adaptive_shivers_sorter, RA>("adaptive_shivers_sorter", "ra", F_STABLE),
    px<cartesian_tree_sorter, FW>("cartesian_tree_sorter", "fw", 0),
    px<d_ary_heap_sorter<3>, RA>("d_ary_heap_sorter<3>", "ra", F_TOLERANT),
    px<default_sorter, BI>("default_sorter", "bi", F_TOLERANT),
    px<drop_merge_sorter, BI>("drop_merge_sorter", "bi", 0),
    px<heap_sorter, RA>("heap_sorter", "ra", F_TOLERANT),
    px<insertion_sorter, BI>("insertion_sorter", "bi", F_TOLERANT | F_STABLE | F_QUADRATIC),
    px<mel_sorter, FW>("mel_sorter", "fw", 0),
    px<merge_insertion_sorter, RA>("merge_insertion_sorter", "ra", 0),
    px<merge_sorter, FW>("merge_sorter", "fw", F_TOLERANT | F_STABLE),
    px<merge_sorter, BI>("merge_sorter", "bi", F_TOLERANT | F_STABLE),
    px<merge_sorter, RA>("merge_sorter", "ra", F_TOLERANT | F_STABLE),
    px<pdq_sorter, RA>("pdq_sorter", "ra", F_TOLERANT),
    px<poplar_sorter, RA>("poplar_sorter", "ra", 0),
    0);
