#include "proxy.h"
#include <cpp-sort/sorters/grail_sorter.h>
#include <cpp-sort/sorters/quick_merge_sorter.h>
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
#include <cpp-sort/sorters/slab_sorter.h>
#include <cpp-sort/sorters/smooth_sorter.h>
#include <cpp-sort/sorters/spin_sorter.h>
#include <cpp-sort/sorters/splay_sorter.h>
#include <cpp-sort/sorters/split_sorter.h>
#include <cpp-sort/sorters/tim_sorter.h>
#include <cpp-sort/sorters/verge_sorter.h>
#include <cpp-sort/sorters/wiki_sorter.h>
#include <cpp-sort/utility/buffer.h>
using namespace cppsort; using namespace sim;
static const int reg = (
    px<grail_sorter<>, RA>("grail_sorter<>", "ra", F_TOLERANT | F_STABLE | F_BUFFERED),
    px<grail_sorter<utility::dynamic_buffer<utility::sqrt>>, RA>("grail_sorter<sqrt>", "ra", F_STABLE | F_BUFFERED),
    px<quick_merge_sorter, FW>("quick_merge_sorter", "fw", F_TOLERANT),
    px<quick_merge_sorter, RA>("quick_merge_sorter", "ra", F_TOLERANT),
    px<quick_sorter, FW>("quick_sorter", "fw", F_TOLERANT),
    px<quick_sorter, BI>("quick_sorter", "bi", F_TOLERANT),
    px<selection_sorter, FW>("selection_sorter", "fw", F_TOLERANT | F_QUADRATIC),
    px<slab_sorter, BI>("slab_sorter", "bi", 0),
    px<smooth_sorter, RA>("smooth_sorter", "ra", F_TOLERANT),
    px<spin_sorter, RA>("spin_sorter", "ra", F_STABLE),
    px<splay_sorter, FW>("splay_sorter", "fw", F_STABLE),
    px<split_sorter, RA>("split_sorter", "ra", F_TOLERANT),
    px<tim_sorter, RA>("tim_sorter", "ra", F_STABLE),
    px<verge_sorter, BI>("verge_sorter", "bi", 0),
    px<verge_sorter, RA>("verge_sorter", "ra", 0),
    px<wiki_sorter<>, RA>("wiki_sorter<>", "ra", F_TOLERANT | F_STABLE | F_BUFFERED),
    px<wiki_sorter<utility::dynamic_buffer<utility::half>>, RA>("wiki_sorter<half>", "ra", F_STABLE | F_BUFFERED),
    0);
