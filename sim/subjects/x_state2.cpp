#include "callbacks.h"
#include <cpp-sort/sorters/spin_sorter.h>
#include <cpp-sort/sorters/splay_sorter.h>
#include <cpp-sort/sorters/split_sorter.h>
#include <cpp-sort/sorters/std_sorter.h>
#include <cpp-sort/sorters/tim_sorter.h>
#include <cpp-sort/sorters/verge_sorter.h>
#include <cpp-sort/sorters/wiki_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
static const int reg = (
    st<spin_sorter, RA>("spin_sorter", "ra", F_STABLE),
    st<splay_sorter, FW>("splay_sorter", "fw", F_STABLE),
    st<split_sorter, RA>("split_sorter", "ra", F_TOLERANT),
    st<std_sorter, RA>("std_sorter", "ra", F_TOLERANT),
    st<tim_sorter, RA>("tim_sorter", "ra", F_STABLE),
    st<verge_sorter, BI>("verge_sorter", "bi", 0),
    st<verge_sorter, RA>("verge_sorter", "ra", 0),
    st<wiki_sorter<>, RA>("wiki_sorter<>", "ra", F_STABLE | F_TOLERANT | F_NOALLOC | F_BUFFERED),
    st<merge_sorter, BI>("merge_sorter", "bi", F_STABLE | F_TOLERANT),
    0);
