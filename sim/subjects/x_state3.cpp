#include "callbacks.h"
#include <list>
#include <forward_list>
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cpp-sort/adapters/counting_adapter.h>
#include <cpp-sort/adapters/drop_merge_adapter.h>
#include <cpp-sort/adapters/hybrid_adapter.h>
#include <cpp-sort/adapters/indirect_adapter.h>
#include <cpp-sort/adapters/out_of_place_adapter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
#include <cpp-sort/adapters/split_adapter.h>
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/adapters/verge_adapter.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/mel_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/quick_sorter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
template<typename S, typename L, typename Proj>
static std::int64_t lcall(void* c, void*)
{
    const S& s = shared_sorter<S>();
    L& list = *static_cast<L*>(c);
    Lib _;
    if constexpr (std::is_same_v<Proj, NoProj>) s(list, SimLessState{}); else s(list, SimLessState{}, Proj{});
    return 0;
}
template<typename S>
static void l(const char* f, std::uint32_t fl)
{
    fl |= F_ORDERED | F_LINKS;
    add(f, "list/elem/state", E_ELEM, C_LIST, O_SORT, fl, lcall<container_aware_adapter<S>, List, NoProj>);
    add(f, "list/elem/proj/state", E_ELEM, C_LIST, O_SORT, fl | F_PROJ, lcall<container_aware_adapter<S>, List, SimProjState>);
    add(f, "flist/elem/state", E_ELEM, C_FLIST, O_SORT, fl, lcall<container_aware_adapter<S>, FList, NoProj>);
    add(f, "flist/elem/proj/state", E_ELEM, C_FLIST, O_SORT, fl | F_PROJ, lcall<container_aware_adapter<S>, FList, SimProjState>);
}
static const int reg = (
    st<counting_adapter<pdq_sorter>, RA>("counting<pdq>", "ra", F_TOLERANT),
    st<drop_merge_adapter<heap_sorter>, RA>("drop_merge<heap>", "ra", 0),
    st<hybrid_adapter<quick_sorter, heap_sorter>, RA>("hybrid<quick,heap>", "ra", F_TOLERANT),
    st<indirect_adapter<heap_sorter>, BI>("indirect<heap>", "bi", F_INDIRECT),
    st<out_of_place_adapter<pdq_sorter>, FW>("out_of_place<pdq>", "fw", 0),
    st<schwartz_adapter<merge_sorter>, FW>("schwartz<merge>", "fw", F_STABLE, false),
    st<split_adapter<pdq_sorter>, RA>("split<pdq>", "ra", F_TOLERANT),
    st<stable_adapter<quick_sorter>, FW>("stable<quick>", "fw", F_STABLE),
    st<stable_adapter<pdq_sorter>, RA>("stable<pdq>", "ra", F_STABLE),
    st<verge_adapter<heap_sorter>, RA>("verge<heap>", "ra", 0),
    l<insertion_sorter>("list<insertion>", F_STABLE | F_TOLERANT | F_QUADRATIC),
    l<selection_sorter>("list<selection>", F_STABLE | F_TOLERANT | F_QUADRATIC),
    l<merge_sorter>("list<merge>", F_STABLE | F_TOLERANT),
    l<mel_sorter>("list<mel>", 0),
    0);
