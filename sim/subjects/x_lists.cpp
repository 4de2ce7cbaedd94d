// list algorithms of container_aware_adapter, and lists through the generic paths
#include "../subjects.h"
#include <forward_list>
#include <list>
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cpp-sort/adapters/self_sort_adapter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/mel_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/quick_merge_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>
using namespace cppsort;
using namespace sim;
namespace
{
    template<typename S, typename L, typename Less, typename Proj>
    std::int64_t call(void* c, void*)
    {
        const S& s = shared_sorter<S>();
        L& list = *static_cast<L*>(c);
        Lib _;
        if constexpr (std::is_same_v<Proj, NoProj>) s(list, Less{}); else s(list, Less{}, Proj{});
        return 0;
    }
    template<typename S>
    void l(const char* f, std::uint32_t fl)
    {
        fl |= F_ORDERED;
        add(f, "list/elem", E_ELEM, C_LIST, O_SORT, fl, call<S, List, SimLess, NoProj>);
        add(f, "list/elem/proj", E_ELEM, C_LIST, O_SORT, fl | F_PROJ, call<S, List, SimLess, SimProj>);
        add(f, "flist/elem", E_ELEM, C_FLIST, O_SORT, fl, call<S, FList, SimLess, NoProj>);
        add(f, "flist/elem/proj", E_ELEM, C_FLIST, O_SORT, fl | F_PROJ, call<S, FList, SimLess, SimProj>);
    }
    int go()
    {
        l<container_aware_adapter<insertion_sorter>>("list<insertion>", F_STABLE | F_TOLERANT | F_NOALLOC | F_QUADRATIC | F_LINKS);
        l<container_aware_adapter<selection_sorter>>("list<selection>", F_STABLE | F_TOLERANT | F_NOALLOC | F_QUADRATIC | F_LINKS);
        l<container_aware_adapter<merge_sorter>>("list<merge>", F_STABLE | F_TOLERANT | F_LINKS | F_NLOGN);
        l<container_aware_adapter<mel_sorter>>("list<mel>", F_LINKS | F_NLOGN);
        l<merge_sorter>("list_generic<merge>", F_STABLE | F_TOLERANT | F_NLOGN | F_NLOG2N);
        l<quick_merge_sorter>("list_generic<quick_merge>", F_TOLERANT | F_NLOGN);
        add("list<self_sort>", "list/elem", E_ELEM, C_LIST, O_SORT, F_ORDERED | F_STABLE | F_LINKS, call<self_sort_adapter<quick_merge_sorter>, List, SimLess, NoProj>);
// (not forward_list: libstdc++ loses nodes when a comparison throws in forward_list::sort)
        return 0;
    }
    const int reg = go();
}
