// plain pointers: the standard library and the sorters take other paths for them
#include "../subjects.h"
#include <cpp-sort/sorters.h>
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/adapters/indirect_adapter.h>
#include <cpp-sort/adapters/out_of_place_adapter.h>
using namespace cppsort;
using namespace sim;
namespace
{
    template<typename S, typename T, typename Proj>
    std::int64_t call(void* lo, void* hi)
    {
        const S& s = shared_sorter<S>();
        T* f = static_cast<T*>(lo); T* l = static_cast<T*>(hi);
        Lib _;
        if constexpr (std::is_same_v<Proj, NoProj>) s(f, l, SimLess{}); else s(f, l, SimLess{}, Proj{});
        return 0;
    }
    template<typename S>
    void p(const char* f, std::uint32_t fl)
    {
        fl |= F_ORDERED;
        add(f, "ptr/elem", E_ELEM, C_ARRAY, O_SORT, fl, call<S, Elem, NoProj>);
        add(f, "ptr/pod/proj", E_POD, C_ARRAY, O_SORT, fl | F_PROJ, call<S, Pod, SimProjVal>);
    }
    int go()
    {
        p<adaptive_shivers_sorter>("adaptive_shivers_sorter", F_STABLE | F_NLOGN);
        p<drop_merge_sorter>("drop_merge_sorter", F_NLOGN);
        p<grail_sorter<>>("grail_sorter<>", F_STABLE | F_TOLERANT | F_NOALLOC | F_NLOGN | F_BUFFERED);
        p<merge_sorter>("merge_sorter", F_STABLE | F_TOLERANT | F_NLOG2N);
        p<merge_insertion_sorter>("merge_insertion_sorter", 0);
        p<pdq_sorter>("pdq_sorter", F_TOLERANT | F_NLOGN);
        p<quick_merge_sorter>("quick_merge_sorter", F_TOLERANT | F_NLOGN);
        p<quick_sorter>("quick_sorter", F_TOLERANT | F_NLOGN);
        p<slab_sorter>("slab_sorter", F_NLOGN);
        p<smooth_sorter>("smooth_sorter", F_TOLERANT | F_NOALLOC | F_NLOGN);
        p<spin_sorter>("spin_sorter", F_STABLE | F_NLOGN);
        p<split_sorter>("split_sorter", F_TOLERANT | F_NLOG2N);
        p<tim_sorter>("tim_sorter", F_STABLE | F_NLOGN);
        p<verge_sorter>("verge_sorter", F_NLOG2N);
        p<wiki_sorter<>>("wiki_sorter<>", F_STABLE | F_TOLERANT | F_NOALLOC | F_NLOGN | F_BUFFERED);
        p<stable_adapter<heap_sorter>>("stable<heap>", F_STABLE | F_NLOGN | F_ADAPTER);
        p<indirect_adapter<quick_sorter>>("indirect<quick>", F_INDIRECT | F_ADAPTER);
        p<out_of_place_adapter<pdq_sorter>>("out_of_place<pdq>", F_NLOGN | F_ADAPTER);
        return 0;
    }
    const int reg = go();
}
