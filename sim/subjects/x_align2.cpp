#include "align.h"
#include <cpp-sort/adapters.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/quick_merge_sorter.h>
#include <cpp-sort/sorters/spin_sorter.h>
#include <cpp-sort/sorters/tim_sorter.h>
namespace
{
    int go()
    {
        al_bi<drop_merge_adapter<heap_sorter>>("drop_merge<heap>", F_ADAPTER);
        al_ra<indirect_adapter<pdq_sorter>>("indirect<pdq>", F_ADAPTER);
        al_fw<out_of_place_adapter<pdq_sorter>>("out_of_place<pdq>", F_ADAPTER);
        al_ra<split_adapter<pdq_sorter>>("split<pdq>", F_ADAPTER);
        al_ra<stable_adapter<pdq_sorter>>("stable<pdq>", F_STABLE | F_ADAPTER);
        al_fw<stable_adapter<quick_merge_sorter>>("stable<quick_merge>", F_STABLE | F_ADAPTER);
        al_ra<verge_adapter<heap_sorter>>("verge<heap>", F_ADAPTER);
        al<schwartz_adapter<pdq_sorter>, RA>("schwartz<pdq>", "ra", F_ADAPTER, true);
        al<schwartz_adapter<merge_sorter>, FW>("schwartz<merge>", "fw", F_ADAPTER, true);
        al<schwartz_adapter<spin_sorter>, RA>("schwartz<spin>", "ra", F_STABLE | F_ADAPTER, true);
        al<schwartz_adapter<tim_sorter>, RA>("schwartz<tim>", "ra", F_STABLE | F_ADAPTER, true);
        al<stable_adapter<schwartz_adapter<pdq_sorter>>, RA>("stable<schwartz<pdq>>", "ra", F_STABLE | F_ADAPTER, true);
        al<indirect_adapter<pdq_sorter>, RA>("indirect<pdq>", "ra", F_ADAPTER, true);
        return 0;
    }
    const int reg = go();
}
