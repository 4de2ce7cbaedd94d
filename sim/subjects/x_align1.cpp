#include "align.h"
#include <cpp-sort/sorters.h>
#include <cpp-sort/utility/buffer.h>
namespace
{
    int go()
    {
        al_fw<quick_merge_sorter>("quick_merge_sorter", F_TOLERANT);
        al_fw<quick_sorter>("quick_sorter", F_TOLERANT);
        al_bi<slab_sorter>("slab_sorter", 0);
        al_ra<spin_sorter>("spin_sorter", F_STABLE);
        al_fw<splay_sorter>("splay_sorter", 0);
        al_ra<split_sorter>("split_sorter", F_TOLERANT);
        al_ra<tim_sorter>("tim_sorter", F_STABLE);
        al_ra<verge_sorter>("verge_sorter", 0);
        al_ra<wiki_sorter<utility::dynamic_buffer<utility::half>>>("wiki_sorter<half>", F_STABLE | F_BUFFERED);
        al_ra<wiki_sorter<utility::fixed_buffer<64>>>("wiki_sorter<fixed64>", F_STABLE | F_TOLERANT | F_BUFFERED);
        return 0;
    }
    const int reg = go();
}
