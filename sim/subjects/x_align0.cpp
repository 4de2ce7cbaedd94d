#include "align.h"
#include <cpp-sort/adapters/drop_merge_adapter.h>
#include <cpp-sort/sorters.h>
#include <cpp-sort/utility/buffer.h>
namespace
{
    int go()
    {
        al_ra<adaptive_shivers_sorter>("adaptive_shivers_sorter", F_STABLE);
        al_fw<cartesian_tree_sorter>("cartesian_tree_sorter", 0);
        al_bi<drop_merge_sorter>("drop_merge_sorter", 0);
        al_ra<grail_sorter<utility::dynamic_buffer<utility::half>>>("grail_sorter<half>", F_STABLE | F_BUFFERED);
        al_ra<grail_sorter<utility::fixed_buffer<64>>>("grail_sorter<fixed64>", F_STABLE | F_TOLERANT | F_BUFFERED);
        al_fw<mel_sorter>("mel_sorter", 0);
        al_ra<merge_insertion_sorter>("merge_insertion_sorter", 0);
        al_fw<merge_sorter>("merge_sorter", F_STABLE | F_TOLERANT);
        al_ra<pdq_sorter>("pdq_sorter", F_TOLERANT);
        return 0;
    }
    const int reg = go();
}
