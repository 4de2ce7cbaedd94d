// comparisons and moves of the sorters that economise on them
#include "fixed.h"
namespace
{
    int go()
    {
        weighed<low_comparisons_sorter<2>, 2, false, 2>("low_comparisons");
        weighed<low_comparisons_sorter<3>, 3, false, 16>("low_comparisons");
        weighed<low_comparisons_sorter<4>, 4, false, 112>("low_comparisons");
        weighed<low_comparisons_sorter<5>, 5, false, 832>("low_comparisons");
        weighed<low_comparisons_sorter<6>, 6, false, 6912>("low_comparisons");
        weighed<low_comparisons_sorter<7>, 7, false, 62784>("low_comparisons");
        weighed<low_comparisons_sorter<8>, 8, false, 623232>("low_comparisons");
        weighed<low_moves_sorter<3>, 3, true, 17>("low_moves");
        weighed<low_moves_sorter<4>, 4, true, 122>("low_moves");
        weighed<low_moves_sorter<5>, 5, true, 898>("low_moves");
        weighed<low_moves_sorter<6>, 6, true, 7188>("low_moves");
        weighed<low_moves_sorter<7>, 7, true, 63276>("low_moves");
        weighed<low_moves_sorter<8>, 8, true, 612048>("low_moves");
        return 0;
    }
    const int reg = go();
}
