#include "../subjects.h"
#include <cpp-sort/sorters/mel_sorter.h>
using namespace cppsort;
static const int reg = (sim::add_fw<mel_sorter>("mel_sorter", sim::F_NLOGN), 0);
