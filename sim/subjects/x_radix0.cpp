#include "radix.h"
namespace
{
    int go()
    {
        one<ska_sorter, bool>("radix::ska", "bool");
        one<ska_sorter, signed char>("radix::ska", "schar");
        one<ska_sorter, char>("radix::ska", "char");
        one<ska_sorter, unsigned short>("radix::ska", "ushort");
        one<ska_sorter, int>("radix::ska", "int");
        one<ska_sorter, unsigned long>("radix::ska", "ulong");
        one<ska_sorter, __int128>("radix::ska", "int128");
        one<ska_sorter, unsigned __int128>("radix::ska", "uint128");
        one<ska_sorter, float>("radix::ska", "float");
        one<ska_sorter, double>("radix::ska", "double");
        one<ska_sorter, std::pair<int, float>>("radix::ska", "pair");
        one<ska_sorter, std::tuple<short, bool, double>>("radix::ska", "tuple");
        one<ska_sorter, std::array<int, 3>>("radix::ska", "array");
        return 0;
    }
    const int reg = go();
}
