#include "radix.h"
namespace
{
    int go()
    {
        one<ska_sorter, std::string>("radix::ska", "string");
        one<ska_sorter, std::u16string>("radix::ska", "u16string");
        one<ska_sorter, std::vector<int>>("radix::ska", "vector_int");
        one<ska_sorter, std::deque<unsigned char>>("radix::ska", "deque_uchar");
        one<ska_sorter, std::vector<signed char>>("radix::ska", "vector_schar");
        one<ska_sorter, std::pair<std::string, int>>("radix::ska", "pair_string");
        one<ska_sorter, std::vector<float>>("radix::ska", "vector_float");
        return 0;
    }
    const int reg = go();
}
