#include "radix.h"
namespace
{
    int go()
    {
        one<ska_sorter, std::vector<std::pair<int, int>>>("radix::ska", "vector_pair");
        one<ska_sorter, std::tuple<std::string, int, std::string>>("radix::ska", "tuple_strings");
        one<ska_sorter, std::pair<std::vector<int>, std::vector<short>>>("radix::ska", "pair_vectors");
        one<ska_sorter, std::pair<std::pair<bool, char>, std::pair<long, std::string>>>("radix::ska", "pair_pairs");
        one<ska_sorter, std::array<std::string, 2>>("radix::ska", "array_string");
        one<ska_sorter, std::vector<std::array<char, 2>>>("radix::ska", "vector_array");
        one<ska_sorter, std::deque<bool>>("radix::ska", "deque_bool");
        one<ska_sorter, std::array<bool, 7>>("radix::ska", "array_bool");
        return 0;
    }
    const int reg = go();
}
