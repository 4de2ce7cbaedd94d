#include "radix.h"
namespace
{
    int go()
    {
        one<ska_sorter, wchar_t>("radix::ska", "wchar");
        one<ska_sorter, std::wstring>("radix::ska", "wstring");
        one<ska_sorter, char16_t>("radix::ska", "char16");
        one<ska_sorter, char32_t>("radix::ska", "char32");
        one<ska_sorter, std::vector<char>>("radix::ska", "vector_char");
        one<ska_sorter, std::vector<std::string>>("radix::ska", "vector_string");
        one<ska_sorter, std::vector<std::vector<int>>>("radix::ska", "vector_vector");
        one<ska_sorter, long>("radix::ska", "long");
        one<ska_sorter, short>("radix::ska", "short");
        one<ska_sorter, long long>("radix::ska", "llong");
        return 0;
    }
    const int reg = go();
}
