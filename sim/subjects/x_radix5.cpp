#include "radix.h"
namespace
{
    int go()
    {
        one<spread_sorter, char>("radix::spread", "char");
        one<spread_sorter, wchar_t>("radix::spread", "wchar");
        one<spread_sorter, char16_t>("radix::spread", "char16");
        one<spread_sorter, long long>("radix::spread", "llong");
        one<spread_sorter, unsigned long long>("radix::spread", "ullong");
        rev<spread_sorter, std::string>("radix::spread", "string");
        rev<string_spread_sorter, std::string>("radix::string_spread", "string");
        narrow<counting_sorter, char>("radix::counting", "char");
        narrow<counting_sorter, int>("radix::counting", "int");
        narrow<counting_sorter, long>("radix::counting", "long");
        narrow<counting_sorter, unsigned long>("radix::counting", "ulong");
        narrow<counting_sorter, signed char>("radix::counting", "schar");
        narrow<counting_sorter, unsigned short>("radix::counting", "ushort");
        narrow<counting_sorter, __int128>("radix::counting", "int128");
        ends<counting_sorter, int>("radix::counting", "int");
        ends<counting_sorter, unsigned>("radix::counting", "uint");
        ends<counting_sorter, long>("radix::counting", "long");
        ends<counting_sorter, unsigned long>("radix::counting", "ulong");
        ends<counting_sorter, short>("radix::counting", "short");
        ends<counting_sorter, __int128>("radix::counting", "int128");
        ends<counting_sorter, char>("radix::counting", "char");
        return 0;
    }
    const int reg = go();
}
