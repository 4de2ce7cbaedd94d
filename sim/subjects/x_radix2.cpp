#include "radix.h"
namespace
{
    int go()
    {
        one<spread_sorter, short>("radix::spread", "short");
        one<spread_sorter, unsigned short>("radix::spread", "ushort");
        one<spread_sorter, signed char>("radix::spread", "schar");
        one<spread_sorter, int>("radix::spread", "int");
        one<spread_sorter, unsigned>("radix::spread", "uint");
        one<spread_sorter, long>("radix::spread", "long");
        one<spread_sorter, unsigned long>("radix::spread", "ulong");
        one<spread_sorter, float>("radix::spread", "float");
        one<spread_sorter, double>("radix::spread", "double");
        one<spread_sorter, std::string>("radix::spread", "string");
        one<integer_spread_sorter, long>("radix::integer_spread", "long");
        one<float_spread_sorter, double>("radix::float_spread", "double");
        one<string_spread_sorter, std::string>("radix::string_spread", "string");
        return 0;
    }
    const int reg = go();
}
