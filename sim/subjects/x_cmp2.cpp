// total, weak and partial orders of numbers
#include "cmp.h"
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/comparators/flip.h>
#include <cpp-sort/comparators/not_fn.h>
#include <cpp-sort/comparators/partial_greater.h>
#include <cpp-sort/comparators/partial_less.h>
#include <cpp-sort/comparators/total_greater.h>
#include <cpp-sort/comparators/total_less.h>
#include <cpp-sort/comparators/weak_greater.h>
#include <cpp-sort/comparators/weak_less.h>
#include <cpp-sort/sorters/spin_sorter.h>
using namespace cppsort;
using namespace sim;
namespace
{
    template<typename S, bool St, typename C, typename O, bool Flip, typename T, bool NaN>
    void one(std::string f, const char* t, std::uint32_t fl)
    {
        fl |= F_READONLY;
        add(f, std::string(t), E_POD, C_ARRAY, O_ORDER, fl, numbers<S, T, NaN, St, C, O, Flip, false>);
        if (sizeof(T) != 1) add(f, std::string(t) + "/proj", E_POD, C_ARRAY, O_ORDER, fl | F_PROJ, numbers<S, T, NaN, St, C, O, Flip, true>);
    }
    template<typename S, bool St, typename C, typename O, bool Flip, bool NaN>
    void all(const char* c, const char* s, std::uint32_t fl)
    {
        std::string f = std::string(c) + "<" + s + ">";
        if (St) fl |= F_STABLE;
        one<S, St, C, O, Flip, float, NaN>(f, "float", fl);
        one<S, St, C, O, Flip, double, NaN>(f, "double", fl);
        one<S, St, C, O, Flip, long double, NaN>(f, "ldouble", fl);
        one<S, St, C, O, Flip, int, NaN>(f, "int", fl);
        one<S, St, C, O, Flip, unsigned char, NaN>(f, "uchar", fl);
        one<S, St, C, O, Flip, long long, NaN>(f, "llong", fl);
    }
    int go()
    {
        using S = spin_sorter; const char* s = "spin"; const std::uint32_t fl = 0;
        all<S, true, flip_t<total_less_t>, OrderTotal, true, true>("flip_total_less", s, fl);
        all<S, true, flip_t<weak_greater_t>, OrderWeak, false, true>("flip_weak_greater", s, fl);
        all<S, true, not_fn_t<not_fn_t<weak_less_t>>, OrderWeak, false, true>("not_not_weak_less", s, fl);
        all<S, true, not_fn_t<not_fn_t<flip_t<total_greater_t>>>, OrderTotal, false, true>("not_not_flip_total_greater", s, fl);
        return 0;
    }
    const int reg = go();
}
