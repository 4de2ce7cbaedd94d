// total, weak and partial orders of numbers
#include "cmp.h"
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/comparators/flip.h>
#include <cpp-sort/comparators/not_fn.h>
#include <cpp-sort/comparators/partial_greater.h>
#include <cpp-sort/comparators/partial_less.h>
#include <cpp-sort/comparators/total_greater.h>
#include <cpp-sort/comparators/total_less.h>
#include <cpp-sort/comparators/weak_greater.h>
#include <cpp-sort/comparators/weak_less.h>
#include <cpp-sort/sorters/merge_sorter.h>
using namespace cppsort;
using namespace sim;
namespace
{
    template<typename S, bool St, typename C, typename O, bool Flip, typename T, bool NaN>
    void one(std::string f, const char* t, std::uint32_t fl)
    {
        fl |= F_READONLY;
        add(f, std::string(t), E_POD, C_ARRAY, O_ORDER, fl, numbers<S, T, NaN, St, C, O, Flip, false>);
        if (sizeof(T) != 1) add(f, std::string(t) + "/proj", E_POD, C_ARRAY, O_ORDER, fl | F_PROJ, numbers<S, T, NaN, St, C, O, Flip, true>);
    }
    template<typename S, bool St, typename C, typename O, bool Flip, bool NaN>
    void all(const char* c, const char* s, std::uint32_t fl)
    {
        std::string f = std::string(c) + "<" + s + ">";
        if (St) fl |= F_STABLE;
        one<S, St, C, O, Flip, float, NaN>(f, "float", fl);
        one<S, St, C, O, Flip, double, NaN>(f, "double", fl);
        one<S, St, C, O, Flip, long double, NaN>(f, "ldouble", fl);
        one<S, St, C, O, Flip, int, NaN>(f, "int", fl);
        one<S, St, C, O, Flip, unsigned char, NaN>(f, "uchar", fl);
        one<S, St, C, O, Flip, long long, NaN>(f, "llong", fl);
    }
    int go()
    {
        using S = merge_sorter; const char* s = "merge"; const std::uint32_t fl = F_TOLERANT;
        all<S, true, weak_greater_t, OrderWeak, true, true>("weak_greater", s, fl);
        all<S, true, partial_less_t, OrderWeak, false, false>("partial_less", s, fl);
        all<S, true, partial_greater_t, OrderWeak, true, false>("partial_greater", s, fl);
        all<S, true, weak_less_t, OrderWeak, false, true>("weak_less", s, fl);
        return 0;
    }
    const int reg = go();
}
