// function objects with state: they must not be called once moved from or destroyed
#ifndef SIM_CALLBACKS_H_
#define SIM_CALLBACKS_H_
#include "../subjects.h"
namespace
{
    using namespace cppsort;
    using namespace sim;
    template<typename S, typename Cat>
    void st(const char* f, const char* cat, std::uint32_t fl, bool plain = true)
    {
        fl |= F_ORDERED;
        if (plain) add(f, std::string(cat) + "/elem/state", E_ELEM, C_ARRAY, O_SORT, fl, CallSort<S, Elem, Cat, SimLessState, NoProj, true>::call);
        add(f, std::string(cat) + "/elem/proj/state", E_ELEM, C_ARRAY, O_SORT, fl | F_PROJ, CallSort<S, Elem, Cat, SimLessState, SimProjState, false>::call);
    }
}
#endif
