// elements and projected keys with a bigger alignment than what operator new gives
#ifndef SIM_ALIGN_H_
#define SIM_ALIGN_H_
#include "../subjects.h"
#include <vector>
namespace
{
    using namespace cppsort;
    using namespace sim;

    inline void check_aligned(const void* p, std::size_t a, const char* what)
    {
        const void* volatile q = p;     // the compiler may not assume the answer
        if (reinterpret_cast<std::uintptr_t>(static_cast<const void*>(q)) % a) report(V_MISALIGNED, "%s lies at an address that is not a multiple of %zu", what, a);
    }
    template<std::size_t A>
    struct alignas(A) Wide: Elem
    {
        Wide() { check_aligned(this, A, "an element"); }
        Wide(Elem& e, int): Elem(std::move(e)) { check_aligned(this, A, "an element"); }
        Wide(Wide&& o): Elem(static_cast<Elem&&>(o)) { check_aligned(this, A, "an element"); }
        Wide& operator=(Wide&& o) { check_aligned(this, A, "an element"); Elem::operator=(static_cast<Elem&&>(o)); return *this; }
        ~Wide() { check_aligned(this, A, "an element"); }
        friend void swap(Wide& a, Wide& b) { swap(static_cast<Elem&>(a), static_cast<Elem&>(b)); }
    };
    template<std::size_t A>
    struct alignas(A) WideKey
    {
        int key, id;
        WideKey(int k, int i): key(k), id(i) { check_aligned(this, A, "a projected key"); }
        WideKey(const WideKey& o): key(o.key), id(o.id) { check_aligned(this, A, "a projected key"); check_aligned(&o, A, "a projected key"); }
        WideKey& operator=(const WideKey& o) { check_aligned(this, A, "a projected key"); key = o.key; id = o.id; return *this; }
        ~WideKey() { check_aligned(this, A, "a projected key"); }
    };
    struct WideProj { template<typename E> WideKey<64> operator()(const E& e) const { return {SimProj{}(e), e.id}; } };
    struct WideLess
    {
        bool operator()(const Elem& a, const Elem& b) const { return SimLess{}(a, b); }
        template<std::size_t A>
        bool operator()(const WideKey<A>& a, const WideKey<A>& b) const { check_aligned(&a, A, "a projected key"); check_aligned(&b, A, "a projected key"); return SimLess{}(a.key, b.key); }
    };
    // the elements of the collection, in elements of another type, and back again when all is over
    template<typename W>
    struct Widened
    {
        Elem *lo, *hi;
        std::vector<W> v;
        Widened(void* l, void* h): lo(static_cast<Elem*>(l)), hi(static_cast<Elem*>(h))
        {
            v.reserve((std::size_t)(hi - lo));
            for (Elem* e = lo; e != hi; ++e) v.emplace_back(*e, 0);
        }
        ~Widened() { for (std::size_t i = 0; i < v.size(); ++i) if (v[i].alive()) lo[i].take(v[i]); }
    };
    template<typename Sorter, typename W, typename Cat, typename Less, typename Proj, bool Iterable>
    std::int64_t widened(void* lo, void* hi)
    {
        Widened<W> w(lo, hi);
        return CallSort<Sorter, W, Cat, Less, Proj, Iterable>::call(w.v.data(), w.v.data() + w.v.size());
    }
    template<typename S, typename Cat>
    void al(const char* f, const char* cat, std::uint32_t fl, bool proj = false)
    {
        fl |= F_ORDERED | F_ALIGN;
        std::string family = std::string("aligned<") + f + ">";
        if (!proj) add(family, std::string(cat) + "/wide", E_ELEM, C_ARRAY, O_SORT, fl, widened<S, Wide<64>, Cat, WideLess, NoProj, false>);
        else {
            add(family, std::string(cat) + "/elem/widekey", E_ELEM, C_ARRAY, O_SORT, fl | F_PROJ, CallSort<S, Elem, Cat, WideLess, WideProj, true>::call);
            add(family, std::string(cat) + "/wide/proj", E_ELEM, C_ARRAY, O_SORT, fl | F_PROJ, widened<S, Wide<32>, Cat, SimLess, SimProj, true>);
        }
    }
    template<typename S> void al_ra(const char* f, std::uint32_t fl) { al<S, RA>(f, "ra", fl); }
    template<typename S> void al_bi(const char* f, std::uint32_t fl) { al_ra<S>(f, fl); al<S, BI>(f, "bi", fl); }
    template<typename S> void al_fw(const char* f, std::uint32_t fl) { al_bi<S>(f, fl); al<S, FW>(f, "fw", fl); }
}
#endif
