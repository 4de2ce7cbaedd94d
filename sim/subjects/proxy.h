// Iterators whose reference type is a proxy: elements may only be moved through the
// iter_move and iter_swap functions that come with them.
#include "../subjects.h"
namespace sim
{
    // the element type as the library sees it through proxies: same layout as Elem
    struct PRef;
    struct PElem: Elem
    {
        PElem() = default;
        PElem(Elem&& e): Elem(std::move(e)) {}
        PElem(PElem&& e): Elem(static_cast<Elem&&>(e)) {}
        PElem& operator=(PElem&& e) { Elem::operator=(static_cast<Elem&&>(e)); return *this; }
        // what a library that knows nothing about proxies would end up calling
        PElem(const PRef& r);
        friend void swap(PElem& a, PElem& b) { swap(static_cast<Elem&>(a), static_cast<Elem&>(b)); }
    };
    static_assert(sizeof(PElem) == sizeof(Elem), "");

    struct PRef
    {
        PElem* p; const void* self;
        explicit PRef(PElem* p): p(p), self(this) {}
        PRef(const PRef& o): p(o.p), self(this) { o.chk(); }
        ~PRef() { *const_cast<const void* volatile*>(&self) = nullptr; }
        void chk() const
        {
            const void* volatile const* q = const_cast<const void* volatile const*>(&self);
            if (*q != this) { report(V_READ_DEAD, "a proxy reference was used after its destruction"); g->cap = ~0ull >> 8; throw SimAbort{V_READ_DEAD}; }
        }
        operator const PElem&() const { chk(); return *p; }
        operator const Elem&() const { chk(); return *p; }
        const PRef& operator=(PElem&& e) const { chk(); *p = std::move(e); return *this; }
        // what a library that knows nothing about proxies would end up calling
        const PRef& operator=(const PRef& o) const { chk(); o.chk(); report(V_PROXY, "an element was moved around iter_move"); *p = std::move(*o.p); return *this; }
        PRef& operator=(const PRef& o) { const_cast<const PRef&>(*this) = o; return *this; }
        friend void swap(PRef a, PRef b) { a.chk(); b.chk(); report(V_PROXY, "elements were swapped around iter_swap"); swap(*a.p, *b.p); }
    };

    inline PElem::PElem(const PRef& r): Elem(std::move(static_cast<Elem&>(*r.p)))
    {
        r.chk(); report(V_PROXY, "an element was moved around iter_move");
    }

    template<typename Cat>
    struct PIter
    {
        using iterator_category = Cat;
        using value_type = PElem;
        using difference_type = std::ptrdiff_t;
        using pointer = void;
        using reference = PRef;
        using B = SimIter<PElem, Cat>;
        B b;
        PIter() = default;
        explicit PIter(B b): b(b) {}
        PRef operator*() const { return PRef(&*b); }
        PRef operator[](std::ptrdiff_t n) const { return PRef(&b[n]); }
        PIter& operator++() { ++b; return *this; }
        PIter operator++(int) { PIter t = *this; ++b; return t; }
        PIter& operator--() { --b; return *this; }
        PIter operator--(int) { PIter t = *this; --b; return t; }
        PIter& operator+=(std::ptrdiff_t n) { b += n; return *this; }
        PIter& operator-=(std::ptrdiff_t n) { b -= n; return *this; }
        friend PIter operator+(PIter i, std::ptrdiff_t n) { i.b += n; return i; }
        friend PIter operator+(std::ptrdiff_t n, PIter i) { i.b += n; return i; }
        friend PIter operator-(PIter i, std::ptrdiff_t n) { i.b -= n; return i; }
        friend std::ptrdiff_t operator-(const PIter& x, const PIter& y) { return x.b - y.b; }
        friend bool operator==(const PIter& x, const PIter& y) { return x.b == y.b; }
        friend bool operator!=(const PIter& x, const PIter& y) { return x.b != y.b; }
        friend bool operator<(const PIter& x, const PIter& y) { return x.b < y.b; }
        friend bool operator>(const PIter& x, const PIter& y) { return x.b > y.b; }
        friend bool operator<=(const PIter& x, const PIter& y) { return x.b <= y.b; }
        friend bool operator>=(const PIter& x, const PIter& y) { return x.b >= y.b; }
        friend PElem&& iter_move(const PIter& i) { return std::move(*i.b); }
        friend void iter_swap(const PIter& x, const PIter& y) { swap(*x.b, *y.b); }
    };

    template<typename S, typename Cat, typename Proj, bool Iterable>
    std::int64_t pcall(void* lo, void* hi)
    {
        const S& s = shared_sorter<S>();
        Range<PElem> r{static_cast<PElem*>(lo), static_cast<PElem*>(hi)};
        PIter<Cat> f(SimIter<PElem, Cat>(r.lo, &r)), l(SimIter<PElem, Cat>(r.hi, &r));
        Lib _;
        if constexpr (Iterable) {
            SimRange<PIter<Cat>> rg{f, l};
            if constexpr (std::is_same_v<Proj, NoProj>) s(rg, SimLess{}); else s(rg, SimLess{}, Proj{});
        } else {
            if constexpr (std::is_same_v<Proj, NoProj>) s(f, l, SimLess{}); else s(f, l, SimLess{}, Proj{});
        }
        return 0;
    }
    template<typename S, typename Cat>
    int px(const char* family, const char* cat, std::uint32_t fl, bool both = true)
    {
        fl |= F_ORDERED | F_PROXY;
        if (both) add(family, std::string(cat) + "/elem/proxy", E_ELEM, C_ARRAY, O_SORT, fl, pcall<S, Cat, NoProj, true>);
        add(family, std::string(cat) + "/elem/proj/proxy", E_ELEM, C_ARRAY, O_SORT, fl | F_PROJ, pcall<S, Cat, SimProj, false>);
        return 0;
    }
}
