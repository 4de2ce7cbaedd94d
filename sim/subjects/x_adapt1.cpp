// sorters written against the smallest interfaces, called in every documented way
#include "adapt.h"
#include <cpp-sort/adapters/hybrid_adapter.h>
#include <cpp-sort/adapters/indirect_adapter.h>
#include <cpp-sort/adapters/out_of_place_adapter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/sort.h>
#include <cpp-sort/stable_sort.h>
namespace
{
    constexpr int TAG = 23, RANGE = 24;
    // begins and ends like every simulated sorter
    template<bool Stable = false, typename It, typename C, typename P>
    std::int64_t body(int tag, It f, It l, C&& c, P&& p)
    {
        std::size_t n = (std::size_t)std::distance(f, l);
        sorter_used(tag, g->ad_inst, n);
        sim_sort<BY_HEAP, Stable>(f, l, utility::as_function(c), utility::as_function(p));
        return sorter_done(tag, n);
    }
    template<typename It, typename P = utility::identity, typename C = std::less<>> using OkIt = std::enable_if_t<is_projection_iterator_v<P, It, C>>;
    template<typename R, typename P = utility::identity, typename C = std::less<>> using OkR = std::enable_if_t<is_projection_v<P, R, C>>;
    struct Cat { using iterator_category = FW; using is_always_stable = std::false_type; };

    // pairs of iterators: neither comparison nor projection, comparison, projection, both
    struct plain_impl: Cat { template<typename It> std::int64_t operator()(It f, It l) const { return body(TAG, f, l, std::less<>{}, utility::identity{}); } };
    struct compare_impl: Cat { template<typename It, typename C = std::less<>, typename = OkIt<It, utility::identity, C>> std::int64_t operator()(It f, It l, C c = {}) const { return body(TAG, f, l, c, utility::identity{}); } };
    struct project_impl: Cat { template<typename It, typename P = utility::identity, typename = OkIt<It, P>> std::int64_t operator()(It f, It l, P p = {}) const { return body(TAG, f, l, std::less<>{}, p); } };
    struct both_impl: Cat { template<typename It, typename C = std::less<>, typename P = utility::identity, typename = OkIt<It, P, C>> std::int64_t operator()(It f, It l, C c = {}, P p = {}) const { return body(TAG, f, l, c, p); } };
    // the same with overloads for ranges, which have to be preferred for ranges
    struct compare_both_impl: compare_impl
    {
        using compare_impl::operator();
        template<typename R, typename C = std::less<>, typename = OkR<R, utility::identity, C>> std::int64_t operator()(R&& r, C c = {}) const { return body(RANGE, std::begin(r), std::end(r), c, utility::identity{}); }
    };
    struct both_both_impl: both_impl
    {
        using both_impl::operator();
        template<typename R, typename C = std::less<>, typename P = utility::identity, typename = OkR<R, P, C>> std::int64_t operator()(R&& r, C c = {}, P p = {}) const { return body(RANGE, std::begin(r), std::end(r), c, p); }
    };
    struct plain_both_impl: plain_impl
    {
        using plain_impl::operator();
        template<typename R> std::int64_t operator()(R&& r) const { return body(RANGE, std::begin(r), std::end(r), std::less<>{}, utility::identity{}); }
    };
    struct project_both_impl: project_impl
    {
        using project_impl::operator();
        template<typename R, typename P = utility::identity, typename = OkR<R, P>> std::int64_t operator()(R&& r, P p = {}) const { return body(RANGE, std::begin(r), std::end(r), std::less<>{}, p); }
    };
    // several overloads, called with exactly what each of them takes
    struct overloads_impl: Cat
    {
        template<typename It> std::int64_t operator()(It f, It l) const { return body(TAG, f, l, std::less<>{}, utility::identity{}); }
        template<typename It, typename C, std::enable_if_t<!is_projection_iterator_v<C, It>, int> = 0> std::int64_t operator()(It f, It l, C c) const { return body(TAG, f, l, c, utility::identity{}); }
        template<typename It, typename P, std::enable_if_t<is_projection_iterator_v<P, It>, int> = 0> std::int64_t operator()(It f, It l, P p) const { return body(TAG, f, l, std::less<>{}, p); }
        template<typename It, typename C, typename P> std::int64_t operator()(It f, It l, C c, P p) const { return body(TAG, f, l, c, p); }
    };
    template<typename Impl> struct S: sorter_facade<Impl> {};

    enum Args { NONE, LESS, IDENT, LESS_IDENT, CMP, CMP_IDENT, PROJ, LESS_PROJ, CMP_PROJ, STDLESS };
    enum Form { ITERS, LRANGE, RRANGE, FPTR_ITERS, FPTR_RANGE, FPTR_VOID, FNS, FN_STABLE };

    template<Args A, typename F, typename... X> decltype(auto) with_args(F&& f, X&&... x)
    {
        if constexpr (A == NONE) return f(std::forward<X>(x)...);
        else if constexpr (A == LESS) return f(std::forward<X>(x)..., std::less<>{});
        else if constexpr (A == IDENT) return f(std::forward<X>(x)..., utility::identity{});
        else if constexpr (A == LESS_IDENT) return f(std::forward<X>(x)..., std::less<>{}, utility::identity{});
        else if constexpr (A == CMP) return f(std::forward<X>(x)..., SimLess{});
        else if constexpr (A == CMP_IDENT) return f(std::forward<X>(x)..., SimLess{}, utility::identity{});
        else if constexpr (A == PROJ) return f(std::forward<X>(x)..., SimProj{});
        else if constexpr (A == LESS_PROJ) return f(std::forward<X>(x)..., std::less<>{}, SimProj{});
        else if constexpr (A == STDLESS) return f(std::forward<X>(x)..., std::less<int>{});
        else return f(std::forward<X>(x)..., SimLess{}, SimProj{});
    }
    template<typename St, typename T, typename ItCat, Args A, Form F, int Tag, Want W>
    std::int64_t call(void* lo, void* hi)
    {
        using It = SimIter<T, ItCat>;
        Range<T> r{static_cast<T*>(lo), static_cast<T*>(hi)};
        It f(r.lo, &r), l(r.hi, &r);
        SimRange<It> rg{f, l};
        const std::size_t n = (std::size_t)(r.hi - r.lo);
        begin_adapted(Tag, 77 + (int)(n & 0xfff));
        std::int64_t ret;
        {
            Lib _;
            St s;
            auto plain = [&](auto&&... a) -> decltype(auto) { return s(std::forward<decltype(a)>(a)...); };
            if constexpr (F == ITERS) ret = result_of([&]() -> decltype(auto) { return with_args<A>(plain, f, l); });
            else if constexpr (F == LRANGE) ret = result_of([&]() -> decltype(auto) { return with_args<A>(plain, rg); });
            else if constexpr (F == RRANGE) ret = result_of([&]() -> decltype(auto) { return with_args<A>(plain, SimRange<It>{f, l}); });
            else if constexpr (F == FPTR_ITERS) ret = result_of([&]() -> decltype(auto) {
                return with_args<A>([&](It a, It b, auto... x) { std::int64_t (*fp)(It, It, decltype(x)...) = s; return fp(a, b, x...); }, f, l); });
            else if constexpr (F == FPTR_RANGE) ret = result_of([&]() -> decltype(auto) {
                return with_args<A>([&](SimRange<It>& a, auto... x) { std::int64_t (*fp)(SimRange<It>&, decltype(x)...) = s; return fp(a, x...); }, rg); });
            else if constexpr (F == FPTR_VOID) ret = result_of([&]() -> decltype(auto) {
                return with_args<A>([&](SimRange<It>& a, auto... x) { void (*fp)(SimRange<It>&, decltype(x)...) = s; fp(a, x...); }, rg); });
            else if constexpr (F == FNS) ret = result_of([&]() -> decltype(auto) { return with_args<A>([&](auto&&... a) -> decltype(auto) { return cppsort::sort(s, std::forward<decltype(a)>(a)...); }, rg); });
            else ret = result_of([&]() -> decltype(auto) { return with_args<A>([&](auto&&... a) -> decltype(auto) { return cppsort::stable_sort(s, std::forward<decltype(a)>(a)...); }, f, l); });
        }
        check_adapted(W == W_RESULT && F == FPTR_VOID ? W_ONCE : W, ret, n);
        return 0;
    }
    const char* const args_name[] = {"none", "less", "identity", "less_identity", "compare", "compare_identity", "project", "less_project", "compare_project", "std_less_int"};
    const char* const form_name[] = {"iterators", "range", "rvalue", "fptr_iterators", "fptr_range", "fptr_void", "sort", "stable_sort"};
    template<typename St, Args A, Form F, int Tag, Want W>
    void one(const char* f, std::uint32_t fl)
    {
        // ints where the order is the natural one
        constexpr bool ints = A == NONE || A == LESS || A == IDENT || A == LESS_IDENT || A == STDLESS;
        fl |= F_ORDERED | F_SIMSORTER;
        if (A >= PROJ && A != STDLESS) fl |= F_PROJ;
        if (ints || A == PROJ || A == LESS_PROJ) fl |= F_NOREVERSE;
        add(f, std::string(args_name[A]) + "/" + form_name[F], ints ? E_INT : E_ELEM, C_ARRAY, O_SORT, fl,
            call<St, std::conditional_t<ints, int, Elem>, FW, A, F, Tag, W>);
    }
    template<typename St, Args A, int RangeTag, Want W, bool Sorts = true>
    void forms(const char* f, std::uint32_t fl)
    {
        one<St, A, ITERS, TAG, W>(f, fl);
        one<St, A, LRANGE, RangeTag, W>(f, fl);
        one<St, A, RRANGE, RangeTag, W>(f, fl);
        one<St, A, FPTR_ITERS, TAG, W>(f, fl);
        one<St, A, FPTR_RANGE, RangeTag, W>(f, fl);
        one<St, A, FPTR_VOID, RangeTag, W>(f, fl);
        if constexpr (Sorts) {
            one<St, A, FNS, RangeTag, W_ONCE>(f, fl);
            one<St, A, FN_STABLE, TAG, W_ONCE>(f, fl | F_STABLE);
        }
    }
    template<typename St, int RangeTag> void naturals(const char* f)
    {
        forms<St, NONE, RangeTag, W_RESULT, false>(f, 0);
        forms<St, LESS, RangeTag, W_RESULT, false>(f, 0);
        forms<St, IDENT, RangeTag, W_RESULT, false>(f, 0);
        forms<St, LESS_IDENT, RangeTag, W_RESULT, false>(f, 0);
    }
    template<typename St, int RangeTag, bool Sorts = true> void compares(const char* f)
    {
        forms<St, CMP, RangeTag, W_RESULT, Sorts>(f, 0);
        forms<St, CMP_IDENT, RangeTag, W_RESULT, Sorts>(f, 0);
        forms<St, STDLESS, RangeTag, W_RESULT, false>(f, 0);
        forms<St, CMP_PROJ, RangeTag, W_RESULT, Sorts>(f, 0);
        forms<St, PROJ, RangeTag, W_RESULT, Sorts>(f, 0);
        forms<St, LESS_PROJ, RangeTag, W_RESULT, Sorts>(f, 0);
    }
    int go()
    {
        naturals<S<plain_impl>, TAG>("facade<plain>");
        naturals<S<compare_impl>, TAG>("facade<compare>");
        compares<S<compare_impl>, TAG>("facade<compare>");
        naturals<S<project_impl>, TAG>("facade<project>");
        forms<S<project_impl>, PROJ, TAG, W_RESULT, false>("facade<project>", 0);
        forms<S<project_impl>, LESS_PROJ, TAG, W_RESULT, false>("facade<project>", 0);
        naturals<S<both_impl>, TAG>("facade<both>");
        compares<S<both_impl>, TAG>("facade<both>");
        naturals<S<plain_both_impl>, RANGE>("facade<plain,range>");
        naturals<S<compare_both_impl>, RANGE>("facade<compare,range>");
        compares<S<compare_both_impl>, RANGE>("facade<compare,range>");
        naturals<S<project_both_impl>, RANGE>("facade<project,range>");
        forms<S<project_both_impl>, PROJ, RANGE, W_RESULT, false>("facade<project,range>", 0);
        naturals<S<both_both_impl>, RANGE>("facade<both,range>");
        compares<S<both_both_impl>, RANGE>("facade<both,range>");
        naturals<S<overloads_impl>, TAG>("facade<overloads>");
        compares<S<overloads_impl>, TAG>("facade<overloads>");
        // adapters of sorters without state
        using E = sim_empty<TAG, FW, false, BY_HEAP>;
        using R = sim_empty<TAG, RA, false, BY_CYCLES>;
        compares<schwartz_adapter<E>, TAG>("facade<schwartz>");
        compares<stable_adapter<E>, TAG>("facade<stable>");
        compares<indirect_adapter<R>, TAG>("facade<indirect>");
        compares<out_of_place_adapter<R>, TAG, false>("facade<out_of_place>");
        compares<hybrid_adapter<E, R>, TAG>("facade<hybrid>");
        return 0;
    }
    const int reg = go();
}
