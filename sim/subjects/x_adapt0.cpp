// adapters around a simulated sorter with state
#include "adapt.h"
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cpp-sort/adapters/drop_merge_adapter.h>
#include <cpp-sort/adapters/hybrid_adapter.h>
#include <cpp-sort/adapters/indirect_adapter.h>
#include <cpp-sort/adapters/out_of_place_adapter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
#include <cpp-sort/adapters/self_sort_adapter.h>
#include <cpp-sort/adapters/split_adapter.h>
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/adapters/verge_adapter.h>
#include <cpp-sort/metrics/comparisons.h>
#include <cpp-sort/metrics/projections.h>
namespace
{
    constexpr int TAG = 17;
    template<typename A, typename S> struct One { using type = A; static A make(int inst) { return A(S(inst)); } };

    template<typename Maker, int Tag, Want W, typename Cat, typename Proj, bool Iterable>
    std::int64_t call(void* lo, void* hi)
    {
        Range<Elem> r{static_cast<Elem*>(lo), static_cast<Elem*>(hi)};
        SimIter<Elem, Cat> f(r.lo, &r), l(r.hi, &r);
        SimRange<SimIter<Elem, Cat>> rg{f, l};
        const std::size_t n = (std::size_t)(r.hi - r.lo);
        const int inst = 1000 + (int)(n & 0xfff);
        begin_adapted(Tag, inst);
        std::int64_t ret;
        {
            Lib _;
            typename Maker::type a = Maker::make(inst);
            ret = through(a, (int)n, [&](auto& s) -> decltype(auto) {
                if constexpr (std::is_same_v<Proj, NoProj>) { if constexpr (Iterable) return s(rg, SimLess{}); else return s(f, l, SimLess{}); }
                else { if constexpr (Iterable) return s(rg, SimLess{}, Proj{}); else return s(f, l, SimLess{}, Proj{}); }
            });
        }
        check_adapted(W, ret, n);
        return 0;
    }
    template<typename Maker, int Tag, Want W, typename Cat>
    void ways(std::string f, std::string cat, std::uint32_t fl, std::uint32_t flp)
    {
        fl |= F_ORDERED | F_SIMSORTER; flp |= fl | F_PROJ;
        add(f, cat + "/elem", E_ELEM, C_ARRAY, O_SORT, fl, call<Maker, Tag, W, Cat, NoProj, false>);
        add(f, cat + "/elem/range", E_ELEM, C_ARRAY, O_SORT, fl, call<Maker, Tag, W, Cat, NoProj, true>);
        add(f, cat + "/elem/proj", E_ELEM, C_ARRAY, O_SORT, flp, call<Maker, Tag, W, Cat, SimProj, false>);
        add(f, cat + "/elem/proj/range", E_ELEM, C_ARRAY, O_SORT, flp, call<Maker, Tag, W, Cat, SimProj, true>);
    }
    template<template<typename...> class A, Want W, typename Cat, typename SCat, How H>
    void adapter(std::string name, std::string cat, std::uint32_t fl, std::uint32_t flp = 0)
    {
        static const char* const hows[] = {"cycles", "heap", "insertion"};
        using S = sim_sorter<TAG, SCat, false, H>;
        ways<One<A<S>, S>, TAG, W, Cat>("adapt<" + name + "," + hows[H] + ">", cat, fl, flp);
    }
    template<template<typename...> class A, Want W, typename Cat, typename SCat>
    void adapters(std::string name, std::string cat, std::uint32_t fl, std::uint32_t flp = 0)
    {
        adapter<A, W, Cat, SCat, BY_CYCLES>(name, cat, fl, flp);
        adapter<A, W, Cat, SCat, BY_HEAP>(name, cat, fl, flp);
        adapter<A, W, Cat, SCat, BY_INSERTION>(name, cat, fl, flp);
    }
    template<typename... S> using hybrid1 = hybrid_adapter<S...>;
    template<typename S> using comparisons_ = metrics::comparisons<S>;
    template<typename S> using projections_ = metrics::projections<S>;
    template<typename S> using stable_of_stable = stable_adapter<stable_adapter<S>>;
    template<typename S> using schwartz_of_schwartz = schwartz_adapter<schwartz_adapter<S>>;
    template<typename S> struct StSchwartz { using type = stable_adapter<schwartz_adapter<S>>; static type make(int i) { return type(schwartz_adapter<S>(S(i))); } };
    template<typename S> struct StSelf { using type = stable_adapter<self_sort_adapter<S>>; static type make(int i) { return type(self_sort_adapter<S>(S(i))); } };
    template<typename S> struct StSt { using type = stable_of_stable<S>; static type make(int i) { return type(stable_adapter<S>(S(i))); } };
    template<typename S> struct SwSw { using type = schwartz_of_schwartz<S>; static type make(int i) { return type(schwartz_adapter<S>(S(i))); } };
    template<typename S> struct OopInd { using type = out_of_place_adapter<indirect_adapter<S>>; static type make(int i) { return type(indirect_adapter<S>(S(i))); } };
    template<typename S> struct StVerge { using type = stable_adapter<verge_adapter<S>>; static type make(int i) { return type(verge_adapter<S>(S(i))); } };
    template<typename S> struct AwareStable { using type = container_aware_adapter<stable_adapter<S>>; static type make(int i) { return type(stable_adapter<S>(S(i))); } };

    // the sorter whose category fits best has to be called
    template<int T, typename C, How H = BY_CYCLES> using Y = sim_sorter<T, C, false, H>;
    using HF = Y<1, FW>; using HB = Y<2, BI>; using HR = Y<3, RA>; using HR2 = Y<4, RA>;
    template<int Which> struct Hybrid
    {
        // every sorter gets state of its own; the one that has to be called gets the state that is looked for
        static int st(int t, int inst) { return t == Which ? inst : -5 - t; }
        struct A { using type = hybrid_adapter<HR, HF, HB>; static type make(int i) { return type(HR(st(3, i)), HF(st(1, i)), HB(st(2, i))); } };
        struct C { using type = stable_adapter<hybrid_adapter<HB, HF, HR>>; static type make(int i) { return type(hybrid_adapter<HB, HF, HR>(HB(st(2, i)), HF(st(1, i)), HR(st(3, i)))); } };
        struct D { using type = hybrid_adapter<HR, HR2, HF>; static type make(int i) { return type(HR(st(3, i)), HR2(st(4, i)), HF(st(1, i))); } };
    };

    // a collection that sorts itself
    enum Methods { M_SORT = 1, M_STABLE = 2, M_BOTH = 3 };
    template<typename It, int M>
    struct SelfRange: SimRange<It>
    {
        template<typename... Args, int N = M, std::enable_if_t<(N & M_SORT) != 0, int> = 0> std::int64_t sort(Args... a) { return go<false>(4242, a...); }
        template<typename... Args, int N = M, std::enable_if_t<(N & M_STABLE) != 0, int> = 0> std::int64_t stable_sort(Args... a) { return go<true>(4343, a...); }
        template<bool Stable, typename C, typename P = utility::identity>
        std::int64_t go(std::int64_t ret, C c, P p = {})
        {
            sorter_seam(99, 0);
            sim_sort<BY_CYCLES, Stable>(this->b, this->e, c, p);
            return ret;
        }
    };
    // the adapters choose a method of the collection, or the adapted sorter
    template<int M, bool Wrapped, typename Cat, typename Proj>
    std::int64_t self(void* lo, void* hi)
    {
        using S = sim_sorter<TAG, Cat, false, BY_HEAP>;
        using Maker = std::conditional_t<Wrapped, StSelf<S>, One<self_sort_adapter<S>, S>>;
        using It = SimIter<Elem, Cat>;
        Range<Elem> r{static_cast<Elem*>(lo), static_cast<Elem*>(hi)};
        SelfRange<It, M> rg;
        rg.b = It(r.lo, &r); rg.e = It(r.hi, &r);
        const std::size_t n = (std::size_t)(r.hi - r.lo);
        const int inst = 1000 + (int)(n & 0xfff);
        begin_adapted(TAG, inst);
        std::int64_t ret;
        {
            Lib _;
            typename Maker::type a = Maker::make(inst);
            ret = through(a, (int)n, [&](auto& s) -> decltype(auto) {
                if constexpr (std::is_same_v<Proj, NoProj>) return s(rg, SimLess{});
                else return s(rg, SimLess{}, Proj{});
            });
        }
        const bool wants_sorter = Wrapped && !(M & M_STABLE);
        const std::int64_t want = !Wrapped && (M & M_SORT) ? 4242 : 4343;
        check_adapted(wants_sorter ? W_RESULT : W_NONE, ret, n);
        if (!wants_sorter && ret != want) report(V_WRONG_VALUE, "the result of the method of the collection is lost, or another method was called");
        return 0;
    }
    template<int M, typename Cat>
    void selves(std::string name, std::uint32_t F)
    {
        const std::uint32_t st = M == M_STABLE ? F_STABLE : 0;
        add("adapt<self_method>", name, E_ELEM, C_ARRAY, O_SORT, F | st, self<M, false, Cat, NoProj>);
        add("adapt<self_method>", name + "/proj", E_ELEM, C_ARRAY, O_SORT, F | st | F_PROJ, self<M, false, Cat, SimProj>);
        add("adapt<stable<self_method>>", name, E_ELEM, C_ARRAY, O_SORT, F | F_STABLE, self<M, true, Cat, NoProj>);
        add("adapt<stable<self_method>>", name + "/proj", E_ELEM, C_ARRAY, O_SORT, F | F_STABLE | F_PROJ, self<M, true, Cat, SimProj>);
    }

    // an algorithm of its own for lists, found for the sorter
    template<int Tag, bool WithProj>
    struct aware_sorter_impl: sim_sorter_impl<Tag, FW, false, BY_CYCLES> { using sim_sorter_impl<Tag, FW, false, BY_CYCLES>::sim_sorter_impl; };
    template<int Tag, bool WithProj>
    struct aware_sorter: sorter_facade<aware_sorter_impl<Tag, WithProj>>
    {
        aware_sorter() = default;
        explicit aware_sorter(int i): sorter_facade<aware_sorter_impl<Tag, WithProj>>(i) {}
    };
    template<typename L, typename C, typename P>
    std::int64_t aware(int inst, L& l, C c, P p)
    {
        sorter_used(TAG, inst, (std::size_t)std::distance(l.begin(), l.end()));
        sim_sort<BY_CYCLES, true>(l.begin(), l.end(), utility::as_function(c), utility::as_function(p));
        return sorter_done(TAG, (std::size_t)std::distance(l.begin(), l.end()));
    }
    template<typename L, typename C> std::int64_t sort(aware_sorter<TAG + 1, false> s, L& l, C c) { s.check("called"); return aware(s.inst, l, c, utility::identity{}); }
    template<typename L, typename C, typename P = utility::identity> std::int64_t sort(aware_sorter<TAG + 1, true> s, L& l, C c, P p = {}) { s.check("called"); return aware(s.inst, l, c, p); }

    template<typename Maker, Want W, typename L, typename Proj>
    std::int64_t lcall(void* c, void*)
    {
        L& list = *static_cast<L*>(c);
        const std::size_t n = (std::size_t)std::distance(list.begin(), list.end());
        const int inst = 1000 + (int)(n & 0xfff);
        begin_adapted(TAG, inst);
        std::int64_t ret;
        {
            Lib _;
            typename Maker::type a = Maker::make(inst);
            ret = through(a, (int)n, [&](auto& s) -> decltype(auto) {
                if constexpr (std::is_same_v<Proj, NoProj>) return s(list, SimLess{});
                else return s(list, SimLess{}, Proj{});
            });
        }
        check_adapted(W, ret, n);
        return 0;
    }
    template<typename Maker, Want W>
    void lists(std::string f, std::uint32_t fl, bool fw = true)
    {
        fl |= F_ORDERED | F_SIMSORTER;
        add(f, "list/elem", E_ELEM, C_LIST, O_SORT, fl, lcall<Maker, W, List, NoProj>);
        add(f, "list/elem/proj", E_ELEM, C_LIST, O_SORT, fl | F_PROJ, lcall<Maker, W, List, SimProj>);
        if constexpr (W == W_RESULT) if (fw) {
            add(f, "flist/elem", E_ELEM, C_FLIST, O_SORT, fl, lcall<Maker, W, FList, NoProj>);
            add(f, "flist/elem/proj", E_ELEM, C_FLIST, O_SORT, fl | F_PROJ, lcall<Maker, W, FList, SimProj>);
        }
    }

    int go()
    {
        adapters<indirect_adapter, W_RESULT, FW, RA>("indirect", "fw", F_INDIRECT);
        adapters<indirect_adapter, W_RESULT, RA, RA>("indirect", "ra", F_INDIRECT);
        adapters<out_of_place_adapter, W_RESULT, FW, RA>("out_of_place", "fw", 0);
        adapters<out_of_place_adapter, W_RESULT, BI, RA>("out_of_place", "bi", 0);
        adapters<schwartz_adapter, W_RESULT, FW, FW>("schwartz", "fw", 0, F_ONEPROJ);
        adapters<schwartz_adapter, W_RESULT, RA, RA>("schwartz", "ra", 0, F_ONEPROJ);
        adapters<self_sort_adapter, W_RESULT, BI, BI>("self_sort", "bi", 0);
        adapters<make_stable, W_RESULT, FW, FW>("make_stable", "fw", F_STABLE);
        adapters<stable_adapter, W_RESULT, FW, FW>("stable", "fw", F_STABLE);
        adapters<stable_adapter, W_RESULT, RA, RA>("stable", "ra", F_STABLE);
        adapters<hybrid1, W_RESULT, BI, BI>("hybrid", "bi", 0);
        adapters<drop_merge_adapter, W_PARTS, BI, RA>("drop_merge", "bi", 0);
        adapters<drop_merge_adapter, W_PARTS, RA, RA>("drop_merge", "ra", 0);
        adapters<split_adapter, W_PARTS, BI, BI>("split", "bi", 0);
        adapters<split_adapter, W_PARTS, RA, RA>("split", "ra", 0);
        adapters<verge_adapter, W_PARTS, RA, RA>("verge", "ra", 0);
        adapter<comparisons_, W_ONCE, BI, BI, BY_HEAP>("comparisons", "bi", 0);
        adapter<projections_, W_ONCE, FW, FW, BY_CYCLES>("projections", "fw", 0);

        using S0 = sim_sorter<TAG, FW, false, BY_HEAP>;
        using SS = sim_sorter<TAG, FW, true, BY_CYCLES>;
        using RS = sim_sorter<TAG, RA, true, BY_CYCLES>;
        ways<One<stable_adapter<SS>, SS>, TAG, W_RESULT, FW>("adapt<stable,stable>", "fw", F_STABLE, 0);
        ways<One<schwartz_adapter<SS>, SS>, TAG, W_RESULT, FW>("adapt<schwartz,stable>", "fw", F_STABLE, F_ONEPROJ);
        ways<One<indirect_adapter<RS>, RS>, TAG, W_RESULT, BI>("adapt<indirect,stable>", "bi", F_STABLE | F_INDIRECT, 0);
        ways<One<out_of_place_adapter<RS>, RS>, TAG, W_RESULT, FW>("adapt<out_of_place,stable>", "fw", F_STABLE, 0);
        ways<StSchwartz<S0>, TAG, W_RESULT, FW>("adapt<stable<schwartz>>", "fw", F_STABLE, 0);
        ways<StSelf<S0>, TAG, W_RESULT, FW>("adapt<stable<self_sort>>", "fw", F_STABLE, 0);
        ways<StSt<S0>, TAG, W_RESULT, FW>("adapt<stable<stable>>", "fw", F_STABLE, 0);
        ways<SwSw<S0>, TAG, W_RESULT, FW>("adapt<schwartz<schwartz>>", "fw", 0, F_ONEPROJ);
        using R0 = sim_sorter<TAG, RA, false, BY_HEAP>;
        ways<OopInd<R0>, TAG, W_RESULT, FW>("adapt<out_of_place<indirect>>", "fw", 0, 0);
        ways<One<verge_adapter<RS>, RS>, TAG, W_PARTS, RA>("adapt<verge,stable>", "ra", 0, 0);
        ways<StVerge<R0>, TAG, W_PARTS, RA>("adapt<stable<verge>>", "ra", F_STABLE, 0);

        ways<Hybrid<1>::A, 1, W_RESULT, FW>("adapt<hybrid_a>", "fw", 0, 0);
        ways<Hybrid<2>::A, 2, W_RESULT, BI>("adapt<hybrid_a>", "bi", 0, 0);
        ways<Hybrid<3>::A, 3, W_RESULT, RA>("adapt<hybrid_a>", "ra", 0, 0);
        ways<Hybrid<1>::C, 1, W_RESULT, FW>("adapt<hybrid_c>", "fw", F_STABLE, 0);
        ways<Hybrid<2>::C, 2, W_RESULT, BI>("adapt<hybrid_c>", "bi", F_STABLE, 0);
        ways<Hybrid<3>::C, 3, W_RESULT, RA>("adapt<hybrid_c>", "ra", F_STABLE, 0);
        ways<Hybrid<1>::D, 1, W_RESULT, BI>("adapt<hybrid_d>", "bi", 0, 0);
        ways<Hybrid<3>::D, 3, W_RESULT, RA>("adapt<hybrid_d>", "ra", 0, 0);

        const std::uint32_t F = F_ORDERED | F_SIMSORTER;
        selves<M_SORT, BI>("sort/bi", F); selves<M_STABLE, BI>("stable_sort/bi", F); selves<M_BOTH, BI>("both/bi", F);
        selves<M_SORT, RA>("sort/ra", F); selves<M_STABLE, FW>("stable_sort/fw", F); selves<M_BOTH, RA>("both/ra", F);

        lists<One<container_aware_adapter<S0>, S0>, W_RESULT>("adapt_list<container_aware>", 0);
        lists<AwareStable<S0>, W_RESULT>("adapt_list<container_aware<stable>>", F_STABLE);
        lists<One<out_of_place_adapter<S0>, S0>, W_RESULT>("adapt_list<out_of_place>", 0);
        lists<One<indirect_adapter<R0>, R0>, W_RESULT>("adapt_list<indirect>", F_INDIRECT);
        lists<One<stable_adapter<S0>, S0>, W_RESULT>("adapt_list<stable>", F_STABLE);
        lists<One<schwartz_adapter<S0>, S0>, W_RESULT>("adapt_list<schwartz>", 0);
        lists<One<drop_merge_adapter<R0>, R0>, W_PARTS>("adapt_list<drop_merge>", 0);
        using A1 = aware_sorter<TAG + 1, false>;
        using A2 = aware_sorter<TAG + 1, true>;
        lists<One<container_aware_adapter<A1>, A1>, W_RESULT>("adapt_list<aware_compare>", F_STABLE);
        lists<One<container_aware_adapter<A2>, A2>, W_RESULT>("adapt_list<aware_projection>", F_STABLE);
        return 0;
    }
    const int reg = go();
}
