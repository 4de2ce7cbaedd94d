// the function objects of the library wrapped around simulated callbacks, called in every
// way a function object can be called
#ifndef SIM_WRAP_H_
#define SIM_WRAP_H_
#include "callbacks.h"
#include <cpp-sort/adapters/counting_adapter.h>
#include <cpp-sort/comparators/flip.h>
#include <cpp-sort/comparators/not_fn.h>
#include <cpp-sort/comparators/projection_compare.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/smooth_sorter.h>
#include <cpp-sort/sorters/spin_sorter.h>
#include <cpp-sort/utility/functional.h>
namespace
{
    template<typename L> struct Rev { L l; template<typename A, typename B> bool operator()(const A& a, const B& b) const { return l(b, a); } };
    template<typename L> struct Not { L l; template<typename A, typename B> bool operator()(const A& a, const B& b) const { return !l(a, b); } };
    template<typename F> struct ConstW { F f; template<typename A, typename B> bool operator()(A&& a, B&& b) const { const F& g = f; return g(std::forward<A>(a), std::forward<B>(b)); } };
    template<typename F> struct LvalW { F f; template<typename A, typename B> bool operator()(A&& a, B&& b) { return f(std::forward<A>(a), std::forward<B>(b)); } };
    template<typename F> struct MoveW { F f; template<typename A, typename B> bool operator()(A&& a, B&& b) const { F g = f; return std::move(g)(std::forward<A>(a), std::forward<B>(b)); } };
    template<typename F> struct CMoveW { F f; template<typename A, typename B> bool operator()(A&& a, B&& b) const { const F g = f; return std::move(g)(std::forward<A>(a), std::forward<B>(b)); } };
    template<typename L> using Flip = flip_t<Rev<L>>;
    template<typename L> using NotF = not_fn_t<Not<L>>;
    template<typename L> using NotFlip = not_fn_t<flip_t<Not<Rev<L>>>>;
    template<typename L> struct AsComp { decltype(utility::as_comparison(L{})) f = utility::as_comparison(L{}); template<typename A, typename B> bool operator()(const A& a, const B& b) { return f(a, b); } };
    template<typename L> struct CAsComp { decltype(utility::as_comparison(L{})) f = utility::as_comparison(L{}); template<typename A, typename B> bool operator()(const A& a, const B& b) const { return f(a, b); } };
    // projections
    struct Same { template<typename T> T&& operator()(T&& x) const { return std::forward<T>(x); } };
    struct First { template<typename T> T& operator()(T& x) const { return x; } };
    template<typename P> struct AsProj { decltype(utility::as_projection(P{})) f = utility::as_projection(P{}); template<typename A> decltype(auto) operator()(A&& a) { return f(std::forward<A>(a)); } };
    template<typename P> struct CAsProj { decltype(utility::as_projection(P{})) f = utility::as_projection(P{}); template<typename A> decltype(auto) operator()(A&& a) const { return f(std::forward<A>(a)); } };
    template<typename P> auto pipe() { return utility::as_projection(First{}) | P{} | Same{} | utility::identity{}; }
    template<typename P> struct Pipe { decltype(pipe<P>()) f = pipe<P>(); template<typename A> decltype(auto) operator()(A&& a) { return f(std::forward<A>(a)); } };
    template<typename P> struct CPipe { decltype(pipe<P>()) f = pipe<P>(); template<typename A> decltype(auto) operator()(A&& a) const { return f(std::forward<A>(a)); } };
    template<typename P> struct ProjCompare: projection_compare<SimLess, P> {};

    template<typename S, typename Cat, typename L> void wc(const char* f, std::string name, std::uint32_t fl)
    {
        add(f, name, E_ELEM, C_ARRAY, O_SORT, fl, CallSort<S, Elem, Cat, L, NoProj, true>::call);
    }
    template<typename S, typename Cat, typename P> void wp(const char* f, std::string name, std::uint32_t fl)
    {
        add(f, name, E_ELEM, C_ARRAY, O_SORT, fl | F_PROJ, CallSort<S, Elem, Cat, SimLess, P, false>::call);
    }
    template<typename S, typename Cat, typename L>
    void wraps(const char* f, const char* cat, std::uint32_t fl, std::string suf)
    {
        fl |= F_ORDERED;
        std::string b = std::string(cat) + "/elem/";
        auto four = [&](auto t, std::string n) {
            using F = typename decltype(t)::type;
            wc<S, Cat, F>(f, b + n + suf, fl);
            wc<S, Cat, ConstW<F>>(f, b + n + "_const" + suf, fl);
            wc<S, Cat, MoveW<F>>(f, b + n + "_move" + suf, fl);
            wc<S, Cat, CMoveW<F>>(f, b + n + "_cmove" + suf, fl);
            wc<S, Cat, LvalW<F>>(f, b + n + "_lvalue" + suf, fl);
        };
        four(std::common_type<Flip<L>>{}, "flip");
        four(std::common_type<NotF<L>>{}, "not_fn");
        four(std::common_type<NotFlip<L>>{}, "not_flip");
    }
    template<typename S, typename Cat, typename P>
    void projs(const char* f, const char* cat, std::uint32_t fl, std::string suf)
    {
        fl |= F_ORDERED;
        std::string b = std::string(cat) + "/elem/proj/";
        wp<S, Cat, AsProj<P>>(f, b + "as_projection" + suf, fl);
        wp<S, Cat, CAsProj<P>>(f, b + "as_projection_const" + suf, fl);
        wp<S, Cat, Pipe<P>>(f, b + "pipe" + suf, fl);
        wp<S, Cat, CPipe<P>>(f, b + "pipe_const" + suf, fl);
        using F = projection_compare<SimLess, P>;
        fl |= F_PROJ;
        wc<S, Cat, F>(f, b + "projection_compare" + suf, fl);
        wc<S, Cat, ConstW<F>>(f, b + "projection_compare_const" + suf, fl);
        wc<S, Cat, MoveW<F>>(f, b + "projection_compare_move" + suf, fl);
        wc<S, Cat, CMoveW<F>>(f, b + "projection_compare_cmove" + suf, fl);
        wc<S, Cat, LvalW<F>>(f, b + "projection_compare_lvalue" + suf, fl);
    }
}
#endif
