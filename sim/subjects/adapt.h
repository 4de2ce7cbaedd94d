// A simulated sorter, and the adapters of the library around it
//
// The adapted sorter is user code: it carries state, takes the elements apart in a way
// of its own, puts equivalent elements in the worst order it can, may fail when it
// starts, while it works or when it is done, and returns a value.
#ifndef SIM_ADAPT_H_
#define SIM_ADAPT_H_
#include "../subjects.h"
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/utility/as_function.h>
#include <cpp-sort/utility/functional.h>
#include <cpp-sort/utility/iter_move.h>
namespace
{
    using namespace cppsort;
    using namespace sim;

    // tells the simulator that a sorter begins, or is done
    inline void sorter_seam(int tag, std::size_t n)
    {
        if (seam(K_SORTER, (std::uint32_t)tag, (std::uint32_t)n)) throw_user(K_SORTER);
    }
    inline void sorter_used(int tag, int inst, std::size_t n)
    {
        Ctx& c = *g;
        ++c.ad_calls; c.ad_total += n;
        if (tag != c.ad_tag) report(V_WRONG_VALUE, "the wrong sorter was called: %d instead of %d", tag, c.ad_tag);
        else if (inst != c.ad_inst) report(V_WRONG_VALUE, "the sorter was called with other state than it was given");
        sorter_seam(tag, n);
    }
    inline std::int64_t sorter_done(int tag, std::size_t n)
    {
        sorter_seam(tag, n);
        return g->ad_ret = (std::int64_t)(mix2(g->ad_inst + 31 * g->ad_calls, n) >> 2);
    }

    enum How { BY_CYCLES, BY_HEAP, BY_INSERTION };

    template<How H, bool Stable, typename It, typename C, typename P>
    void sim_sort(It first, It last, C&& c, P&& p)
    {
        std::vector<It> its;
        for (It i = first; i != last; ++i) its.push_back(i);
        const std::size_t n = its.size();
        auto less = [&](std::size_t a, std::size_t b) -> bool { return c(p(*its[a]), p(*its[b])); };
        auto swp = [&](std::size_t a, std::size_t b) { using utility::iter_swap; iter_swap(its[a], its[b]); };
        if (H == BY_HEAP && !Stable) {
            auto sift = [&](std::size_t r, std::size_t m) {
                for (std::size_t k; (k = 2 * r + 1) < m; r = k) {
                    if (k + 1 < m && less(k, k + 1)) ++k;
                    if (!less(r, k)) return;
                    swp(r, k);
                }
            };
            for (std::size_t i = n / 2; i > 0; --i) sift(i - 1, n);
            for (std::size_t m = n; m > 1; --m) { swp(0, m - 1); sift(0, m - 1); }
            return;
        }
        if (H == BY_INSERTION && n <= 48) {
            // goes through the elements backwards and puts equivalent ones in reverse order
            using utility::iter_move;
            for (std::size_t i = 1; i < n; ++i) {
                auto before = [&](std::size_t j) -> bool { return Stable ? less(i, j) : !less(j, i); };
                std::size_t j = 0;
                while (j < i && !before(j)) ++j;
                if (j == i) continue;
                auto tmp = iter_move(its[i]);
                for (std::size_t k = i; k > j; --k) *its[k] = iter_move(its[k - 1]);
                *its[j] = std::move(tmp);
            }
            return;
        }
        std::vector<std::uint32_t> idx(n), aux(n);
        for (std::size_t i = 0; i < n; ++i) idx[i] = (std::uint32_t)i;
        for (std::size_t w = 1; w < n; w *= 2)
            for (std::size_t b = 0; b < n; b += 2 * w) {
                std::size_t m = std::min(b + w, n), e = std::min(b + 2 * w, n), i = b, j = m;
                for (std::size_t k = b; k < e; ++k) {
                    bool right = i == m || (j < e && (Stable ? less(idx[j], idx[i]) : !less(idx[i], idx[j])));
                    aux[k] = right ? idx[j++] : idx[i++];
                }
                std::copy(aux.begin() + b, aux.begin() + e, idx.begin() + b);
            }
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = i; idx[j] != i;) { std::size_t k = idx[j]; swp(j, k); idx[j] = (std::uint32_t)j; j = k; if (idx[j] == i) { idx[j] = (std::uint32_t)j; break; } }
    }

    template<int Tag, typename Cat, bool Stable, How H>
    struct sim_sorter_impl: Tracked
    {
        int inst = -1;
        using iterator_category = Cat;
        using is_always_stable = std::integral_constant<bool, Stable>;
        sim_sorter_impl() = default;
        explicit sim_sorter_impl(int i): inst(i) {}
        template<typename It, typename C = std::less<>, typename P = utility::identity,
                 typename = std::enable_if_t<is_projection_iterator_v<P, It, C>>>
        std::int64_t operator()(It f, It l, C c = {}, P p = {}) const
        {
            check("called");
            std::size_t n = (std::size_t)std::distance(f, l);
            sorter_used(Tag, inst, n);
            sim_sort<H, Stable>(f, l, utility::as_function(c), utility::as_function(p));
            return sorter_done(Tag, n);
        }
    };
    template<int Tag, typename Cat, bool Stable = false, How H = BY_CYCLES>
    struct sim_sorter: sorter_facade<sim_sorter_impl<Tag, Cat, Stable, H>>
    {
        sim_sorter() = default;
        explicit sim_sorter(int i): sorter_facade<sim_sorter_impl<Tag, Cat, Stable, H>>(i) {}
    };
    // without state
    template<int Tag, typename Cat, bool Stable, How H>
    struct sim_empty_impl
    {
        using iterator_category = Cat;
        using is_always_stable = std::integral_constant<bool, Stable>;
        template<typename It, typename C = std::less<>, typename P = utility::identity,
                 typename = std::enable_if_t<is_projection_iterator_v<P, It, C>>>
        std::int64_t operator()(It f, It l, C c = {}, P p = {}) const
        {
            std::size_t n = (std::size_t)std::distance(f, l);
            sorter_used(Tag, g->ad_inst, n);
            sim_sort<H, Stable>(f, l, utility::as_function(c), utility::as_function(p));
            return sorter_done(Tag, n);
        }
    };
    template<int Tag, typename Cat, bool Stable = false, How H = BY_CYCLES>
    struct sim_empty: sorter_facade<sim_empty_impl<Tag, Cat, Stable, H>> {};

    // what the adapted sorter has to have done by the end of the call
    enum Want {
        W_RESULT,    // called once on everything, and its result is returned
        W_ONCE,      // called once on everything
        W_PARTS,     // called on parts of the collection
        W_NONE       // not called
    };
    inline void begin_adapted(int tag, int inst) { Ctx& c = *g; c.ad_tag = tag; c.ad_inst = inst; c.ad_calls = c.ad_total = 0; c.ad_ret = 0; }
    inline void check_adapted(Want w, std::int64_t ret, std::size_t n)
    {
        Ctx& c = *g;
        if (w == W_NONE) { if (c.ad_calls) report(V_WRONG_VALUE, "the adapted sorter was called although the collection sorts itself"); return; }
        if (w == W_PARTS) { if (c.ad_total > n) report(V_WRONG_VALUE, "the adapted sorter was given %llu elements in all, the collection has %zu", (unsigned long long)c.ad_total, n); return; }
        if (c.ad_calls != 1) report(V_WRONG_VALUE, "the adapted sorter was called %llu times", (unsigned long long)c.ad_calls);
        else if (c.ad_total != n) report(V_WRONG_VALUE, "the adapted sorter was given %llu elements, the collection has %zu", (unsigned long long)c.ad_total, n);
        else if (w == W_RESULT && ret != c.ad_ret) report(V_WRONG_VALUE, "the result of the adapted sorter is lost");
    }
    template<typename F> std::int64_t result_of(F&& f)
    {
        if constexpr (std::is_same_v<decltype(f()), std::int64_t>) return f();
        else { f(); return 0; }
    }
    // a copy of the adapter, made in one of several ways, is what sorts
    template<typename A, typename F> std::int64_t through(A& a, int way, F f)
    {
        switch (way & 3) {
            case 0: { const A& b = a; return result_of([&]() -> decltype(auto) { return f(b); }); }
            case 1: { A b(a); return result_of([&]() -> decltype(auto) { return f(b); }); }
            case 2: { A b(std::move(a)); return result_of([&]() -> decltype(auto) { return f(b); }); }
            default: { const A& r = a; A b(r); A c(std::move(b)); return result_of([&]() -> decltype(auto) { return f(c); }); }
        }
    }
    template<typename It> std::size_t way_of(It f, It l) { return (std::size_t)std::distance(f, l); }
}
#endif
