// Fixed-size sorters: the comparisons of a network are recorded by position
#ifndef SIM_FIXED_H_
#define SIM_FIXED_H_
#include "../subjects.h"
#include <algorithm>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/utility/sorting_networks.h>
namespace
{
    using namespace cppsort;
    using namespace sim;

    using Pairs = std::vector<std::pair<int, int>>;

    // what a call has compared so far, as positions in the collection
    struct Recorder
    {
        const Elem* base; std::size_t n;
        const Pairs* want;
        std::vector<std::vector<int>> next;     // for every position, the exchanges it takes part in, last first
        std::size_t at = 0;
        bool done = false, wrong = false;
        Pairs got;
        Recorder(const Elem* b, std::size_t n, const Pairs* w): base(b), n(n), want(w), next(n)
        {
            got.reserve(w->size() + 8);
            for (std::size_t k = w->size(); k-- > 0;) { next[(*w)[k].first].push_back((int)k); next[(*w)[k].second].push_back((int)k); }
        }
        // Exchanges of disjoint positions commute: what counts is the order at each position
        void pair(const Elem& a, const Elem& b)
        {
            std::size_t i = (std::size_t)(&a - base), j = (std::size_t)(&b - base);
            if (&a < base || &b < base || i >= n || j >= n) { wrong = true; report(V_WRONG_VALUE, "a network compared something else than elements of the collection"); return; }
            std::pair<int, int> p((int)std::min(i, j), (int)std::max(i, j));
            if (wrong) return;
            bool in = g->in_lib; g->in_lib = false;
            got.push_back(p);
            g->in_lib = in;
            if (at >= want->size()) { wrong = true; report(V_WRONG_VALUE, "the network makes more compare-exchanges than the %zu it is made of", want->size()); return; }
            ++at;
            auto &u = next[p.first], &v = next[p.second];
            if (u.empty() || v.empty() || u.back() != v.back()) {
                wrong = true;
                report(V_WRONG_VALUE, "compare-exchange %zu is between positions %d and %d, but the published network does something else with them first", at - 1, p.first, p.second);
                return;
            }
            u.pop_back(); v.pop_back();
        }
    };
    struct NetLess
    {
        Recorder* r;
        bool operator()(const Elem& a, const Elem& b) const { r->pair(a, b); return SimLess{}(a, b); }
    };
    struct SelfProj
    {
        const Elem& operator()(const Elem& e) const
        {
            if (seam(K_PROJ, e.id, 0)) throw_user(K_PROJ);
            check_readable(e, "projection");
            return e;
        }
    };
    // up to 64 sequences of zeros and ones at once through the compare-exchanges: all those
    // that a random permutation stands for, and now and then unrelated ones
    inline void search_zero_one(const Pairs& ps, std::size_t n, std::uint64_t seed, int rounds)
    {
        std::vector<std::uint64_t> w(n), p(n);
        for (std::size_t i = 0; i < n; ++i) p[i] = i;
        for (int k = 0; k < rounds; ++k) {
            Rng r(mix2(seed, k));
            if (k % 8) {
                for (std::size_t i = n; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
                for (std::size_t i = 0; i < n; ++i) w[i] = (std::uint64_t(1) << p[i]) - 1;
            } else
                for (auto& x : w) { x = r.next(); if (k % 24 == 8) x &= r.next(); if (k % 24 == 16) x |= r.next(); }
            for (auto& c : ps) { std::uint64_t a = w[c.first], b = w[c.second]; w[c.first] = a & b; w[c.second] = a | b; }
            for (std::size_t i = 1; i < n; ++i)
                if (w[i - 1] & ~w[i]) { report(V_WRONG_VALUE, "there is a sequence of zeros and ones that these compare-exchanges do not sort"); return; }
        }
    }

    // number of compare-exchanges that the documentation gives for sorting_network_sorter
    constexpr int ces[] = {0, 0, 1, 3, 5, 9, 12, 16, 19, 25, 29, 35, 39, 45, 51, 56, 60,
            71, 77, 85, 91, 99, 106, 114, 120, 130, 139, 147, 155, 164, 172, 180, 185,
            199, 209, 220, 227, 240, 250, 259, 265, 282, 291, 303, 309, 324, 332, 340, 346,
            365, 376, 387, 395, 411, 421, 432, 438, 454, 465, 476, 483, 497, 506, 515, 521};
    constexpr int documented(int n) { return ces[n]; }
    // Knuth, The Art of Computer Programming, volume 3, 5.2.2, algorithm M
    constexpr int merge_exchange(int n)
    {
        int t = 0, ces = 0;
        while ((1 << t) < n) ++t;
        for (int p = 1 << t >> 1; p > 0; p >>= 1)
            for (int q = 1 << t >> 1, r = 0, d = p;; d = q - p, q >>= 1, r = p) {
                for (int i = 0; i < n - d; ++i) if ((i & p) == r) ++ces;
                if (q == p) break;
            }
        return ces;
    }
    // Batcher's odd-even merge sort of 2^k elements
    constexpr int odd_even(int n)
    {
        int k = 0;
        while ((1 << k) < n) ++k;
        return n < 2 ? 0 : ((k * k - k + 4) << k >> 2) - 1;
    }

    enum How { H_SORT, H_PAIRS, H_UNROLL };
    template<typename S, int N, int Doc, How H, typename Proj>
    std::int64_t network(void* lo, void* hi)
    {
        const S& s = shared_sorter<S>();
        constexpr auto pairs = S::template index_pairs<>();
        Pairs want;
        for (auto& p : pairs) want.push_back({(int)p.first, (int)p.second});
        if ((int)want.size() != Doc) report(V_WRONG_VALUE, "the network has %zu compare-exchanges, %d are documented", want.size(), Doc);
        for (auto& p : want)
            if (p.first < 0 || p.first >= p.second || p.second >= N) { report(V_WRONG_VALUE, "a pair of positions of the network is (%d, %d)", p.first, p.second); return 0; }
        Range<Elem> r{static_cast<Elem*>(lo), static_cast<Elem*>(hi)};
        SimIter<Elem, RA> f(r.lo, &r), l(r.hi, &r);
        Recorder rec(r.lo, (std::size_t)N, &want);
        {
            Lib _;
            NetLess less{&rec};
            if constexpr (std::is_same_v<Proj, NoProj>) {
                if constexpr (H == H_SORT) s(f, l, less);
                else if constexpr (H == H_PAIRS) utility::swap_index_pairs(f, pairs, less);
                else utility::swap_index_pairs_force_unroll(f, pairs, less);
            } else {
                if constexpr (H == H_SORT) s(f, l, less, Proj{});
                else if constexpr (H == H_PAIRS) utility::swap_index_pairs(f, pairs, less, Proj{});
                else utility::swap_index_pairs_force_unroll(f, pairs, less, Proj{});
            }
        }
        if (!rec.wrong && rec.at != want.size()) report(V_WRONG_VALUE, "the network makes %zu compare-exchanges instead of %zu", rec.at, want.size());
        std::uint64_t seed = 1;
        for (Elem* e = r.lo; e != r.hi; ++e) seed = mix2(seed, (std::uint64_t)e->id * 131 + (unsigned)e->key);
        search_zero_one(want, N, seed, 72);
        return 0;
    }
    template<typename S, int N, int Doc, How H>
    void net(const char* name, bool stable = false)
    {
        static const char* const hows[] = {"", "pairs/", "unroll/"};
        std::uint32_t fl = F_TOLERANT | F_NOALLOC | F_ORDERED | F_FIXED | (stable ? F_STABLE : 0);
        std::string f = std::string("network<") + name + ">", v = hows[H] + ("n" + std::to_string(N));
        add(f, v, E_ELEM, C_ARRAY, O_SORT, fl, network<S, N, Doc, H, NoProj>, -N);
        if (N < 34) add(f, v + "/proj", E_ELEM, C_ARRAY, O_SORT, fl | F_PROJ, network<S, N, Doc, H, std::conditional_t<(N < 34), SelfProj, NoProj>>, -N);
    }

    // the sum of comparisons or moves over all orders of N elements
    struct Weighed
    {
        int k = 0;
        static inline std::uint64_t compared, moved;
        Weighed() = default;
        Weighed(Weighed&& o): k(o.k) { ++moved; }
        Weighed& operator=(Weighed&& o) { k = o.k; ++moved; return *this; }
    };
    struct WeighLess { bool operator()(const Weighed& a, const Weighed& b) const { ++Weighed::compared; return a.k < b.k; } };
    template<typename S, int N, bool Moves, std::uint64_t Doc>
    std::int64_t weight(void* lo, void* hi)
    {
        const S& s = shared_sorter<S>();
        int p[N]; Weighed a[N];
        for (int i = 0; i < N; ++i) p[i] = i;
        Weighed::compared = 0;
        std::uint64_t moved = 0;
        bool sorted = true;
        do {
            for (int i = 0; i < N; ++i) a[i].k = p[i];
            Weighed::moved = 0;
            s(a, a + N, WeighLess{});
            moved += Weighed::moved;
            for (int i = 0; i < N; ++i) sorted = sorted && a[i].k == i;
        } while (std::next_permutation(p, p + N));
        if (!sorted) report(V_NOT_SORTED, "an order of %d elements does not come out sorted", N);
        std::uint64_t w = Moves ? moved : Weighed::compared;
        if (w > Doc) report(V_WRONG_VALUE, "the %s weight is %llu, documented as %llu", Moves ? "move" : "comparison", (unsigned long long)w, (unsigned long long)Doc);
        Range<Elem> r{static_cast<Elem*>(lo), static_cast<Elem*>(hi)};
        SimIter<Elem, RA> f(r.lo, &r), l(r.hi, &r);
        Lib _;
        s(f, l, SimLess{});
        return 0;
    }
    template<typename S, int N, bool Moves, std::uint64_t Doc>
    void weighed(const char* name)
    {
        add(std::string("weight<") + name + ">", "n" + std::to_string(N), E_ELEM, C_ARRAY, O_SORT, F_TOLERANT | F_NOALLOC | F_ORDERED | F_FIXED, weight<S, N, Moves, Doc>, -N);
    }
}
#endif
