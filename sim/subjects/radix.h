#pragma once
// sorters that look at the representation of keys, over every kind of key they document
#include "cmp.h"
#include <array>
#include <functional>
#include <deque>
#include <string_view>
#include <tuple>
#include <cpp-sort/sorters/counting_sorter.h>
#include <cpp-sort/sorters/ska_sorter.h>
#include <cpp-sort/sorters/spread_sorter.h>
using namespace cppsort;
using namespace sim;
namespace
{
    // what the lists of a collection have in common, chosen for each collection
    std::uint64_t style = 0;
    void choose_style(void* lo, void* hi)
    {
        style = (std::uint64_t)(static_cast<Pod*>(hi) - static_cast<Pod*>(lo)) * 0x9e3779b97f4a7c15ull;
        for (Pod* p = static_cast<Pod*>(lo); p != hi && p - static_cast<Pod*>(lo) < 8; ++p) style = style * 31 + (unsigned)p->key;
        std::uint64_t t = style; style = splitmix(t);
    }
    // keys of any type, close to each other or anywhere in the range of the type
    template<typename T> struct Make
    {
        static T go(int k)
        {
            // the order of the keys is kept by some styles
            unsigned st = (unsigned)(style >> 40) % 8;
            if constexpr (std::is_floating_point_v<T>) {
                if (st == 0) return T(k) * T(0.5);
                if (st == 1) return T(-1) - T((unsigned)k & 0xffffff);
                if (st == 2) return T((unsigned)k & 0xffffff) * T(1e-30);
                if (st == 3) return std::ldexp(T(k % 2 ? 1 : -1), (int)((unsigned)k % 120) - 60) * T(1 + (unsigned)k % 7);
                if (st == 4 || st == 5) {
                    // almost all values share their leading bits: bins are split again
                    T v = T(1) + T((unsigned)k % 4093 * 131 % 8191) * std::numeric_limits<T>::epsilon();
                    if ((unsigned)k % 61 == 7) v = sizeof(T) == 4 ? std::ldexp(v, (int)((unsigned)k % 120) - 60) : T(1) + std::ldexp(T((unsigned)k % 509), -22);
                    if ((unsigned)k % 61 == 8 && (style >> 50) % 2) return -v;
                    return st == 4 ? v : -v;
                }
                if (st == 6) {
                    // a few dense clusters: bins of bins are distributed once more
                    std::uint64_t z = (unsigned)k; std::uint64_t h = splitmix(z);
                    int c = (int)(h % (1 + (style >> 44) % 4)), w = 8 + (int)((style >> 46) % (sizeof(T) == 4 ? 10 : 36));
                    T v = std::ldexp(T(1) + T(c) * T(0.37), c) * (T(1) + std::ldexp(T(h >> 12), -52 - w));
                    return (style >> 53) % 2 ? v : -v;
                }
                return float_of<T>(k, false);
            }
            else if (sizeof(T) >= 4 && sizeof(T) <= 8 && st == 4) {
                // the same for integers
                using L = std::numeric_limits<T>;
                std::uint64_t z = (unsigned)k; std::uint64_t h = splitmix(z);
                int c = (int)(h % (1 + (style >> 44) % 4)), w = 6 + (int)((style >> 46) % (sizeof(T) * 8 - 10));
                return (T)(L::lowest() / 2 + (T)((T)c * (L::max() / 5)) + (T)((h >> 8) & ((1ull << w) - 1)));
            }
            else if (sizeof(T) >= 2 && st < 4) {
                using L = std::numeric_limits<T>;
                T d = (T)((unsigned)k & (sizeof(T) == 2 ? 0x3fff : 0xffffff));
                return st == 0 ? d : st == 1 ? (T)(L::max() - d) : st == 2 ? (T)(L::lowest() + d) : (T)(L::max() / 2 + 1 - d);
            }
            else if constexpr (sizeof(T) == 16) { unsigned __int128 v = (unsigned)k % 13; return (T)((unsigned)k % 3 ? (T)(v << ((unsigned)k % 120)) + (T)k : -(T)(v << 100) + (T)k); }
            else if constexpr (sizeof(T) < 4) return (T)k;
            else return (unsigned)k % 4 ? int_of<T>(k) : (T)k;
        }
    };
    template<> struct Make<bool> { static bool go(int k) { return (unsigned)k % 3 == 1; } };
    template<typename A, typename B> struct Make<std::pair<A, B>> { static std::pair<A, B> go(int k) { return {Make<A>::go((int)((unsigned)k % 7)), Make<B>::go(k)}; } };
    template<typename A, typename B, typename C> struct Make<std::tuple<A, B, C>> { static std::tuple<A, B, C> go(int k) { return std::tuple<A, B, C>{Make<A>::go((int)((unsigned)k % 3) - 1), Make<B>::go((int)((unsigned)k % 50)), Make<C>::go(k)}; } };
    template<typename A, std::size_t N> struct Make<std::array<A, N>> { static std::array<A, N> go(int k) { std::array<A, N> r; for (std::size_t i = 0; i < N; ++i) r[i] = Make<A>::go((int)(i + 1 < N ? (unsigned)k % 5 : (unsigned)k)); return r; } };
    template<typename Seq> struct MakeSeq
    {
        static Seq go(int k)
        {
            using C = typename Seq::value_type;
            auto small = [](int n) { if constexpr (std::is_arithmetic_v<C>) return (C)n; else return Make<C>::go(n); };
            std::uint64_t s = (unsigned)k * 131u + 7; Seq r;
            std::uint64_t st = style;
            auto any = [&] { std::uint64_t z = splitmix(s); return z % 3 ? small((int)(z >> 8 & 1)) : Make<C>::go((int)(z >> 20 & 0xffff)); };
            std::size_t shared = (st >> 8) % 4 == 0 ? 62 + (st >> 16) % 5 : (st >> 8) % 4 == 1 ? 126 + (st >> 16) % 5 : (st >> 16) % 12;
            switch (st % 8) {
                case 0: // every list is a prefix of the longer ones, or almost
                    for (std::size_t i = 0, m = (unsigned)k % 70; i < m; ++i) r.push_back(small(3));
                    if (splitmix(s) % 8 == 0) r.push_back(any());
                    return r;
                case 1: // a prefix that almost all lists share
                case 2: {
                    std::uint64_t z = splitmix(s);
                    for (std::size_t i = 0, m = z % 8 ? shared : z % 16 ? 0 : (z >> 8) % (shared + 1); i < m; ++i) r.push_back(small(3));
                    if (z % 8 && (z >> 16) % 8) for (std::size_t i = 0, m = 1 + (z >> 20) % 3; i < m; ++i) r.push_back(any());
                    return r;
                }
                case 3: // groups with prefixes of their own
                case 4: {
                    std::uint64_t g = splitmix(s) % 3, z = st + g * 77;
                    r.push_back(small((int)g));
                    for (std::size_t i = 0, m = splitmix(z) % 3 ? splitmix(z) % 9 : 0; i < m; ++i) r.push_back(small((int)(z >> 9 & 3)));
                    for (std::size_t i = 0, m = splitmix(s) % 5; i < m; ++i) r.push_back(any());
                    return r;
                }
            }
            // long common prefixes, lists that are prefixes of others, elements of every value
            std::size_t pre = splitmix(s) % 4 ? 0 : splitmix(s) % 12;
            for (std::size_t i = 0; i < pre; ++i) r.push_back(small(3));
            std::size_t len = splitmix(s) % 5;
            for (std::size_t i = 0; i < len; ++i) r.push_back(any());
            return r;
        }
    };
    template<typename C> struct Make<std::basic_string<C>>: MakeSeq<std::basic_string<C>> {};
    template<typename C> struct Make<std::vector<C>>: MakeSeq<std::vector<C>> {};
    template<typename C> struct Make<std::deque<C>>: MakeSeq<std::deque<C>> {};

    struct Less3
    {
        template<typename T> int operator()(const T& a, const T& b) const { return a < b ? -1 : b < a; }
    };
    // values of a narrow range close to the limits of the type, for counting sorters
    template<typename T, bool High> struct Narrow
    {
        static T go(int k)
        {
            using L = std::numeric_limits<T>;
            int w = (int)((unsigned)k % 200);
            return High ? (T)(L::max() - (T)(w % 100)) : (T)(L::lowest() + (T)(w % 100));
        }
    };
    // values at both ends of the type: counting them needs more memory than there is
    template<typename T> struct Ends
    {
        static T go(int k)
        {
            using L = std::numeric_limits<T>;
            unsigned u = (unsigned)k;
            switch (u % 5) {
                case 0: return L::max();
                case 1: return L::lowest();
                case 2: return (T)(L::max() - (T)(u % 50));
                case 3: return (T)(L::lowest() + (T)(u % 50));
                default: return (T)(u % 50);
            }
        }
    };
    template<typename Sorter, typename T, bool Rev>
    std::int64_t run_ends(void* lo, void* hi)
    {
        auto v = values<T>(lo, hi, [&](Pod& p) { return Ends<T>::go(p.key); });
        std::vector<T> before = v;
        try {
            const Sorter& s = shared_sorter<Sorter>();
            Range<T> r{v.data(), v.data() + v.size()};
            SimIter<T, RA> f(r.lo, &r), l(r.hi, &r);
            Lib _; if constexpr (Rev) s(SimRange<SimIter<T, RA>>{f, l}, std::greater<>{}); else s(SimRange<SimIter<T, RA>>{f, l});
        } catch (const std::bad_alloc&) {
            return v == before ? 0 : 2;
        }
        std::sort(before.begin(), before.end(), [](T a, T b) { return Rev ? b < a : a < b; });
        if (v == before) return 0;
        return std::is_sorted(v.begin(), v.end(), [](T a, T b) { return Rev ? b < a : a < b; }) ? 2 : 1;
    }
    struct Greater3
    {
        template<typename T> int operator()(const T& a, const T& b) const { return b < a ? -1 : a < b; }
    };
    template<typename Sorter, typename T, bool Box_, bool Rev = false, typename Make = Make<T>>
    std::int64_t run(void* lo, void* hi)
    {
        using Ord = std::conditional_t<Rev, Greater3, Less3>;
        using Cmp = std::conditional_t<Rev, std::greater<>, std::less<>>;
        const Sorter& s = shared_sorter<Sorter>();
        choose_style(lo, hi);
        if constexpr (Box_) {
            auto v = values<Box<T>>(lo, hi, [&](Pod& p) { return Box<T>{Make::go(p.key), p.id}; });
            return run_order<false>(v, [&](std::vector<Box<T>>& v) {
                Range<Box<T>> r{v.data(), v.data() + v.size()};
                SimIter<Box<T>, RA> f(r.lo, &r), l(r.hi, &r);
                Lib _; if constexpr (Rev) s(f, l, Cmp{}, BoxProj<T>{}); else s(f, l, BoxProj<T>{});
            }, Ord{}, Value{});
        } else {
            auto v = values<T>(lo, hi, [&](Pod& p) { return Make::go(p.key); });
            return run_order<false>(v, [&](std::vector<T>& v) {
                Range<T> r{v.data(), v.data() + v.size()};
                SimIter<T, RA> f(r.lo, &r), l(r.hi, &r);
                Lib _; if constexpr (Rev) s(SimRange<SimIter<T, RA>>{f, l}, Cmp{}); else s(SimRange<SimIter<T, RA>>{f, l});
            }, Ord{}, Self{});
        }
    }
    template<typename S, typename T>
    void one(const char* s, const char* t)
    {
        std::uint32_t fl = F_READONLY | F_BIG | F_RADIX | F_INTONLY;
        if constexpr (!std::is_same_v<T, bool>) add(s, t, E_POD, C_ARRAY, O_ORDER, fl, run<S, T, false>);
        add(s, std::string(t) + "/proj", E_POD, C_ARRAY, O_ORDER, fl | F_PROJ, run<S, T, true>);
    }
    template<typename S, typename T>
    void rev(const char* s, const char* t)
    {
        std::uint32_t fl = F_READONLY | F_BIG | F_RADIX | F_INTONLY;
        add(s, std::string(t) + "/greater", E_POD, C_ARRAY, O_ORDER, fl, run<S, T, false, true>);
        add(s, std::string(t) + "/greater/proj", E_POD, C_ARRAY, O_ORDER, fl | F_PROJ, run<S, T, true, true>);
    }
    template<typename S, typename T>
    void ends(const char* s, const char* t)
    {
        std::uint32_t fl = F_READONLY | F_BIG | F_RADIX | F_INTONLY;
        add(s, std::string(t) + "/ends", E_POD, C_ARRAY, O_ORDER, fl, run_ends<S, T, false>);
        add(s, std::string(t) + "/ends/greater", E_POD, C_ARRAY, O_ORDER, fl, run_ends<S, T, true>);
    }
    template<typename S, typename T>
    void narrow(const char* s, const char* t)
    {
        std::uint32_t fl = F_READONLY | F_BIG | F_RADIX | F_INTONLY;
        add(s, std::string(t) + "/low", E_POD, C_ARRAY, O_ORDER, fl, run<S, T, false, false, Narrow<T, false>>);
        add(s, std::string(t) + "/high", E_POD, C_ARRAY, O_ORDER, fl, run<S, T, false, false, Narrow<T, true>>);
        add(s, std::string(t) + "/low/greater", E_POD, C_ARRAY, O_ORDER, fl, run<S, T, false, true, Narrow<T, false>>);
        add(s, std::string(t) + "/high/greater", E_POD, C_ARRAY, O_ORDER, fl, run<S, T, false, true, Narrow<T, true>>);
    }
}
