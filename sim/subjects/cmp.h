// The library's own comparators over values where orders are subtle, sorted by several
// sorters while memory is refused, callbacks and facets throw, and the global locale changes.
#ifndef SIM_SUBJECTS_CMP_H_
#define SIM_SUBJECTS_CMP_H_

#include "../subjects.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <locale>

namespace sim
{
    ////////////////////////////////////////////////////////////
    // Values

    template<typename T> struct Box { T value; int id; };

    template<typename T>
    struct BoxProj
    {
        const T& operator()(const Box<T>& b) const { if (seam(K_PROJ, b.id, 0)) throw_user(K_PROJ); return b.value; }
    };

    template<typename T>
    T float_of(int k, bool nan)
    {
        using L = std::numeric_limits<T>;
        unsigned u = (unsigned)k;
        switch (u % 29) {
            case 0: return nan ? L::quiet_NaN() : T(1);
            case 1: return nan ? -L::quiet_NaN() : T(-1);
            case 2: return L::infinity();
            case 3: return -L::infinity();
            case 4: return T(0);
            case 5: return -T(0);
            case 6: return L::denorm_min() * T(1 + u % 3);
            case 7: return -L::denorm_min();
            case 8: return L::max();
            case 9: return L::lowest();
            default: return (u & 1 ? T(1) : T(-1)) * T(k % 1000) * T(0.25);
        }
    }
    template<typename T>
    T int_of(int k)
    {
        using L = std::numeric_limits<T>;
        unsigned u = (unsigned)k;
        switch (u % 17) {
            case 0: return L::max();
            case 1: return L::lowest();
            case 2: return T(0);
            case 3: return T(-1);
            default: return (T)((long long)k * 0x100000001ll);
        }
    }
    // reference orders, from the documentation: rank and value
    template<typename T> int rank_total(T x) { return std::isnan(x) ? 2 : std::isinf(x) ? 1 : 0; }
    template<typename T> int order_total(T a, T b, bool zeros)
    {
        int sa = std::signbit(a) ? -1 : 1, sb = std::signbit(b) ? -1 : 1;
        int ra = sa * rank_total(a), rb = sb * rank_total(b);
        if (ra || rb) return ra < rb ? -1 : ra > rb;
        if (a == b) return a == 0 && zeros ? (sa < sb ? -1 : sa > sb) : 0;
        return a < b ? -1 : 1;
    }
    struct OrderTotal
    {
        template<typename T> int operator()(const T& a, const T& b) const
        {
            if constexpr (std::is_floating_point_v<T>) return order_total(a, b, true); else return a < b ? -1 : b < a;
        }
    };
    struct OrderWeak
    {
        template<typename T> int operator()(const T& a, const T& b) const
        {
            if constexpr (std::is_floating_point_v<T>) return order_total(a, b, false); else return a < b ? -1 : b < a;
        }
    };
    template<typename T> bool same_value(const T& a, const T& b)
    {
        if constexpr (std::is_floating_point_v<T>) return order_total(a, b, true) == 0; else return a == b;
    }

    // a read-only text whose iterators know their bounds
    template<typename C>
    struct Text
    {
        using It = SimIter<const C, FW>;
        Range<const C>* r = nullptr;
        It begin() const { return It(r->lo, r); }
        It end() const { return It(r->hi, r); }
        friend bool operator==(const Text& a, const Text& b) { return a.r->hi - a.r->lo == b.r->hi - b.r->lo && std::equal(a.r->lo, a.r->hi, b.r->lo); }
    };
    template<typename S> S text_of(int k, const char* alphabet, int letters)
    {
        using C = typename S::value_type;
        std::uint64_t s = (std::uint64_t)(unsigned)k * 77 + 5;
        S r;
        // short texts with long common prefixes, so that comparisons get far
        int groups = (int)(splitmix(s) % 4);
        for (int i = 0; i <= groups; ++i) {
            std::uint64_t z = splitmix(s);
            int len = (int)(z % 4);
            // now and then a long run of letters or digits
            if ((z >> 8) % 24 == 0) {
                C c = (C)(unsigned char)alphabet[(z >> 16) % letters];
                len = (int)((z >> 32) % 3);
                for (int j = 0, m = 1 + (int)((z >> 40) % 40); j < m; ++j) r.push_back(j && (z >> 34) % 3 == 0 ? (C)(unsigned char)alphabet[splitmix(s) % letters] : c);
            }
            for (int j = 0; j < len; ++j) { z = splitmix(s); r.push_back((C)(unsigned char)alphabet[z % letters]); }
        }
        return r;
    }

    ////////////////////////////////////////////////////////////
    // Locales

    // Tables: 0 lower-cases letters, 1 also reverses their order, 2 leaves them alone
    inline unsigned fold_char(unsigned c, int table)
    {
        if (table == 2) return c;
        if (c >= 'A' && c <= 'Z') c += 'a' - 'A';
        if (table == 1 && c >= 'a' && c <= 'z') c = 'a' + ('z' - c);
        return c;
    }
    // Facets live in slots that are not used again soon: a use after their destruction is seen
    template<typename C> struct CtypeBase;
    template<> struct CtypeBase<char>: std::ctype<char> { explicit CtypeBase(std::size_t r): std::ctype<char>(nullptr, false, r) {} };
    template<> struct CtypeBase<wchar_t>: std::ctype<wchar_t> { explicit CtypeBase(std::size_t r): std::ctype<wchar_t>(r) {} };
    template<typename C>
    struct SimCtype: CtypeBase<C>
    {
        int table, magic;
        explicit SimCtype(int t, std::size_t refs = 0, int magic = 0x11fe): CtypeBase<C>(refs), table(t), magic(magic) {}
        ~SimCtype() override = default;

        static constexpr int SLOTS = 256;
        static constexpr std::size_t SLOT = 4096;
        static unsigned char* slot(int i) { alignas(16) static unsigned char pool[SLOTS * SLOT]; return pool + i * SLOT; }
        static int& used() { static int u = 0; return u; }
        static void* operator new(std::size_t) { return slot(used()++ % SLOTS); }
        static void* operator new(std::size_t, void* p) { return p; }
        static void operator delete(void* p) { Outside _; new (p) SimCtype(0, 1, 0xdead); }
        static void operator delete(void*, void*) {}

        using CtypeBase<C>::do_tolower;
        C do_tolower(C c) const override
        {
            if (magic != 0x11fe) report(V_READ_DEAD, "a facet was used after its locale had gone");
            if (seam(K_CMP, (unsigned)c & 0xffff, (unsigned)table)) throw_user(K_CMP);
            return (C)fold_char(sizeof(C) == 1 ? (unsigned char)c : (unsigned)c, table);
        }
    };
    inline std::locale make_locale(int table)
    {
        return std::locale(std::locale(std::locale::classic(), new SimCtype<char>(table)), new SimCtype<wchar_t>(table));
    }
    // the global locale during one call: table 0 at first, or what the fault at step 0 says
    struct GlobalLocale
    {
        int table = 0;
        GlobalLocale()
        {
            for (auto& f : g->faults) if (f.kind == K_ENV && f.at == 0) table = f.param % 3;
            if (g->next_env == 0) { g->env_hook = nullptr; env_change(*g); }
            change(table);
            g->env_hook = change;
        }
        ~GlobalLocale() { g->env_hook = nullptr; std::locale::global(std::locale::classic()); }
        static void change(int t) { std::locale::global(make_locale(t % 3)); }
    };
    struct OrderFold
    {
        int table;
        template<typename S> int operator()(const S& a, const S& b) const
        {
            auto i = a.begin(), j = b.begin();
            using C = std::decay_t<decltype(*i)>;
            auto f = [&](C c) { return (C)fold_char(sizeof(C) == 1 ? (unsigned char)c : (unsigned)c, table); };
            for (; i != a.end() && j != b.end(); ++i, ++j) { C x = f(*i), y = f(*j); if (x != y) return x < y ? -1 : 1; }
            return i != a.end() ? 1 : j != b.end() ? -1 : 0;
        }
    };
    struct OrderNatural
    {
        // a text is a sequence of numbers and other characters
        template<typename S> static std::vector<std::string> tokens(const S& s)
        {
            std::vector<std::string> v; bool num = false;
            for (char c : s) {
                bool d = c >= '0' && c <= '9';
                if (d && num) v.back().push_back(c); else v.push_back(std::string(1, c));
                num = d;
            }
            for (auto& t : v) if (t[0] >= '0' && t[0] <= '9') { std::size_t z = t.find_first_not_of('0'); t = "0" + (z == std::string::npos ? "" : t.substr(z)); }
            return v;
        }
        template<typename S> int operator()(const S& a, const S& b) const
        {
            auto x = tokens(a), y = tokens(b);
            for (std::size_t i = 0; i < x.size() && i < y.size(); ++i) {
                auto& p = x[i]; auto& q = y[i];
                bool dp = p[0] >= '0' && p[0] <= '9', dq = q[0] >= '0' && q[0] <= '9';
                if (dp && dq) { if (p.size() != q.size()) return p.size() < q.size() ? -1 : 1; if (p != q) return p < q ? -1 : 1; }
                else if (dp != dq || p != q) return p[0] < q[0] ? -1 : 1;
            }
            return x.size() < y.size() ? -1 : x.size() > y.size();
        }
    };

    ////////////////////////////////////////////////////////////
    // Runs

    // sorts with comparator C, then compares with what the reference order gives
    template<bool Stable, typename V, typename Sort, typename Order, typename Get>
    std::int64_t run_order(std::vector<V>& v, Sort sort, Order order, Get get)
    {
        std::vector<V> before = v;
        sort(v);
        auto less = [&](const V& a, const V& b) { return order(get(a), get(b)) < 0; };
        for (std::size_t i = 1; i < v.size(); ++i) if (less(v[i], v[i - 1])) return 1;
        auto eq = [&](const V& a, const V& b) {
            if constexpr (std::is_same_v<V, std::decay_t<decltype(get(a))>>) {
                if constexpr (std::is_arithmetic_v<V>) return same_value(a, b);
                else return a == b;
            } else return a.id == b.id;
        };
        std::stable_sort(before.begin(), before.end(), less);
        if (std::equal(v.begin(), v.end(), before.begin(), eq)) return 0;
        // the same elements in another order of equivalent ones?
        std::size_t i = 0;
        while (i < v.size()) {
            std::size_t j = i + 1;
            while (j < v.size() && !less(v[i], v[j])) ++j;
            std::vector<char> used(j - i, 0);
            for (std::size_t k = i; k < j; ++k) {
                bool found = false;
                for (std::size_t m = i; m < j && !found; ++m) if (!used[m - i] && eq(v[k], before[m])) { used[m - i] = 1; found = true; }
                if (!found) return 2;
            }
            i = j;
        }
        return Stable ? 3 : 0;
    }
    template<typename V, typename F>
    std::vector<V> values(void* lo, void* hi, F f)
    {
        std::vector<V> v;
        for (Pod* p = static_cast<Pod*>(lo); p != hi; ++p) v.push_back(f(*p));
        return v;
    }
    struct Self { template<typename T> const T& operator()(const T& x) const { return x; } };
    struct Value { template<typename T> const auto& operator()(const T& x) const { return x.value; } };

    // numbers, compared directly or through a projection
    template<typename Sorter, typename T, bool NaN, bool Stable, typename Compare, typename Order, bool Flip, bool Box_>
    std::int64_t numbers(void* lo, void* hi)
    {
        const Sorter& s = shared_sorter<Sorter>();
        auto val = [](int k) { if constexpr (std::is_floating_point_v<T>) return float_of<T>(k, NaN); else return int_of<T>(k); };
        auto ord = [](const T& a, const T& b) { return Flip ? Order{}(b, a) : Order{}(a, b); };
        if constexpr (Box_) {
            auto v = values<Box<T>>(lo, hi, [&](Pod& p) { return Box<T>{val(p.key), p.id}; });
            return run_order<Stable>(v, [&](std::vector<Box<T>>& v) {
                Range<Box<T>> r{v.data(), v.data() + v.size()};
                SimIter<Box<T>, RA> f(r.lo, &r), l(r.hi, &r);
                Lib _; s(f, l, Compare{}, BoxProj<T>{});
            }, ord, Value{});
        } else {
            auto v = values<T>(lo, hi, [&](Pod& p) { return val(p.key); });
            return run_order<Stable>(v, [&](std::vector<T>& v) {
                Range<T> r{v.data(), v.data() + v.size()};
                SimIter<T, RA> f(r.lo, &r), l(r.hi, &r);
                Lib _; s(SimRange<SimIter<T, RA>>{f, l}, Compare{});
            }, ord, Self{});
        }
    }
}

#endif
