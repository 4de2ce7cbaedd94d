// natural and case-insensitive orders of texts
#include "cmp.h"
#include <cpp-sort/adapters/schwartz_adapter.h>
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/comparators/case_insensitive_less.h>
#include <cpp-sort/comparators/flip.h>
#include <cpp-sort/comparators/natural_less.h>
#include <cpp-sort/comparators/projection_compare.h>
#include <cpp-sort/sorters/heap_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/pdq_sorter.h>
#include <cpp-sort/sorters/quick_merge_sorter.h>
#include <cpp-sort/sorters/spin_sorter.h>
#include <cpp-sort/sorters/tim_sorter.h>
using namespace cppsort;
using namespace sim;
namespace
{
    const char natural_alphabet[] = "0011299./:aB-";
    const char fold_alphabet[] = "aAbBzZ09._[`{";

    template<typename V, typename S>
    void sort_with(const S& s, std::vector<V>& v)
    {
        Range<V> r{v.data(), v.data() + v.size()};
        SimIter<V, RA> f(r.lo, &r), l(r.hi, &r);
        s(f, l);
    }
    template<typename V, typename Fn>
    void with_iters(std::vector<V>& v, Fn fn)
    {
        Range<V> r{v.data(), v.data() + v.size()};
        SimIter<V, RA> f(r.lo, &r), l(r.hi, &r);
        Lib _;
        fn(f, l);
    }
    // texts whose iterators check their bounds
    struct Pool
    {
        std::vector<std::string> s; std::vector<Range<const char>> r;
        std::vector<Text<char>> make(void* lo, void* hi, const char* alphabet, int letters)
        {
            std::vector<Text<char>> v;
            for (Pod* p = static_cast<Pod*>(lo); p != hi; ++p) s.push_back(text_of<std::string>(p->key, alphabet, letters));
            for (auto& x : s) r.push_back(Range<const char>{x.data(), x.data() + x.size()});
            for (auto& x : r) v.push_back(Text<char>{&x});
            return v;
        }
    };

    template<typename Sorter, bool St, bool Flip, int Kind>
    std::int64_t natural(void* lo, void* hi)
    {
        const Sorter& s = shared_sorter<Sorter>();
        auto ord = [](const auto& a, const auto& b) { return Flip ? OrderNatural{}(b, a) : OrderNatural{}(a, b); };
        auto cmp = [] { if constexpr (Flip) return flip(natural_less); else return natural_less_t{}; }();
        if constexpr (Kind == 0) {
            auto v = values<std::string>(lo, hi, [&](Pod& p) { return text_of<std::string>(p.key, natural_alphabet, sizeof natural_alphabet - 1); });
            return run_order<St>(v, [&](auto& v) { with_iters(v, [&](auto f, auto l) { s(f, l, cmp); }); }, ord, Self{});
        } else if constexpr (Kind == 1) {
            Pool pool;
            auto v = pool.make(lo, hi, natural_alphabet, sizeof natural_alphabet - 1);
            return run_order<St>(v, [&](auto& v) { with_iters(v, [&](auto f, auto l) { s(f, l, cmp); }); }, ord, Self{});
        } else {
            auto v = values<Box<std::string>>(lo, hi, [&](Pod& p) { return Box<std::string>{text_of<std::string>(p.key, natural_alphabet, sizeof natural_alphabet - 1), p.id}; });
            return run_order<St>(v, [&](auto& v) { with_iters(v, [&](auto f, auto l) {
                if constexpr (Kind == 2) s(f, l, cmp, BoxProj<std::string>{});
                else s(f, l, projection_compare<decltype(cmp), BoxProj<std::string>>(cmp, BoxProj<std::string>{}));
            }); }, ord, Value{});
        }
    }
    template<typename Str>
    Str fold_text(int k)
    {
        return text_of<Str>(k, fold_alphabet, sizeof fold_alphabet - 1);
    }
    // Kind 0: global locale; 1: a locale passed on; 2: the same with a projection; 3: checked texts, global locale;
    // 4: a refined comparator outliving the locale and the comparator it was made from
    template<typename Sorter, bool St, bool Flip, int Kind, typename Str>
    std::int64_t folded(void* lo, void* hi)
    {
        const Sorter& s = shared_sorter<Sorter>();
        GlobalLocale gl;
        int table = gl.table;
        if (Kind == 1 || Kind == 2 || Kind == 4) table = (table + 1) % 3;
        auto ord = [&](const auto& a, const auto& b) { return Flip ? OrderFold{table}(b, a) : OrderFold{table}(a, b); };
        auto cmp = [&] {
            if constexpr (Kind == 0 || Kind == 3) { if constexpr (Flip) return flip(case_insensitive_less.refine<Str>()); else return case_insensitive_less_t{}; }
            else if constexpr (Kind == 4) { auto c = case_insensitive_less(make_locale(table)).template refine<Str>(); if constexpr (Flip) return flip(c); else return c; }
            else { auto c = case_insensitive_less(make_locale(table)); if constexpr (Flip) return flip(c); else return c; }
        }();
        if constexpr (Kind == 3) {
            Pool pool;
            auto v = pool.make(lo, hi, fold_alphabet, sizeof fold_alphabet - 1);
            return run_order<St>(v, [&](auto& v) { with_iters(v, [&](auto f, auto l) { s(f, l, cmp); }); }, ord, Self{});
        } else if constexpr (Kind == 2) {
            auto v = values<Box<Str>>(lo, hi, [&](Pod& p) { return Box<Str>{fold_text<Str>(p.key), p.id}; });
            return run_order<St>(v, [&](auto& v) { with_iters(v, [&](auto f, auto l) { s(f, l, std::move(cmp), BoxProj<Str>{}); }); }, ord, Value{});
        } else {
            auto v = values<Str>(lo, hi, [&](Pod& p) { return fold_text<Str>(p.key); });
            return run_order<St>(v, [&](auto& v) { with_iters(v, [&](auto f, auto l) { s(f, l, std::move(cmp)); }); }, ord, Self{});
        }
    }
    template<typename S, bool St, bool Flip>
    void fam(const char* s, std::uint32_t fl)
    {
        fl |= F_READONLY | F_QUADRATIC | (St ? F_STABLE : 0);
        std::string f = std::string(Flip ? "flip_" : "") + "natural_less<" + s + ">";
        add(f, "string", E_POD, C_ARRAY, O_ORDER, fl, natural<S, St, Flip, 0>);
        add(f, "text", E_POD, C_ARRAY, O_ORDER, fl, natural<S, St, Flip, 1>);
        add(f, "string/proj", E_POD, C_ARRAY, O_ORDER, fl | F_PROJ, natural<S, St, Flip, 2>);
        add(f, "string/projcmp", E_POD, C_ARRAY, O_ORDER, fl | F_PROJ, natural<S, St, Flip, 3>);
        fl |= F_GLOBAL;
        f = std::string(Flip ? "flip_" : "") + "case_insensitive_less<" + s + ">";
        add(f, "string", E_POD, C_ARRAY, O_ORDER, fl, folded<S, St, Flip, 0, std::string>);
        add(f, "string/loc", E_POD, C_ARRAY, O_ORDER, fl, folded<S, St, Flip, 1, std::string>);
        add(f, "string/refined", E_POD, C_ARRAY, O_ORDER, fl, folded<S, St, Flip, 4, std::string>);
        add(f, "wstring/refined", E_POD, C_ARRAY, O_ORDER, fl, folded<S, St, Flip, 4, std::wstring>);
        add(f, "string/loc/proj", E_POD, C_ARRAY, O_ORDER, fl | F_PROJ, folded<S, St, Flip, 2, std::string>);
        if (!Flip) add(f, "text", E_POD, C_ARRAY, O_ORDER, fl, folded<S, St, false, 3, std::string>);
        add(f, "wstring", E_POD, C_ARRAY, O_ORDER, fl, folded<S, St, Flip, 0, std::wstring>);
        add(f, "wstring/loc", E_POD, C_ARRAY, O_ORDER, fl, folded<S, St, Flip, 1, std::wstring>);
    }
    int go()
    {
        fam<stable_adapter<heap_sorter>, true, false>("stable<heap>", 0);
        fam<tim_sorter, true, true>("tim", 0);
        return 0;
    }
    const int reg = go();
}
