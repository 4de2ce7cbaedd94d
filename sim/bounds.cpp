// Scenarios that measure what a call costs.
#include "sched.h"
#include <algorithm>
#include <cmath>

namespace sim
{
    namespace
    {
        std::int64_t param(const Spec& sp, const char* k, std::int64_t d = 0) { auto it = sp.x.find(k); return it == sp.x.end() ? d : it->second; }
        std::uint64_t fold(const Outcome& o) { return mix2(mix2(o.hash, o.result_hash), mix2((std::uint64_t)o.ret, (std::uint64_t)o.exc * 64)); }
        bool fired(const Outcome& o) { for (auto f : o.fired) if (f) return true; return false; }

        // The most that was ever seen on the pinned tree, per component and iterator
        // category: comparisons, moves and iterator operations per n log n (or n log² n),
        // all times 1000; heap bytes per element; stack bytes. limits.inc is written by
        // calibrate.py.
        struct Limit { const char* key; double cmp, mov, iter, heap, stack; };
        const Limit limits[] = {
#if __has_include("limits.inc")
#include "limits.inc"
#endif
            {"", 0, 0, 0, 0, 0}
        };
        const Limit* limit_of(const Subject& s, const char* suffix = "")
        {
            static const std::map<std::string, const Limit*> m = [] { std::map<std::string, const Limit*> m; for (auto& l : limits) m[l.key] = &l; return m; }();
            auto it = m.find(cost_key(s) + suffix);
            return it == m.end() ? nullptr : it->second;
        }
        void keep_max(const std::string& k, double v) { auto& x = stats.maxima[k]; if (v > x) x = v; }

    }

    std::string cost_key(const Subject& s) { return s.family + "|" + s.name.substr(s.family.size() + 1, 2); }
    bool has_limits(const Subject& s) { return limit_of(s) || std::getenv("SIM_CALIBRATE"); }

    Verdict exec_costs(const Spec& sp)
    {
        const TaskSpec& t = sp.tasks[0];
        Outcome o = run_single(sp, t, sp.heap, param(sp, "coll_off"));
        account(o, t);
        Verdict v{o.vio, o.msg, fold(o), fired(o) || param(sp, "adversary")};
        if (param(sp, "adversary")) ++stats.probes["adversarial_inputs"];
        const Subject& s = *find_subject(t.subject);
        std::size_t n = t.keys.size();
        if (n < 64) return v;
        // the guarantee is weaker when memory is short
        const bool weaker = (s.flags & F_NLOG2N) && o.fired[K_ALLOC];
        double lg = std::log2((double)n), u = weaker ? n * lg * lg : n * lg, cmp = 1000 * o.cnt[K_CMP] / u, mov = 1000 * (o.cnt[K_MCTOR] + o.cnt[K_MASSIGN] + 2 * o.cnt[K_SWAP]) / u, it = 1000 * o.cnt[K_ITER] / u;
        std::string k = cost_key(s) + (weaker ? "|short" : "");
        keep_max("cmp " + k, cmp); keep_max("mov " + k, mov); keep_max("iter " + k, it);
        if (const Limit* l = limit_of(s, weaker ? "|short" : "")) {
            auto check = [&](const char* what, double got, double lim) {
                if (got > 2.5 * lim + 500 && !(v.vio & bit(V_BOUND))) {
                    char b[200];
                    std::snprintf(b, sizeof b, "%.0f %s for n=%zu: %.1f times n log%s n, the limit is %.1f", got * u / 1000, what, n, got / 1000, weaker ? "²" : "", (2.5 * lim + 500) / 1000);
                    v.vio |= bit(V_BOUND); v.msg = b;
                }
            };
            check("comparisons", cmp, l->cmp); check("moves", mov, l->mov); check("iterator steps", it, l->iter);
        }
        return v;
    }

    Verdict exec_space(const Spec& sp)
    {
        const TaskSpec& t = sp.tasks[0];
        Outcome o = run_single(sp, t, sp.heap, param(sp, "coll_off"));
        account(o, t);
        Verdict v{o.vio, o.msg, fold(o), fired(o) || param(sp, "adversary")};
        const Subject& s = *find_subject(t.subject);
        std::size_t n = t.keys.size();
        std::string k = cost_key(s);
        if (n >= 64) keep_max("heap " + k, (double)o.peak / n);
        // what grows slower than the number of elements shows with big inputs only
        const std::string suf = s.elem == E_ELEM ? "|e" : "|p";
        if (n >= 1024) keep_max("heap " + k + suf, (double)o.peak / n);
        keep_max("stack " + k, (double)o.stack);
        keep_max("bytes " + k, (double)o.peak);
        if (const Limit* l = limit_of(s)) {
            char b[200];
            double hl = 2 * l->heap * std::max<std::size_t>(n, 64) + 512;
            if (const Limit* big = n >= 1024 ? limit_of(s, suf.c_str()) : nullptr) hl = std::min(hl, (2 * big->heap + 1) * n + 512);
            if ((double)o.peak > hl) { std::snprintf(b, sizeof b, "%llu bytes of heap for n=%zu, the limit is %.0f", (unsigned long long)o.peak, n, hl); v.vio |= bit(V_BOUND); v.msg = b; }
            double sl = 2 * l->stack + 8192;
            if ((double)o.stack > sl) { std::snprintf(b, sizeof b, "%llu bytes of stack for n=%zu, the limit is %.0f", (unsigned long long)o.stack, n, sl); v.vio |= bit(V_BOUND); v.msg = b; }
        }
        return v;
    }

    ////////////////////////////////////////////////////////////
    // adaptive sorts

    const char* const shape_name[SHAPES] = {"sorted", "reversed", "equal", "runs", "displaced", "encroaching", "strictly_sorted"};

    // the kinds of presortedness that a sort is documented to take advantage of
    unsigned shapes_of(const Subject& s)
    {
        static const std::map<std::string, unsigned> m = {
#define B(x) (1u << x)
            {"adaptive_shivers_sorter", B(SH_SORTED) | B(SH_REVERSED) | B(SH_EQUAL) | B(SH_RUNS)},
            {"tim_sorter", B(SH_SORTED) | B(SH_REVERSED) | B(SH_EQUAL) | B(SH_RUNS)},
            {"verge_sorter", B(SH_SORTED) | B(SH_REVERSED) | B(SH_EQUAL) | B(SH_RUNS)},
            {"verge<heap>", B(SH_SORTED) | B(SH_REVERSED) | B(SH_EQUAL) | B(SH_RUNS)},
            {"verge<quick_merge>", B(SH_SORTED) | B(SH_REVERSED) | B(SH_EQUAL) | B(SH_RUNS)},
            {"cartesian_tree_sorter", B(SH_SORTED) | B(SH_REVERSED) | B(SH_EQUAL)},
            {"drop_merge_sorter", B(SH_SORTED) | B(SH_EQUAL) | B(SH_DISPLACED)},
            {"drop_merge<heap>", B(SH_SORTED) | B(SH_EQUAL) | B(SH_DISPLACED)},
            {"drop_merge<spin>", B(SH_SORTED) | B(SH_EQUAL) | B(SH_DISPLACED)},
            {"split_sorter", B(SH_SORTED) | B(SH_EQUAL)},
            {"split<heap>", B(SH_SORTED) | B(SH_EQUAL)},
            {"split<pdq>", B(SH_SORTED) | B(SH_EQUAL)},
            {"split<quick_merge>", B(SH_SORTED) | B(SH_EQUAL)},
            {"split<tim>", B(SH_SORTED) | B(SH_EQUAL)},
            {"insertion_sorter", B(SH_SORTED) | B(SH_EQUAL) | B(SH_DISPLACED)},
            {"list<insertion>", B(SH_SORTED) | B(SH_EQUAL)},
            {"list<mel>", B(SH_SORTED) | B(SH_REVERSED) | B(SH_EQUAL) | B(SH_ENC)},
            {"mel_sorter", B(SH_SORTED) | B(SH_REVERSED) | B(SH_EQUAL) | B(SH_ENC)},
            {"slab_sorter", B(SH_SORTED) | B(SH_REVERSED) | B(SH_EQUAL) | B(SH_ENC)},
            {"pdq_sorter", B(SH_STRICT) | B(SH_REVERSED) | B(SH_EQUAL)},
            {"quick_sorter", B(SH_EQUAL)},
            {"quick_merge_sorter", B(SH_STRICT) | B(SH_REVERSED) | B(SH_EQUAL)},
            {"smooth_sorter", B(SH_SORTED) | B(SH_EQUAL)},
            {"spin_sorter", B(SH_SORTED) | B(SH_REVERSED) | B(SH_EQUAL)},
            {"splay_sorter", B(SH_SORTED) | B(SH_REVERSED) | B(SH_EQUAL)},
            {"wiki_sorter<>", B(SH_STRICT) | B(SH_REVERSED) | B(SH_EQUAL)},
            {"wiki_sorter<fixed0>", B(SH_STRICT) | B(SH_REVERSED) | B(SH_EQUAL)},
            {"wiki_sorter<half>", B(SH_STRICT) | B(SH_REVERSED) | B(SH_EQUAL)},
            {"wiki_sorter<sqrt>", B(SH_STRICT) | B(SH_REVERSED) | B(SH_EQUAL)},
#undef B
        };
        auto it = m.find(s.family);
        return it == m.end() ? 0 : it->second;
    }

    std::vector<int> shaped_keys(Rng& r, std::size_t n, int shape)
    {
        std::vector<int> k(n);
        const int step = (int)r.below(3), dup = 1 + (int)(r.chance(.5) ? r.below(2) : r.below(n));
        auto up = [&](std::size_t a, std::size_t b, int v) { for (; a < b; ++a) { k[a] = v; v += dup == 1 ? 1 + (step ? (int)r.below(step * 3) : 0) : !r.below(dup); } };
        switch (shape) {
            case SH_SORTED: up(0, n, 0); break;
            case SH_STRICT: for (std::size_t i = 0; i < n; ++i) k[i] = (int)i * (1 + step); break;
            case SH_REVERSED: for (std::size_t i = 0; i < n; ++i) k[i] = (int)(n - i) * (1 + step); break;
            case SH_EQUAL: for (auto& x : k) x = 7; break;
            case SH_RUNS: {
                std::size_t at = 0, c = 1 + r.below(4);
                for (std::size_t j = 0; j < c; ++j) {
                    std::size_t end = j + 1 == c ? n : at + (n - at) / (c - j) + r.below(n / 16 + 1);
                    if (end > n) end = n;
                    if (r.chance(.5)) up(at, end, (int)r.below(n));
                    else { int v = (int)(n + r.below(n)) * 3; for (std::size_t i = at; i < end; ++i) { k[i] = v; v -= 1 + (int)r.below(3); } }
                    at = end;
                }
                break;
            }
            case SH_DISPLACED: {
                up(0, n, 0);
                std::size_t c = 1 + r.below(3);
                for (std::size_t j = 0; j < c; ++j) {
                    std::size_t a = r.chance(.3) ? n - 1 : r.below(n), b = r.chance(.3) ? 0 : r.below(n);
                    if (a < b) std::rotate(k.begin() + a, k.begin() + a + 1, k.begin() + b + 1);
                    else std::rotate(k.begin() + b, k.begin() + a, k.begin() + a + 1);
                }
                break;
            }
            case SH_ENC: {
                // every element is a new minimum or a new maximum of one of a few lists
                int lo = 0, hi = 1;
                for (auto& x : k) x = r.chance(.5) ? (lo -= (int)r.below(3)) : (hi += (int)r.below(3));
                std::size_t c = r.below(3);
                for (std::size_t j = 0; j < c; ++j) k[r.below(n)] = 0;
                break;
            }
        }
        return k;
    }

    // (a minimised input must still be what it is said to be)
    bool has_shape(const std::vector<int>& k, int shape)
    {
        const std::size_t n = k.size();
        auto all = [&](auto f) { for (std::size_t i = 1; i < n; ++i) if (!f(k[i - 1], k[i])) return false; return true; };
        switch (shape) {
            case SH_SORTED: return all([](int a, int b) { return a <= b; });
            case SH_STRICT: return all([](int a, int b) { return a < b; });
            case SH_REVERSED: return all([](int a, int b) { return a > b; });
            case SH_EQUAL: return all([](int a, int b) { return a == b; });
            case SH_RUNS: {
                int c = 0;
                for (std::size_t i = 0; i < n; ++c) {
                    std::size_t j = i + 1;
                    if (j < n && k[j] < k[i]) while (j < n && k[j] < k[j - 1]) ++j;
                    else while (j < n && k[j] >= k[j - 1]) ++j;
                    i = j;
                }
                return c <= 8;
            }
            case SH_DISPLACED: {
                std::vector<int> tops;
                for (int x : k) { auto it = std::upper_bound(tops.begin(), tops.end(), x); if (it == tops.end()) tops.push_back(x); else *it = x; }
                return n - tops.size() <= 3;
            }
            case SH_ENC: {
                std::vector<std::pair<int, int>> l;
                for (int x : k) {
                    auto it = std::find_if(l.begin(), l.end(), [&](auto& p) { return x <= p.first || x >= p.second; });
                    if (it == l.end()) l.push_back({x, x});
                    else if (x >= it->second) it->second = x;
                    else it->first = x;
                }
                return l.size() <= 4;
            }
        }
        return false;
    }

    Verdict exec_adaptive(const Spec& sp)
    {
        const TaskSpec& t = sp.tasks[0];
        Outcome o = run_single(sp, t, sp.heap, param(sp, "coll_off"));
        account(o, t);
        Verdict v{o.vio, o.msg, fold(o), fired(o)};
        const Subject& s = *find_subject(t.subject);
        std::size_t n = t.keys.size();
        if (n < 64 || !sp.x.count("shape")) return v;
        int shape = (int)param(sp, "shape");
        if (t.reverse || !has_shape(t.keys, shape)) return v;
        double cmp = 1000. * o.cnt[K_CMP] / n, mov = 1000. * (o.cnt[K_MCTOR] + o.cnt[K_MASSIGN] + 2 * o.cnt[K_SWAP]) / n, it = 1000. * o.cnt[K_ITER] / n;
        // without memory, merging costs more
        if (o.fired[K_ALLOC] && (shape == SH_RUNS || shape == SH_DISPLACED || shape == SH_ENC)) return v;
        std::string suf = std::string("|") + shape_name[shape] + (o.fired[K_ALLOC] ? "|short" : "") + (n >= 2500 ? "|L" : ""), k = cost_key(s) + suf;
        ++stats.probes[std::string("shape_") + shape_name[shape]];
        keep_max("cmp " + k, cmp); keep_max("mov " + k, mov); keep_max("iter " + k, it);
        if (const Limit* l = limit_of(s, suf.c_str())) {
            auto check = [&](const char* what, double got, double lim) {
                if (got > 2 * lim + 1000 && !(v.vio & bit(V_BOUND))) {
                    char b[200];
                    std::snprintf(b, sizeof b, "%.0f %s for n=%zu %s elements: %.1f times n, the limit is %.1f", got * n / 1000, what, n, shape_name[shape], got / 1000, (2 * lim + 1000) / 1000);
                    v.vio |= bit(V_BOUND); v.msg = b;
                }
            };
            check("comparisons", cmp, l->cmp); check("moves", mov, l->mov); check("iterator steps", it, l->iter);
        }
        return v;
    }

    ////////////////////////////////////////////////////////////
    // measures of presortedness and queries

    Verdict exec_measure_costs(const Spec& sp)
    {
        const TaskSpec& t = sp.tasks[0];
        Outcome o = run_single(sp, t, sp.heap, param(sp, "coll_off"));
        account(o, t);
        Verdict v{o.vio, o.msg, fold(o), fired(o) || param(sp, "adversary")};
        if (param(sp, "adversary")) ++stats.probes["adversarial_inputs"];
        const Subject& s = *find_subject(t.subject);
        std::size_t n = t.keys.size();
        if (n < 64 || o.exc != X_NONE) return v;
        const bool shrt = o.fired[K_ALLOC];
        const std::string f = s.family, k0 = cost_key(s);
        int u = 1;
        if (f == "probe::mono" || f == "probe::runs" || (f == "probe::dis" && !shrt && k0.substr(k0.size() - 2) != "fw")) u = 0;
        if (f == "probe::osc" && shrt) u = 2;
        const char* const un[] = {"n", "n log n", "n²"};
        double lg = std::log2((double)n), d = u == 0 ? n : u == 1 ? n * lg : (double)n * n, cmp = 1000 * o.cnt[K_CMP] / d, it = 1000 * o.cnt[K_ITER] / d, pr = 1000 * o.cnt[K_PROJ] / d, heap = 1000. * o.peak / n;
        std::string suf = std::string("|m") + (s.flags & F_PROJ ? "p" : "") + (shrt ? "|short" : "") + (n >= 1024 ? "|L" : ""), k = k0 + suf;
        keep_max("cmp " + k, cmp); keep_max("iter " + k, it); keep_max("mov " + k, pr); keep_max("heap " + k, heap);
        if (const Limit* l = limit_of(s, suf.c_str())) {
            auto check = [&](const char* what, double got, double lim, double per, const char* unit) {
                if (got > 2.5 * lim + 500 && !(v.vio & bit(V_BOUND))) {
                    char b[200];
                    std::snprintf(b, sizeof b, "%.0f %s for n=%zu: %.1f times %s, the limit is %.1f", got * per / 1000, what, n, got / 1000, unit, (2.5 * lim + 500) / 1000);
                    v.vio |= bit(V_BOUND); v.msg = b;
                }
            };
            check("comparisons", cmp, l->cmp, d, un[u]); check("projections", pr, l->mov, d, un[u]); check("iterator steps", it, l->iter, d, un[u]);
            check("bytes of heap", heap, l->heap, n, "n");
        }
        return v;
    }

    ////////////////////////////////////////////////////////////
    // M. D. McIlroy, "A Killer Adversary for Quicksort"

    namespace
    {
        // values not decided yet ("gas") compare above every decided one, below every
        // decided one, or between two ranges of them
        struct Gas
        {
            std::vector<std::int64_t> val; std::int64_t lo = 0, hi = 0, candidate = -1;
            int style = 0; std::uint64_t rng = 1;
            static constexpr std::int64_t GAS = 1 << 20;
            void freeze(std::int64_t i)
            {
                bool low = style == 0 || (style == 2 && ((rng = mix2(rng, 77)) & 1));
                val[i] = low ? lo++ : 2 * GAS - hi++;
            }
            bool less(std::int64_t x, std::int64_t y)
            {
                if (x < 0 || y < 0 || x >= (std::int64_t)val.size() || y >= (std::int64_t)val.size()) return x < y;
                if (val[x] == GAS && val[y] == GAS) freeze(x == candidate ? x : y);
                if (val[x] == GAS) candidate = x; else if (val[y] == GAS) candidate = y;
                return val[x] < val[y];
            }
        };
        bool gas_less(Ctx& c, std::int64_t a, std::int64_t b, bool& r) { r = static_cast<Gas*>(c.user)->less(a, b); return true; }
    }
    std::vector<int> adversary(const TaskSpec& ts, const HeapCfg& h, int style)
    {
        TaskSpec t = ts;
        std::size_t n = t.keys.size();
        for (std::size_t i = 0; i < n; ++i) t.keys[i] = (int)i;
        t.reverse = false;
        t.faults.clear();
        Gas gas; gas.val.assign(n, Gas::GAS); gas.style = style;
        Observe ob; ob.override_cmp = gas_less; ob.user = &gas;
        Spec sp;
        run_single(sp, t, h, 0, ob);
        std::vector<int> k(n);
        for (std::size_t i = 0; i < n; ++i) k[i] = (int)(gas.val[i] == Gas::GAS ? gas.lo++ : gas.val[i] > Gas::GAS ? (std::int64_t)n - 1 - (2 * Gas::GAS - gas.val[i]) : gas.val[i]);
        return k;
    }

    ////////////////////////////////////////////////////////////

    Verdict exec_projections(const Spec& sp)
    {
        const TaskSpec& t = sp.tasks[0];
        std::vector<std::uint32_t> ids;
        Observe ob; ob.proj_ids = &ids;
        Outcome o = run_single(sp, t, sp.heap, param(sp, "coll_off"), ob);
        account(o, t);
        Verdict v{o.vio, o.msg, fold(o), fired(o)};
        std::size_t n = t.keys.size();
        if (n < 2) return v;
        std::vector<int> c(n, 0);
        char b[200] = "";
        for (auto i : ids) {
            if (i >= n) { std::snprintf(b, sizeof b, "something that is not in the collection was projected"); break; }
            if (++c[i] > 1) { std::snprintf(b, sizeof b, "element %u was projected more than once (n=%zu)", i, n); break; }
        }
        if (!*b && o.exc == X_NONE)
            for (std::size_t i = 0; i < n; ++i) if (c[i] != 1) { std::snprintf(b, sizeof b, "element %zu was never projected (n=%zu)", i, n); break; }
        if (!*b && o.cnt[K_PROJ] > n) std::snprintf(b, sizeof b, "%llu projections for %zu elements", (unsigned long long)o.cnt[K_PROJ], n);
        if (*b) { v.vio |= bit(V_WRONG_VALUE); v.msg = b; }
        return v;
    }
}
