// Measures of presortedness straight from their definitions (quadratic and worse)
#include "engine.h"
#include <algorithm>
#include <cstdlib>

namespace sim
{
    namespace
    {
        // Same values in O(n log n), for the big collections; -2 where there is no faster way
        std::int64_t fast_measure(int which, const std::vector<int>& x, const std::vector<int>& s)
        {
            const int n = (int)x.size();
            std::int64_t res = 0;
            switch (which) {
                case P_DIS: {
                    std::vector<int> sm(x);
                    for (int i = n - 2; i >= 0; --i) sm[i] = std::min(sm[i], sm[i + 1]);
                    int pm = x[0], j = 0;
                    for (int i = 0; i < n; ++i) {
                        pm = std::max(pm, x[i]);
                        if (x[i] != pm) continue;
                        while (j + 1 < n && sm[j + 1] < pm) ++j;
                        if (sm[j] < pm) res = std::max<std::int64_t>(res, j - i);
                    }
                    return res;
                }
                case P_ENC: {
                    std::vector<int> head, tail;
                    for (int v : x) {
                        if (!head.empty() && v >= tail.back()) *std::lower_bound(tail.begin(), tail.end(), v, [](int t, int v) { return t > v; }) = v;
                        else if (!head.empty() && v <= head.back()) *std::lower_bound(head.begin(), head.end(), v) = v;
                        else { head.push_back(v); tail.push_back(v); }
                    }
                    return (std::int64_t)head.size() - 1;
                }
                case P_INV: {
                    std::vector<int> bit(n + 2, 0);
                    for (int i = n - 1; i >= 0; --i) {
                        for (int k = x[i]; k > 0; k -= k & -k) res += bit[k];
                        for (int k = x[i] + 1; k <= n; k += k & -k) ++bit[k];
                    }
                    return res;
                }
                case P_MAX:
                    for (int i = 0; i < n; ++i) {
                        auto e = std::equal_range(s.begin(), s.end(), x[i]);
                        int lo = (int)(e.first - s.begin()), hi = (int)(e.second - s.begin()) - 1;
                        res = std::max<std::int64_t>(res, i < lo ? lo - i : i > hi ? i - hi : 0);
                    }
                    return res;
                case P_OSC: {
                    std::vector<std::int64_t> d(n + 2, 0);
                    for (int j = 0; j + 1 < n; ++j) {
                        int lo = std::min(x[j], x[j + 1]), hi = std::max(x[j], x[j + 1]);
                        if (lo + 1 < hi) { ++d[lo + 1]; --d[hi]; }
                    }
                    for (int k = 1; k <= n; ++k) d[k] += d[k - 1];
                    for (int v : x) res += d[v];
                    return res;
                }
                case P_REM: case P_SUS: {
                    std::vector<int> top;
                    for (int v : x) {
                        auto it = which == P_REM ? std::upper_bound(top.begin(), top.end(), v) : std::lower_bound(top.begin(), top.end(), -v);
                        if (it == top.end()) top.push_back(which == P_REM ? v : -v); else *it = which == P_REM ? v : -v;
                    }
                    return which == P_REM ? n - (std::int64_t)top.size() : (std::int64_t)top.size() - 1;
                }
            }
            return -2;
        }
    }

    std::int64_t reference_measure(int which, const std::vector<int>& keys, bool reverse)
    {
        // order isomorphic ranks
        std::vector<int> u(keys);
        std::sort(u.begin(), u.end());
        u.erase(std::unique(u.begin(), u.end()), u.end());
        const int n = (int)keys.size();
        std::vector<int> x(n);
        for (int i = 0; i < n; ++i) {
            int r = (int)(std::lower_bound(u.begin(), u.end(), keys[i]) - u.begin());
            x[i] = reverse ? (int)u.size() - 1 - r : r;
        }
        const bool distinct = (int)u.size() == n;
        if (n < 2) return 0;
        std::vector<int> s(x);
        std::sort(s.begin(), s.end());
        std::int64_t res = 0;
        if (n > 120) { res = fast_measure(which, x, s); if (res != -2) return res; res = 0; }
        switch (which) {
            case P_BLOCK: {
                // elements not followed by the same element as in the sorted sequence
                if (!distinct) return -1;
                for (int i = 0; i < n; ++i) {
                    bool last = x[i] == s[n - 1];
                    if (i + 1 == n) res += !last;
                    else res += last ? 0 : x[i + 1] != s[x[i] + 1];
                }
                return res;
            }
            case P_DIS:
                for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (x[j] < x[i]) res = std::max<std::int64_t>(res, j - i);
                return res;
            case P_ENC: {
                // Skiena: every element goes to the oldest list that it can extend at either
                // end; heads and tails of the lists stay nested
                std::vector<std::pair<int, int>> lists;
                for (int v : x) {
                    bool placed = false;
                    if (!lists.empty()) {
                        if (v >= lists.back().second) { for (auto& l : lists) if (v >= l.second) { l.second = v; placed = true; break; } }
                        else if (v <= lists.back().first) { for (auto& l : lists) if (v <= l.first) { l.first = v; placed = true; break; } }
                    }
                    if (!placed) lists.emplace_back(v, v);
                }
                return (std::int64_t)lists.size() - 1;
            }
            case P_EXC: {
                if (!distinct) return -1;
                std::vector<char> seen(n, 0);
                int cycles = 0;
                for (int i = 0; i < n; ++i) { if (seen[i]) continue; ++cycles; for (int j = i; !seen[j]; j = x[j]) seen[j] = 1; }
                return n - cycles;
            }
            case P_HAM: for (int i = 0; i < n; ++i) res += x[i] != s[i]; return res;
            case P_INV: for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) res += x[j] < x[i]; return res;
            case P_MAX:
                for (int i = 0; i < n; ++i) {
                    int best = n;
                    for (int j = 0; j < n; ++j) if (s[j] == x[i]) best = std::min(best, std::abs(i - j));
                    res = std::max<std::int64_t>(res, best);
                }
                return res;
            case P_MONO: {
                int i = 0, runs = 0;
                while (i < n) {
                    ++runs;
                    int j = i, dir = 0;
                    while (j + 1 < n) {
                        int d = x[j + 1] < x[j] ? -1 : x[j + 1] > x[j];
                        if (d && dir && d != dir) break;
                        if (d) dir = d;
                        ++j;
                    }
                    i = j + 1;
                }
                return runs - 1;
            }
            case P_OSC:
                for (int i = 0; i < n; ++i) for (int j = 0; j + 1 < n; ++j) res += std::min(x[j], x[j + 1]) < x[i] && x[i] < std::max(x[j], x[j + 1]);
                return res;
            case P_REM: case P_SUS: {
                std::vector<int> best(n, 1);
                int m = 1;
                for (int i = 0; i < n; ++i) {
                    for (int j = 0; j < i; ++j) if (which == P_REM ? x[j] <= x[i] : x[j] > x[i]) best[i] = std::max(best[i], best[j] + 1);
                    m = std::max(m, best[i]);
                }
                return which == P_REM ? n - m : m - 1;
            }
            case P_RUNS: for (int i = 0; i + 1 < n; ++i) res += x[i + 1] < x[i]; return res;
        }
        return -1;
    }
}
