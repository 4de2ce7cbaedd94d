#include "engine.h"
#include <algorithm>
#include <cmath>
#include <forward_list>
#include <list>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>


namespace sim
{
    Stats stats;

    std::vector<Subject>& registry() { static std::vector<Subject> r; return r; }
    const Subject* find_subject(const std::string& n)
    {
        for (auto& s : registry()) if (s.name == n) return &s;
        return nullptr;
    }

    ////////////////////////////////////////////////////////////
    // Inputs

    std::size_t gen_size(Rng& r, const Subject& s, int scale)
    {
        if (s.max_n < 0) return (std::size_t)-s.max_n;
        std::size_t n;
        std::uint64_t d = r.below(100);
        const bool big_ok = (s.flags & (F_NLOGN | F_NLOG2N)) && s.coll == C_ARRAY && !(s.flags & F_RADIX) && scale != 0 && s.name.find("merge_insertion") == std::string::npos; // whose list walks are quadratic
        if (d < 3) n = r.below(4);
        else if (d < 40) n = r.range(2, 40);
        else if (d < 78) n = r.range(40, 300);
        else if (d < (scale == 0 ? 99 : 96)) n = r.range(300, 1000);
        else n = r.range(1000, scale == 0 ? 6000 : 4000);
        if (big_ok && s.elem == E_POD && r.chance(.004)) return (std::size_t)(4000. * std::pow(17.5, (double)r.below(1000) / 1000.));
        if (big_ok && s.elem == E_ELEM && r.chance(.0008)) return (std::size_t)(4000. * std::pow(10., (double)r.below(1000) / 1000.));
        if (s.flags & F_QUADRATIC) n = n % 260;
        if (s.flags & F_RADIX) {
            const bool nested = s.name.find("vector") != std::string::npos || s.name.find("string") != std::string::npos || s.name.find("deque") != std::string::npos;
            if (!nested && scale == 2 && r.chance(.02)) return r.range(20000, 75000);
        }
        if (s.flags & F_BIG) { if (s.elem != E_ELEM && r.chance(.08)) n = r.range(2600, 12000); else if (r.chance(.4)) n = r.range(950, 2600); }
        else if (s.elem == E_STRING) n = n % 700;
        if (s.flags & F_RADIX) {
            auto has = [&](const char* w) { return s.name.find(w) != std::string::npos; };
            if ((has("vector_vector") || has("vector_string") || has("pair_vectors")) && n > 400) n = r.range(100, 400);
            else if (has("vector") && n > 1500) n = r.range(300, 1500);
        }
        if (s.max_n > 0) n = n % (s.max_n + 1);
        return n;
    }

    std::vector<int> gen_keys(Rng& r, std::size_t n, std::string* pattern)
    {
        std::vector<int> k(n);
        auto uniq = [&] { for (std::size_t i = 0; i < n; ++i) k[i] = (int)i; };
        auto shuffle = [&] { for (std::size_t i = n; i > 1; --i) std::swap(k[i - 1], k[r.below(i)]); };
        int p = (int)r.below(20);
        const char* nm = "";
        int N = (int)n;
        switch (p) {
            case 0: nm = "shuffled"; uniq(); shuffle(); break;
            case 1: { nm = "random"; static const int rs[] = {2, 3, 5, 16, 64, 1000, 100000}; int m = rs[r.below(7)]; for (auto& x : k) x = (int)r.below(m); break; }
            case 2: nm = "ascending"; uniq(); break;
            case 3: nm = "descending"; for (int i = 0; i < N; ++i) k[i] = N - i; break;
            case 4: nm = "all_equal"; for (auto& x : k) x = 42; break;
            case 5: { nm = "sawtooth"; int m = (int)r.range(2, std::max(2, N / 2 + 1)); for (int i = 0; i < N; ++i) k[i] = i % m; if (r.chance(.5)) std::reverse(k.begin(), k.end()); break; }
            case 6: { nm = "pipe_organ"; for (int i = 0; i < N; ++i) k[i] = i < N / 2 ? i : N - i; if (r.chance(.3)) for (auto& x : k) x = -x; break; }
            case 7: { nm = "nearly_sorted"; uniq(); int s = (int)r.range(1, std::max(1, N / 8)); for (int i = 0; i < s && n; ++i) std::swap(k[r.below(n)], k[r.below(n)]); break; }
            case 8: { nm = "local_swaps"; uniq(); for (int i = 0; i + 1 < N; ++i) if (r.chance(.3)) std::swap(k[i], k[i + 1]); break; }
            case 9: case 10: {
                nm = "runs"; int i = 0; int maxrun = (int)r.range(2, std::max(3, N / 2));
                int span = r.chance(.5) ? N + 1 : (int)r.range(2, 20);
                while (i < N) {
                    int len = (int)r.range(1, maxrun), kind = (int)r.below(4);
                    std::vector<int> seg; for (int j = 0; j < len && i + j < N; ++j) seg.push_back((int)r.below(span));
                    std::sort(seg.begin(), seg.end());
                    if (kind == 1) std::reverse(seg.begin(), seg.end());
                    for (int x : seg) k[i++] = x;
                }
                break;
            }
            case 11: { nm = "push_front"; for (int i = 0; i < N; ++i) k[i] = i; if (n > 1) { std::size_t q = r.chance(.5) ? n : n / 2; int v = r.chance(.5) ? -1 : k[n - 1] + 1; k[q - 1] = v; } break; }
            case 12: { nm = "few_removed"; uniq(); int s = (int)r.range(1, std::max(1, N / 5)); for (int i = 0; i < s && n; ++i) k[r.below(n)] = (int)r.below(n); break; }
            case 13: { nm = "rotated"; uniq(); if (n) std::rotate(k.begin(), k.begin() + r.below(n), k.end()); break; }
            case 14: { nm = "alternating"; uniq(); shuffle(); std::sort(k.begin(), k.end()); for (int i = 0; i < N; ++i) if (i % 2) k[i] = -k[i]; break; }
            case 15: { nm = "sqrt_values"; int m = 1 + (int)std::sqrt((double)N); for (auto& x : k) x = (int)r.below(m); break; }
            case 16: {
                nm = "med3_killer"; uniq(); int h = N / 2;
                for (int i = 0; i < h; ++i) { if (i % 2 == 0) k[i] = i + 1; else k[i] = h + i + (h % 2); if (h + i < N) k[h + i] = (i + 1) * 2; }
                break;
            }
            case 18: {
                // runs long enough for the adaptive sorters to keep, with very short ones in between and at both ends
                nm = "long_and_short_runs"; int span = r.chance(.6) ? N + 1 : (int)r.range(2, 30); int i = 0;
                bool strict = r.chance(.5); int lg = 1; while ((1 << lg) < N) ++lg;
                int big = std::max(2, (int)r.range(N / (2 * lg) + 1, N / 2 + 1));
                while (i < N) {
                    bool lng = r.chance(.5); int len = lng ? (int)r.range(std::max(1, big / 2), big) : (int)r.range(1, 3);
                    if (N - i - len < 3 && r.chance(.5)) len = std::max(1, N - i - 1);
                    std::vector<int> seg; for (int j = 0; j < len && i + j < N; ++j) seg.push_back(strict ? j * (span / len + 1) + (int)r.below(2) : (int)r.below(span));
                    std::sort(seg.begin(), seg.end());
                    if (r.chance(.5)) std::reverse(seg.begin(), seg.end());
                    for (int x : seg) k[i++] = x;
                }
                break;
            }
            case 19: {
                // descending with plateaus: an equal pair must end a strictly descending run
                nm = "plateaus"; int v = N; bool up = r.chance(.4);
                for (int i = 0; i < N; ++i) { k[i] = v; if (!r.chance(.15)) v += up ? 1 : -1; if (r.chance(2. / (N + 4))) up = !up; }
                break;
            }
            case 17: { nm = "sorted_tail_random"; uniq(); std::size_t c = n ? r.below(n) : 0; if (r.chance(.5)) { for (std::size_t i = c; i < n; ++i) k[i] = (int)r.below(n + 1); } else { for (std::size_t i = 0; i < c; ++i) k[i] = (int)r.below(n + 1); } break; }
        }
        if (pattern) *pattern = nm;
        // sometimes offset, mirror or coarsen the keys
        if (r.chance(.15)) { int sh = (int)r.range(1, 4); for (auto& x : k) x >>= sh; }
        if (r.chance(.1)) for (auto& x : k) x = -x;
        return k;
    }

    ////////////////////////////////////////////////////////////
    // Collections

    namespace
    {
        constexpr std::size_t SLOT = std::size_t(1) << 22;
        constexpr int SLOTS = 10, GUARD = 6;
        char* slots = nullptr;
        char* slot_mem(int i)
        {
            if (!slots) {
                void* p = mmap((void*)0x300000000000ull, SLOT * SLOTS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
                if (p == MAP_FAILED) { std::fprintf(stderr, "sim: cannot map collections\n"); _exit(3); }
                slots = (char*)p;
            }
            return slots + SLOT * i;
        }
        std::string str_of(int key)
        {
            // order-preserving enough: equal keys give equal strings
            char b[64];
            if (key % 13 == 0) return std::string((std::size_t)(key & 31), 'a');
            if (key % 17 == 0) return std::string("a-rather-long-prefix-that-defeats-sso-").substr(0, (std::size_t)(key & 31));
            std::snprintf(b, sizeof b, "%s%08d", (key & 3) == 0 ? "" : (key & 3) == 1 ? "prefix-" : "a-rather-long-prefix-that-defeats-sso-", key < 0 ? 1000000 - key : key);
            return b;
        }

        constexpr std::size_t NGUARD = 64;
        template<typename T> T num_of(int k)
        {
            if constexpr (std::is_same_v<T, float>) return k % 7 == 0 ? (float)k * 1e20f : k % 7 == 1 ? (float)k * 0.37f : (k & 2 ? -1.f : 1.f) * (1000.f + (float)k * 0.001f);
            else if constexpr (std::is_same_v<T, double>) return k % 5 == 0 ? (double)k * 1e200 : k % 5 == 1 ? (double)k * 0.013 : (k & 2 ? -1. : 1.) * (1000. + (double)k * 1e-9);
            else if constexpr (std::is_same_v<T, unsigned>) return k & 1 ? (unsigned)k * 2654435761u : (unsigned)k;
            else if constexpr (sizeof(T) == 8) return (T)((std::uint64_t)(std::int64_t)k * ((k & 3) ? 0x300000007ull : 1ull));
            else return (T)k;
        }
        template<typename F> void with_num(int elem, F f)
        {
            switch (elem) {
                case E_INT: f(int{}); break;
                case E_UINT: f(0u); break;
                case E_LLONG: f(0ll); break;
                case E_ULLONG: f(0ull); break;
                case E_SHORT: f((short)0); break;
                case E_UCHAR: f((unsigned char)0); break;
                case E_FLOAT: f(0.f); break;
                case E_DOUBLE: f(0.0); break;
                default: break;
            }
        }

        struct Coll
        {
            void* lo = nullptr; void* hi = nullptr;
            List* list = nullptr;
            FList* flist = nullptr;
            std::vector<const Elem*> nodes;      // address of each id
            std::vector<std::string>* strs = nullptr;
        };
        void guard_zone(void* p, std::size_t n, bool poison)
        {
#if SIM_ASAN
            if (poison) __asan_poison_memory_region(p, n); else __asan_unpoison_memory_region(p, n);
#else
            (void)p; (void)n; (void)poison;
#endif
        }
    }

    Task::Task(const TaskSpec& ts, int slot, std::int64_t coll_off, Observe ob):
        s(find_subject(ts.subject)), t(ts), slot(slot), coll_off(coll_off), n(ts.keys.size()), ob(ob)
    {
        if (!s) { std::fprintf(stderr, "sim: unknown subject %s\n", ts.subject.c_str()); _exit(3); }
    }

    void Task::setup()
    {
        g = &ctx;
        ctx.in_lib = false;
        ctx.reverse = t.reverse && !(s->flags & F_NOREVERSE);
        ctx.swap_as_moves = t.swap_as_moves;
        ctx.exc_type = t.exc_type;
        ctx.buf_grant = t.buf_grant;
        ctx.alloc = t.alloc;
        std::sort(ctx.alloc.set.begin(), ctx.alloc.set.end());
        ctx.alloc_rng = t.alloc.p2;
        ctx.faults = t.faults;
        for (int k = 0; k < K_COUNT; ++k) advance_faults(ctx, k);
        double lg = std::log2((double)n + 2);
        ctx.cap = 20000 + (std::uint64_t)(12.0 * n * n < 4e7 ? 12.0 * n * n : 4e7) + (std::uint64_t)(300.0 * n * lg * lg);
        if (ob.trace) ctx.trace = &out.trace;
        ctx.proj_ids = ob.proj_ids;
        ctx.override_cmp = ob.override_cmp;
        ctx.user = ob.user;

        auto* c = new Coll;
        impl = c;
        char* base = slot_mem(slot) + (coll_off & 0xffff) * 16;
        switch (s->coll) {
            case C_LIST:
                c->list = new List(SimAlloc<Elem>(slot + 1));
                for (std::size_t i = 0; i < n; ++i) { c->list->emplace_back(t.keys[i], (int)i); c->nodes.push_back(&c->list->back()); }
                c->lo = c->list;
                return;
            case C_FLIST: {
                c->flist = new FList(SimAlloc<Elem>(slot + 1));
                auto it = c->flist->before_begin();
                for (std::size_t i = 0; i < n; ++i) { it = c->flist->emplace_after(it, t.keys[i], (int)i); c->nodes.push_back(&*it); }
                c->lo = c->flist;
                return;
            }
            default: break;
        }
        switch (s->elem) {
            case E_ELEM: {
                Elem* e = reinterpret_cast<Elem*>(base);
                for (std::size_t i = 0; i < n + 2 * GUARD; ++i) { e[i].state = 0; e[i].self = nullptr; }
                for (int i = 0; i < GUARD; ++i) { new (e + i) Elem(i & 1 ? 1 << 30 : -(1 << 30), 0xf0000 + i); new (e + GUARD + n + i) Elem(i & 1 ? -(1 << 30) : 1 << 30, 0xf0100 + i); }
                c->lo = e + GUARD; c->hi = e + GUARD + n;
                for (std::size_t i = 0; i < n; ++i) new (e + GUARD + i) Elem(t.keys[i], (int)i);
                guard_zone(e, sizeof(Elem) * GUARD, true); guard_zone(c->hi, sizeof(Elem) * GUARD, true);
                break;
            }
            case E_POD: {
                Pod* e = reinterpret_cast<Pod*>(base);
                for (int i = 0; i < GUARD; ++i) { e[i] = Pod{i & 1 ? 1 << 30 : -(1 << 30), 0xf0000 + i}; e[GUARD + n + i] = Pod{i & 1 ? -(1 << 30) : 1 << 30, 0xf0100 + i}; }
                c->lo = e + GUARD; c->hi = e + GUARD + n;
                for (std::size_t i = 0; i < n; ++i) e[GUARD + i] = Pod{t.keys[i], (int)i};
                guard_zone(e, sizeof(Pod) * GUARD, true); guard_zone(c->hi, sizeof(Pod) * GUARD - (n * sizeof(Pod)) % 8, true);
                break;
            }
            case E_STRING: {
                c->strs = new std::vector<std::string>(n + 2);
                for (std::size_t i = 0; i < n; ++i) (*c->strs)[i + 1] = str_of(t.keys[i]);
                (*c->strs)[0] = "guard"; (*c->strs)[n + 1] = "guard";
                c->lo = c->strs->data() + 1; c->hi = c->strs->data() + 1 + n;
                break;
            }
            default:
                with_num(s->elem, [&](auto z) {
                    using T = decltype(z);
                    std::memset(base, 0x5a, NGUARD); 
                    T* e = reinterpret_cast<T*>(base + NGUARD);
                    std::memset(reinterpret_cast<char*>(e + n), 0x5a, NGUARD);
                    for (std::size_t i = 0; i < n; ++i) e[i] = num_of<T>(t.keys[i]);
                    c->lo = e; c->hi = e + n;
                    guard_zone(base, NGUARD, true);
                });
        }
    }

    void Task::run()
    {
        auto* c = static_cast<Coll*>(impl);
        g = &ctx;
        paint_stack(paint);
        ctx.sp_enter = reinterpret_cast<std::uintptr_t>(__builtin_frame_address(0));
        try {
            out.ret = s->call(c->lo, c->hi);
            out.exc = X_NONE;
        }
        catch (const SimFault& e) { ctx.in_lib = false; out.exc = e.token == ctx.token && ctx.exc_type == 0 ? X_USER : X_ALIEN; }
        catch (const SimStdFault& e) { ctx.in_lib = false; out.exc = e.token == ctx.token && ctx.exc_type == 1 ? X_USER : X_ALIEN; }
        catch (const SimUserBadAlloc& e) { ctx.in_lib = false; out.exc = e.token == ctx.token && ctx.exc_type == 3 ? X_USER : X_ALIEN; }
        catch (int e) { ctx.in_lib = false; out.exc = e == (int)(ctx.token & 0x7fffffff) && ctx.exc_type == 2 ? X_USER : X_ALIEN; }
        catch (const std::bad_alloc& e) { ctx.in_lib = false; out.exc = typeid(e) == typeid(std::bad_alloc) ? X_BADALLOC : X_ALIEN; }
        catch (const SimAbort&) { ctx.in_lib = false; out.exc = X_ABORT; }
        catch (...) { ctx.in_lib = false; out.exc = X_ALIEN; }
        ctx.in_lib = false;
        g = &ctx;
        ev(ctx, 0xe0d0000ull + out.exc);
        ev(ctx, (std::uint64_t)out.ret);
        if (std::uncaught_exceptions() != 0 && !ctx.unwinding_ok) report(V_EXC_ALIEN, "an exception is still in flight after the call");
    }

    void Task::finish()
    {
        auto* c = static_cast<Coll*>(impl);
        g = &ctx;
        const bool done = out.exc == X_NONE;
        const bool user = ctx.thrown_count > 0;
        // how the call ended
        if (done && user) report(V_EXC_SWALLOWED, "an exception thrown by a callback (%s) never reached the caller", kind_name[ctx.thrown_kind]);
        if (out.exc == X_ALIEN) report(V_EXC_ALIEN, "the caller received an exception that no callback threw");
        if (out.exc == X_BADALLOC) {
            if (user) report(V_EXC_SWALLOWED, "std::bad_alloc replaced an exception thrown by a callback (%s)", kind_name[ctx.thrown_kind]);
            else if (ctx.failed_allocs.empty()) report(V_EXC_BADALLOC, "std::bad_alloc although no allocation failed");
            else if (s->flags & F_TOLERANT) report(V_EXC_BADALLOC, "std::bad_alloc from an algorithm documented not to report it");
        }

        std::uint64_t rh = 0x1234567;
        auto fold = [&](std::uint64_t w) { rh = (rh ^ w) * 0x9fb21c651e98df25ull; rh ^= rh >> 31; };
        const bool must_keep = (s->flags & F_READONLY) || ((s->flags & F_INDIRECT) && !done && ctx.cnt[K_MCTOR] + ctx.cnt[K_MASSIGN] + ctx.cnt[K_SWAP] >= 0 &&
            (out.exc == X_BADALLOC || (out.exc == X_USER && (ctx.thrown_kind == K_CMP || ctx.thrown_kind == K_PROJ))));
        const bool want_order = done && (s->flags & F_ORDERED);
        const bool stable = s->flags & F_STABLE;
        const bool rev = ctx.reverse;

        auto check_seq = [&](auto&& key_at, auto&& id_at, std::size_t m) {
            std::vector<char> seen(n, 0);
            bool perm = m == n;
            for (std::size_t i = 0; i < m; ++i) {
                int id = id_at(i); 
                if (id < 0 || (std::size_t)id >= n || seen[id] || key_at(i) != t.keys[id]) { perm = false; break; }
                seen[id] = 1;
            }
            if (!perm) { report(V_NOT_PERM, "the result is not a permutation of the input (n=%zu, found %zu)", n, m); return; }
            if (want_order) {
                for (std::size_t i = 1; i < m; ++i) {
                    int a = key_at(i - 1), b = key_at(i);
                    if (rev) std::swap(a, b);
                    if (b < a) { report(V_NOT_SORTED, "the result is not sorted at position %zu (n=%zu)", i, n); break; }
                    if (stable && a == b && id_at(i - 1) > id_at(i)) { report(V_UNSTABLE, "equivalent elements changed order at position %zu (n=%zu)", i, n); break; }
                }
            }
            if (must_keep)
                for (std::size_t i = 0; i < m; ++i)
                    if (id_at(i) != (int)i) { report(V_MODIFIED, "the collection changed at position %zu (n=%zu)", i, n); break; }
        };

        if (c->list || c->flist) {
            std::vector<const Elem*> seq;
            if (c->list) { for (auto& e : *c->list) { seq.push_back(&e); if (seq.size() > n) break; } }
            else { for (auto& e : *c->flist) { seq.push_back(&e); if (seq.size() > n) break; } }
            if (c->list && seq.size() <= n && c->list->size() != seq.size()) report(V_INVALIDATED, "list size() is %zu but it has %zu nodes", c->list->size(), seq.size());
            if (c->list && seq.size() <= n) {
                // the backward links must agree
                std::size_t i = seq.size(); bool ok = true;
                for (auto it = c->list->end(); i > 0; ) { --it; --i; if (&*it != seq[i]) { ok = false; break; } }
                if (!ok) report(V_INVALIDATED, "backward links of the list are inconsistent");
            }
            if (seq.size() > n) report(V_INVALIDATED, "the list has more nodes than it had before the call");
            bool all = true;
            for (auto* e : seq) { if (!e->alive()) { report(V_READ_DEAD, "a list node holds a dead element"); all = false; } }
            if (done) {
                for (auto* e : seq) if (all && e->state != ST_VALUE) { report(V_NOT_PERM, "a list node is left in a moved-from state"); all = false; }
                if (all) check_seq([&](std::size_t i) { return seq[i]->key; }, [&](std::size_t i) { return seq[i]->id; }, seq.size());
            }
            if (s->flags & F_LINKS) {
                if (ctx.cnt[K_MCTOR] + ctx.cnt[K_MASSIGN] + ctx.cnt[K_SWAP]) report(V_INVALIDATED, "a list algorithm moved elements between nodes");
                if (all && seq.size() < n) report(V_INVALIDATED, "the list lost %zu of its %zu nodes", n - seq.size(), n);
                if (all) for (auto* e : seq) if (e->id >= 0 && (std::size_t)e->id < n && c->nodes[e->id] != e) { report(V_INVALIDATED, "an iterator no longer designates its element"); break; }
            }
            for (auto* e : seq) fold(((std::uint64_t)e->id << 8) ^ e->state);
            delete c->list; delete c->flist;
        } else if (s->elem == E_ELEM) {
            Elem* lo = static_cast<Elem*>(c->lo);
            guard_zone(lo - GUARD, sizeof(Elem) * GUARD, false); guard_zone(lo + n, sizeof(Elem) * GUARD, false);
            bool all = true;
            for (std::size_t i = 0; i < n; ++i) {
                if (!lo[i].alive()) { report(V_BAD_LIFETIME, "position %zu of the collection holds no live element after the call", i); all = false; break; }
            }
            bool full = all;
            for (std::size_t i = 0; all && i < n; ++i) if (lo[i].state != ST_VALUE) { full = false; if (done || must_keep) { report(done && !must_keep ? V_NOT_PERM : V_MODIFIED, "position %zu of the collection is left in a moved-from state", i); break; } }
            if (full && (done || must_keep)) check_seq([&](std::size_t i) { return lo[i].key; }, [&](std::size_t i) { return lo[i].id; }, n);
            for (std::size_t i = 0; i < n; ++i) fold(((std::uint64_t)lo[i].id << 8) ^ lo[i].state);
            for (int i = 0; i < GUARD; ++i) {
                Elem& a = lo[i - GUARD]; Elem& b = lo[n + i];
                if (!a.alive() || !b.alive() || a.state != ST_VALUE || b.state != ST_VALUE || a.id != 0xf0000 + i || b.id != 0xf0100 + i ||
                    a.key != (i & 1 ? 1 << 30 : -(1 << 30)) || b.key != (i & 1 ? -(1 << 30) : 1 << 30)) { report(V_GUARD, "an element next to the sorted range was changed"); break; }
            }
            for (std::size_t i = 0; i < n + 2 * GUARD; ++i) { Elem& e = lo[(std::ptrdiff_t)i - GUARD]; if (e.alive()) e.~Elem(); }
        } else if (s->elem == E_POD) {
            Pod* lo = static_cast<Pod*>(c->lo);
            guard_zone(lo - GUARD, sizeof(Pod) * GUARD, false); guard_zone(lo + n, sizeof(Pod) * GUARD, false);
            if (done || must_keep) check_seq([&](std::size_t i) { return lo[i].key; }, [&](std::size_t i) { return lo[i].id; }, n);
            for (std::size_t i = 0; i < n; ++i) fold((std::uint64_t)lo[i].id << 8);
            for (int i = 0; i < GUARD; ++i)
                if (lo[i - GUARD].id != 0xf0000 + i || lo[n + i].id != 0xf0100 + i) { report(V_GUARD, "an element next to the sorted range was changed"); break; }
        } else if (s->elem >= E_INT) {
            with_num(s->elem, [&](auto z) {
                using T = decltype(z);
                T* lo = static_cast<T*>(c->lo);
                char* base = reinterpret_cast<char*>(lo) - NGUARD;
                guard_zone(base, NGUARD, false);
                if (done || must_keep) {
                    std::vector<T> a, b(lo, lo + n);
                    for (int k : t.keys) a.push_back(num_of<T>(k));
                    if (must_keep) { if (std::memcmp(a.data(), b.data(), n * sizeof(T))) report(V_MODIFIED, "the collection changed (n=%zu)", n); }
                    else {
                        if (want_order && !(rev ? std::is_sorted(b.rbegin(), b.rend()) : std::is_sorted(b.begin(), b.end()))) report(V_NOT_SORTED, "the result is not sorted (n=%zu)", n);
                        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
                        if (n && std::memcmp(a.data(), b.data(), n * sizeof(T))) report(V_NOT_PERM, "the result is not a permutation of the input (n=%zu)", n);
                    }
                }
                for (std::size_t i = 0; i < n; ++i) { std::uint64_t w = 0; std::memcpy(&w, lo + i, sizeof(T)); fold(w); }
                for (std::size_t i = 0; i < NGUARD; ++i)
                    if (base[i] != 0x5a || reinterpret_cast<char*>(lo + n)[i] != 0x5a) { report(V_GUARD, "memory next to the sorted range was changed"); break; }
            });
        } else if (s->elem == E_STRING) {
            auto& v = *c->strs;
            if (done) {
                std::vector<std::string> a, b(v.begin() + 1, v.begin() + 1 + n);
                for (int k : t.keys) a.push_back(str_of(k));
                std::sort(a.begin(), a.end());
                if (want_order && !(rev ? std::is_sorted(b.rbegin(), b.rend()) : std::is_sorted(b.begin(), b.end()))) report(V_NOT_SORTED, "the result is not sorted (n=%zu)", n);
                std::sort(b.begin(), b.end());
                if (a != b) report(V_NOT_PERM, "the result is not a permutation of the input (n=%zu)", n);
            }
            if (v[0] != "guard" || v[n + 1] != "guard") report(V_GUARD, "an element next to the sorted range was changed");
            for (std::size_t i = 0; i < n; ++i) fold(std::hash<std::string>{}(v[i + 1]));
            delete c->strs;
        }
        if (s->op == O_METRIC && done) {
            std::int64_t lo = 0, hi = 0; const char* what = "";
            switch (s->aux) {
                case M_CMP: lo = hi = (std::int64_t)ctx.cnt[K_CMP]; what = "comparisons"; break;
                case M_PROJ: lo = hi = (std::int64_t)ctx.cnt[K_PROJ]; what = "projections"; break;
                case M_MOVES: lo = hi = (std::int64_t)(ctx.cnt[K_MCTOR] + ctx.cnt[K_MASSIGN] + 3 * ctx.cnt[K_SWAP]) - 2 * (std::int64_t)n; what = "moves"; break;
                case M_TIME_NS: lo = (std::int64_t)(ctx.t_last - ctx.t_first); hi = (std::int64_t)(ctx.t_exit - ctx.t_enter); what = "nanoseconds"; break;
                case M_TIME_US: lo = (std::int64_t)(ctx.t_last - ctx.t_first) / 1000; hi = (std::int64_t)(ctx.t_exit - ctx.t_enter) / 1000; what = "microseconds"; break;
            }
            if (out.ret < lo || out.ret > hi) report(V_WRONG_VALUE, "the metric says %lld %s, the simulator saw %lld to %lld", (long long)out.ret, what, (long long)lo, (long long)hi);
        }
        if (s->op == O_PROBE && done) {
            std::int64_t want = reference_measure(s->aux, t.keys, rev);
            if (want >= 0 && out.ret != want) report(V_WRONG_VALUE, "the measure is %lld, its definition gives %lld (n=%zu)", (long long)out.ret, (long long)want, n);
        }
        if ((s->op == O_QUERY || s->op == O_ORDER) && done && out.ret) {
            if (out.ret == 1) report(V_NOT_SORTED, s->op == O_ORDER ? "the sequence is not in the documented order" : "the returned sequence is not sorted");
            else if (out.ret == 2) report(V_NOT_PERM, s->op == O_ORDER ? "the sequence is not a permutation of the input" : "the returned sequence is not a permutation");
            else if (stable) report(V_UNSTABLE, s->op == O_ORDER ? "equivalent elements changed order" : "the returned sequence is not stable");
        }
        if (ctx.live_objs > 0) report(V_LEAK_OBJ, "%lld element(s) never destroyed", (long long)ctx.live_objs);
        else if (ctx.live_objs < 0) report(V_BAD_LIFETIME, "%lld element(s) destroyed twice", (long long)-ctx.live_objs);
        if (ctx.live_callbacks) report(V_LEAK_OBJ, "%lld function object(s) constructed but not destroyed", (long long)ctx.live_callbacks);
        delete c;
        impl = nullptr;
        out.result_hash = rh;
    }

    void collect(Task& k)
    {
        Outcome& o = k.out;
        o.hash = k.ctx.hash;
        o.vio = k.ctx.vio; o.msg = k.ctx.msg;
        std::memcpy(o.cnt, k.ctx.cnt, sizeof o.cnt);
        std::memcpy(o.fired, k.ctx.fired, sizeof o.fired);
        o.steps = k.ctx.steps; o.peak = k.ctx.peak_bytes;
        o.failed = k.ctx.failed_allocs;
        o.stack = k.ctx.sp_low < k.ctx.sp_enter ? k.ctx.sp_enter - k.ctx.sp_low : 0;
        o.t_enter = k.ctx.t_enter; o.t_first = k.ctx.t_first; o.t_last = k.ctx.t_last; o.t_exit = k.ctx.t_exit;
    }

    Outcome run_single(const Spec&, const TaskSpec& t, const HeapCfg& heap, std::int64_t coll_off, Observe ob)
    {
        heap_reset(heap);
        Task k(t, 0, coll_off, ob);
        k.paint = heap.garbage;
        k.setup();
        k.run();
        k.finish();
        heap_audit();
        collect(k);
        static Ctx idle;
        g = &idle;
        return k.out;
    }

    void account(const Outcome& o, const TaskSpec& t)
    {
        ++stats.calls;
        stats.steps += o.steps;
        bool f = false, fa = false, ft = false;
        for (int k = 0; k < K_COUNT; ++k) { stats.fired[k] += o.fired[k]; if (o.fired[k]) { f = true; if (k == K_ALLOC) fa = true; else ft = true; } }
        if (f) ++stats.fault_runs; else ++stats.clean_runs;
        if (fa && ft) ++stats.both_faults;
        switch (o.exc) { case X_NONE: ++stats.done; break; case X_USER: ++stats.user_exc; break; case X_BADALLOC: ++stats.bad_alloc; break; default: ++stats.other; }
        ++stats.subjects[t.subject.substr(0, t.subject.find('/'))];
        if (fa && o.exc == X_NONE) ++stats.probes["completed_after_allocation_failure"];
        if (fa && ft) ++stats.probes["callback_threw_after_allocation_failure"];
        if (o.fired[K_ALLOC] && o.cnt[K_ALLOC] > o.fired[K_ALLOC]) ++stats.probes["partial_memory_granted"];
    }

    ////////////////////////////////////////////////////////////
    // Replay files

    std::string write_spec(const Spec& sp)
    {
        std::ostringstream o;
        o << "cpp-sort-sim-replay 1\n";
        o << "prop " << sp.prop << "\nseed " << sp.seed << "\nindex " << sp.index << "\n";
        o << "heap " << sp.heap.garbage << " " << sp.heap.dir << " " << sp.heap.pad_seed << "\n";
        for (auto& kv : sp.x) o << "x " << kv.first << " " << kv.second << "\n";
        for (auto& t : sp.tasks) {
            o << "task " << t.subject << "\n";
            o << "  opts " << t.reverse << " " << t.swap_as_moves << " " << t.exc_type << " " << t.buf_grant << "\n";
            o << "  keys " << t.keys.size(); for (int k : t.keys) o << " " << k; o << "\n";
            o << "  alloc " << t.alloc.mode << " " << t.alloc.p1 << " " << t.alloc.p2 << " " << t.alloc.set.size(); for (auto i : t.alloc.set) o << " " << i; o << "\n";
            for (auto& f : t.faults) o << "  fault " << kind_name[f.kind] << " " << f.at << " " << f.param << "\n";
        }
        for (auto& s : sp.sched) o << "switch " << s.first << " " << s.second << "\n";
        o << "end\n";
        return o.str();
    }
    bool read_spec(const std::string& text, Spec& sp)
    {
        std::istringstream in(text);
        std::string w; int v;
        if (!(in >> w >> v) || w != "cpp-sort-sim-replay") return false;
        while (in >> w) {
            if (w == "end") return true;
            if (w == "#") { std::getline(in, w); }
            else if (w == "prop") in >> sp.prop;
            else if (w == "seed") in >> sp.seed;
            else if (w == "index") in >> sp.index;
            else if (w == "heap") in >> sp.heap.garbage >> sp.heap.dir >> sp.heap.pad_seed;
            else if (w == "x") { std::string k; std::int64_t val; in >> k >> val; sp.x[k] = val; }
            else if (w == "task") { sp.tasks.emplace_back(); in >> sp.tasks.back().subject; }
            else if (w == "opts") { auto& t = sp.tasks.back(); in >> t.reverse >> t.swap_as_moves >> t.exc_type >> t.buf_grant; }
            else if (w == "keys") { auto& t = sp.tasks.back(); std::size_t n; in >> n; t.keys.resize(n); for (auto& k : t.keys) in >> k; }
            else if (w == "alloc") { auto& t = sp.tasks.back(); std::size_t n; in >> t.alloc.mode >> t.alloc.p1 >> t.alloc.p2 >> n; t.alloc.set.resize(n); for (auto& k : t.alloc.set) in >> k; }
            else if (w == "fault") { std::string k; Fault f{}; in >> k >> f.at >> f.param; for (int i = 0; i < K_COUNT; ++i) if (k == kind_name[i]) f.kind = i; sp.tasks.back().faults.push_back(f); }
            else if (w == "switch") { std::uint64_t a; int b; in >> a >> b; sp.sched.emplace_back(a, b); }
            else return false;
        }
        return false;
    }
}
