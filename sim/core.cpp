#include "core.h"
#include <algorithm>
#include <cstring>
#include <chrono>
#include <cstdarg>
#include <cstdlib>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#if SIM_ASAN
#   define POISON(p, n) __asan_poison_memory_region((p), (n))
#   define UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#   define POISON(p, n) ((void)0)
#   define UNPOISON(p, n) ((void)0)
#endif

namespace sim
{
    const char* const kind_name[K_COUNT] = {
        "compare", "project", "move_construct", "move_assign", "swap", "alloc", "free", "iter", "clock", "environment", "sorter"
    };
    const char* const vio_name[V_COUNT] = {
        "not_sorted", "not_permutation", "unstable",
        "leaked_memory", "leaked_object", "bad_lifetime", "bad_free", "redzone_write", "write_after_free",
        "read_dead", "read_moved_from", "move_dead", "self_move",
        "iterator_out_of_range", "neighbour_changed",
        "alien_exception", "exception_swallowed", "unexpected_bad_alloc", "terminate", "crash", "hang",
        "modified", "nondeterministic", "interference", "stale_state", "wrong_value", "bound_exceeded", "invalidated",
        "buffer_misuse", "moved_around_proxy", "misaligned"
    };

    Ctx idle_ctx;
    Ctx* g = &idle_ctx;
    std::uint64_t sim_clock = 0, sim_total = 0;

    bool outside_report = false;
    void report(Vio v, const char* fmt, ...)
    {
        Ctx& c = *g;
        if (c.vio == 0) {
            va_list ap; va_start(ap, fmt);
            std::vsnprintf(c.msg, sizeof c.msg, fmt, ap);
            va_end(ap);
        }
        c.vio |= 1u << v;
    }

#if SIM_ASAN
    // AddressSanitizer goes on after a report: memory the library must not touch,
    // in the heap (around and in freed blocks) and on the stack
    void asan_report(const char* text)
    {
        if (!g || !g->in_lib) { outside_report = true; return; }
        const char* t = std::strstr(text, "AddressSanitizer: ");
        char what[48] = "?";
        if (t) { std::size_t k = 0; for (t += 18; *t && *t != ' ' && k < sizeof what - 1; ++t) what[k++] = *t; what[k] = 0; }
        report(V_REDZONE, "access to memory that is not part of a live object (AddressSanitizer: %s of %zu bytes)", what, (std::size_t)__asan_get_report_access_size());
    }
#endif

    void step_cap_hit()
    {
        Ctx& c = *g;
        report(V_HANG, "no end after %llu steps", (unsigned long long)c.steps);
        c.cap = ~0ull >> 8;   // let unwinding run
        throw SimAbort{V_HANG};
    }

    void stall(Ctx& c)
    {
        std::uint64_t now = c.next_stall, best = 0;
        for (auto& f : c.faults) {
            if (f.kind != K_CLOCK || f.at >= CLOCK_READ) continue;
            if (f.at == now) sim_clock += (std::uint64_t)f.param;
            else if (f.at > now && (!best || f.at < best)) best = f.at;
        }
        c.next_stall = best;
        ++c.fired[K_CLOCK];
        ev(c, 0x57a11ull);
    }

    // time that passes around the reading of a clock
    void stall_read(Ctx& c, bool after)
    {
        for (auto& f : c.faults) {
            if (f.kind != K_CLOCK || f.at != CLOCK_READ + 2 * c.cnt[K_CLOCK] + after) continue;
            sim_clock += (std::uint64_t)f.param;
            ++c.fired[K_CLOCK];
            ev(c, 0x57a12ull);
        }
    }

    void env_change(Ctx& c)
    {
        std::uint64_t now = c.next_env; int what = 0;
        for (auto& f : c.faults) if (f.kind == K_ENV && f.at == now) what = f.param;
        std::uint64_t best = ~0ull;
        for (auto& f : c.faults) if (f.kind == K_ENV && f.at > now && f.at < best) best = f.at;
        c.next_env = best;
        if (!c.env_hook) return;
        ++c.fired[K_ENV];
        ev(c, 0xe9f1ull << 20 ^ (unsigned)what);
        Outside _;
        c.env_hook(what);
    }

    void advance_faults(Ctx& c, int k)
    {
        if (k == K_ENV) {
            for (auto& f : c.faults) if (f.kind == k && f.at < c.next_env) c.next_env = f.at;
            return;
        }
        if (k == K_CLOCK) {
            for (auto& f : c.faults) if (f.kind == k && f.at < CLOCK_READ && (!c.next_stall || f.at < c.next_stall)) c.next_stall = f.at;
            return;
        }
        std::uint64_t best = 0;
        for (auto& f : c.faults)
            if (f.kind == k && f.at > c.cnt[k] && (best == 0 || f.at < best)) best = f.at;
        c.next_fault[k] = best;
    }

    void do_fault(int kind, int& param)
    {
        Ctx& c = *g;
        param = 0;
        for (auto& f : c.faults) if (f.kind == kind && f.at == c.cnt[kind]) param = f.param;
        ++c.fired[kind];
        advance_faults(c, kind);
    }

    static void really_throw(Ctx& c, int kind)
    {
        c.token = mix2(c.hash, 77 + kind);
        c.thrown_kind = kind;
        ++c.thrown_count;
        ev(c, 0xf001ull << 40 | (unsigned)kind);
        Outside _;     // building the exception is not library code
        switch (c.exc_type) {
            case 1: throw SimStdFault(c.token);
            case 2: throw (int)(c.token & 0x7fffffff);
            case 3: throw SimUserBadAlloc(c.token);
            default: throw SimFault{c.token};
        }
    }

    void throw_user(int kind)
    {
        int param;
        do_fault(kind, param);
        really_throw(*g, kind);
        __builtin_unreachable();
    }

    ////////////////////////////////////////////////////////////
    // Elem

    void Elem::born()
    {
        const void* volatile* p = const_cast<const void* volatile*>(&self);
        if (*p == this && (state == ST_VALUE || state == ST_MOVED || state == ST_EMPTY))
            report(V_BAD_LIFETIME, "element constructed on top of a live element (id %d)", id);
        *p = this;
        ++g->live_objs;
    }
    void Elem::die()
    {
        if (!alive()) { report(V_BAD_LIFETIME, "destruction of an element that is not alive (id %d)", id); return; }
        const void* volatile* p = const_cast<const void* volatile*>(&self);
        *p = nullptr;
        *const_cast<volatile std::uint32_t*>(&state) = ST_DEAD;
        --g->live_objs;
    }
    void Elem::check_src(const Elem& o) const
    {
        if (!o.alive()) report(V_MOVE_DEAD, "move from an element that is not alive (id %d)", o.id);
    }
    void Elem::assign(Elem& o)
    {
        check_src(o);
        if (!alive()) { report(V_BAD_LIFETIME, "assignment to an element that is not alive"); return; }
        if (&o == this) {
            if (state == ST_VALUE) { report(V_SELF_MOVE, "self-move of element id %d", id); state = ST_MOVED; }
            return;
        }
        take(o);
    }
    void Elem::fault(int kind, Elem* s, Elem* o)
    {
        int param;
        do_fault(kind, param);
        if ((param & 1) && s && s != o) s->assign(*o);     // throws once the assignment is done
        really_throw(*g, kind);
    }
    void swap(Elem& a, Elem& b)
    {
        bool due = seam(K_SWAP, a.id, b.id);
        int param = 0;
        if (due) { do_fault(K_SWAP, param); if (!(param & 1)) really_throw(*g, K_SWAP); }
        if (!a.alive() || !b.alive()) { report(V_MOVE_DEAD, "swap with an element that is not alive"); return; }
        if (g->swap_as_moves && !due) {
            Elem t(std::move(a));
            a = std::move(b);
            b = std::move(t);
        } else if (&a != &b) {
            std::swap(a.key, b.key); std::swap(a.id, b.id); std::swap(a.state, b.state);
        }
        if (due) really_throw(*g, K_SWAP);
    }
    void check_readable(const Elem& e, const char* what)
    {
        if (!e.alive()) report(V_READ_DEAD, "%s reads an element that is not alive", what);
        else if (e.state != ST_VALUE) report(V_READ_MOVED, "%s reads %s element (id %d)", what, e.state == ST_MOVED ? "a moved-from" : "an uninitialised", e.id);
    }

    void wrong_resource(int from, int to)
    {
        report(V_INVALIDATED, "a list node from memory resource %d was given back to resource %d", from, to);
    }
    void oob(const char* what, long off, long size)
    {
        if (!g->in_lib) return;
        report(V_OOB_ITER, "iterator %s outside of the collection: offset %ld of %ld", what, off, size);
        if (off < -6 || off > size + 6) { g->cap = ~0ull >> 8; throw SimAbort{V_OOB_ITER}; }
    }

    void iter_gone() { if (g->in_lib) report(V_READ_MOVED, "an iterator was used after it had been moved from"); }

    std::size_t grant_buffer(std::size_t want)
    {
        Ctx& c = *g;
        std::size_t r = want;
        if (c.buf_grant == -2) r = want / 2;
        else if (c.buf_grant == -3) { r = 0; while ((r + 1) * (r + 1) <= want) ++r; }
        else if (c.buf_grant >= 0) r = (std::size_t)c.buf_grant;
        ev(c, 0xb0ff00000000ull ^ (want << 20) ^ r);
        return r;
    }

    ////////////////////////////////////////////////////////////
    // Heap

    namespace
    {
        constexpr std::size_t ARENA = std::size_t(1) << 30;
        constexpr std::size_t RZ = 32;
        constexpr std::uint64_t CANARY = 0xc0ffee5afe7ea1edull;
        constexpr std::size_t MAXB = 1u << 20;

        struct Hdr { std::uint64_t magic; std::uint32_t block; std::uint32_t pad; };
        struct Block { char* user; std::size_t size; std::size_t align; Ctx* owner; bool live; bool freed_lib; };

        char* arena = nullptr;
        std::size_t lo = 0, hi = ARENA;
        Block* blocks = nullptr;
        std::size_t nblocks = 0, nlive = 0;
        std::size_t dirty_lo = 0, dirty_hi = ARENA;
        HeapCfg cfg;
        std::uint64_t garb_state, pad_state;
        std::uint64_t serial = 1;

        void heap_init()
        {
            if (arena) return;
            void* want = reinterpret_cast<void*>(0x200000000000ull);
            void* p = mmap(want, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if (p == MAP_FAILED) { std::fprintf(stderr, "sim: cannot map arena\n"); _exit(3); }
            arena = static_cast<char*>(p);
            blocks = static_cast<Block*>(std::malloc(sizeof(Block) * MAXB));
        }

        bool in_arena(const void* p) { return arena && p >= arena && p < arena + ARENA; }

        void fill_garbage(char* p, std::size_t n)
        {
            std::uint64_t w = splitmix(garb_state);
            if (cfg.garbage == 0) w = 0;
            std::size_t i = 0;
            for (; i + 8 <= n; i += 8) { std::memcpy(p + i, &w, 8); w = w * 0xd1342543de82ef95ull + 1; if (cfg.garbage == 0) w = 0; }
            for (; i < n; ++i) p[i] = (char)w;
        }

        void check_zone(const Block& b)
        {
#if !SIM_ASAN
            const std::uint64_t* r = reinterpret_cast<const std::uint64_t*>(b.user - RZ);
            for (std::size_t i = 2; i < RZ / 8; ++i)
                if (r[i] != CANARY) { report(V_REDZONE, "write before a %zu-byte block", b.size); return; }
            const char* e = b.user + b.size;
            std::uint64_t can = CANARY;
            for (std::size_t i = 0; i < RZ; ++i)
                if (e[i] != reinterpret_cast<const char*>(&can)[i & 7]) { report(V_REDZONE, "write past a %zu-byte block", b.size); return; }
#else
            (void)b;
#endif
        }

        bool alloc_must_fail(Ctx& c, std::size_t size, bool nothrow)
        {
            std::uint64_t i = c.cnt[K_ALLOC];
            const AllocPlan& a = c.alloc;
            switch (a.mode) {
                case A_NONE: return false;
                case A_ALL: return true;
                case A_SET: return std::binary_search(a.set.begin(), a.set.end(), (std::uint32_t)i);
                case A_RANDOM: return splitmix(c.alloc_rng) % 1000 < a.p1;
                case A_BIGGER: return size > a.p1;
                case A_BUDGET: return c.live_bytes + size > a.p1;
                case A_AFTER: return i > a.p1;
                case A_PREFIX: return i <= a.p1;
                // only the requests whose caller has a plan B
                case A_NOTHROW: return nothrow && splitmix(c.alloc_rng) % 1000 < a.p1;
                case A_NTBIG: return nothrow && size > a.p1;
            }
            return false;
        }

        void* lib_alloc(std::size_t size, std::size_t align, bool nothrow)
        {
            Ctx& c = *g;
            seam(K_ALLOC, (std::uint32_t)(size & 0xfffffff), 0);
            if (c.nmarks < 24) std::memcpy(c.marks[c.nmarks++].cnt, c.cnt, sizeof c.cnt);
            if (!c.no_alloc_faults && alloc_must_fail(c, size, nothrow)) {
                ++c.fired[K_ALLOC];
                ev(c, 0xa110cfa11ull);
                Outside _;
                c.failed_allocs.push_back((std::uint32_t)c.cnt[K_ALLOC]);
                return nullptr;
            }
            if (size > (ARENA >> 3)) return nullptr;   // a request no machine would grant
            if (align < 16) align = 16;
            std::size_t usz = (size + 7) & ~std::size_t(7);
            std::size_t need = usz + 2 * RZ + align + 64;
            if (nblocks >= MAXB || hi - lo < need + (std::size_t(1) << 16)) {
                // the simulated machine is out of memory: one more refused allocation
                if (c.no_alloc_faults) { std::fprintf(stderr, "sim: arena exhausted\n"); _exit(3); }
                ++c.fired[K_ALLOC];
                ev(c, 0xa110cfa12ull);
                Outside _;
                c.failed_allocs.push_back((std::uint32_t)c.cnt[K_ALLOC]);
                return nullptr;
            }
            std::size_t pad = cfg.pad_seed ? (splitmix(pad_state) & 3) * 16 : 0;
            char* base;
            if (cfg.dir == 0) { base = arena + lo + pad; }
            else { hi -= need + pad; hi &= ~std::size_t(15); base = arena + hi; }
            std::uintptr_t u = reinterpret_cast<std::uintptr_t>(base) + RZ;
            u = (u + align - 1) & ~(std::uintptr_t)(align - 1);
            char* user = reinterpret_cast<char*>(u);
            UNPOISON(base, need);
            if (cfg.dir == 0) { lo = (std::size_t)(user + usz + RZ - arena); lo = (lo + 15) & ~std::size_t(15); }
            Hdr h{CANARY ^ serial, (std::uint32_t)nblocks, 0};
            std::memcpy(user - RZ, &h, sizeof h);
            std::uint64_t can = CANARY;
            for (std::size_t i = 2; i < RZ / 8; ++i) std::memcpy(user - RZ + 8 * i, &can, 8);
            for (std::size_t i = 0; i < RZ; ++i) user[size + i] = reinterpret_cast<char*>(&can)[i & 7];
            fill_garbage(user, size);
            POISON(user - RZ, RZ);
            POISON(user + size, RZ - (size & 7 ? 8 - (size & 7) : 0));
            blocks[nblocks++] = Block{user, size, align, &c, true, false};
            ++nlive;
            c.live_bytes += size;
            if (c.live_bytes > c.peak_bytes) c.peak_bytes = c.live_bytes;
            return user;
        }

        void lib_free(void* p, std::size_t size, bool sized)
        {
            Ctx& c = *g;
            char* u = static_cast<char*>(p);
            UNPOISON(u - RZ, sizeof(Hdr));
            Hdr h;
            std::memcpy(&h, u - RZ, sizeof h);
            if (h.magic != (CANARY ^ serial) || h.block >= nblocks || blocks[h.block].user != u) {
                report(V_BAD_FREE, "deallocation of a pointer that was not allocated, or header overwritten");
                return;
            }
            Block& b = blocks[h.block];
            POISON(u - RZ, sizeof(Hdr));
            ++c.cnt[K_FREE];
            if (c.in_lib) { ev(c, ((std::uint64_t)(K_FREE + 1) << 56) ^ (b.size & 0xfffffff)); if (c.on_seam) c.on_seam(c, K_FREE); }
            if (!b.live) { report(V_BAD_FREE, "double deallocation of a %zu-byte block", b.size); return; }
            if (sized && size != b.size) report(V_BAD_FREE, "%zu-byte block deallocated with size %zu", b.size, size);
            check_zone(b);
            b.live = false;
            --nlive;
            if (b.owner) b.owner->live_bytes -= b.size;
            std::memset(b.user, 0xdd, b.size);
            POISON(b.user, b.size);
            (void)c;
        }
    }

    void heap_reset(const HeapCfg& c)
    {
        heap_init();
        cfg = c;
        sim_total += sim_clock; sim_clock = 0;
        env_reset(mix2(c.garbage, c.pad_seed));
        garb_state = c.garbage * 0x9e3779b97f4a7c15ull + 5;
        pad_state = c.pad_seed;
        // small per-run displacement so that blocks do not always start at the same place
        lo = c.pad_seed ? (mix2(c.pad_seed, 3) & 0xff) * 16 : 0;
        hi = ARENA - (c.pad_seed ? (mix2(c.pad_seed, 4) & 0xff) * 16 : 0);
        for (std::size_t i = 0; i < nblocks; ++i) UNPOISON(blocks[i].user, blocks[i].size);
        nblocks = nlive = 0;
        ++serial;
    }

    std::uint64_t heap_live_blocks() { return nlive; }

    void heap_audit()
    {
        Ctx* const saved = g;
        for (std::size_t i = 0; i < nblocks; ++i) {
            Block& b = blocks[i];
            if (b.owner) g = b.owner;
            if (b.live) {
                check_zone(b);
                report(V_LEAK_MEM, "%zu-byte block never deallocated", b.size);
                b.live = false;
                --nlive;
            }
#if !SIM_ASAN
            else if (i < 4096 && b.size <= 65536) {
                const unsigned char* p = reinterpret_cast<const unsigned char*>(b.user);
                for (std::size_t k = 0; k < b.size; ++k)
                    if (p[k] != 0xdd) { report(V_UAF_WRITE, "write to a %zu-byte block after its deallocation", b.size); break; }
            }
#endif
        }
        g = saved;
    }
}

////////////////////////////////////////////////////////////
// Seams on the C++ runtime

namespace
{
    void* sim_new(std::size_t n, std::size_t align, bool nothrow)
    {
        if (sim::g->in_lib) {
            void* p = sim::lib_alloc(n, align, nothrow);
            if (!p && !nothrow) { throw std::bad_alloc(); }
            return p;
        }
        void* p = align > 16 ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
        if (!p && !nothrow) throw std::bad_alloc();
        return p;
    }
    void sim_delete(void* p, std::size_t n, bool sized)
    {
        if (!p) return;
        if (sim::in_arena(p)) sim::lib_free(p, n, sized);
        else std::free(p);
    }
}

void* operator new(std::size_t n) { return sim_new(n, 0, false); }
void* operator new[](std::size_t n) { return sim_new(n, 0, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 0, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim_new(n, 0, true); }
void* operator new(std::size_t n, std::align_val_t a) { return sim_new(n, (std::size_t)a, false); }
void* operator new[](std::size_t n, std::align_val_t a) { return sim_new(n, (std::size_t)a, false); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_new(n, (std::size_t)a, true); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_new(n, (std::size_t)a, true); }
void operator delete(void* p) noexcept { sim_delete(p, 0, false); }
void operator delete[](void* p) noexcept { sim_delete(p, 0, false); }
void operator delete(void* p, std::size_t n) noexcept { sim_delete(p, n, true); }
void operator delete[](void* p, std::size_t n) noexcept { sim_delete(p, n, true); }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p, 0, false); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_delete(p, 0, false); }
void operator delete(void* p, std::size_t n, std::align_val_t) noexcept { sim_delete(p, n, true); }
void operator delete[](void* p, std::size_t n, std::align_val_t) noexcept { sim_delete(p, n, true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p, 0, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p, 0, false); }

////////////////////////////////////////////////////////////
// Time and randomness: while library code runs they come from the simulation

#include <random>
#include <sys/syscall.h>
#include <sys/time.h>

namespace sim
{
    static std::uint64_t env_base = 0, env_rand = 1;

    void env_reset(std::uint64_t seed)
    {
        env_base = mix2(seed, 0x71) % 4000000000000000000ull;
        env_rand = mix2(seed, 0x72);
    }
    static std::uint64_t env_next()
    {
        ev(*g, 0x4a4dull);
        return splitmix(env_rand);
    }
    // the monotonic clock; the wall clock also jumps both ways
    static std::uint64_t mono_now()
    {
        ++g->cnt[K_CLOCK];
        stall_read(*g, false);
        std::uint64_t v = env_base + sim_clock;
        stall_read(*g, true);
        return v;
    }
    static std::uint64_t wall_now()
    {
        ++g->cnt[K_CLOCK];
        stall_read(*g, false);
        std::uint64_t j = splitmix(env_rand);
        return env_base / 2 + 3000000000ull * 1000000000ull % 900000000000000ull + sim_clock + (j % 7200) * 1000000000ull;
    }
#if defined(__GNUC__) && !defined(__clang__)
    __attribute__((noinline, noclone))
#else
    __attribute__((noinline))
#endif
    void paint_stack(std::uint64_t seed)
    {
#if !SIM_ASAN
        constexpr std::size_t N = 24 * 1024 / 8;
        volatile std::uint64_t a[N];
        std::uint64_t w = seed * 0x9e3779b97f4a7c15ull;
        for (std::size_t i = 0; i < N; ++i) a[i] = w;
        asm volatile("" :: "r"(&a[0]) : "memory");
#else
        (void)seed;
#endif
    }
}

namespace std { namespace chrono { inline namespace _V2
{
    steady_clock::time_point steady_clock::now() noexcept
    {
        if (sim::g->in_lib) return time_point(duration((std::int64_t)sim::mono_now()));
        timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
        return time_point(duration(t.tv_sec * 1000000000ll + t.tv_nsec));
    }
    system_clock::time_point system_clock::now() noexcept
    {
        if (sim::g->in_lib) return time_point(duration((std::int64_t)sim::wall_now()));
        timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
        return time_point(duration(t.tv_sec * 1000000000ll + t.tv_nsec));
    }
}}}
std::random_device::result_type std::random_device::_M_getval()
{
    if (sim::g->in_lib) return (result_type)sim::env_next();
    return 4;
}

extern "C"
{
    int clock_gettime(clockid_t id, struct timespec* t) noexcept
    {
        if (!sim::g->in_lib) return (int)syscall(SYS_clock_gettime, id, t);
        std::uint64_t v = id == CLOCK_REALTIME ? sim::wall_now() : sim::mono_now();
        t->tv_sec = (time_t)(v / 1000000000ull); t->tv_nsec = (long)(v % 1000000000ull);
        return 0;
    }
    int gettimeofday(struct timeval* t, void*) noexcept
    {
        timespec s;
        if (!sim::g->in_lib) syscall(SYS_clock_gettime, CLOCK_REALTIME, &s);
        else { std::uint64_t v = sim::wall_now(); s.tv_sec = (time_t)(v / 1000000000ull); s.tv_nsec = (long)(v % 1000000000ull); }
        t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000;
        return 0;
    }
    time_t time(time_t* out) noexcept
    {
        timespec s;
        if (!sim::g->in_lib) syscall(SYS_clock_gettime, CLOCK_REALTIME, &s);
        else s.tv_sec = (time_t)(sim::wall_now() / 1000000000ull);
        if (out) *out = s.tv_sec;
        return s.tv_sec;
    }
    clock_t clock(void) noexcept
    {
        if (sim::g->in_lib) return (clock_t)(sim::mono_now() / 1000);
        timespec s; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &s);
        return (clock_t)(s.tv_sec * 1000000 + s.tv_nsec / 1000);
    }
    int rand(void) noexcept { return sim::g->in_lib ? (int)(sim::env_next() & 0x7fffffff) : 4; }
    long random(void) noexcept { return sim::g->in_lib ? (long)(sim::env_next() & 0x7fffffff) : 4; }
    void srand(unsigned) noexcept {}
}
