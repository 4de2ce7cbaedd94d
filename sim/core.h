// Deterministic simulation core for cpp-sort.
//
// Everything a cpp-sort call can observe besides its input goes through a seam
// owned by this file: the heap (global operator new/delete), element moves,
// swaps, construction and destruction, comparisons, projections, iterator
// operations, the clock and the choice of which caller runs next. Each seam
// appends to a rolling event hash, counts a step, may inject a planned fault
// and may hand control to another simulated caller.
#ifndef SIM_CORE_H_
#define SIM_CORE_H_

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <iterator>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#   include <sanitizer/asan_interface.h>
#   include <sanitizer/common_interface_defs.h>
#   define SIM_ASAN 1
#else
#   define SIM_ASAN 0
#endif

namespace sim
{
    ////////////////////////////////////////////////////////////
    // PRNG: one integer decides everything

    inline std::uint64_t splitmix(std::uint64_t& s)
    {
        std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    inline std::uint64_t mix2(std::uint64_t a, std::uint64_t b)
    {
        std::uint64_t s = a * 0x9e3779b97f4a7c15ull + b;
        splitmix(s);
        return splitmix(s);
    }

    struct Rng
    {
        std::uint64_t s[4];
        explicit Rng(std::uint64_t seed = 1) { for (auto& x : s) x = splitmix(seed); }
        static std::uint64_t rotl(std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
        std::uint64_t next()
        {
            std::uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
            s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
            s[2] ^= t; s[3] = rotl(s[3], 45);
            return r;
        }
        // uniform in [0, n)
        std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
        // uniform in [a, b]
        std::int64_t range(std::int64_t a, std::int64_t b) { return a + (std::int64_t)below((std::uint64_t)(b - a + 1)); }
        bool chance(double p) { return (double)(next() >> 11) * 0x1.0p-53 < p; }
    };

    ////////////////////////////////////////////////////////////
    // Operations that go through a seam

    enum Kind { K_CMP, K_PROJ, K_MCTOR, K_MASSIGN, K_SWAP, K_ALLOC, K_FREE, K_ITER, K_CLOCK, K_ENV, K_SORTER, K_COUNT };
    extern const char* const kind_name[K_COUNT];

    ////////////////////////////////////////////////////////////
    // What an oracle can report

    enum Vio : int {
        V_NOT_SORTED, V_NOT_PERM, V_UNSTABLE,
        V_LEAK_MEM, V_LEAK_OBJ, V_BAD_LIFETIME, V_BAD_FREE, V_REDZONE, V_UAF_WRITE,
        V_READ_DEAD, V_READ_MOVED, V_MOVE_DEAD, V_SELF_MOVE,
        V_OOB_ITER, V_GUARD,
        V_EXC_ALIEN, V_EXC_SWALLOWED, V_EXC_BADALLOC, V_TERMINATE, V_CRASH, V_HANG,
        V_MODIFIED, V_NONDET, V_INTERFERE, V_STALE, V_WRONG_VALUE, V_BOUND, V_INVALIDATED,
        V_BUFFER, V_PROXY, V_MISALIGNED, V_COUNT
    };
    extern const char* const vio_name[V_COUNT];

    ////////////////////////////////////////////////////////////
    // Faults

    struct Fault { int kind; std::uint64_t at; int param; };   // the at-th operation of that kind throws (1-based)

    // Exceptions thrown by simulated user code
    struct SimFault { std::uint64_t token; };
    struct SimStdFault: std::runtime_error { std::uint64_t token; explicit SimStdFault(std::uint64_t t): std::runtime_error("sim"), token(t) {} };
    struct SimUserBadAlloc: std::bad_alloc { std::uint64_t token; explicit SimUserBadAlloc(std::uint64_t t): token(t) {} };
    // Thrown by the simulator to stop a run that exceeded its step budget
    struct SimAbort { int why; };

    // Allocation-failure policies; whatever the policy, the indices that
    // actually failed are recorded so that a run can be replayed as MODE_SET
    enum AllocMode { A_NONE, A_ALL, A_SET, A_RANDOM, A_BIGGER, A_BUDGET, A_AFTER, A_PREFIX, A_NOTHROW, A_NTBIG, A_MODES };
    struct AllocPlan
    {
        int mode = A_NONE;
        std::uint64_t p1 = 0, p2 = 0;
        std::vector<std::uint32_t> set;     // sorted, 1-based
    };

    constexpr std::uint64_t CLOCK_READ = 1ull << 40;   // faults of the clock from there on are around its readings
    struct Task;
    struct Ctx
    {
        // counters
        std::uint64_t cnt[K_COUNT] = {};
        std::uint64_t next_fault[K_COUNT] = {};
        std::uint64_t steps = 0, cap = ~0ull;
        std::uint64_t next_stall = 0;                    // the clock stalls at that step
        std::uint64_t next_env = ~0ull;                  // something around the call changes at that step
        void (*env_hook)(int) = nullptr;
        std::uint64_t t_enter = 0, t_first = 0, t_last = 0, t_exit = 0;
        bool entered = false;
        std::uintptr_t sp_enter = 0, sp_low = ~std::uintptr_t(0);
        std::uint64_t hash = 0x243f6a8885a308d3ull;
        // configuration
        bool reverse = false;        // comparator order
        bool swap_as_moves = false;
        int exc_type = 0;            // which exception type user code throws
        AllocPlan alloc;
        std::uint64_t alloc_rng = 0;
        std::vector<Fault> faults;
        // results
        std::vector<std::uint32_t> failed_allocs;
        std::uint64_t fired[K_COUNT] = {};
        std::uint64_t token = 0;     // token of the last exception thrown by user code
        int thrown_kind = -1;
        std::uint64_t thrown_count = 0;
        std::uint64_t live_bytes = 0, peak_bytes = 0;
        std::uint64_t cmp_after_allocfail = 0;
        std::uint32_t vio = 0;       // bit mask of Vio
        char msg[256] = {0};
        std::int64_t live_objs = 0, live_callbacks = 0;
        bool in_lib = false;         // true while library code runs
        bool no_alloc_faults = false;
        bool unwinding_ok = false;   // the call is made while an exception is in flight
        // the adapted sorter that has to be used, and what it did
        int ad_tag = 0, ad_inst = 0;
        std::uint64_t ad_calls = 0, ad_total = 0;
        std::int64_t ad_ret = 0;
        std::int64_t buf_grant = -1; // what the simulated buffer provider grants: -1 all that is asked
                                     // for, -2 half of it, -3 its square root, k >= 0 exactly k
        // hooks
        bool (*override_cmp)(Ctx&, std::int64_t, std::int64_t, bool&) = nullptr;
        void (*on_seam)(Ctx&, int) = nullptr;
        void* user = nullptr;
        // running fold of proj ids for schwartz checks
        std::vector<std::uint32_t>* proj_ids = nullptr;
        std::vector<std::uint64_t>* trace = nullptr;  // event trace when asked for
        // operation counters when the first allocations happened: faults planned near
        // them land while temporary memory is held
        struct Mark { std::uint64_t cnt[K_COUNT]; };
        Mark marks[24]; int nmarks = 0;
    };

    extern Ctx idle_ctx;                 // when no library code runs
    extern Ctx* g;                       // context of the running caller
    extern std::uint64_t sim_clock;      // simulated time in ns, since the start of the run
    extern std::uint64_t sim_total;      // simulated time of the earlier runs

    extern bool outside_report;
    void asan_report(const char* text);
    void report(Vio v, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void do_fault(int kind, int& param_out);   // consults the fault list; throws
    [[noreturn]] void throw_user(int kind);
    void step_cap_hit();
    void stall(Ctx& c);
    void env_change(Ctx& c);

    inline void ev(Ctx& c, std::uint64_t w)
    {
        c.hash = (c.hash ^ w) * 0x9fb21c651e98df25ull;
        c.hash ^= c.hash >> 29;
        if (c.trace) c.trace->push_back(w);
    }

    // returns true if a fault is due at this operation
    inline bool seam(int k, std::uint32_t a, std::uint32_t b)
    {
        Ctx& c = *g;
        ++sim_clock;
        if (!c.in_lib) return false;
        if (!c.entered) { c.entered = true; c.t_first = sim_clock; }
        std::uintptr_t sp = reinterpret_cast<std::uintptr_t>(__builtin_frame_address(0));
        if (sp < c.sp_low) c.sp_low = sp;
        ++c.cnt[k];
        ev(c, ((std::uint64_t)(k + 1) << 56) ^ ((std::uint64_t)a << 28) ^ b);
        if (++c.steps > c.cap) step_cap_hit();
        if (c.steps == c.next_stall) stall(c);
        if (c.steps >= c.next_env) env_change(c);
        if (c.on_seam) c.on_seam(c, k);
        c.t_last = sim_clock;
        return c.cnt[k] == c.next_fault[k];
    }
    // iterator operations are too many to log one by one: they only count as
    // steps, and as scheduling points
    inline void iter_seam()
    {
        Ctx& c = *g;
        if (!c.in_lib) return;
        ++c.cnt[K_ITER];
        if (c.on_seam && (c.cnt[K_ITER] & 7) == 0) c.on_seam(c, K_ITER);
        if (c.cnt[K_ITER] > (c.cap << 4)) step_cap_hit();
    }
    void advance_faults(Ctx& c, int k);

    ////////////////////////////////////////////////////////////
    // Tracked element: knows whether it is alive and holds a value

    enum : std::uint32_t { ST_DEAD = 0, ST_VALUE = 0x51f15e5u, ST_MOVED = 0x3040edu, ST_EMPTY = 0xe3911u };

    struct Elem
    {
        int key;
        int id;
        std::uint32_t state;
        const void* self;

        Elem() { born(); key = -7777; id = 0xfffffe; state = ST_EMPTY; }
        Elem(int k, int i) { born(); key = k; id = i; state = ST_VALUE; }
        Elem(const Elem&) = delete;
        Elem& operator=(const Elem&) = delete;
        Elem(Elem&& o)
        {
            if (seam(K_MCTOR, o.id, 0)) fault(K_MCTOR, nullptr, &o);
            check_src(o);
            born();
            take(o);
        }
        Elem& operator=(Elem&& o)
        {
            if (seam(K_MASSIGN, o.id, (std::uint32_t)(state == ST_VALUE ? id : 0xffffff))) fault(K_MASSIGN, this, &o);
            assign(o);
            return *this;
        }
        ~Elem() { die(); }

        bool alive() const
        {
            const void* volatile const* p = const_cast<const void* volatile const*>(&self);
            return *p == this && (state == ST_VALUE || state == ST_MOVED || state == ST_EMPTY);
        }
        void born();
        void die();
        void check_src(const Elem& o) const;
        void take(Elem& o) { key = o.key; id = o.id; state = o.state; o.state = ST_MOVED; }
        void assign(Elem& o);
        void fault(int kind, Elem* self_, Elem* o);

        friend void swap(Elem& a, Elem& b);
    };
    void check_readable(const Elem& e, const char* what);

    struct Pod { int key; int id; };
    static_assert(sizeof(Pod) == 8, "");

    ////////////////////////////////////////////////////////////
    // User callbacks

    struct SimLess
    {
        bool operator()(const Elem& a, const Elem& b) const
        {
            if (seam(K_CMP, a.id, b.id)) throw_user(K_CMP);
            check_readable(a, "comparison"); check_readable(b, "comparison");
            if (g->override_cmp) { bool r; if (g->override_cmp(*g, a.id, b.id, r)) return r; }
            return g->reverse ? b.key < a.key : a.key < b.key;
        }
        bool operator()(const Pod& a, const Pod& b) const
        {
            if (seam(K_CMP, a.id, b.id)) throw_user(K_CMP);
            return g->reverse ? b.key < a.key : a.key < b.key;
        }
        bool operator()(int a, int b) const
        {
            if (seam(K_CMP, a, b)) throw_user(K_CMP);
            if (g->override_cmp) { bool r; if (g->override_cmp(*g, a, b, r)) return r; }
            return g->reverse ? b < a : a < b;
        }
        bool operator()(const std::string& a, const std::string& b) const
        {
            if (seam(K_CMP, (unsigned)a.size(), (unsigned)b.size())) throw_user(K_CMP);
            return g->reverse ? b < a : a < b;
        }
    };
    // Same thing, but the library is told that it compiles to branchless code
    struct SimLessBranchless: SimLess {};

    struct SimProj
    {
        const int& operator()(const Elem& e) const
        {
            if (seam(K_PROJ, e.id, 0)) throw_user(K_PROJ);
            check_readable(e, "projection");
            if (g->proj_ids) { bool s = g->in_lib; g->in_lib = false; g->proj_ids->push_back(e.id); g->in_lib = s; }
            return e.key;
        }
        const int& operator()(const Pod& e) const
        {
            if (seam(K_PROJ, e.id, 0)) throw_user(K_PROJ);
            if (g->proj_ids) { bool s = g->in_lib; g->in_lib = false; g->proj_ids->push_back(e.id); g->in_lib = s; }
            return e.key;
        }
        int operator()(int e) const
        {
            if (seam(K_PROJ, e, 0)) throw_user(K_PROJ);
            return e;
        }
    };
    // Callbacks with state, that know whether they may still be called
    struct Tracked
    {
        std::uint32_t state;
        const void* self;
        Tracked(): state(ST_VALUE), self(this) { ++g->live_callbacks; }
        Tracked(const Tracked& o): state(o.state), self(this) { o.check("copied"); ++g->live_callbacks; }
        Tracked(Tracked&& o): state(o.state), self(this) { o.check("moved"); o.state = ST_MOVED; ++g->live_callbacks; }
        Tracked& operator=(const Tracked& o) { o.check("copied"); check_alive("assigned to"); state = o.state; return *this; }
        Tracked& operator=(Tracked&& o) { o.check("moved"); check_alive("assigned to"); if (this != &o) { state = o.state; o.state = ST_MOVED; } return *this; }
        ~Tracked() { if (check_alive("destroyed")) --g->live_callbacks; *const_cast<const void* volatile*>(&self) = nullptr; }
        bool check_alive(const char* what) const
        {
            const void* volatile const* p = const_cast<const void* volatile const*>(&self);
            if (*p == this) return true;
            report(V_READ_DEAD, "a function object was %s after its destruction", what);
            return false;
        }
        void check(const char* what) const
        {
            if (check_alive(what) && state != ST_VALUE) report(V_READ_MOVED, "a function object was %s after it had been moved from", what);
        }
    };
    struct SimLessState: Tracked
    {
        template<typename A, typename B>
        bool operator()(const A& a, const B& b) const { check("called"); return SimLess{}(a, b); }
    };

    // projection that returns a prvalue
    struct SimProjVal
    {
        template<typename T>
        int operator()(const T& e) const { return SimProj{}(e); }
    };

    struct SimProjState: Tracked
    {
        template<typename T>
        const int& operator()(const T& e) const { check("called"); return SimProj{}(e); }
    };

    ////////////////////////////////////////////////////////////
    // Checked iterators over a range of memory

    template<typename T> struct Range { T* lo; T* hi; };

    void oob(const char* what, long off, long size);
    std::size_t grant_buffer(std::size_t want);

    void iter_gone();
    template<typename T, typename Cat>
    struct SimIter
    {
        using iterator_category = Cat;
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using pointer = T*;
        using reference = T&;

        T* p = nullptr;
        const Range<T>* r = nullptr;
        bool gone = false;

        SimIter() = default;
        SimIter(T* p, const Range<T>* r): p(p), r(r) {}
        void ng() const { if (gone) iter_gone(); }
        SimIter(const SimIter& o): p(o.p), r(o.r), gone(o.gone) { }
        SimIter(SimIter&& o): p(o.p), r(o.r), gone(o.gone) { o.gone = true; }
        SimIter& operator=(const SimIter& o) { p = o.p; r = o.r; gone = o.gone; return *this; }
        SimIter& operator=(SimIter&& o) { p = o.p; r = o.r; gone = o.gone; if (this != &o) o.gone = true; return *this; }

        void chk_deref() const { ng(); if (r && !(p >= r->lo && p < r->hi)) oob("dereferenced", p - r->lo, r->hi - r->lo); }
        void chk_move() const { ng(); if (r && !(p >= r->lo && p <= r->hi)) oob("moved", p - r->lo, r->hi - r->lo); iter_seam(); }

        T& operator*() const { chk_deref(); return *p; }
        T* operator->() const { chk_deref(); return p; }
        T& operator[](std::ptrdiff_t n) const { SimIter t(p + n, r); t.chk_deref(); return *t.p; }
        SimIter& operator++() { ++p; chk_move(); return *this; }
        SimIter operator++(int) { SimIter t = *this; ++p; chk_move(); return t; }
        SimIter& operator--() { --p; chk_move(); return *this; }
        SimIter operator--(int) { SimIter t = *this; --p; chk_move(); return t; }
        SimIter& operator+=(std::ptrdiff_t n) { p += n; chk_move(); return *this; }
        SimIter& operator-=(std::ptrdiff_t n) { p -= n; chk_move(); return *this; }
        friend SimIter operator+(SimIter i, std::ptrdiff_t n) { i.p += n; i.chk_move(); return i; }
        friend SimIter operator+(std::ptrdiff_t n, SimIter i) { i.p += n; i.chk_move(); return i; }
        friend SimIter operator-(SimIter i, std::ptrdiff_t n) { i.p -= n; i.chk_move(); return i; }
        friend std::ptrdiff_t operator-(const SimIter& a, const SimIter& b) { a.ng(); b.ng(); return a.p - b.p; }
        friend bool operator==(const SimIter& a, const SimIter& b) { a.ng(); b.ng(); return a.p == b.p; }
        friend bool operator!=(const SimIter& a, const SimIter& b) { a.ng(); b.ng(); return a.p != b.p; }
        friend bool operator<(const SimIter& a, const SimIter& b) { a.ng(); b.ng(); return a.p < b.p; }
        friend bool operator>(const SimIter& a, const SimIter& b) { a.ng(); b.ng(); return a.p > b.p; }
        friend bool operator<=(const SimIter& a, const SimIter& b) { a.ng(); b.ng(); return a.p <= b.p; }
        friend bool operator>=(const SimIter& a, const SimIter& b) { a.ng(); b.ng(); return a.p >= b.p; }
    };

    ////////////////////////////////////////////////////////////
    // Allocator with state, for the nodes of lists: every collection has its own memory
    // resource, which is not the default one

    void wrong_resource(int from, int to);
    template<typename T>
    struct SimAlloc
    {
        using value_type = T;
        int id = 0;
        SimAlloc() = default;
        explicit SimAlloc(int id): id(id) {}
        template<typename U> SimAlloc(const SimAlloc<U>& o): id(o.id) {}
        T* allocate(std::size_t n)
        {
            char* p = static_cast<char*>(::operator new(n * sizeof(T) + 16));
            std::memcpy(p, &id, sizeof id);
            return reinterpret_cast<T*>(p + 16);
        }
        void deallocate(T* q, std::size_t n)
        {
            char* p = reinterpret_cast<char*>(q) - 16;
            int from;
            std::memcpy(&from, p, sizeof from);
            if (from != id) wrong_resource(from, id);
            ::operator delete(p, n * sizeof(T) + 16);
        }
        friend bool operator==(const SimAlloc& a, const SimAlloc& b) { return a.id == b.id; }
        friend bool operator!=(const SimAlloc& a, const SimAlloc& b) { return a.id != b.id; }
    };

    using RA = std::random_access_iterator_tag;
    using BI = std::bidirectional_iterator_tag;
    using FW = std::forward_iterator_tag;

    ////////////////////////////////////////////////////////////
    // Heap control (core.cpp)

    struct HeapCfg { std::uint64_t garbage = 1; int dir = 0; std::uint64_t pad_seed = 0; };
    void heap_reset(const HeapCfg&);
    // end of run: live library blocks -> V_LEAK_MEM, freed blocks rewritten -> V_UAF_WRITE
    void heap_audit();
    std::uint64_t heap_live_blocks();
    // what rand(), time(), std::random_device and the clocks start from, and what
    // uninitialised stack memory holds, during library calls
    void env_reset(std::uint64_t seed);
    void paint_stack(std::uint64_t seed);

    // RAII: harness code running inside a library call
    struct Outside { Ctx* c; bool s; Outside(): c(g), s(g->in_lib) { c->in_lib = false; } ~Outside() { c->in_lib = s; } };
}

#endif
