#ifndef SIM_ENGINE_H_
#define SIM_ENGINE_H_
#include "core.h"
#include "subjects.h"
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim
{
    struct TaskSpec
    {
        std::string subject;
        std::vector<int> keys;
        bool reverse = false, swap_as_moves = false;
        int exc_type = 0;
        std::int64_t buf_grant = -1;
        AllocPlan alloc;
        std::vector<Fault> faults;
    };
    struct Spec
    {
        std::string prop;
        std::uint64_t seed = 0, index = 0;
        HeapCfg heap;
        std::vector<TaskSpec> tasks;
        std::vector<std::pair<std::uint64_t, int>> sched;   // (global seam number, task to run next)
        std::map<std::string, std::int64_t> x;              // scenario parameters
    };
    enum Exc { X_NONE, X_USER, X_BADALLOC, X_ALIEN, X_ABORT };
    struct Outcome
    {
        int exc = X_NONE;
        std::int64_t ret = 0;
        std::uint64_t hash = 0;
        std::uint32_t vio = 0;
        std::string msg;
        std::uint64_t cnt[K_COUNT] = {}, fired[K_COUNT] = {};
        std::uint64_t steps = 0, peak = 0;
        std::uint64_t t_enter = 0, t_first = 0, t_last = 0, t_exit = 0;
        std::vector<std::uint32_t> failed;
        std::uint64_t result_hash = 0;   // final contents of the collection
        std::uint64_t stack = 0;         // deepest stack use seen at a seam, in bytes
        std::vector<std::uint64_t> trace;
    };

    const Subject* find_subject(const std::string&);

    // what to observe in addition
    struct Observe
    {
        bool trace = false; std::vector<std::uint32_t>* proj_ids = nullptr;
        bool (*override_cmp)(Ctx&, std::int64_t, std::int64_t, bool&) = nullptr;
        void* user = nullptr;
    };

    // A simulated caller: owns a collection and runs one library call over it
    struct Task
    {
        const Subject* s;
        TaskSpec t;
        Ctx ctx;
        int slot;
        std::int64_t coll_off;
        Outcome out;
        void* impl = nullptr;
        std::size_t n = 0;
        Observe ob;
        std::uint64_t paint = 1;

        Task(const TaskSpec& ts, int slot, std::int64_t coll_off, Observe ob = {});
        ~Task() { if (g == &ctx) g = &idle_ctx; }
        void setup();      // builds the collection
        void run();        // performs the call; classifies how it ended
        void finish();     // oracles over the final state, tears down
    };

    Outcome run_single(const Spec& sp, const TaskSpec& t, const HeapCfg& heap, std::int64_t coll_off = 0, Observe ob = {});

    // key patterns and sizes
    std::vector<int> gen_keys(Rng& r, std::size_t n, std::string* pattern = nullptr);
    std::size_t gen_size(Rng& r, const Subject& s, int scale = 1);

    // one property = generator of specs + execution + verdict
    struct Verdict { std::uint32_t vio = 0; std::string msg; std::uint64_t hash = 0; bool nontrivial = false; };
    struct Stats
    {
        std::uint64_t runs = 0, steps = 0, sim_time = 0, calls = 0;
        std::uint64_t fired[K_COUNT] = {}, throws_by_kind[K_COUNT] = {};
        std::uint64_t done = 0, user_exc = 0, bad_alloc = 0, other = 0;
        std::uint64_t fault_runs = 0, clean_runs = 0, both_faults = 0;
        std::map<std::string, std::uint64_t> subjects, probes;
        std::map<std::string, double> maxima;
    };
    extern Stats stats;

    struct Property
    {
        const char* id;
        std::uint32_t mask;                       // violation classes that break this property
        bool (*filter)(const Subject&);
        void (*generate)(Spec&, Rng&, const std::vector<const Subject*>&);
        Verdict (*execute)(const Spec&);
    };
    const std::vector<Property>& properties();
    const Property* find_property(const std::string&);
    constexpr std::uint32_t bit(Vio v) { return 1u << v; }

    std::string write_spec(const Spec&);
    bool read_spec(const std::string& text, Spec&);
    void account(const Outcome& o, const TaskSpec& t);
    void collect(Task& k);
    // value of a measure of presortedness by its definition; -1 where the definition
    // does not settle it
    std::int64_t reference_measure(int which, const std::vector<int>& keys, bool reverse);
}
#endif
