#include "engine.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

using namespace sim;

namespace sim { extern int sim_spec_fd; void guard_process(); void arm(int); Vio death(int); std::string death_text(int); }

namespace
{
    // Survives the death of the process that runs library code
    struct Shared
    {
        volatile std::uint64_t index;
        volatile int phase;             // 1 while a run is in progress
        volatile int reason;            // V_TERMINATE, V_HANG
        std::uint32_t vio; std::uint64_t hash;
        char msg[256];
    };
    Shared* sh;

}
namespace sim
{
    void on_terminate()
    {
        sh->reason = V_TERMINATE;
        _exit(70);
    }
    void on_alarm(int) { sh->reason = V_HANG; _exit(71); }

    void guard_process()
    {
        std::set_terminate(on_terminate);
        static char stk[1 << 16];
        stack_t ss{}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_handler = on_alarm; sa.sa_flags = SA_ONSTACK;
        sigaction(SIGVTALRM, &sa, nullptr);
    }
    void arm(int sec)
    {
        itimerval tv{}; tv.it_value.tv_sec = sec;
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    }
    Vio death(int status)
    {
        if (WIFEXITED(status) && WEXITSTATUS(status) == 70) return V_TERMINATE;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 71) return V_HANG;
        return V_CRASH;
    }
    std::string death_text(int status)
    {
        if (WIFEXITED(status) && WEXITSTATUS(status) == 70) return "std::terminate was called";
        if (WIFEXITED(status) && WEXITSTATUS(status) == 71) return "no answer within the time limit";
        if (WIFSIGNALED(status)) return std::string("killed by signal ") + std::to_string(WTERMSIG(status));
        return "exit status " + std::to_string(WEXITSTATUS(status));
    }
}
namespace
{
    constexpr int RUN_LIMIT = 20;

    std::vector<const Subject*> subjects_of(const Property& p)
    {
        std::vector<const Subject*> v;
        for (auto& s : registry()) if (!s.hidden && p.filter(s)) v.push_back(&s);
        std::stable_sort(v.begin(), v.end(), [](auto* a, auto* b) { return a->name < b->name; });
        return v;
    }

    Spec make_spec(const Property& p, const std::vector<const Subject*>& subs, std::uint64_t seed, std::uint64_t index)
    {
        Spec sp;
        sp.prop = p.id; sp.seed = seed; sp.index = index;
        std::uint64_t ph = 0; for (const char* c = p.id; *c; ++c) ph = ph * 131 + (unsigned char)*c;
        Rng r(mix2(mix2(seed, ph), index));
        p.generate(sp, r, subs);
        return sp;
    }

    // Library code always runs on a stack at the same address, however deep the
    // simulator itself is: what depends on addresses is repeated too
    ucontext_t back_ctx, run_ctx;
    void (*job)(void*);
    void* job_data;
#if SIM_ASAN
    constexpr std::size_t STACK_SIZE = 128u << 20;      // frames are larger
    void* main_fake; const void* main_bottom; std::size_t main_size;
    void run_job()
    {
        __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
        job(job_data);
        __sanitizer_start_switch_fiber(nullptr, main_bottom, main_size);
    }
#else
    constexpr std::size_t STACK_SIZE = 8u << 20;
    void run_job() { job(job_data); }
#endif
    char* fixed_stack()
    {
        static char* const stk = [] {
            void* m = mmap((void*)0x5a0000000000ull, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if (m == MAP_FAILED) { std::perror("sim: no stack"); _exit(3); }
            return static_cast<char*>(m);
        }();
        return stk;
    }
    template<typename F>
    void on_fixed_stack(F f)
    {
        job = [](void* d) { (*static_cast<F*>(d))(); };
        job_data = &f;
        getcontext(&run_ctx);
        run_ctx.uc_stack.ss_sp = fixed_stack(); run_ctx.uc_stack.ss_size = STACK_SIZE;
        run_ctx.uc_link = &back_ctx;
        makecontext(&run_ctx, run_job, 0);
#if SIM_ASAN
        __sanitizer_start_switch_fiber(&main_fake, fixed_stack(), STACK_SIZE);
#endif
        swapcontext(&back_ctx, &run_ctx);
#if SIM_ASAN
        __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
        if (outside_report) { std::fprintf(stderr, "sim: the simulator touched poisoned memory\n"); _exit(3); }
#endif
    }
    Verdict execute_run(const Property& p, const Spec& sp) { Verdict v; on_fixed_stack([&] { v = p.execute(sp); }); return v; }
    Spec generate_run(const Property& p, const std::vector<const Subject*>& subs, std::uint64_t seed, std::uint64_t index)
    {
        Spec sp; on_fixed_stack([&] { sp = make_spec(p, subs, seed, index); }); return sp;
    }

    // runs a spec in a child process; the verdict comes back through shared memory
    Verdict run_forked(const Property& p, const Spec& sp, bool apart = false);
    Verdict run_forked(const Property& p, const Spec& sp, bool apart)
    {
        sh->phase = 1; sh->vio = 0; sh->hash = 0; sh->msg[0] = 0;
        pid_t pid = fork();
        if (pid == 0) {
            int fd = open("/dev/null", O_WRONLY); if (fd >= 0) dup2(fd, 2);
            guard_process();
            arm(RUN_LIMIT);
            Verdict v = execute_run(p, sp);
            sh->vio = v.vio; sh->hash = v.hash;
            std::snprintf(sh->msg, sizeof sh->msg, "%s", v.msg.c_str());
            sh->phase = 0;
            _exit(0);
        }
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        Verdict v;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { std::fprintf(stderr, "sim: internal error in run\n"); std::exit(3); }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { v.vio = sh->vio; v.hash = sh->hash; v.msg = sh->msg; }
        else { v.vio = bit(death(st)); v.msg = death_text(st); v.hash = 0xdeadull + (unsigned)death(st); }
        // a property about differences between two executions: compare them one by one
        if (!apart && !(v.vio & p.mask) && v.hash == 0xdeadull + (unsigned)death(st) && sp.x.count("stack2")) {
            Spec c = sp; c.x["apart"] = 1;
            Verdict w = run_forked(p, c, true);
            if (w.vio & p.mask) { v.vio |= w.vio; v.msg = w.msg; }
        }
        return v;
    }

    int vio_class(std::uint32_t m) { for (int i = 0; i < V_COUNT; ++i) if (m & (1u << i)) return i; return -1; }

    ////////////////////////////////////////////////////////////
    // Minimisation: same property, same violation class

    struct Shrinker
    {
        const Property& p; int cls; double deadline; int tries = 0;
        static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
        bool out_of_time() const { return now() > deadline; }
        bool fails(const Spec& s) { ++tries; Verdict v = run_forked(p, s); return v.vio & (1u << cls); }
        bool take(Spec& best, const Spec& cand) { if (out_of_time()) return false; if (fails(cand)) { best = cand; return true; } return false; }

        void shrink(Spec& b)
        {
            bool progress = true;
            for (int round = 0; progress && round < 8 && !out_of_time(); ++round) {
                progress = false;
                // drop whole callers
                for (std::size_t i = 0; b.tasks.size() > 1 && i < b.tasks.size();) {
                    Spec c = b; c.tasks.erase(c.tasks.begin() + i);
                    if (take(b, c)) progress = true; else ++i;
                }
                // drop scheduling decisions
                for (std::size_t len = std::max<std::size_t>(1, b.sched.size() / 2); len && !b.sched.empty(); len /= 2) {
                    for (std::size_t i = 0; i < b.sched.size();) {
                        Spec c = b; c.sched.erase(c.sched.begin() + i, c.sched.begin() + std::min(b.sched.size(), i + len));
                        if (take(b, c)) progress = true; else i += len;
                        if (out_of_time()) return;
                    }
                }
                // scenario switches
                for (auto& kv : std::map<std::string, std::int64_t>(b.x)) {
                    if (kv.second == 0) continue;
                    Spec c = b; c.x[kv.first] = 0;
                    if (take(b, c)) progress = true;
                }
                for (std::size_t ti = 0; ti < b.tasks.size(); ++ti) {
                    // faults
                    for (std::size_t i = 0; i < b.tasks[ti].faults.size();) { Spec c = b; c.tasks[ti].faults.erase(c.tasks[ti].faults.begin() + i); if (take(b, c)) progress = true; else ++i; }
                    if (b.tasks[ti].alloc.mode != A_NONE) {
                        Spec c = b; c.tasks[ti].alloc = AllocPlan{};
                        if (take(b, c)) progress = true;
                        else if (b.tasks[ti].alloc.mode == A_SET) {
                            for (std::size_t i = 0; i < b.tasks[ti].alloc.set.size() && b.tasks[ti].alloc.set.size() > 1 && !out_of_time();) { Spec d = b; d.tasks[ti].alloc.set.erase(d.tasks[ti].alloc.set.begin() + i); if (take(b, d)) progress = true; else ++i; }
                            if (b.tasks[ti].alloc.set.size() > 1) { Spec d = b; d.tasks[ti].alloc = AllocPlan{A_ALL, 0, 0, {}}; if (take(b, d)) progress = true; }
                        }
                    }
                    // elements (fault positions move with the size of the input)
                    const Subject* s = find_subject(b.tasks[ti].subject);
                    if (s && s->max_n >= 0) {
                        for (std::size_t len = std::max<std::size_t>(1, b.tasks[ti].keys.size() / 2); len && !out_of_time(); len /= 2) {
                            for (std::size_t i = 0; i < b.tasks[ti].keys.size() && !out_of_time();) {
                                std::size_t sz = b.tasks[ti].keys.size();
                                Spec c = b; auto& k = c.tasks[ti].keys; k.erase(k.begin() + i, k.begin() + std::min(sz, i + len));
                                if (take(b, c)) { progress = true; continue; }
                                if (!c.tasks[ti].faults.empty()) {
                                    double q = (double)k.size() / sz; bool ok = false;
                                    for (double e : {q, q * q, q * 0.9, 1 - (1 - q) / 2}) {
                                        Spec d = c; for (auto& f : d.tasks[ti].faults) f.at = std::max<std::uint64_t>(1, (std::uint64_t)(f.at * e));
                                        if (take(b, d)) { ok = true; break; }
                                    }
                                    if (ok) { progress = true; continue; }
                                }
                                i += len;
                            }
                        }
                    }
                    for (std::size_t i = 0; i < b.tasks[ti].faults.size(); ++i) {
                        while (b.tasks[ti].faults[i].at > 1 && !out_of_time()) { Spec c = b; auto& a = c.tasks[ti].faults[i].at; a = a / 2; if (!take(b, c)) break; progress = true; }
                    }
                    auto simple = [&](auto f) { Spec c = b; f(c); if (take(b, c)) progress = true; };
                    auto& t = b.tasks[ti];
                    if (t.reverse) simple([&](Spec& c) { c.tasks[ti].reverse = false; });
                    if (t.swap_as_moves) simple([&](Spec& c) { c.tasks[ti].swap_as_moves = false; });
                    if (t.exc_type) simple([&](Spec& c) { c.tasks[ti].exc_type = 0; });
                    // rank the keys: small integers in the same order
                    std::vector<int> ks = t.keys; std::sort(ks.begin(), ks.end()); ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
                    std::vector<int> rk; for (int k : t.keys) rk.push_back((int)(std::lower_bound(ks.begin(), ks.end(), k) - ks.begin()));
                    if (rk != t.keys) simple([&](Spec& c) { c.tasks[ti].keys = rk; });
                }
                if (b.heap.dir) { Spec c = b; c.heap.dir = 0; if (take(b, c)) progress = true; }
                if (b.heap.pad_seed) { Spec c = b; c.heap.pad_seed = 0; if (take(b, c)) progress = true; }
                if (b.heap.garbage > 1) { Spec c = b; c.heap.garbage = 1; if (take(b, c)) progress = true; }
            }
        }
    };

    // turns allocation-failure policies into the explicit list of requests that failed
    void make_explicit(const Property& p, Spec& sp, int cls)
    {
        for (auto& t : sp.tasks) {
            if (t.alloc.mode == A_NONE || t.alloc.mode == A_SET || t.alloc.mode == A_ALL) continue;
            // learn which requests fail, in a child
            int fd[2]; if (pipe(fd)) return;
            pid_t pid = fork();
            if (pid == 0) {
                close(fd[0]); guard_process(); arm(RUN_LIMIT);
                Outcome o = run_single(sp, t, sp.heap);
                for (auto i : o.failed) { if (write(fd[1], &i, sizeof i) < 0) break; }
                _exit(0);
            }
            close(fd[1]);
            std::vector<std::uint32_t> set; std::uint32_t i;
            while (read(fd[0], &i, sizeof i) == (ssize_t)sizeof i) set.push_back(i);
            close(fd[0]);
            int st; waitpid(pid, &st, 0);
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) || set.empty()) continue;
            Spec c = sp;
            AllocPlan keep = t.alloc;
            t.alloc = AllocPlan{A_SET, 0, 0, set};
            Verdict v = run_forked(p, sp);
            if (!(v.vio & (1u << cls))) t.alloc = keep;
        }
    }

    ////////////////////////////////////////////////////////////

    bool regenerate(const Property& p, std::uint64_t seed, std::uint64_t index, Spec& sp, const std::string& only);

    int cmd_explore(std::map<std::string, std::string>& a)
    {
        const Property* p = find_property(a["prop"]);
        if (!p) { std::fprintf(stderr, "unknown property\n"); return 3; }
        std::uint64_t seed = std::stoull(a["seed"]), start = std::stoull(a["start"]), stride = std::stoull(a["stride"]), count = std::stoull(a["count"]);
        double budget = std::stod(a["budget"]);
        int maxcand = a.count("maxcand") ? std::stoi(a["maxcand"]) : 3;
        bool save_hashes = a.count("hashes"), distinct = a.count("distinct");
        auto subs = subjects_of(*p);
        if (a.count("only")) { std::vector<const Subject*> v; for (auto* s : subs) if (s->name.find(a["only"]) != std::string::npos) v.push_back(s); subs = v; }
        if (subs.empty()) { std::fprintf(stderr, "no subjects\n"); return 3; }
        double t0 = Shrinker::now();
        std::ofstream cand(a["out"] + ".cand"), hashes;
        std::uint64_t i = start;
        int ncand = 0;
        std::string statfile = a["out"] + ".stats", hashfile = a["out"] + ".hashes";
        { std::ofstream x(statfile); std::ofstream y(hashfile, std::ios::binary); std::ofstream z(a["out"] + ".distinct", std::ios::binary); }
        while (i < count) {
            sh->index = i; sh->phase = 0; sh->reason = 0;
            std::fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                guard_process();
                std::ofstream hf;
                if (save_hashes) hf.open(hashfile, std::ios::binary | std::ios::app);
                std::ofstream cf(a["out"] + ".cand", std::ios::app);
                std::uint64_t k = i; int found = ncand;
                const std::uint64_t child_start = i;
                std::vector<std::uint64_t> all, nontrivial; bool capped = false;
                constexpr std::size_t CAP = 3000000;
                auto compact = [](std::vector<std::uint64_t>& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); };
                auto dump = [&] {
                    std::ofstream o(statfile, std::ios::app);
                    o << "runs " << stats.runs << "\nsteps " << stats.steps << "\nsim_time " << sim_total + sim_clock << "\ncalls " << stats.calls
                      << "\ndone " << stats.done << "\nuser_exc " << stats.user_exc << "\nbad_alloc " << stats.bad_alloc << "\nother " << stats.other
                      << "\nfault_runs " << stats.fault_runs << "\nclean_runs " << stats.clean_runs << "\nboth_faults " << stats.both_faults << "\n";
                    for (int q = 0; q < K_COUNT; ++q) o << "fired." << kind_name[q] << " " << stats.fired[q] << "\n";
                    for (auto& kv : stats.subjects) o << "subject." << kv.first << " " << kv.second << "\n";
                    for (auto& kv : stats.probes) o << "probe." << kv.first << " " << kv.second << "\n";
                    if (std::getenv("SIM_CALIBRATE")) { std::ofstream m(a["out"] + ".max", std::ios::app); for (auto& kv : stats.maxima) m << kv.first << "\t" << kv.second << "\n"; }
                    if (distinct) {
                        compact(all); compact(nontrivial);
                        std::ofstream d(a["out"] + ".distinct", std::ios::binary | std::ios::app);
                        std::uint64_t hd[3] = {all.size(), nontrivial.size(), capped};
                        d.write((char*)hd, sizeof hd); d.write((char*)all.data(), all.size() * 8); d.write((char*)nontrivial.data(), nontrivial.size() * 8);
                    }
                };
                const double slow = std::getenv("SIM_SLOW") ? std::atof(std::getenv("SIM_SLOW")) : 0;
                for (; k < count; k += stride) {
                    if ((stats.runs & 15) == 0 && Shrinker::now() - t0 > budget) break;
                    sh->index = k; sh->phase = 1;
                    arm(RUN_LIMIT);
                    const double r0 = slow ? Shrinker::now() : 0;
                    Spec sp = generate_run(*p, subs, seed, k);
                    Verdict v = execute_run(*p, sp);
                    sh->phase = 0;
                    ++stats.runs;
                    if (slow && Shrinker::now() - r0 > slow) std::fprintf(stderr, "slow run %llu: %.2f s %s n=%zu\n", (unsigned long long)k, Shrinker::now() - r0, sp.tasks[0].subject.c_str(), sp.tasks[0].keys.size());
                    if (distinct) {
                        if (all.size() < CAP) { all.push_back(v.hash); if (v.nontrivial) nontrivial.push_back(v.hash); }
                        else { compact(all); compact(nontrivial); if (all.size() > CAP - CAP / 8) capped = true; else all.push_back(v.hash); }
                    }
                    if (hf.is_open()) { std::uint64_t rec[2] = {k, v.hash}; hf.write((char*)rec, sizeof rec); }
                    if (v.vio & p->mask) {
                        cf << k << " " << child_start << " " << vio_name[vio_class(v.vio & p->mask)] << " " << sp.tasks[0].subject << " " << v.msg << std::endl;
                        if (++found >= maxcand) { k += stride; break; }
                    }
                }
                sh->index = k; sh->phase = 0;
                dump();
                hf.close();
                _exit(found >= maxcand ? 10 : 0);
            }
            int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 10)) { i = sh->index; break; }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
            // the run in progress killed the process
            std::uint64_t bad = sh->index;
            Verdict v; v.vio = bit(death(st));
            if (!(v.vio & p->mask)) {
                // not this property's business, unless the death depends on what the property is about
                Spec sp;
                if (regenerate(*p, seed, bad, sp, a["only"])) v = run_forked(*p, sp);
                std::ofstream o(statfile, std::ios::app);
                o << "runs " << (bad - i) / stride << "\nprobe.runs_ended_by_a_crash_outside_of_the_property 1\n";
            }
            if (!(v.vio & p->mask)) {
                i = bad + stride;
                if (Shrinker::now() - t0 > budget) break;
                continue;
            }
            std::ofstream cf(a["out"] + ".cand", std::ios::app);
            cf << bad << " " << i << " " << vio_name[vio_class(v.vio & p->mask)] << " ? " << death_text(st) << std::endl;
            i = bad + stride;
            if (++ncand >= maxcand) break;
            if (Shrinker::now() - t0 > budget) break;
        }
        return 0;
    }

    std::string spec_text(const Spec& sp, const Verdict& v, int cls)
    {
        std::ostringstream o;
        o << write_spec(sp);
        o << "expect " << vio_name[cls] << " " << v.hash << "\n# " << v.msg << "\n";
        return o.str();
    }

    // generate + execute in a child so that a spec whose *generation* crashes (dry
    // runs execute library code too) is still handled
    bool regenerate(const Property& p, std::uint64_t seed, std::uint64_t index, Spec& sp, const std::string& only)
    {
        auto subs = subjects_of(p);
        if (!only.empty()) { std::vector<const Subject*> v; for (auto* s : subs) if (s->name.find(only) != std::string::npos) v.push_back(s); subs = v; }
        // the parameters are recorded step by step in a shared page by the child
        int fd[2]; if (pipe(fd)) return false;
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]); guard_process(); arm(RUN_LIMIT);
            sim_spec_fd = fd[1];
            Spec s = generate_run(p, subs, seed, index);
            std::string t = write_spec(s);
            const char* q = t.data(); std::size_t left = t.size();
            while (left) { ssize_t w = write(fd[1], q, left); if (w <= 0) break; q += w; left -= w; }
            _exit(0);
        }
        close(fd[1]);
        std::string text; char buf[65536]; ssize_t r;
        while ((r = read(fd[0], buf, sizeof buf)) > 0) text.append(buf, r);
        close(fd[0]);
        int st; waitpid(pid, &st, 0);
        // keep the last complete spec written
        std::size_t pos = text.rfind("cpp-sort-sim-replay 1\n");
        if (pos == std::string::npos) return false;
        std::string last = text.substr(pos);
        Spec s2;
        if (read_spec(last, s2)) { sp = s2; return true; }
        if (pos == 0) return false;
        std::size_t pos2 = text.rfind("cpp-sort-sim-replay 1\n", pos - 1);
        if (pos2 == std::string::npos) return false;
        Spec s3;
        if (read_spec(text.substr(pos2, pos - pos2), s3)) { sp = s3; return true; }
        return false;
    }

    int cmd_shrink(std::map<std::string, std::string>& a)
    {
        const Property* p = find_property(a["prop"]);
        std::uint64_t seed = std::stoull(a["seed"]), index = std::stoull(a["index"]);
        Spec sp;
        if (!regenerate(*p, seed, index, sp, a["only"])) { std::fprintf(stderr, "cannot regenerate run %llu\n", (unsigned long long)index); return 3; }
        Verdict v = run_forked(*p, sp);
        if (!(v.vio & p->mask)) { std::printf("NOT-REPRODUCED\n"); return 4; }
        Verdict v2 = run_forked(*p, sp);
        if (v2.hash != v.hash || v2.vio != v.vio) { std::printf("NOT-DETERMINISTIC\n"); return 4; }
        int cls = vio_class(v.vio & p->mask);
        make_explicit(*p, sp, cls);
        Shrinker s{*p, cls, Shrinker::now() + std::stod(a["budget"])};
        s.shrink(sp);
        v = run_forked(*p, sp);
        if (!(v.vio & (1u << cls))) { std::printf("NOT-REPRODUCED\n"); return 4; }
        std::ofstream(a["out"]) << spec_text(sp, v, cls);
        std::size_t nf = 0, nk = 0; for (auto& t : sp.tasks) { nf += t.faults.size() + (t.alloc.mode == A_SET ? t.alloc.set.size() : t.alloc.mode != A_NONE); nk += t.keys.size(); }
        std::printf("SHRUNK class=%s subject=%s callers=%zu elements=%zu faults=%zu switches=%zu attempts=%d msg=%s\n", vio_name[cls], sp.tasks[0].subject.c_str(), sp.tasks.size(), nk, nf, sp.sched.size(), s.tries, v.msg.c_str());
        return 0;
    }

    // number of different event logs over all workers
    int cmd_distinct(int argc, char** argv)
    {
        std::vector<std::uint64_t> all, non; bool capped = false;
        for (int i = 2; i < argc; ++i) {
            std::ifstream f(argv[i], std::ios::binary);
            std::uint64_t hd[3];
            while (f.read((char*)hd, sizeof hd)) {
                std::size_t o = all.size(); all.resize(o + hd[0]); f.read((char*)(all.data() + o), hd[0] * 8);
                o = non.size(); non.resize(o + hd[1]); f.read((char*)(non.data() + o), hd[1] * 8);
                capped |= hd[2] != 0;
            }
        }
        for (auto* v : {&all, &non}) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); }
        std::printf("all=%zu nontrivial=%zu capped=%d\n", all.size(), non.size(), (int)capped);
        return 0;
    }

    int cmd_spec(std::map<std::string, std::string>& a)
    {
        const Property* p = find_property(a["prop"]);
        Spec sp;
        if (!p || !regenerate(*p, std::stoull(a["seed"]), std::stoull(a["index"]), sp, a["only"])) return 3;
        std::fputs(write_spec(sp).c_str(), stdout);
        return 0;
    }

    ////////////////////////////////////////////////////////////
    // A run that only fails after other runs in the same process: the replay file
    // names the sequence of runs

    struct SeqSpec { std::string prop; std::uint64_t seed = 0, start = 0, stride = 1, index = 0; };

    Verdict run_sequence(const Property& p, const SeqSpec& q)
    {
        sh->phase = 1; sh->vio = 0; sh->hash = 0; sh->msg[0] = 0; sh->index = ~0ull;
        pid_t pid = fork();
        if (pid == 0) {
            int fd = open("/dev/null", O_WRONLY); if (fd >= 0) dup2(fd, 2);
            guard_process();
            auto subs = subjects_of(p);
            for (std::uint64_t k = q.start; k <= q.index; k += q.stride) {
                arm(RUN_LIMIT);
                sh->index = k;
                Spec sp = generate_run(p, subs, q.seed, k);
                Verdict v = execute_run(p, sp);
                if (k == q.index) {
                    sh->vio = v.vio; sh->hash = v.hash;
                    std::snprintf(sh->msg, sizeof sh->msg, "%s: %s", sp.tasks[0].subject.c_str(), v.msg.c_str());
                }
            }
            _exit(0);
        }
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        Verdict v;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) std::exit(3);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { v.vio = sh->vio; v.hash = sh->hash; v.msg = sh->msg; }
        else if (sh->index == q.index) { v.vio = bit(death(st)); v.msg = death_text(st); v.hash = 0xdeadull + (unsigned)death(st); }
        return v;
    }

    int cmd_seq(std::map<std::string, std::string>& a)
    {
        const Property* p = find_property(a["prop"]);
        if (!p) return 3;
        SeqSpec q{a["prop"], std::stoull(a["seed"]), std::stoull(a["start"]), std::stoull(a["stride"]), std::stoull(a["index"])};
        const std::uint32_t mask = p->mask;
        // what the run does alone, in a fresh process
        SeqSpec alone = q; alone.start = alone.index;
        Verdict va = run_sequence(*p, alone);
        bool differs = a.count("differs");      // look for any difference from the run alone
        auto bad = [&](const Verdict& v) { return differs ? v.hash != va.hash || v.vio != va.vio : (v.vio & mask) != 0; };
        Verdict v = run_sequence(*p, q);
        if (!bad(v)) { std::printf("NOT-REPRODUCED\n"); return 4; }
        double end = Shrinker::now() + std::stod(a["budget"]);
        int tries = 0;
        // as few earlier runs as possible
        std::uint64_t lo = 0, hi = (q.index - q.start) / q.stride;   // runs before the failing one
        while (lo < hi && Shrinker::now() < end) {
            std::uint64_t mid = lo + (hi - lo) / 2;
            SeqSpec c = q; c.start = q.index - mid * q.stride;
            ++tries;
            if (bad(run_sequence(*p, c))) hi = mid; else lo = mid + 1;
        }
        q.start = q.index - hi * q.stride;
        // a larger stride, if it still fails
        for (std::uint64_t m : {hi, hi / 2, hi / 4}) if (m > 1 && hi % m == 0) { SeqSpec c = q; c.stride = q.stride * m; ++tries; if (bad(run_sequence(*p, c))) { q = c; break; } }
        v = run_sequence(*p, q);
        if (!bad(v)) { std::printf("NOT-REPRODUCED\n"); return 4; }
        const char* cls = differs ? "stale_state" : vio_name[vio_class(v.vio & mask)];
        if (differs) v.msg = "the run differs from the same run in a fresh process";
        std::ofstream(a["out"]) << "cpp-sort-sim-sequence 1\nprop " << q.prop << "\nseed " << q.seed << "\nstart " << q.start << "\nstride " << q.stride << "\nindex " << q.index
            << "\ndiffers " << differs << " " << va.hash << "\nexpect " << cls << " " << v.hash << "\n# " << v.msg << "\n";
        std::printf("SHRUNK class=%s subject=sequence callers=%llu elements=0 faults=0 switches=0 attempts=%d msg=%s\n", cls, (unsigned long long)((q.index - q.start) / q.stride + 1), tries, v.msg.c_str());
        return 0;
    }

    int replay_sequence(const std::string& text)
    {
        SeqSpec q; std::string w, cls; std::uint64_t hash = 0, alone = 0; int differs = 0, one;
        std::istringstream in(text);
        in >> w >> one;
        while (in >> w) {
            if (w == "prop") in >> q.prop; else if (w == "seed") in >> q.seed; else if (w == "start") in >> q.start; else if (w == "stride") in >> q.stride;
            else if (w == "index") in >> q.index; else if (w == "differs") in >> differs >> alone; else if (w == "expect") { in >> cls >> hash; break; }
        }
        const Property* p = find_property(q.prop);
        if (!p || !q.stride) return 3;
        Verdict v = run_sequence(*p, q);
        bool bad;
        if (differs) { SeqSpec c = q; c.start = c.index; Verdict va = run_sequence(*p, c); bad = va.hash != v.hash; }
        else bad = v.vio & p->mask;
        std::printf("%s class=%s hash=%llu expected_hash=%llu property=%s subject=sequence msg=%s\n", bad ? (v.hash == hash ? "REPRODUCED" : "REPRODUCED-DIFFERENT-LOG") : "HELD", bad ? cls.c_str() : "none", (unsigned long long)v.hash, (unsigned long long)hash, q.prop.c_str(), v.msg.c_str());
        return bad ? 1 : 0;
    }

    int cmd_replay(const std::string& file)
    {
        std::ifstream in(file);
        std::stringstream ss; ss << in.rdbuf();
        std::string text = ss.str();
        if (text.compare(0, 22, "cpp-sort-sim-sequence ") == 0) return replay_sequence(text);
        Spec sp;
        if (!read_spec(text, sp)) { std::fprintf(stderr, "bad replay file\n"); return 3; }
        const Property* p = find_property(sp.prop);
        if (!p) return 3;
        Verdict v = run_forked(*p, sp);
        std::string cls; std::uint64_t hash = 0;
        auto pos = text.find("\nexpect ");
        if (pos != std::string::npos) { std::istringstream e(text.substr(pos + 8)); e >> cls >> hash; }
        bool same = false;
        for (int i = 0; i < V_COUNT; ++i) if (cls == vio_name[i] && (v.vio & (1u << i))) same = true;
        std::printf("%s class=%s hash=%llu expected_hash=%llu property=%s subject=%s msg=%s\n", same ? (v.hash == hash ? "REPRODUCED" : "REPRODUCED-DIFFERENT-LOG") : (v.vio & p->mask) ? "OTHER-VIOLATION" : "HELD",
                    v.vio & p->mask ? vio_name[vio_class(v.vio & p->mask)] : "none", (unsigned long long)v.hash, (unsigned long long)hash, sp.prop.c_str(), sp.tasks.empty() ? "-" : sp.tasks[0].subject.c_str(), v.msg.c_str());
        return (v.vio & p->mask) ? 1 : 0;
    }
}
#if SIM_ASAN
extern "C" const char* __asan_default_options()
{
    return "halt_on_error=0:suppress_equal_pcs=0:symbolize=0:log_path=/dev/null:detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0";
}
#endif
int main(int argc, char** argv)
{
    // same addresses in every process
    if (!std::getenv("SIM_REEXEC")) {
        int cur = personality(0xffffffff);
        if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
#if SIM_ASAN
    __asan_set_error_report_callback(asan_report);
#endif
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::sort(registry().begin(), registry().end(), [](const Subject& a, const Subject& b) { return a.name < b.name; });
    std::string cmd = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> a;
    for (int i = 2; i < argc; ++i) { std::string s = argv[i]; auto e = s.find('='); if (e != std::string::npos) a[s.substr(0, e)] = s.substr(e + 1); }
    if (cmd == "list") { auto* p = a.count("prop") ? find_property(a["prop"]) : nullptr; for (auto& s : registry()) if (!p || p->filter(s)) std::printf("%s\n", s.name.c_str()); return 0; }
    if (cmd == "explore") return cmd_explore(a);
    if (cmd == "distinct") return cmd_distinct(argc, argv);
    if (cmd == "spec") return cmd_spec(a);
    if (cmd == "seq") return cmd_seq(a);
    if (cmd == "shrink") return cmd_shrink(a);
    if (cmd == "replay" && argc > 2) return cmd_replay(argv[2]);
    std::fprintf(stderr, "usage: simrun list|explore|shrink|replay ...\n");
    return 3;
}
