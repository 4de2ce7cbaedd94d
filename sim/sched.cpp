// Scenarios with more than one execution: environments, concurrent and nested
// callers, histories of calls.
#include "sched.h"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim
{
    void guard_process();     // main.cpp
    void arm(int sec);
    Vio death(int status);
    std::string death_text(int status);

    namespace
    {
        std::int64_t param(const Spec& sp, const char* k, std::int64_t d = 0) { auto it = sp.x.find(k); return it == sp.x.end() ? d : it->second; }

        std::uint64_t fold(const Outcome& o) { return mix2(mix2(o.hash, o.result_hash), mix2((std::uint64_t)o.ret, (std::uint64_t)o.exc * 64 + (o.vio != 0))); }
        bool fired(const Outcome& o) { for (auto f : o.fired) if (f) return true; return false; }

        const char* exc_name(int e) { static const char* const n[] = {"completed", "callback exception", "bad_alloc", "alien exception", "stopped"}; return n[e]; }

        // what differs between two executions of the same call, "" if nothing does
        std::string differ(const Outcome& a, const Outcome& b)
        {
            char buf[200];
            if (a.exc != b.exc) { std::snprintf(buf, sizeof buf, "one ended with %s, the other with %s", exc_name(a.exc), exc_name(b.exc)); return buf; }
            if (a.ret != b.ret) { std::snprintf(buf, sizeof buf, "return values %lld and %lld", (long long)a.ret, (long long)b.ret); return buf; }
            if (a.result_hash != b.result_hash) return "the collections left behind differ";
            for (int k = 0; k < K_COUNT; ++k)
                if (a.cnt[k] != b.cnt[k]) { std::snprintf(buf, sizeof buf, "%llu and %llu operations of kind %s", (unsigned long long)a.cnt[k], (unsigned long long)b.cnt[k], kind_name[k]); return buf; }
            if (a.hash != b.hash) return "the sequences of operations differ";
            if ((a.vio != 0) != (b.vio != 0)) return a.vio ? a.msg : b.msg;
            return "";
        }

        ////////////////////////////////////////////////////////////
        // Executions in a child process: nothing they leave behind is seen later

        struct Wire { int ok; Outcome o; };
        struct Plain
        {
            int exc; std::int64_t ret; std::uint64_t hash, result_hash, steps, peak; std::uint32_t vio; char msg[200];
            std::uint64_t cnt[K_COUNT], fired[K_COUNT];
        };
        Plain pack(const Outcome& o)
        {
            Plain p{}; p.exc = o.exc; p.ret = o.ret; p.hash = o.hash; p.result_hash = o.result_hash; p.steps = o.steps; p.peak = o.peak; p.vio = o.vio;
            std::snprintf(p.msg, sizeof p.msg, "%s", o.msg.c_str());
            std::memcpy(p.cnt, o.cnt, sizeof p.cnt); std::memcpy(p.fired, o.fired, sizeof p.fired);
            return p;
        }
        Outcome unpack(const Plain& p)
        {
            Outcome o; o.exc = p.exc; o.ret = p.ret; o.hash = p.hash; o.result_hash = p.result_hash; o.steps = p.steps; o.peak = p.peak; o.vio = p.vio; o.msg = p.msg;
            std::memcpy(o.cnt, p.cnt, sizeof p.cnt); std::memcpy(o.fired, p.fired, sizeof p.fired);
            return o;
        }
        // returns false when the child died; out holds what was sent before
        bool in_child(std::vector<Outcome>& out, int& status, const std::function<void(const std::function<void(const Outcome&)>&)>& f)
        {
            int fd[2];
            if (pipe(fd)) _exit(3);
            pid_t pid = fork();
            if (pid < 0) _exit(3);
            if (pid == 0) {
                close(fd[0]);
                int nul = open("/dev/null", O_WRONLY); if (nul >= 0) dup2(nul, 2);
                guard_process(); arm(20);
                f([&](const Outcome& o) { Plain p = pack(o); if (write(fd[1], &p, sizeof p) != (ssize_t)sizeof p) _exit(3); });
                _exit(0);
            }
            close(fd[1]);
            Plain p;
            std::size_t got = 0;
            for (;;) {
                ssize_t r = read(fd[0], (char*)&p + got, sizeof p - got);
                if (r < 0 && errno == EINTR) continue;
                if (r <= 0) break;
                got += r;
                if (got == sizeof p) { out.push_back(unpack(p)); got = 0; }
            }
            close(fd[0]);
            while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
            if (WIFEXITED(status) && WEXITSTATUS(status) == 3) _exit(3);
            return WIFEXITED(status) && WEXITSTATUS(status) == 0;
        }

        HeapCfg heap_of(const Spec& sp, std::size_t i)
        {
            HeapCfg h = sp.heap;
            if (i && h.garbage) h.garbage = mix2(h.garbage, i);
            return h;
        }
    }

    ////////////////////////////////////////////////////////////
    // Same call, two environments

    namespace
    {
        // the call happens further down the stack
        __attribute__((noinline)) Outcome run_deeper(std::size_t by, const Spec& sp, const TaskSpec& t, const HeapCfg& h, std::int64_t off)
        {
            volatile char* room = static_cast<volatile char*>(__builtin_alloca(by + 16));
            room[0] = 1;
            Outcome o = run_single(sp, t, h, off);
            room[by] = 1;
            return o;
        }
    }

    Verdict exec_metric(const Spec& sp)
    {
        const TaskSpec& t = sp.tasks[0];
        const Subject& s = *find_subject(t.subject);
        Outcome a = run_single(sp, t, sp.heap, param(sp, "coll_off"));
        account(a, t);
        Verdict v{a.vio, a.msg, fold(a), fired(a)};
        // the moves metric works on elements of its own: it may need other memory
        const bool moves = s.name.find("moves") != std::string::npos;
        bool comparable = !a.vio && !s.twin.empty() && !(moves && t.alloc.mode != A_NONE);
        if (moves) for (auto& f : t.faults) if (f.kind >= K_MCTOR && f.kind <= K_SWAP) comparable = false;
        if (!comparable) return v;
        TaskSpec u = t; u.subject = s.twin;
        Outcome b = run_single(sp, u, sp.heap, param(sp, "coll_off"));
        v.hash = mix2(v.hash, fold(b));
        std::string d;
        char buf[200];
        if (a.exc != b.exc) d = std::string("it ended with ") + exc_name(a.exc) + ", without the metric with " + exc_name(b.exc);
        else if (a.result_hash != b.result_hash && !(moves && a.exc)) d = "the collection is not left as the sorter alone leaves it";
        else for (int k = K_CMP; k <= K_PROJ; ++k)
            if (a.cnt[k] != b.cnt[k]) { std::snprintf(buf, sizeof buf, "%llu %s, %llu without the metric", (unsigned long long)a.cnt[k], kind_name[k], (unsigned long long)b.cnt[k]); d = buf; }
        if (!d.empty()) { v.vio |= bit(V_WRONG_VALUE); v.msg = d; }
        return v;
    }

    Verdict exec_environments(const Spec& sp)
    {
        const TaskSpec& t = sp.tasks[0];
        if (param(sp, "apart")) {
            // the call killed the process: only counts if it survives in one of the two
            std::vector<Outcome> oa, ob; int sa = 0, sb = 0;
            in_child(oa, sa, [&](auto& send) { send(run_single(sp, t, sp.heap, param(sp, "coll_off"))); });
            HeapCfg h2; h2.garbage = (std::uint64_t)param(sp, "garbage2"); h2.dir = (int)param(sp, "dir2"); h2.pad_seed = (std::uint64_t)param(sp, "pad2");
            in_child(ob, sb, [&](auto& send) { send(run_deeper((std::size_t)param(sp, "stack2"), sp, t, h2, param(sp, "coll_off2"))); });
            Verdict v; v.hash = 0xdead;
            if (oa.empty() != ob.empty()) { v.vio = bit(V_NONDET); v.msg = "same call, different memory contents and addresses: " + death_text(oa.empty() ? sa : sb) + " in one of the two only"; }
            return v;
        }
        Outcome a = run_single(sp, t, sp.heap, param(sp, "coll_off"));
        HeapCfg h;
        h.garbage = (std::uint64_t)param(sp, "garbage2"); h.dir = (int)param(sp, "dir2"); h.pad_seed = (std::uint64_t)param(sp, "pad2");
        Outcome b = run_deeper((std::size_t)param(sp, "stack2"), sp, t, h, param(sp, "coll_off2"));
        account(a, t); account(b, t);
        Verdict v{a.vio | b.vio, a.vio ? a.msg : b.msg, mix2(fold(a), fold(b)), true};
        std::string d = differ(a, b);
        if (!d.empty()) { v.vio |= bit(V_NONDET); v.msg = "same call, different memory contents and addresses: " + d; }
        return v;
    }

    ////////////////////////////////////////////////////////////
    // Several callers

    namespace
    {
        struct Callers
        {
            const Spec* sp = nullptr;
            std::vector<std::unique_ptr<Task>> tasks;
            std::vector<int> state;                 // 0 not started, 1 running, 2 done
            std::unique_ptr<sem_t[]> sems;
            sem_t all_done;
            int cur = -1;
            std::uint64_t no = 0, hash = 0, switches = 0;
            std::size_t pos = 0;
            int depth = 0;
        };
        Callers* cs = nullptr;

        void wait_for(sem_t* s) { while (sem_wait(s) != 0 && errno == EINTR) {} }

        int next_decision()
        {
            Callers& c = *cs;
            ++c.no;
            const auto& sched = c.sp->sched;
            if (c.pos >= sched.size() || c.no < sched[c.pos].first) return -1;
            int t = sched[c.pos].second;
            ++c.pos;
            if (t < 0 || t >= (int)c.tasks.size()) return -1;
            return t;
        }

        void hand_over(int to)
        {
            Callers& c = *cs;
            c.cur = to;
            if (c.state[to] == 0) c.state[to] = 1;
            c.hash = mix2(c.hash, (c.no << 4) ^ to);
            g = &c.tasks[to]->ctx;
            sem_post(&c.sems[to]);
        }

        void seam_interleave(Ctx&, int)
        {
            Callers& c = *cs;
            int t = next_decision();
            if (t < 0 || t == c.cur || c.state[t] == 2) return;
            int me = c.cur;
            ++c.switches;
            hand_over(t);
            wait_for(&c.sems[me]);
        }
        void* caller_thread(void* p)
        {
            Callers& c = *cs;
            int me = (int)(std::intptr_t)p;
            wait_for(&c.sems[me]);
            c.tasks[me]->run();
            c.state[me] = 2;
            // the next unfinished caller, in cyclic order
            int n = (int)c.tasks.size();
            for (int k = 1; k <= n; ++k) {
                int t = (me + k) % n;
                if (c.state[t] != 2) { hand_over(t); return nullptr; }
            }
            sem_post(&c.all_done);
            return nullptr;
        }

        void seam_nested(Ctx& outer, int)
        {
            Callers& c = *cs;
            int t = next_decision();
            if (t < 0 || c.state[t] != 0 || c.depth >= 3) return;
            c.state[t] = 1;
            ++c.depth; ++c.switches;
            c.hash = mix2(c.hash, (c.no << 4) ^ t);
            bool lib = outer.in_lib;
            c.tasks[t]->run();
            c.state[t] = 2;
            --c.depth;
            g = &outer; outer.in_lib = lib;
        }

        struct RunInDestructor { Task* t; ~RunInDestructor() { t->run(); } };

        void run_callers(const Spec& sp, std::vector<Outcome>& out)
        {
            Callers c; cs = &c; c.sp = &sp;
            int mode = (int)param(sp, "mode");
            std::size_t n = sp.tasks.size();
            heap_reset(sp.heap);
            for (std::size_t i = 0; i < n; ++i) {
                c.tasks.push_back(std::make_unique<Task>(sp.tasks[i], (int)i, param(sp, "coll_off")));
                Task& k = *c.tasks.back();
                k.paint = sp.heap.garbage + i;
                k.setup();
                k.ctx.unwinding_ok = mode != MODE_INTERLEAVE;
                if (mode == MODE_INTERLEAVE) k.ctx.on_seam = seam_interleave;
                if (mode == MODE_NESTED) k.ctx.on_seam = seam_nested;
            }
            c.state.assign(n, 0);
            switch (mode) {
                case MODE_INTERLEAVE: {
                    c.sems.reset(new sem_t[n]);
                    for (std::size_t i = 0; i < n; ++i) sem_init(&c.sems[i], 0, 0);
                    sem_init(&c.all_done, 0, 0);
                    std::vector<pthread_t> th(n);
                    for (std::size_t i = 0; i < n; ++i) if (pthread_create(&th[i], nullptr, caller_thread, (void*)(std::intptr_t)i)) _exit(3);
                    hand_over(0);
                    wait_for(&c.all_done);
                    for (auto& t : th) pthread_join(t, nullptr);
                    break;
                }
                case MODE_NESTED:
                    for (std::size_t i = 0; i < n; ++i) if (c.state[i] == 0) { c.state[i] = 1; c.tasks[i]->run(); c.state[i] = 2; }
                    break;
                case MODE_UNWIND:
                    for (std::size_t i = 0; i < n; ++i) {
                        try { RunInDestructor d{c.tasks[i].get()}; throw 1; } catch (int) {}
                    }
                    break;
                case MODE_CATCH:
                    for (std::size_t i = 0; i < n; ++i) {
                        try { throw std::runtime_error("outer"); } catch (...) { c.tasks[i]->run(); }
                    }
                    break;
            }
            for (auto& t : c.tasks) t->finish();
            heap_audit();
            for (auto& t : c.tasks) { collect(*t); out.push_back(t->out); }
            Outcome last; last.hash = c.hash; last.steps = c.switches;
            out.push_back(last);
            static Ctx idle; g = &idle;
            cs = nullptr;
        }
    }

    Verdict exec_callers(const Spec& sp)
    {
        Verdict v;
        std::size_t n = sp.tasks.size();
        std::vector<Outcome> together; int st = 0;
        bool alive = in_child(together, st, [&](auto& send) { std::vector<Outcome> o; run_callers(sp, o); for (auto& x : o) send(x); });
        std::uint64_t h = 0;
        bool solo_dead = false;
        std::vector<Outcome> alone;
        for (std::size_t i = 0; i < n; ++i) {
            std::vector<Outcome> o; int s1 = 0;
            bool ok = in_child(o, s1, [&](auto& send) { send(run_single(sp, sp.tasks[i], heap_of(sp, i), param(sp, "coll_off"))); });
            if (!ok || o.size() != 1) { solo_dead = true; break; }
            alone.push_back(o[0]);
        }
        if (solo_dead) return v;         // the call is broken on its own: not about isolation
        if (!alive || together.size() != n + 1) {
            v.vio = bit(alive ? V_CRASH : death(st)) | bit(V_INTERFERE);
            v.msg = "every call works alone, together: " + death_text(st);
            v.hash = 0xdead;
            return v;
        }
        for (std::size_t i = 0; i < n; ++i) {
            h = mix2(h, fold(together[i]));
            account(together[i], sp.tasks[i]);
            std::string d = differ(together[i], alone[i]);
            if (!d.empty() && !v.vio) {
                static const char* const how[] = {"interleaved with other calls", "nested in another call", "while an exception is in flight", "inside of an exception handler"};
                v.vio = bit(V_INTERFERE);
                v.msg = "caller " + std::to_string(i) + " (" + sp.tasks[i].subject + ") " + how[param(sp, "mode")] + " and alone: " + d;
            }
        }
        static const char* const names[] = {"interleaved_callers", "nested_callers", "call_while_unwinding", "call_in_exception_handler"};
        ++stats.probes[names[param(sp, "mode")]];
        stats.probes["caller_switches"] += together[n].steps;
        v.hash = mix2(h, together[n].hash);
        v.nontrivial = true;
        return v;
    }

    ////////////////////////////////////////////////////////////
    // Histories

    Verdict exec_history(const Spec& sp)
    {
        Verdict v;
        std::size_t n = sp.tasks.size();
        const bool reset = param(sp, "reset", 1);
        auto one = [&](std::size_t i, bool first) {
            if (reset || first) heap_reset(heap_of(sp, i)); else heap_audit();
            Task k(sp.tasks[i], 0, param(sp, "coll_off"));
            k.paint = heap_of(sp, i).garbage;
            k.setup(); k.run(); k.finish();
            if (reset) heap_audit();
            collect(k);
            static Ctx idle; g = &idle;
            return k.out;
        };
        std::vector<Outcome> hist; int st = 0;
        bool alive = in_child(hist, st, [&](auto& send) { for (std::size_t i = 0; i < n; ++i) send(one(i, i == 0)); });
        std::uint64_t h = 0;
        bool after_failure = false;
        for (std::size_t i = 0; i < n; ++i) {
            if (i >= hist.size()) {
                // died during call i: only counts if that call survives on its own
                std::vector<Outcome> o; int s1 = 0;
                bool ok = in_child(o, s1, [&](auto& send) { send(one(i, true)); });
                if (ok && o.size() == 1) { v.vio |= bit(alive ? V_CRASH : death(st)) | bit(V_STALE); v.msg = "call " + std::to_string(i + 1) + " of the history: " + death_text(st) + "; it works in a fresh process"; v.hash = 0xdead; }
                return v;
            }
            h = mix2(h, fold(hist[i]));
            account(hist[i], sp.tasks[i]);
            if (i) {
                std::vector<Outcome> o; int s1 = 0;
                bool ok = in_child(o, s1, [&](auto& send) { send(one(i, true)); });
                if (!ok || o.size() != 1) { v.vio |= bit(V_STALE); v.msg = "call " + std::to_string(i + 1) + " dies in a fresh process only: " + death_text(s1); return v; }
                std::string d = differ(hist[i], o[0]);
                if (!d.empty() && !v.vio) { v.vio = bit(V_STALE); v.msg = "call " + std::to_string(i + 1) + " (" + sp.tasks[i].subject + ") after " + std::to_string(i) + " earlier call(s) and in a fresh process: " + d; }
                if (after_failure) ++stats.probes["calls_after_a_failed_call"];
            }
            if (hist[i].exc != X_NONE) after_failure = true;
            if (fired(hist[i])) v.nontrivial = true;
        }
        v.hash = h;
        if (n > 1) ++stats.probes["histories"];
        return v;
    }
}
