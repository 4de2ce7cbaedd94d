#include "engine.h"
#include "sched.h"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <unistd.h>

namespace sim
{
    int sim_spec_fd = -1;      // when >= 0, specs are written there before each dry run
    namespace
    {
        const Spec* generating = nullptr;
        using Subs = std::vector<const Subject*>;

        const Subject& pick(Rng& r, const Subs& subs)
        {
            // families first, so that sorters with many variants are not favoured
            const Subject* s = subs[r.below(subs.size())];
            std::vector<const Subject*> fam;
            for (auto* x : subs) if (x->family == s->family) fam.push_back(x);
            if (r.chance(.7)) {
                std::vector<std::string> names;
                for (auto* x : subs) if (names.empty() || names.back() != x->family) names.push_back(x->family);
                const std::string& f = names[r.below(names.size())];
                fam.clear();
                for (auto* x : subs) if (x->family == f) fam.push_back(x);
            }
            const Subject& chosen = *fam[r.below(fam.size())];
            // simulated sorters have a property of their own
            if ((chosen.flags & F_SIMSORTER) && !(subs[0]->flags & F_SIMSORTER) && r.chance(.75)) return pick(r, subs);
            return chosen;
        }

        struct Mix
        {
            double alloc = .5, thr = .5, none = .15;
            unsigned kinds = (1u << K_CMP) | (1u << K_PROJ) | (1u << K_MCTOR) | (1u << K_MASSIGN) | (1u << K_SWAP) | (1u << K_SORTER);
            int scale = 1;
            bool bufgrant = true;
        };

        void plan_alloc(Rng& r, AllocPlan& a, const Outcome& dry)
        {
            std::uint64_t na = dry.cnt[K_ALLOC];
            switch (r.below(12)) {
                case 9: case 10: { static const int ps[] = {1000, 1000, 900, 500, 200}; a.mode = A_NOTHROW; a.p1 = ps[r.below(5)]; a.p2 = r.next(); break; }
                case 11: a.mode = A_NTBIG; a.p1 = r.chance(.5) ? r.below(dry.peak + 1) : r.below(std::uint64_t(8) << r.below(14)); break;
                case 0: case 1: a.mode = A_ALL; break;
                case 2: case 3: a.mode = A_SET; a.set = {(std::uint32_t)(1 + r.below(std::max<std::uint64_t>(1, na)))}; break;
                case 4: { static const int ps[] = {50, 100, 300, 500, 800, 950}; a.mode = A_RANDOM; a.p1 = ps[r.below(6)]; a.p2 = r.next(); break; }
                case 5: { a.mode = A_BIGGER; std::uint64_t b = 8; int k = (int)r.below(17); b <<= k; a.p1 = b + r.below(b); break; }
                case 6: { a.mode = A_BUDGET; a.p1 = dry.peak ? r.below(dry.peak + 1) : r.below(4096); break; }
                case 7: a.mode = A_AFTER; a.p1 = r.below(std::max<std::uint64_t>(1, na)); break;
                case 8: a.mode = A_PREFIX; a.p1 = 1 + r.below(std::max<std::uint64_t>(2, na)); break;
            }
        }

        void plan_throw(Rng& r, TaskSpec& t, const Subject& s, const Ctx& dry, unsigned kinds)
        {
            std::vector<int> ks;
            auto push = [&](int k, int w) { if ((kinds & (1u << k)) && dry.cnt[k]) for (int i = 0; i < w; ++i) ks.push_back(k); };
            push(K_CMP, 4); push(K_PROJ, 3); push(K_MCTOR, 3); push(K_MASSIGN, 3); push(K_SWAP, 2); push(K_SORTER, 4);
            if (ks.empty()) return;
            int k = ks[r.below(ks.size())];
            std::uint64_t c = dry.cnt[k], at;
            std::uint64_t m = r.below(10);
            if (m < 4) at = 1 + r.below(c);
            else if (m < 5) at = 1 + r.below(std::min<std::uint64_t>(c, 6));
            else if (m < 6) at = c - r.below(std::min<std::uint64_t>(c, 6));
            else if (dry.nmarks) { at = dry.marks[r.below(dry.nmarks)].cnt[k] + 1 + r.below(r.chance(.5) ? 4 : 40); if (at > c) at = c; }
            else at = 1 + r.below(c);
            t.faults.push_back(Fault{k, at, (int)r.below(2)});
            t.exc_type = (int)r.below(4);
        }

        // runs once and hands back the context, to learn where faults can land
        Outcome dry_run(const TaskSpec& t, const HeapCfg& h, Ctx& ctx_out)
        {
            if (sim_spec_fd >= 0 && generating) {
                Spec s = *generating;
                s.tasks.push_back(t);
                std::string w = write_spec(s);
                for (std::size_t o = 0; o < w.size();) { ssize_t k = write(sim_spec_fd, w.data() + o, w.size() - o); if (k <= 0) break; o += k; }
            }
            heap_reset(h);
            Task k(t, 0, 0);
            k.setup(); k.run(); k.finish();
            heap_audit();
            ctx_out = k.ctx;
            Outcome o = k.out;
            std::memcpy(o.cnt, k.ctx.cnt, sizeof o.cnt);
            o.peak = k.ctx.peak_bytes; o.vio = k.ctx.vio; o.failed = k.ctx.failed_allocs; o.steps = k.ctx.steps;
            return o;
        }

        TaskSpec gen_task(Rng& r, const Subject& s, const HeapCfg& h, const Mix& m, std::size_t max_n = ~std::size_t(0))
        {
            TaskSpec t;
            t.subject = s.name;
            std::size_t n = gen_size(r, s, m.scale);
            if (n > max_n && s.max_n >= 0) n = r.below(max_n + 1);
            t.keys = gen_keys(r, n);
            t.reverse = r.chance(.25);
            t.swap_as_moves = r.chance(.5);
            if ((s.flags & F_SIMBUF) && m.bufgrant) {
                switch (r.below(6)) {
                    case 0: t.buf_grant = -1; break;
                    case 1: t.buf_grant = -2; break;
                    case 2: t.buf_grant = -3; break;
                    case 3: t.buf_grant = 0; break;
                    case 4: t.buf_grant = (std::int64_t)r.below(40); break;
                    case 5: t.buf_grant = (std::int64_t)r.below(2 * n + 4); break;
                }
            }
            if (r.chance(m.none)) return t;
            bool want_alloc = r.chance(m.alloc), want_throw = r.chance(m.thr);
            if (!want_alloc && !want_throw) return t;
            Ctx c;
            Outcome dry = dry_run(t, h, c);
            if (dry.vio) return t;
            if (want_alloc && dry.cnt[K_ALLOC]) {
                plan_alloc(r, t.alloc, dry);
                if (want_throw) { Outcome d2 = dry_run(t, h, c); if (d2.vio) return t; }
            }
            if (want_throw) plan_throw(r, t, s, c, m.kinds);
            return t;
        }

        void gen_env(Spec& sp, Rng& r)
        {
            sp.heap.garbage = r.chance(.15) ? 0 : r.next() >> 1;
            sp.heap.dir = (int)r.below(2);
            sp.heap.pad_seed = r.chance(.3) ? 0 : r.next() >> 1;
            sp.x["coll_off"] = (std::int64_t)r.below(4096);
        }

        void gen_with(Spec& sp, Rng& r, const Subs& subs, const Mix& m)
        {
            gen_env(sp, r);
            generating = &sp;
            sp.tasks.push_back(gen_task(r, pick(r, subs), sp.heap, m));
        }

        std::uint64_t vhash(const Outcome& o) { return mix2(o.hash, o.result_hash) ^ ((std::uint64_t)o.vio << 13) ^ (std::uint64_t)o.exc; }

        bool any_fault(const Outcome& o) { for (auto f : o.fired) if (f) return true; return false; }
        Verdict exec_single(const Spec& sp)
        {
            auto it = sp.x.find("coll_off");
            Outcome o = run_single(sp, sp.tasks[0], sp.heap, it == sp.x.end() ? 0 : it->second);
            account(o, sp.tasks[0]);
            return Verdict{o.vio, o.msg, vhash(o), any_fault(o)};
        }

        ////////////////////////////////////////////////////////////
        // faults planned without running the call first: for scenarios that may only
        // execute library code in a pristine process

        TaskSpec gen_blind(Rng& r, const Subject& s, std::size_t max_n, double alloc, double thr)
        {
            TaskSpec t;
            t.subject = s.name;
            std::size_t n = gen_size(r, s, 0);
            if (s.max_n >= 0 && n > max_n) n = r.below(max_n + 1);
            t.keys = gen_keys(r, n);
            t.reverse = r.chance(.25);
            t.swap_as_moves = r.chance(.5);
            if (s.flags & F_SIMBUF) t.buf_grant = (std::int64_t)r.below(n + 2) - 1;
            if (r.chance(alloc)) {
                AllocPlan& a = t.alloc;
                switch (r.below(8)) {
                    case 6: a.mode = A_NOTHROW; a.p1 = r.chance(.6) ? 1000 : 400; a.p2 = r.next(); break;
                    case 7: a.mode = A_NTBIG; a.p1 = r.below(std::max<std::size_t>(1, n * 16)); break;
                    case 0: case 1: a.mode = A_ALL; break;
                    case 2: a.mode = A_SET; a.set = {(std::uint32_t)(1 + r.below(3))}; break;
                    case 3: a.mode = A_RANDOM; a.p1 = 100 + r.below(800); a.p2 = r.next(); break;
                    case 4: a.mode = A_BIGGER; a.p1 = r.below(std::max<std::size_t>(1, n * 16)); break;
                    case 5: a.mode = A_AFTER; a.p1 = r.below(4); break;
                }
            }
            if (r.chance(thr)) {
                std::vector<int> ks = {K_CMP, K_CMP};
                if (s.flags & F_PROJ) { ks.push_back(K_PROJ); if (s.flags & F_INTONLY) ks = {K_PROJ}; }
                if (s.elem == E_ELEM && !(s.flags & (F_READONLY | F_LINKS))) { ks.push_back(K_MCTOR); ks.push_back(K_MASSIGN); ks.push_back(K_SWAP); }
                if (s.flags & F_SIMSORTER) ks = {K_CMP, K_SWAP, K_SORTER, K_SORTER};
                int k = ks[r.below(ks.size())];
                double top = k == K_CMP || k == K_PROJ ? n * (std::log2((double)n + 2) + 1) : 2. * n + 2;
                std::uint64_t at = 1 + (std::uint64_t)std::exp((double)r.below(1000) / 1000. * std::log(top + 1));
                if (r.chance(.6)) at = 1 + r.below((std::uint64_t)top + 1);
                if (k == K_SORTER) at = 1 + r.below(2);
                t.faults.push_back(Fault{k, at, (int)r.below(2)});
                t.exc_type = (int)r.below(4);
            }
            return t;
        }

        ////////////////////////////////////////////////////////////
        // filters and generators

        bool f_all(const Subject& s) { return s.op != O_ORDER; }
        bool f_order(const Subject& s) { return s.op == O_ORDER && !(s.flags & F_RADIX); }
        bool f_radix(const Subject& s) { return s.op == O_SORT ? (s.flags & F_INTONLY) : (s.flags & F_RADIX); }
        bool f_tolerant(const Subject& s) { return (s.flags & F_TOLERANT) && s.op == O_SORT; }
        bool f_stable(const Subject& s) { return (s.flags & F_STABLE) && s.elem < E_INT; }
        bool f_keep(const Subject& s) { return s.flags & (F_INDIRECT | F_READONLY); }
        bool f_lists(const Subject& s) { return s.coll != C_ARRAY; }
        bool f_simbuf(const Subject& s) { return s.flags & F_BUFFERED; }
        bool f_elem(const Subject& s) { return s.elem == E_ELEM; }
        bool f_untimed(const Subject& s) { return s.op != O_ORDER && !(s.op == O_METRIC && (s.aux == M_TIME_NS || s.aux == M_TIME_US)); }
        bool f_nometric(const Subject& s) { return s.op != O_METRIC && s.op != O_ORDER && s.max_n >= 0; }
        bool f_time(const Subject& s) { return s.op == O_METRIC && (s.aux == M_TIME_NS || s.aux == M_TIME_US); }
        bool f_count(const Subject& s) { return s.op == O_METRIC && !f_time(s); }
        bool f_probe(const Subject& s) { return s.op == O_PROBE; }
        bool f_cost(const Subject& s) { return (s.flags & (F_NLOGN | F_NLOG2N)) && s.op == O_SORT && s.elem <= E_POD && has_limits(s); }
        bool f_space(const Subject& s) { return s.op == O_SORT && s.max_n == 0 && s.elem <= E_POD && has_limits(s); }
        bool f_adaptive(const Subject& s) { return s.op == O_SORT && s.max_n == 0 && s.elem <= E_POD && shapes_of(s); }
        bool f_measure(const Subject& s) { return (s.op == O_PROBE || s.op == O_QUERY) && s.coll == C_ARRAY && s.elem <= E_POD && s.max_n == 0; }
        bool f_proxy(const Subject& s) { return s.flags & F_PROXY; }
        bool f_simsorter(const Subject& s) { return s.flags & F_SIMSORTER; }
        bool f_align(const Subject& s) { return s.flags & F_ALIGN; }
        bool f_fixed(const Subject& s) { return s.flags & F_FIXED; }
        bool f_oneproj(const Subject& s) { return s.flags & F_ONEPROJ; }

        void g_c01(Spec& sp, Rng& r, const Subs& s) { Mix m; m.alloc = 1; m.thr = 0; m.none = .12; gen_with(sp, r, s, m); }
        void g_c02(Spec& sp, Rng& r, const Subs& s) { Mix m; m.alloc = 1; m.thr = 0; m.none = .08; gen_with(sp, r, s, m); }
        void g_c03(Spec& sp, Rng& r, const Subs& s) { Mix m; m.alloc = .35; m.thr = 1; m.none = .02; m.scale = 0; gen_with(sp, r, s, m); }
        void g_c04(Spec& sp, Rng& r, const Subs& s) { Mix m; m.alloc = .5; m.thr = .75; m.none = .05; gen_with(sp, r, s, m); }
        void g_c05(Spec& sp, Rng& r, const Subs& s) { Mix m; m.alloc = .6; m.thr = .3; m.none = .25; gen_with(sp, r, s, m); }
        void g_c07(Spec& sp, Rng& r, const Subs& s) { Mix m; m.alloc = .5; m.thr = .8; m.none = .05; m.kinds = (1u << K_CMP) | (1u << K_PROJ) | (1u << K_SORTER); gen_with(sp, r, s, m); }
        void g_c08(Spec& sp, Rng& r, const Subs& s) { Mix m; m.alloc = .5; m.thr = .5; m.none = .2; gen_with(sp, r, s, m); }
        void g_c10(Spec& sp, Rng& r, const Subs& s)
        {
            Mix m; m.alloc = .5; m.thr = .3; m.none = .25;
            gen_with(sp, r, s, m);
            sp.x["garbage2"] = (std::int64_t)(r.chance(.2) ? 0 : r.next() >> 1);
            sp.x["dir2"] = !sp.heap.dir;
            sp.x["pad2"] = (std::int64_t)(r.next() >> 1);
            sp.x["coll_off2"] = (std::int64_t)r.below(4096);
            sp.x["stack2"] = (std::int64_t)r.below(2048) * 16;
        }
        void g_c11(Spec& sp, Rng& r, const Subs& s)
        {
            gen_env(sp, r);
            int mode = (int)r.below(10);
            mode = mode < 5 ? MODE_INTERLEAVE : mode < 8 ? MODE_NESTED : mode < 9 ? MODE_UNWIND : MODE_CATCH;
            sp.x["mode"] = mode;
            std::size_t n = mode >= MODE_UNWIND ? r.range(1, 2) : r.range(2, 4);
            const Subject* first = &pick(r, s);
            if (r.chance(.12)) { Subs big; for (auto* x : s) if (x->flags & F_BIG) big.push_back(x); if (!big.empty()) first = &pick(r, big); }
            const bool same = r.chance(.6), level = r.chance(.4);
            std::uint64_t total = 0;
            for (std::size_t i = 0; i < n; ++i) {
                const Subject* x = first;
                if (i && !same) { x = &pick(r, s); if (r.chance(.4)) { std::vector<const Subject*> fam; for (auto* y : s) if (y->family == first->family) fam.push_back(y); x = fam[r.below(fam.size())]; } }
                sp.tasks.push_back(gen_blind(r, *x, x->flags & F_BIG ? 2600 : r.chance(.1) ? 1300 : 260, .3, .35));
                if (i && same && level) sp.tasks.back().keys = r.chance(.2) ? sp.tasks[0].keys : gen_keys(r, sp.tasks[0].keys.size());
                double k = (double)sp.tasks.back().keys.size();
                total += (std::uint64_t)(k * (std::log2(k + 2) * 2 + 4));
            }
            if (mode >= MODE_UNWIND) return;
            // a schedule: uniform switches, bursts, or a caller frozen in the middle of its call
            std::uint64_t at = 0;
            int style = (int)r.below(4);
            std::size_t count = mode == MODE_NESTED ? n - 1 : style == 3 ? 1 + r.below(3) : 1 + r.below(style == 0 ? 8 : 120);
            for (std::size_t i = 0; i < count; ++i) {
                std::uint64_t gap;
                if (mode == MODE_NESTED) gap = 1 + r.below(std::max<std::uint64_t>(2, r.chance(.5) ? total / n : 40));
                else if (style == 0 || style == 3) gap = 1 + r.below(std::max<std::uint64_t>(2, total / 2));
                else if (style == 1) gap = 1 + r.below(3);
                else gap = 1 + r.below(std::max<std::uint64_t>(2, 2 * total / count));
                at += gap;
                sp.sched.emplace_back(at, mode == MODE_NESTED ? (int)(i + 1) : (int)r.below(n));
            }
        }
        void g_c12(Spec& sp, Rng& r, const Subs& s)
        {
            gen_env(sp, r);
            sp.x["reset"] = r.chance(.5);
            std::size_t n = r.range(2, 5);
            const Subject* first = &pick(r, s);
            const double p = r.chance(.6) ? 1. : .3;
            std::vector<int> keys;
            for (std::size_t i = 0; i < n; ++i) {
                const Subject* x = first;
                if (i && !r.chance(p)) { x = &pick(r, s); if (r.chance(.4)) { std::vector<const Subject*> fam; for (auto* y : s) if (y->family == first->family) fam.push_back(y); x = fam[r.below(fam.size())]; } }
                const bool last = i + 1 == n;
                sp.tasks.push_back(gen_blind(r, *x, x->flags & F_BIG ? 2600 : r.chance(.1) ? 1300 : 400, last ? .2 : .55, last ? .15 : .7));
                // the same input again after a failure
                if (i && x == first && r.chance(.3)) sp.tasks.back().keys = sp.tasks.front().keys;
            }
        }
        void g_c13(Spec& sp, Rng& r, const Subs& s)
        {
            Mix m; m.alloc = .2; m.thr = .1; m.none = .5; m.scale = 0;
            gen_with(sp, r, s, m);
            TaskSpec& t = sp.tasks[0];
            std::size_t k = r.below(4);
            double n = (double)t.keys.size(), top = n * (std::log2(n + 2) + 2) * (t.subject.find("proj") != std::string::npos ? 3 : 1) + 2;
            for (std::size_t i = 0; i < k; ++i) {
                static const int ns[] = {1, 999, 1000, 1500, 1000000, 250000000, 2000000000};
                std::uint64_t at = 1 + r.below(r.chance(.3) ? 4 : (std::uint64_t)top);
                if (r.chance(.35)) at = CLOCK_READ + 2 + r.below(6);
                t.faults.push_back(Fault{K_CLOCK, at, ns[r.below(7)]});
            }
        }
        void g_c14(Spec& sp, Rng& r, const Subs& s) { Mix m; m.alloc = .5; m.thr = .1; m.none = .35; m.scale = 0; gen_with(sp, r, s, m); }
        void g_c15(Spec& sp, Rng& r, const Subs& s)
        {
            gen_env(sp, r);
            generating = &sp;
            Mix m; m.alloc = .5; m.thr = .05; m.none = .4; m.scale = 0;
            const Subject& x = pick(r, s);
            sp.tasks.push_back(gen_task(r, x, sp.heap, m, r.chance(.8) ? 160 : ~std::size_t(0)));
            sp.tasks[0].reverse = r.chance(.25);
            // counters have to be wide enough
            if (x.elem == E_POD && r.chance(.01)) {
                sp.tasks[0].keys = gen_keys(r, r.chance(.5) ? r.range(65500, 140000) : (std::size_t)(4000. * std::pow(20., (double)r.below(1000) / 1000.)));
                sp.tasks[0].faults.clear(); sp.tasks[0].alloc = AllocPlan{};
            }
        }
        void g_c16(Spec& sp, Rng& r, const Subs& s)
        {
            gen_env(sp, r);
            generating = &sp;
            const Subject& x = pick(r, s);
            Mix m; m.alloc = .5; m.thr = 0; m.none = .3; m.bufgrant = true;
            TaskSpec t = gen_task(r, x, sp.heap, m);
            std::size_t n = r.chance(.6) ? r.range(64, 1200) : r.range(1200, 4000);
            t.keys = gen_keys(r, n);
            const Subject* y = &x;
            if (x.elem != E_ELEM) for (auto* z : s) if (z->elem == E_ELEM && cost_key(*z) == cost_key(x)) { y = z; break; }
            if (y->elem == E_ELEM && r.chance(.6)) {
                TaskSpec u = t; u.subject = y->name;
                int style = (int)r.below(3);
                t.keys = adversary(u, sp.heap, style);
                t.reverse = false;
                sp.x["adversary"] = 1 + style;
            }
            sp.tasks.push_back(t);
        }
        void g_c17(Spec& sp, Rng& r, const Subs& s) { Mix m; m.alloc = .3; m.thr = .15; m.none = .4; gen_with(sp, r, s, m); }
        void g_c19(Spec& sp, Rng& r, const Subs& s) { Mix m; m.alloc = .3; m.thr = .3; m.none = .3; gen_with(sp, r, s, m); if (sp.tasks[0].keys.size() < 2) { sp.tasks[0].keys = gen_keys(r, 2 + r.below(60)); } }
        void g_c20(Spec& sp, Rng& r, const Subs& s)
        {
            if (r.chance(.35)) {
                std::vector<const Subject*> v;
                for (auto* x : s) if ((x->flags & (F_NLOGN | F_NLOG2N)) && x->coll == C_ARRAY) v.push_back(x);
                if (!v.empty()) { g_c16(sp, r, v); return; }
            }
            Mix m; m.alloc = .35; m.thr = .1; m.none = .5; gen_with(sp, r, s, m);
        }

        void g_c24(Spec& sp, Rng& r, const Subs& s)
        {
            gen_env(sp, r);
            generating = &sp;
            const Subject& x = pick(r, s);
            unsigned m = shapes_of(x);
            int shape;
            do shape = (int)r.below(SHAPES); while (!(m >> shape & 1));
            std::size_t n = r.chance(.35) ? r.range(64, 2500) : r.range(2500, x.elem == E_POD ? 9000 : 6000);
            TaskSpec t; t.subject = x.name;
            t.keys = shaped_keys(r, n, shape);
            t.swap_as_moves = r.chance(.5);
            if (r.chance(.4)) {
                Ctx c;
                Outcome dry = dry_run(t, sp.heap, c);
                if (!dry.vio && dry.cnt[K_ALLOC]) plan_alloc(r, t.alloc, dry);
            }
            sp.x["shape"] = shape;
            sp.tasks.push_back(t);
        }
        void g_c25(Spec& sp, Rng& r, const Subs& s)
        {
            gen_env(sp, r);
            generating = &sp;
            const Subject& x = pick(r, s);
            std::size_t n = r.chance(.4) ? r.range(64, 1023) : r.range(1024, x.family == "probe::osc" ? 1600 : 5000);
            TaskSpec t; t.subject = x.name;
            t.keys = r.chance(.5) ? shaped_keys(r, n, (int)r.below(SHAPES)) : gen_keys(r, n);
            t.reverse = r.chance(.2);
            if (r.chance(.5)) {
                Ctx c;
                Outcome dry = dry_run(t, sp.heap, c);
                if (!dry.vio && dry.cnt[K_ALLOC]) plan_alloc(r, t.alloc, dry);
            }
            if (x.elem == E_ELEM && r.chance(.4)) {
                int style = (int)r.below(3);
                t.keys = adversary(t, sp.heap, style);
                t.reverse = false;
                sp.x["adversary"] = 1 + style;
            }
            sp.tasks.push_back(t);
        }
        void g_c28(Spec& sp, Rng& r, const Subs& s) { Mix m; m.alloc = .5; m.thr = .3; m.none = .3; gen_with(sp, r, s, m); }
        void g_c27(Spec& sp, Rng& r, const Subs& s) { Mix m; m.alloc = .15; m.thr = .5; m.none = .45; gen_with(sp, r, s, m); }
        void g_c26(Spec& sp, Rng& r, const Subs& s) { Mix m; m.alloc = .35; m.thr = .6; m.none = .25; m.scale = 0; gen_with(sp, r, s, m); }
        void g_c23(Spec& sp, Rng& r, const Subs& s) { Mix m; m.alloc = .45; m.thr = .25; m.none = .35; m.scale = 2; gen_with(sp, r, s, m); }
        void g_c22(Spec& sp, Rng& r, const Subs& s)
        {
            Mix m; m.alloc = .4; m.thr = .25; m.none = .35; m.scale = 0;
            gen_with(sp, r, s, m);
            TaskSpec& t = sp.tasks[0];
            if (!(find_subject(t.subject)->flags & F_GLOBAL)) return;
            if (r.chance(.6)) t.faults.push_back(Fault{K_ENV, 0, (int)r.below(3)});
            double n = (double)t.keys.size(), top = n * (std::log2(n + 2) + 1) * 4 + 2;
            std::size_t k = r.below(4);
            for (std::size_t i = 0; i < k; ++i) t.faults.push_back(Fault{K_ENV, 1 + r.below(r.chance(.3) ? 8 : (std::uint64_t)top), (int)r.below(3)});
        }

        constexpr std::uint32_t DEAD = bit(V_TERMINATE) | bit(V_CRASH) | bit(V_HANG);
        constexpr std::uint32_t RESULT = bit(V_NOT_SORTED) | bit(V_NOT_PERM);
    }

    const std::vector<Property>& properties()
    {
        static const std::vector<Property> ps = {
            {"C01", RESULT | DEAD | bit(V_EXC_ALIEN) | bit(V_EXC_BADALLOC), f_tolerant, g_c01, exec_single},
            {"C02", RESULT | DEAD | bit(V_EXC_ALIEN) | bit(V_EXC_BADALLOC) | bit(V_WRONG_VALUE), f_all, g_c02, exec_single},
            {"C03", DEAD | bit(V_EXC_ALIEN) | bit(V_EXC_SWALLOWED) | bit(V_EXC_BADALLOC), f_all, g_c03, exec_single},
            {"C04", DEAD | bit(V_LEAK_MEM) | bit(V_LEAK_OBJ) | bit(V_BAD_LIFETIME) | bit(V_BAD_FREE), f_all, g_c04, exec_single},
            {"C05", DEAD | bit(V_READ_DEAD) | bit(V_READ_MOVED) | bit(V_MOVE_DEAD), f_elem, g_c05, exec_single},
            {"C06", bit(V_SELF_MOVE), f_elem, g_c05, exec_single},
            {"C07", DEAD | bit(V_MODIFIED), f_keep, g_c07, exec_single},
            {"C08", DEAD | RESULT | bit(V_UNSTABLE) | bit(V_INVALIDATED) | bit(V_READ_DEAD), f_lists, g_c08, exec_single},
            {"C09", DEAD | RESULT | bit(V_UNSTABLE), f_stable, g_c01, exec_single},
            {"C10", bit(V_NONDET), f_untimed, g_c10, exec_environments},
            {"C11", bit(V_INTERFERE), f_nometric, g_c11, exec_callers},
            {"C12", bit(V_STALE), f_untimed, g_c12, exec_history},
            {"C13", DEAD | bit(V_WRONG_VALUE), f_time, g_c13, exec_single},
            {"C14", DEAD | RESULT | bit(V_WRONG_VALUE), f_count, g_c14, exec_metric},
            {"C15", DEAD | bit(V_WRONG_VALUE), f_probe, g_c15, exec_single},
            {"C16", DEAD | bit(V_BOUND), f_cost, g_c16, exec_costs},
            {"C17", DEAD | RESULT | bit(V_UNSTABLE) | bit(V_BUFFER) | bit(V_REDZONE), f_simbuf, g_c17, exec_single},
            {"C18", DEAD | bit(V_OOB_ITER) | bit(V_GUARD) | bit(V_REDZONE) | bit(V_UAF_WRITE) | bit(V_BUFFER), f_all, g_c05, exec_single},
            {"C19", DEAD | bit(V_WRONG_VALUE) | bit(V_READ_DEAD) | bit(V_READ_MOVED), f_oneproj, g_c19, exec_projections},
            {"C20", DEAD | bit(V_BOUND), f_space, g_c20, exec_space},
            {"C21", DEAD | RESULT | bit(V_UNSTABLE) | bit(V_PROXY) | bit(V_READ_DEAD) | bit(V_READ_MOVED) | bit(V_MOVE_DEAD) | bit(V_MODIFIED), f_proxy, g_c05, exec_single},
            {"C22", DEAD | RESULT | bit(V_UNSTABLE) | bit(V_READ_DEAD) | bit(V_READ_MOVED) | bit(V_OOB_ITER) | bit(V_EXC_ALIEN) | bit(V_EXC_SWALLOWED) | bit(V_EXC_BADALLOC) | bit(V_LEAK_MEM) | bit(V_BAD_FREE) | bit(V_REDZONE) | bit(V_UAF_WRITE), f_order, g_c22, exec_single},
            {"C23", DEAD | RESULT | bit(V_UNSTABLE) | bit(V_READ_DEAD) | bit(V_READ_MOVED) | bit(V_OOB_ITER) | bit(V_EXC_ALIEN) | bit(V_EXC_SWALLOWED) | bit(V_EXC_BADALLOC) | bit(V_LEAK_MEM) | bit(V_BAD_FREE) | bit(V_REDZONE) | bit(V_UAF_WRITE), f_radix, g_c23, exec_single},
            {"C24", DEAD | bit(V_BOUND), f_adaptive, g_c24, exec_adaptive},
            {"C25", DEAD | bit(V_BOUND), f_measure, g_c25, exec_measure_costs},
            {"C26", DEAD | bit(V_LEAK_MEM) | bit(V_LEAK_OBJ) | bit(V_BAD_LIFETIME) | RESULT | bit(V_UNSTABLE) | bit(V_WRONG_VALUE) | bit(V_MODIFIED) | bit(V_READ_DEAD) | bit(V_READ_MOVED) | bit(V_EXC_ALIEN) | bit(V_EXC_SWALLOWED) | bit(V_EXC_BADALLOC), f_simsorter, g_c26, exec_single},
            {"C27", DEAD | RESULT | bit(V_UNSTABLE) | bit(V_WRONG_VALUE) | bit(V_READ_DEAD) | bit(V_READ_MOVED) | bit(V_OOB_ITER) | bit(V_LEAK_OBJ) | bit(V_BAD_LIFETIME) | bit(V_EXC_ALIEN) | bit(V_EXC_SWALLOWED) | bit(V_EXC_BADALLOC), f_fixed, g_c27, exec_single},
            {"C28", DEAD | bit(V_MISALIGNED) | RESULT | bit(V_UNSTABLE) | bit(V_BAD_LIFETIME) | bit(V_BAD_FREE) | bit(V_REDZONE) | bit(V_READ_DEAD) | bit(V_MOVE_DEAD), f_align, g_c28, exec_single},
            {"ALL", ~0u, f_all, g_c04, exec_single},
        };
        return ps;
    }
    const Property* find_property(const std::string& id)
    {
        for (auto& p : properties()) if (id == p.id) return &p;
        return nullptr;
    }
}
