#ifndef SIM_SCHED_H_
#define SIM_SCHED_H_
#include "engine.h"
namespace sim
{
    // two executions in different environments leave the same events and results
    Verdict exec_environments(const Spec& sp);
    // several callers interleaved, nested, or run while exceptions are in flight, each
    // compared with the same call made alone
    Verdict exec_callers(const Spec& sp);
    // a history of calls, each compared with the same call made in a pristine process
    Verdict exec_history(const Spec& sp);
    // a metric, and the same call without it
    Verdict exec_metric(const Spec& sp);
    // costs against the calibrated limits
    Verdict exec_costs(const Spec& sp);
    Verdict exec_space(const Spec& sp);
    // every element projected exactly once
    Verdict exec_projections(const Spec& sp);
    // an input on which this sorter does badly, built by answering its comparisons
    std::vector<int> adversary(const TaskSpec& t, const HeapCfg& h, int style);

    enum { MODE_INTERLEAVE, MODE_NESTED, MODE_UNWIND, MODE_CATCH, MODES };
    // the cost of sorting what is nearly sorted
    enum Shape { SH_SORTED, SH_REVERSED, SH_EQUAL, SH_RUNS, SH_DISPLACED, SH_ENC, SH_STRICT, SHAPES };
    unsigned shapes_of(const Subject& s);
    std::vector<int> shaped_keys(Rng& r, std::size_t n, int shape);
    Verdict exec_adaptive(const Spec& sp);
    Verdict exec_measure_costs(const Spec& sp);
    std::string cost_key(const Subject& s);
    bool has_limits(const Subject& s);
}
#endif
