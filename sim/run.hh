// One simulated solve: the real solver, driven by a schedule and faults which
// all come from a seed.
#pragma once
#include "builder.hh"
#include <atomic>
#include <functional>
#include <gcs/current_state.hh>
#include <gcs/innards/conflict_observer.hh>
#include <gcs/innards/propagators.hh>
#include <gcs/innards/simulation_hooks.hh>
#include <gcs/proof.hh>
#include <gcs/solve.hh>
#include <gcs/stats.hh>
#include <optional>
#include <set>
#include <string>

namespace sim
{
    /// Something is wrong with the code under test. The first word says what kind of thing.
    struct Violation
    {
        std::string what;
    };

    /// The run got longer than any run of this size should.
    struct TooLong
    {
    };

    /// Thrown by callbacks which we have decided should fail.
    struct Planned
    {
        int tag;
    };

    /// What was done, and what was covered, over many runs.
    struct Tally
    {
        std::map<std::string, u64> n;     // named counters: runs, fault kinds, probes
        std::set<u64> schedules, shapes;  // distinct interleavings, distinct problem shapes
        u64 steps = 0;                    // simulated time
        void hit(const std::string & k, u64 by = 1)
        {
            n[k] += by;
        }
    };
    Tally & tally();

    struct Knobs
    {
        bool hooks = true;              // impose the schedule, or leave it as shipped
        u64 salt = 0;                   // changes the schedule, nothing else
        std::optional<gcs::ProofOptions> proof;
        i64 restarts = -1;              // -1 take from the case, 0 none
        bool default_branching = false; // whatever solve() does
        i64 abort_at = -1;              // raise the abort flag at this step
        i64 stop_solution = -1;         // the solution callback says stop at its nth call, from 1
        i64 stop_trace = -1;
        i64 throw_at = -1;              // the nth callback of kind throw_kind throws
        int throw_kind = 0;             // 1 solution 2 trace 3 branch 4 completed 5 after proof started 6 stats 7 branch generator
        bool account = false;           // what the solver allocates is counted, and may fail
        bool trace = false;
        bool spurious = true;           // allow extra wake-ups
        i64 max_steps = 4000000;
        std::function<void(const gcs::CurrentState &)> at_branch, at_solution;
        gcs::innards::ConflictObserver * observer = nullptr;
        std::function<void()> yield;    // called at every step, for interleaving with others
    };

    struct Outcome
    {
        std::vector<Assignment> sols;
        std::vector<i64> objs;
        u64 traces = 0, branches = 0, completed = 0, proof_started = 0, notes = 0;
        bool returned = false;
        std::string exception;          // if it did not return
        bool bad_alloc = false;
        bool planned = false;           // the exception was ours
        int planned_tag = 0;
        std::optional<gcs::Stats> stats;
        u64 steps = 0, steps_after_stop = 0;
        bool stopped = false;           // something told it to stop
        u64 calls_after_stop = 0;       // callbacks of the stopping kind after it said stop
        u64 solutions_after_abort = 0;
        Hash core;                      // visible without what components count: presolvers count on from solve to solve
        Hash visible, full;             // everything a user can see, and that plus the schedule
    };

    class Solver : public gcs::innards::SimulationHooks
    {
    public:
        const Case & c;
        gcs::Problem problem;
        Builder b;

        explicit Solver(const Case &);
        Outcome solve(const Knobs & = {});

        // when recording, what was chosen other than the shipped choice
        static std::vector<std::vector<i64>> recorded;

        auto choose_next(std::size_t) -> std::size_t override;
        auto wake_idle(std::size_t, bool) -> std::optional<std::size_t> override;
        auto ignore_disable() -> bool override;
        auto ignore_idempotence() -> bool override;

    private:
        Knobs k;
        Outcome * out = nullptr;
        Rng rng{1};
        i64 pick = 0, wake = 0, wakefix = 0, nodisable = 0, noidem = 0;
        bool explicit_schedule = false;
        std::map<i64, std::vector<i64>> decisions;
        i64 calls = 0;
        std::atomic<bool> abort_flag{false};
        u64 since_branch = 0;
        void tick();
        i64 decide(int kind, i64 dflt, i64 wanted);
        gcs::BranchHeuristic heuristic();
    };

    bool record_schedule();
    void set_record_schedule(bool);
}
