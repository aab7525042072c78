#include "run.hh"
#include "sys.hh"
#include <gcs/restarts.hh>
#include <gcs/search_heuristics.hh>
#include <iostream>
using namespace gcs;
using namespace sim;
using namespace std;

namespace
{
    bool recording = false;

    struct Guard
    {
        innards::SimulationHooks * before;
        explicit Guard(innards::SimulationHooks * h) : before(innards::simulation_hooks)
        {
            innards::simulation_hooks = h;
        }
        ~Guard()
        {
            innards::simulation_hooks = before;
        }
    };
}

vector<vector<i64>> Solver::recorded;

Tally & sim::tally()
{
    static Tally t;
    return t;
}

bool sim::record_schedule()
{
    return recording;
}
void sim::set_record_schedule(bool r)
{
    recording = r;
}

Solver::Solver(const Case & cc) : c(cc), b(problem)
{
    b.build(c);
}

void Solver::tick()
{
    ++out->steps;
    if (k.yield)
        k.yield();
    if ((i64)out->steps == k.abort_at) {
        abort_flag = true;
        out->stopped = true;
    }
    if ((i64)out->steps > k.max_steps)
        throw TooLong{};
}

i64 Solver::decide(int kind, i64 dflt, i64 wanted)
{
    ++calls;
    i64 r = wanted;
    if (explicit_schedule) {
        auto i = decisions.find(calls);
        r = i != decisions.end() && i->second[1] == kind ? i->second[2] : dflt;
    }
    if (recording && r != dflt)
        recorded.push_back({calls, kind, r});
    out->full.add((u64)kind);
    out->full.add((u64)r);
    return r;
}

auto Solver::choose_next(size_t n) -> size_t
{
    NoAllocationFaults quiet;
    if (out->stopped)
        ++out->steps_after_stop; // only what the solver does: extra wake-ups are the simulator's doing
    tick();
    if (++since_branch > 2000000)
        throw Violation{"livelock: two million propagator runs without reaching a fixpoint"};
    i64 w = 0;
    if (k.hooks && n > 1) {
        if (pick == 1 || (pick == 3 && rng.chance(12)))
            w = (i64)rng.below(n);
        else if (pick == 2)
            w = (i64)n - 1;
    }
    i64 r = decide(0, 0, w);
    out->full.add((u64)n);
    return r < (i64)n ? (size_t)r : 0;
}

auto Solver::wake_idle(size_t n, bool fix) -> optional<size_t>
{
    NoAllocationFaults quiet;
    i64 w = -1;
    if (k.hooks && k.spurious && n > 0 && rng.permille(fix ? wakefix : wake))
        w = (i64)rng.below(n);
    i64 r = decide(1, -1, w);
    if (r < 0 || r >= (i64)n)
        return nullopt;
    tally().n["spurious wake-up"]++;
    tick();
    return (size_t)r;
}

auto Solver::ignore_disable() -> bool
{
    NoAllocationFaults quiet;
    bool r = decide(2, 0, k.hooks && k.spurious && rng.permille(nodisable));
    if (r)
        tally().n["ignored disable"]++;
    return r;
}

auto Solver::ignore_idempotence() -> bool
{
    NoAllocationFaults quiet;
    bool r = decide(3, 0, k.hooks && k.spurious && rng.permille(noidem));
    if (r)
        tally().n["ignored idempotence"]++;
    return r;
}

namespace
{
    // A partition of the domain of some unfixed variable, chosen at random.
    BranchCallback random_partition(vector<IntegerVariableID> vars, shared_ptr<Rng> r)
    {
        return [vars, r](const CurrentState & s, const innards::Propagators &) -> generator<IntegerVariableCondition> {
            return [](vector<IntegerVariableID> vars, shared_ptr<Rng> r, const CurrentState & s) -> generator<IntegerVariableCondition> {
                vector<IntegerVariableID> open;
                for (auto & v : vars)
                    if (! s.has_single_value(v))
                        open.push_back(v);
                if (open.empty())
                    co_return;
                auto v = r->pick(open);
                vector<Integer> values;
                for (auto x : s.each_value(v))
                    values.push_back(x);
                vector<IntegerVariableCondition> parts;
                int style = (int)r->below(4);
                if (style == 0) { // in or out
                    auto x = r->pick(values);
                    parts = {v == x, v != x};
                }
                else if (style == 1) { // cut in two
                    auto x = values[1 + r->below(values.size() - 1)];
                    parts = {v < x, v >= x};
                }
                else if (style == 2) { // a range, and what is outside it
                    auto i = r->below(values.size()), j = i + r->below(values.size() - i);
                    if (i == 0 && j == values.size() - 1)
                        j > 0 ? (void)--j : (void)++i;
                    parts = {in_range(v, values[i], values[j]), not_in_range(v, values[i], values[j])};
                }
                else { // several pieces
                    size_t at = 0;
                    while (at < values.size()) {
                        size_t e = at + r->below(values.size() - at);
                        if (at == 0 && e == values.size() - 1)
                            e = 0;
                        parts.push_back(in_range(v, values[at], values[e]));
                        at = e + 1;
                    }
                }
                r->shuffle(parts);
                for (auto & p : parts)
                    co_yield p;
            }(vars, r, s);
        };
    }
}

BranchHeuristic Solver::heuristic()
{
    auto seed = (uint_fast32_t)c.get("bseed", 1);
    vector<IntegerVariableID> vs(b.vars);
    Rng r{(u64)seed};
    if (seed % 3 == 0)
        r.shuffle(vs);
    if (c.get("viewbranch"))
        for (auto & v : vs)
            if (! r.chance(40)) {
                auto by = Integer{r.range(-3, 3)};
                v = r.chance(50) ? IntegerVariableID{-v + by} : IntegerVariableID{v + by};
            }

    if (c.get("custombranch")) {
        auto rr = make_shared<Rng>((u64)seed * 77 + 5);
        return [vs, rr](const Problem &, innards::State &, innards::Propagators &) { return random_partition(vs, rr); };
    }

    auto order = [&](const vector<IntegerVariableID> & w) -> BranchVariableHeuristic {
        switch (c.get("varorder")) {
        case 0: return variable_order::in_order(w);
        case 1: return variable_order::dom(w);
        case 2: return variable_order::dom_then_deg(w);
        case 3: return variable_order::dom_wdeg(w, (WeightingScheme)c.get("scheme"));
        case 4: return variable_order::with_smallest_value(w);
        case 6: return variable_order::random(w, seed);
        case 7: return variable_order::dom_wdeg(problem, (WeightingScheme)c.get("scheme"));
        default:
            return variable_order::in_order_of(w, [](const CurrentState & s, const innards::Propagators &, const IntegerVariableID & x, const IntegerVariableID & y) {
                return s.domain_size(x) > s.domain_size(y);
            });
        }
    };
    auto value = [&]() -> BranchValueGenerator {
        switch (c.get("valorder")) {
        case 0: return value_order::smallest_in();
        case 1: return value_order::smallest_out();
        case 2: return value_order::smallest_first();
        case 3: return value_order::largest_in();
        case 4: return value_order::largest_out();
        case 5: return value_order::largest_first();
        case 6: return value_order::split_smallest_first();
        case 7: return value_order::split_largest_first();
        case 8: return value_order::split_random(seed);
        case 9: return value_order::random(seed);
        case 10: return value_order::random_out(seed);
        case 11: return value_order::reject_random_interval(seed);
        default: return value_order::median();
        }
    };
    if (c.get("splitbranch") && vs.size() > 1) {
        vector<IntegerVariableID> w1(vs.begin(), vs.begin() + (long)vs.size() / 2);
        return branch_sequence(branch_with(order(w1), value()), branch_with(variable_order::dom(vs), value_order::smallest_first()));
    }
    return branch_with(order(vs), value());
}

Outcome Solver::solve(const Knobs & knobs)
{
    Outcome o;
    k = knobs;
    out = &o;
    rng = Rng{(u64)c.get("sseed", 1) + k.salt * 1000003};
    pick = c.get("pick");
    wake = c.get("wake");
    wakefix = c.get("wakefix");
    nodisable = c.get("nodisable");
    noidem = c.get("noidem");
    explicit_schedule = c.get("explicit");
    decisions.clear();
    for (auto & d : c.dec)
        decisions[d[0]] = d;
    calls = 0;
    since_branch = 0;
    abort_flag = false;

    int callback_count[8] = {};
    auto maybe_throw = [&](int kind) {
        if (k.throw_kind == kind && ++callback_count[kind] == k.throw_at) {
            o.stopped = true;
            throw Planned{kind};
        }
    };

    SolveCallbacks cb;
    bool solution_stopped = false, trace_stopped = false;
    cb.solution = [&](const CurrentState & s) -> bool {
        NoAllocationFaults quiet;
        tick();
        Assignment a;
        for (auto & v : b.vars)
            a.push_back(s(v).raw_value);
        o.visible.add(1);
        for (auto x : a)
            o.visible.add((u64)x);
        o.sols.push_back(a);
        if (c.objective)
            o.objs.push_back(value(c.obj, a));
        if (solution_stopped || trace_stopped)
            ++o.calls_after_stop;
        if (abort_flag)
            ++o.solutions_after_abort;
        if (k.at_solution)
            k.at_solution(s);
        maybe_throw(1);
        if ((i64)o.sols.size() == k.stop_solution) {
            solution_stopped = o.stopped = true;
            return false;
        }
        return true;
    };
    if (k.trace || k.stop_trace >= 0 || k.throw_kind == 2)
        cb.trace = [&](const CurrentState & s) -> bool {
            NoAllocationFaults quiet;
            tick();
            ++o.traces;
            o.visible.add(2);
            for (auto & v : b.vars) {
                o.visible.add((u64)s.lower_bound(v).raw_value);
                o.visible.add((u64)s.upper_bound(v).raw_value);
                o.visible.add((u64)s.domain_size(v).raw_value);
            }
            if (trace_stopped)
                ++o.calls_after_stop;
            maybe_throw(2);
            if ((i64)o.traces == k.stop_trace) {
                trace_stopped = o.stopped = true;
                return false;
            }
            return true;
        };
    if (! (k.default_branching || c.get("defbranch"))) {
        auto h = heuristic();
        cb.branch = [&, h](const Problem & p, innards::State & st, innards::Propagators & pr) -> BranchCallback {
            if (k.observer)
                pr.add_conflict_observer(k.observer);
            auto inner = h(p, st, pr);
            return [&, inner](const CurrentState & s, const innards::Propagators & pr) -> generator<IntegerVariableCondition> {
                {
                    NoAllocationFaults quiet;
                    tick();
                    since_branch = 0;
                    ++o.branches;
                    if (k.at_branch)
                        k.at_branch(s);
                    maybe_throw(3);
                }
                if (k.throw_kind != 7)
                    return inner(s, pr);
                return [](auto g, auto & mt) -> generator<IntegerVariableCondition> {
                    for (auto && x : g) {
                        mt(7);
                        co_yield x;
                    }
                }(inner(s, pr), maybe_throw);
            };
        };
    }
    cb.completed = [&]() {
        NoAllocationFaults quiet;
        tick();
        ++o.completed;
        o.visible.add(3);
        maybe_throw(4);
    };
    cb.after_proof_started = [&](const CurrentState &) {
        NoAllocationFaults quiet;
        tick();
        ++o.proof_started;
        maybe_throw(5);
    };
    cb.stats_report = [&](const StatsNote & n) {
        NoAllocationFaults quiet;
        tick();
        ++o.notes;
        o.visible.add(render(n));
        maybe_throw(6);
    };
    i64 restarts = k.restarts >= 0 ? k.restarts : c.get("restarts");
    if (c.p.contains("scan")) // how the learned nogoods are propagated
        c.get("scan") ? setenv("GCS_LEARNED_NOGOODS_SCAN", "1", 1) : unsetenv("GCS_LEARNED_NOGOODS_SCAN");
    if (restarts > 0)
        cb.restarts = RestartSchedule::luby((unsigned long long)restarts);

    Guard g{this};
    try {
        struct Counting
        {
            bool was = memory.counting;
            ~Counting()
            {
                memory.counting = was;
            }
        } counting;
        memory.counting = memory.counting || k.account;
        auto stats = solve_with(problem, cb, k.proof, &abort_flag);
        memory.counting = counting.was;
        o.stats = stats; // a copy: what the caller holds is not counted
        o.returned = true;
    }
    catch (const Planned & p) {
        o.exception = "planned";
        o.planned = true;
        o.planned_tag = p.tag;
    }
    catch (const bad_alloc & e) {
        o.bad_alloc = true;
        o.exception = e.what();
    }
    catch (const exception & e) {
        o.exception = e.what();
        if (o.exception.empty())
            o.exception = "(no message)";
    }

    o.visible.add(o.exception);
    if (o.stats) {
        auto & s = *o.stats;
        for (auto x : {s.recursions, s.failures, s.propagations, s.effectful_propagations, s.contradicting_propagations, s.solutions, s.max_depth,
                 s.restarts, s.learned_nogoods, s.n_propagators, s.idempotence_downgrades})
            o.visible.add((u64)x);
        o.core = o.visible;
        for (auto & cc : s.components()) {
            o.visible.add(cc->component_name());
            for (auto & e : cc->entries()) {
                o.visible.add(e.name);
                o.visible.add((u64)e.value);
            }
        }
    }
    else
        o.core = o.visible;
    o.full.add(o.visible.h);
    o.full.add(o.steps);
    tally().steps += o.steps;
    tally().schedules.insert(o.full.h);
    out = nullptr;
    return o;
}
