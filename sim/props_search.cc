// Search: complete, optimal, interruptible, restartable, presolvable.
#include "props.hh"
#include <algorithm>
#include <gcs/innards/conflict_observer.hh>
#include <gcs/innards/propagators.hh>
#include <gcs/innards/state.hh>
#include <gcs/restarts.hh>
#include <gcs/search_heuristics.hh>
#include <gcs/variable_weighting.hh>
using namespace std;
using namespace sim;

u64 sim::case_hash = 0;

void sim::mix_case_hash(const Outcome & o)
{
    case_hash = mix(case_hash ^ o.full.h);
}

vector<Assignment> sim::truth(const Case & c)
{
    auto t = solutions(c);
    if (! t)
        throw Skip{"too many candidates to enumerate"};
    return *t;
}

string sim::show(const Assignment & a)
{
    string s = "(";
    for (auto x : a)
        s += (s.size() > 1 ? " " : "") + to_string(x);
    return s + ")";
}

void sim::note_shape(const Case & c)
{
    Hash h;
    for (auto & k : c.cons) {
        h.add(k.kind);
        h.add((u64)k.opt);
        h.add((u64)k.reif);
        for (auto & t : k.t)
            for (auto & x : t) {
                h.add((u64)x.var);
                h.add((u64)x.neg);
            }
        tally().hit("constraint " + k.kind);
    }
    tally().shapes.insert(h.h);
}

namespace
{
    void expect_returned(const Outcome & o, const string & where)
    {
        if (! o.returned)
            throw Violation{"exception " + where + ": the solve threw: " + o.exception};
        if (o.stats->solutions != o.sols.size())
            throw Violation{"stats " + where + ": the statistics say " + to_string(o.stats->solutions) + " solutions, the callback was told of " +
                to_string(o.sols.size())};
    }

    void expect_genuine(const vector<Assignment> & sols, const vector<Assignment> & t, bool distinct, const string & where)
    {
        set<Assignment> seen;
        for (auto & s : sols) {
            if (! binary_search(t.begin(), t.end(), s))
                throw Violation{"non-solution " + where + ": " + show(s) + " was reported but does not satisfy the constraints"};
            if (! seen.insert(s).second && distinct)
                throw Violation{"duplicate " + where + ": " + show(s) + " was reported twice"};
        }
    }
}

void sim::expect_all(const Case &, const Outcome & o, const vector<Assignment> & t, const string & where)
{
    mix_case_hash(o);
    expect_returned(o, where);
    expect_genuine(o.sols, t, true, where);
    if (o.sols.size() != t.size()) {
        set<Assignment> got(o.sols.begin(), o.sols.end());
        for (auto & s : t)
            if (! got.contains(s))
                throw Violation{"missing " + where + ": the solution " + show(s) + " was never reported (" + to_string(o.sols.size()) + " of " +
                    to_string(t.size()) + " were)"};
    }
    if (o.completed != 1)
        throw Violation{"completion " + where + ": everything was explored, but completion was reported " + to_string(o.completed) + " times"};
}

void sim::expect_optimum(const Case & c, const Outcome & o, const vector<Assignment> & t, const string & where)
{
    mix_case_hash(o);
    expect_returned(o, where);
    expect_genuine(o.sols, t, true, where);
    bool min = c.objective == 1;
    for (size_t i = 1; i < o.objs.size(); ++i)
        if (min ? o.objs[i] >= o.objs[i - 1] : o.objs[i] <= o.objs[i - 1])
            throw Violation{"not-improving " + where + ": objective " + to_string(o.objs[i]) + " was reported after " + to_string(o.objs[i - 1])};
    if (o.completed > 1)
        throw Violation{"completion " + where + ": completion was reported twice"};
    if (! o.completed)
        throw Violation{"completion " + where + ": the search was not stopped, but completion was not reported"};
    if (o.objs.empty() != t.empty())
        throw Violation{"missing " + where + ": completed with " + to_string(o.objs.size()) + " solutions, but there are " + to_string(t.size())};
    if (! t.empty()) {
        i64 best = value(c.obj, t[0]);
        for (auto & s : t)
            best = min ? std::min(best, value(c.obj, s)) : std::max(best, value(c.obj, s));
        if (o.objs.back() != best)
            throw Violation{"not-optimal " + where + ": completed with objective " + to_string(o.objs.back()) + " but " + to_string(best) +
                " is possible"};
    }
}

void sim::expect_full(const Case & c, const Outcome & o, const vector<Assignment> & t, const string & where)
{
    if (c.objective)
        expect_optimum(c, o, t, where);
    else
        expect_all(c, o, t, where);
}

void sim::expect_partial(const Case & c, const Outcome & o, const vector<Assignment> & t, const string & where)
{
    mix_case_hash(o);
    expect_returned(o, where);
    expect_genuine(o.sols, t, true, where);
    bool min = c.objective == 1;
    for (size_t i = 1; i < o.objs.size(); ++i)
        if (min ? o.objs[i] >= o.objs[i - 1] : o.objs[i] <= o.objs[i - 1])
            throw Violation{"not-improving " + where + ": objective " + to_string(o.objs[i]) + " was reported after " + to_string(o.objs[i - 1])};
    if (o.completed > 1)
        throw Violation{"completion " + where + ": completion was reported twice"};
    if (o.completed)
        expect_full(c, o, t, where + " (which claimed completion)");
}

// ---- C01

Case sim::make_c01(Rng & r)
{
    GenOptions o;
    o.objective = 0;
    o.wide = r.chance(15);
    vary(r, o);
    Case c = generate(r, o);
    generate_search(r, c);
    generate_schedule(r, c);
    return c;
}

void sim::check_c01(const Case & c)
{
    note_shape(c);
    auto t = truth(c);
    Solver s{c};
    expect_all(c, s.solve(), t, "enumerating");
    // the same problem object again, in a different order
    Knobs k;
    k.salt = 1;
    expect_all(c, s.solve(k), t, "enumerating again in another order");
    if (! t.empty())
        tally().hit("nontrivial");
}

// ---- C02

Case sim::make_c02(Rng & r)
{
    GenOptions o;
    o.objective = 1;
    o.wide = r.chance(15);
    vary(r, o);
    Case c = generate(r, o);
    generate_search(r, c);
    generate_schedule(r, c);
    if (r.chance(40)) {
        c.p["restarts"] = r.chance(70) ? r.range(1, 4) : r.range(5, 40);
        c.p["scan"] = r.chance(20);
        c.p["wake"] = c.p["wakefix"] = 0;
    }
    return c;
}

void sim::check_c02(const Case & c)
{
    note_shape(c);
    auto t = truth(c);
    Solver s{c};
    auto o = s.solve();
    expect_optimum(c, o, t, "optimising");
    if (c.get("restarts"))
        tally().hit("runs with restarts");
    Knobs k;
    k.salt = 1;
    k.restarts = 0;
    expect_optimum(c, s.solve(k), t, "optimising again in another order");
    if (o.sols.size() > 1)
        tally().hit("nontrivial");
}

// ---- C03

Case sim::make_c03(Rng & r)
{
    GenOptions o;
    o.objective = -1;
    vary(r, o);
    Case c = generate(r, o);
    generate_search(r, c);
    generate_schedule(r, c);
    if (r.chance(25)) {
        c.p["restarts"] = r.range(1, 6);
        c.p["wake"] = c.p["wakefix"] = 0;
    }
    c.p["stopseed"] = r.range(1, 1000000000);
    return c;
}

void sim::check_c03(const Case & c)
{
    note_shape(c);
    auto t = truth(c);
    Solver s{c};
    Knobs whole;
    whole.trace = true;
    auto full = s.solve(whole);
    expect_full(c, full, t, "not stopped");

    Rng r{(u64)c.get("stopseed")};
    auto points = c.get("points", 6);
    for (i64 n = 0; n < points; ++n) {
        Knobs k;
        k.trace = true;
        string what;
        auto how = r.below(4);
        if (how == 0 && ! full.sols.empty()) {
            k.stop_solution = r.range(1, (i64)full.sols.size());
            what = "stopped by solution callback " + to_string(k.stop_solution);
            tally().hit("fault: solution callback says stop");
        }
        else if (how == 1 && full.traces) {
            k.stop_trace = r.range(1, (i64)full.traces);
            what = "stopped by trace callback " + to_string(k.stop_trace);
            tally().hit("fault: trace callback says stop");
        }
        else {
            k.abort_at = r.chance(20) ? r.range(1, 5) : r.range(1, (i64)full.steps);
            what = "aborted at step " + to_string(k.abort_at);
            tally().hit("fault: abort flag raised");
        }
        if (c.get("only", -1) >= 0 && c.get("only") != n)
            continue;
        Outcome o;
        {
            o = s.solve(k);
        }
        expect_partial(c, o, t, what);
        if (o.sols.size() > full.sols.size() || ! equal(o.sols.begin(), o.sols.end(), full.sols.begin()))
            throw Violation{"diverged " + what + ": reported something other than a prefix of what the same search reports when it is not stopped"};
        if (o.calls_after_stop)
            throw Violation{"callback-after-stop " + what + ": called " + to_string(o.calls_after_stop) + " more times after saying stop"};
        auto & worst = tally().n["most propagator runs after a stop"];
        worst = max(worst, o.steps_after_stop);
        if (o.solutions_after_abort > 1)
            throw Violation{"not-prompt " + what + ": " + to_string(o.solutions_after_abort) + " solutions reported after the abort"};
        if (o.steps_after_stop > 6)
            throw Violation{"not-prompt " + what + ": ran " + to_string(o.steps_after_stop) + " more propagators"};
        if (o.stopped && ! o.completed)
            tally().hit("nontrivial");
        else if (o.stopped)
            tally().hit("stopped at the very end");
    }
    expect_full(c, s.solve(whole), t, "solved again afterwards");
}

// ---- C04

namespace
{
    struct Watcher : gcs::innards::ConflictObserver
    {
        vector<u64> conflicts{0};
        auto note_conflict(int, const vector<gcs::SimpleIntegerVariableID> &, const optional<gcs::innards::Reason> &, const gcs::innards::State &)
            -> void override
        {
            ++conflicts.back();
        }
        auto on_restart() -> void override
        {
            conflicts.push_back(0);
        }
    };

    // 1 1 2 1 1 2 4 1 1 2 1 1 2 4 8 ...
    u64 luby(u64 i)
    {
        u64 k = 1;
        while ((1ULL << k) - 1 < i)
            ++k;
        if (i == (1ULL << k) - 1)
            return 1ULL << (k - 1);
        return luby(i - ((1ULL << (k - 1)) - 1));
    }
}

Case sim::make_c04(Rng & r)
{
    GenOptions o;
    o.objective = r.chance(40);
    o.max_cons = 4;
    o.max_vars = 6;
    if (r.chance(50))
        o.kinds = {"ne", "alldiff", "lineq", "linne", "table", "negtable", "parity", "multiply", "lt", "element", "or", "and", "nvalue", "circuit", "nogoods"};
    Case c = generate(r, o);
    generate_search(r, c);
    generate_schedule(r, c);
    c.p["wake"] = c.p["wakefix"] = 0;
    c.p["restarts"] = r.chance(70) ? r.range(1, 3) : r.range(4, 60);
    c.p["scan"] = r.chance(25);
    c.p["lseed"] = r.range(1, 1000000000);
    return c;
}

void sim::check_c04(const Case & c)
{
    note_shape(c);
    {
        // a history of looking at and advancing the schedule, and copies of it
        Rng r{(u64)c.get("lseed")};
        u64 scale = r.chance(80) ? (u64)r.range(1, 200) : (u64)r.range(200, 1000000);
        auto s = gcs::RestartSchedule::luby(scale);
        auto keep = s;
        u64 at = 1, kept = 1;
        for (i64 n = r.range(3, 400); n > 0; --n) {
            switch (r.below(5)) {
            case 0: keep = s, kept = at; break;
            case 1:
                if (r.chance(10))
                    s = keep, at = kept;
                break;
            default: s.advance(); ++at;
            }
            if (s.current_cutoff() != scale * luby(at) || keep.current_cutoff() != scale * luby(kept))
                throw Violation{"luby: position " + to_string(at) + " at scale " + to_string(scale) + " is " + to_string(s.current_cutoff()) +
                    ", not " + to_string(scale * luby(at))};
        }
    }

    auto t = truth(c);
    Solver s{c};
    Knobs none;
    none.restarts = 0;
    auto o0 = s.solve(none);
    expect_full(c, o0, t, "without restarts");
    if (o0.stats->restarts || o0.stats->learned_nogoods)
        throw Violation{"stats: restarts or learned nogoods counted although restarts were off"};

    Watcher w;
    Knobs k;
    k.observer = &w;
    auto o = s.solve(k);
    expect_full(c, o, t, "with restarts");
    u64 restarts = w.conflicts.size() - 1;
    tally().hit("restarts", restarts);
    tally().hit("learned nogoods", o.stats->learned_nogoods);
    if (! c.get("defbranch")) {
        if (restarts != o.stats->restarts)
            throw Violation{"stats: " + to_string(restarts) + " restarts happened, but the statistics say " + to_string(o.stats->restarts)};
        u64 scale = (u64)c.get("restarts");
        if (! c.objective) // bound failures are conflicts too, but no propagator sees them
            for (size_t i = 0; i <= restarts; ++i) {
                u64 cut = scale * luby(i + 1);
                if (i < restarts ? w.conflicts[i] != cut : w.conflicts[i] > cut)
                    throw Violation{"schedule: run " + to_string(i + 1) + " had " + to_string(w.conflicts[i]) + " conflicts, but its cutoff is " +
                        to_string(cut)};
            }
    }
    if (o.stats->restarts == 0 && o.stats->learned_nogoods != 0)
        throw Violation{"stats: learned " + to_string(o.stats->learned_nogoods) + " nogoods without restarting"};
    if (o.stats->restarts > 0)
        tally().hit("nontrivial");
    if (o.stats->restarts > 4)
        tally().hit("runs restarted more than four times");
}

// ---- C16

Case sim::make_c16(Rng & r)
{
    GenOptions o;
    o.objective = -1;
    o.max_vars = 6;
    auto how = r.below(3);
    if (how == 0) {
        o.kinds = {"cumulative", "disjunctive", "cumulative", "linle", "linge", "le", "lt", "ge"};
        o.max_cons = 4;
    }
    else if (how == 1) {
        o.kinds = {"difference", "linle", "linge", "le", "lt", "ge", "gt", "lineq", "difference"};
        o.max_cons = 5;
    }
    Case c = generate(r, o);
    generate_search(r, c);
    generate_schedule(r, c);
    generate_presolvers(r, c);
    return c;
}

void sim::check_c16(const Case & c)
{
    note_shape(c);
    for (auto & p : c.pre)
        tally().hit("presolver " + p.kind);
    auto t = truth(c);
    Solver s{c};
    expect_full(c, s.solve(), t, "with presolvers");
    Knobs k;
    k.salt = 1;
    expect_full(c, s.solve(k), t, "with presolvers, a second time");
    if (! t.empty())
        tally().hit("nontrivial");
}

// ---- C17

Case sim::make_c17(Rng & r)
{
    GenOptions o;
    o.objective = 0;
    o.gac_only = true;
    Case c;
    for (int tries = 0; tries < 50; ++tries) {
        c = generate(r, o);
        if (advertises_gac(c.cons[0]))
            break;
    }
    generate_search(r, c);
    generate_schedule(r, c);
    c.p["defbranch"] = 0;
    return c;
}

void sim::check_c17(const Case & c)
{
    if (c.cons.size() != 1 || ! advertises_gac(c.cons[0]))
        throw Skip{"not one constraint that advertises domain consistency"};
    note_shape(c);
    auto t = truth(c);
    Solver s{c};
    u64 nodes = 0, pruned = 0;
    Knobs k;
    k.at_branch = [&](const gcs::CurrentState & st) {
        ++nodes;
        vector<set<i64>> dom, sup(c.vars.size());
        for (auto & v : s.b.vars) {
            dom.emplace_back();
            for (auto x : st.each_value(v))
                dom.back().insert(x.raw_value);
        }
        for (auto & a : t) {
            bool in = true;
            for (size_t i = 0; i < a.size() && in; ++i)
                in = dom[i].contains(a[i]);
            if (in)
                for (size_t i = 0; i < a.size(); ++i)
                    sup[i].insert(a[i]);
        }
        for (size_t i = 0; i < dom.size(); ++i)
            for (auto x : dom[i])
                if (! sup[i].contains(x)) {
                    string d;
                    for (auto & e : dom) {
                        d += " {";
                        for (auto y : e)
                            d += " " + to_string(y);
                        d += " }";
                    }
                    throw Violation{"unsupported: value " + to_string(x) + " of variable " + to_string(i) + " has no support left at node " +
                        to_string(nodes) + ", where the domains are" + d};
                }
        for (size_t i = 0; i < dom.size(); ++i)
            pruned += dom[i].size() < c.vars[i].domain().size();
    };
    expect_all(c, s.solve(k), t, "enumerating");
    k.salt = 1;
    expect_all(c, s.solve(k), t, "enumerating in another order");
    tally().hit("nodes checked", nodes);
    if (nodes > 1 && pruned)
        tally().hit("nontrivial");
}
