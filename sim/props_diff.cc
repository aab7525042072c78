// Difference reasoning: the incremental algorithms through seeded histories, the root simplification, and the
// propagator that uses them in whole searches, against shortest paths computed from scratch.
#include "props.hh"
#include <algorithm>
#include <gcs/constraints/difference.hh>
#include <gcs/constraints/difference/difference_incremental.hh>
#include <gcs/constraints/difference/difference_simplify.hh>
using namespace gcs;
using namespace gcs::innards;
using namespace std;
using sim::Case;
using sim::i64;
using sim::Rng;
using sim::u64;
using sim::Violation;

namespace
{
    constexpr i64 none = 4000000000000000000LL;
    using Matrix = vector<vector<i64>>;

    struct Edge
    {
        size_t from, to;
        i64 d;
    };

    // all pairs; nullopt if there is a negative cycle
    optional<Matrix> distances(size_t n, const vector<Edge> & es, const vector<char> & on)
    {
        Matrix m(n, vector<i64>(n, none));
        for (size_t i = 0; i < n; ++i)
            m[i][i] = 0;
        for (size_t e = 0; e < es.size(); ++e)
            if (on[e])
                m[es[e].from][es[e].to] = min(m[es[e].from][es[e].to], es[e].d);
        for (size_t k = 0; k < n; ++k)
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < n; ++j)
                    if (m[i][k] != none && m[k][j] != none)
                        m[i][j] = min(m[i][j], m[i][k] + m[k][j]);
        for (size_t i = 0; i < n; ++i)
            if (m[i][i] < 0)
                return nullopt;
        return m;
    }

    vector<Integer> wrap(const vector<i64> & v)
    {
        vector<Integer> r;
        for (auto x : v)
            r.push_back(Integer{x});
        return r;
    }

    struct Point
    {
        vector<i64> lb, ub, gate_lb, gate_ub;
        vector<char> on, known;
    };

    // The incremental algorithms used as the propagator uses them: gates and activity are undone on the way
    // back, the potential never is.
    void history(const Case & c)
    {
        size_t n = (size_t)c.get("nodes");
        auto hash = [&](u64 x) { sim::case_hash = sim::mix(sim::case_hash ^ x); };
        vector<Edge> es;
        vector<DifferenceArc> arcs;
        for (auto & o : c.ops)
            if (o[0] == 0) {
                es.push_back({(size_t)o[1] % n, (size_t)o[2] % n, o[3]});
                arcs.push_back(DifferenceArc{es.back().from, es.back().to, Integer{o[3]}, arcs.size()});
            }
        size_t m = es.size();
        auto by_tail = build_difference_adjacency(n, arcs, true), by_head = build_difference_adjacency(n, arcs, false);
        for (bool tail : {true, false}) {
            auto & a = tail ? by_tail : by_head;
            vector<int> seen(m, 0);
            for (size_t v = 0; v < n; ++v)
                for (auto i = a.start[v]; i < a.start[v + 1]; ++i) {
                    auto e = a.arcs.at(i);
                    ++seen.at(e);
                    if ((tail ? es[e].from : es[e].to) != v)
                        throw Violation{"adjacency: arc " + to_string(e) + " is filed under the wrong node"};
                }
            for (auto s : seen)
                if (s != 1)
                    throw Violation{"adjacency: an arc is not filed exactly once"};
        }

        vector<Point> stack(1);
        auto & root = stack[0];
        root.on.assign(m, 0);
        for (size_t e = 0; e < m; ++e)
            root.on[e] = c.get("always") || (i64)e < c.get("first");
        i64 half = c.get("range", 20);
        Rng rr{c.seed ^ 5};
        for (size_t v = 0; v < n; ++v) {
            root.lb.push_back(rr.range(-half, half));
            root.ub.push_back(root.lb.back() + rr.range(0, 2 * half));
        }
        vector<Integer> potential;
        bool started = false;
        DifferencePotentialWorkspace pw;
        DifferenceBoundsWorkspace bw;
        u64 step = 0;
        string where;

        auto is_negative = [&](const vector<char> & on) { return ! distances(n, es, on); };

        auto check_potential = [&](const vector<char> & on) {
            for (size_t e = 0; e < m; ++e)
                if (on[e] && potential[es[e].from].raw_value + es[e].d - potential[es[e].to].raw_value < 0)
                    throw Violation{"potential " + where + ": invalid at an active arc from " + to_string(es[e].from) + " to " + to_string(es[e].to)};
            if (difference_invalid_potential_arc(arcs, on, potential))
                throw Violation{"potential " + where + ": a valid potential was called invalid"};
        };

        // returns false on a conflict
        auto wake = [&](Point & p) -> bool {
            bool first = ! started;
            vector<char> forced_lb(n, 0), forced_ub(n, 0);
            if (first) {
                auto initial = difference_initial_potential(n, arcs, c.get("always") ? vector<char>{} : p.on);
                if (initial.has_value() == is_negative(p.on))
                    throw Violation{"feasibility " + where + ": the initial potential " + (initial ? "exists" : "does not exist") + ", wrongly"};
                if (! initial)
                    return false;
                potential = *initial;
                started = true;
                p.known = p.on;
                p.gate_lb = p.lb;
                p.gate_ub = p.ub;
                forced_lb.assign(n, 1);
                forced_ub.assign(n, 1);
            }
            for (size_t e = 0; e < m; ++e)
                if (p.on[e] && ! p.known[e]) {
                    p.known[e] = 1;
                    auto before = potential;
                    bool ok = difference_repair_potential(n, arcs, by_tail, p.known, potential, e, pw);
                    bool negative = is_negative(p.known);
                    hash(ok);
                    if (ok == negative)
                        throw Violation{"feasibility " + where + ": adding an arc from " + to_string(es[e].from) + " to " + to_string(es[e].to) + " of " + to_string(es[e].d) +
                            (negative ? " closes a negative cycle, which was missed" : " was called a negative cycle, and is not")};
                    if (! ok) {
                        if (before != potential)
                            throw Violation{"potential " + where + ": changed by an arc which was refused"};
                        sim::tally().hit("fault: negative cycle");
                        return false;
                    }
                    forced_lb[es[e].from] = 1;
                    forced_ub[es[e].to] = 1;
                }
            check_potential(p.on);
            auto m_ = *distances(n, es, p.on);
            vector<i64> want_lb = p.lb, want_ub = p.ub;
            for (size_t u = 0; u < n; ++u)
                for (size_t v = 0; v < n; ++v)
                    if (m_[u][v] != none) {
                        want_lb[v] = max(want_lb[v], p.lb[u] - m_[u][v]);
                        want_ub[u] = min(want_ub[u], p.ub[v] + m_[u][v]);
                    }
            for (bool lower : {true, false}) {
                vector<Integer> pot, bound, gate;
                for (size_t v = 0; v < n; ++v) {
                    pot.push_back(lower ? potential[v] : -potential[v]);
                    bound.push_back(Integer{lower ? p.lb[v] : -p.ub[v]});
                    gate.push_back(Integer{lower ? p.gate_lb[v] : -p.gate_ub[v]});
                }
                difference_incremental_bounds(n, arcs, lower ? by_tail : by_head, lower, c.get("always") ? vector<char>{} : p.on, pot, bound, gate, lower ? forced_lb : forced_ub, bw);
                auto & now = lower ? p.lb : p.ub;
                auto & want = lower ? want_lb : want_ub;
                vector<char> settled(n, 0);
                vector<i64> result = now;
                for (auto v : bw.settle_order) {
                    if (v >= n || settled[v])
                        throw Violation{"bounds " + where + ": a node was settled twice"};
                    i64 b = lower ? bw.settled_bound[v].raw_value : -bw.settled_bound[v].raw_value;
                    if (bw.has_predecessor[v]) {
                        auto e = bw.predecessor[v];
                        if (e >= m || ! p.on[e])
                            throw Violation{"chain " + where + ": node " + to_string(v) + "'s bound is said to come across an arc which is not active"};
                        auto from = lower ? es[e].from : es[e].to, to = lower ? es[e].to : es[e].from;
                        if (to != v || ! settled[from])
                            throw Violation{"chain " + where + ": node " + to_string(v) + "'s bound is said to come across an arc which does not lead to it, or from a node not yet settled"};
                        i64 source = lower ? bw.settled_bound[from].raw_value : -bw.settled_bound[from].raw_value;
                        if ((lower ? source - es[e].d : source + es[e].d) != b)
                            throw Violation{"chain " + where + ": node " + to_string(v) + "'s bound does not follow from the arc it is said to come across"};
                    }
                    else if (b != now[v])
                        throw Violation{"chain " + where + ": node " + to_string(v) + " has a new bound and no arc to justify it"};
                    settled[v] = 1;
                    result[v] = lower ? max(result[v], b) : min(result[v], b);
                    hash((u64)b * 64 + v);
                }
                for (size_t v = 0; v < n; ++v)
                    if (result[v] != want[v])
                        throw Violation{string("bounds ") + where + ": node " + to_string(v) + "'s " + (lower ? "lower" : "upper") + " bound is " + to_string(result[v]) + " and should be " +
                            to_string(want[v])};
                auto & gate_now = lower ? p.gate_lb : p.gate_ub;
                for (auto v : bw.settle_order) {
                    i64 b = lower ? bw.settled_bound[v].raw_value : -bw.settled_bound[v].raw_value;
                    gate_now[v] = lower ? max(gate_now[v], b) : min(gate_now[v], b);
                }
                now = result;
            }
            for (size_t v = 0; v < n; ++v)
                if (p.lb[v] > p.ub[v])
                    return false;
            return true;
        };

        bool dead = false;
        where = "at the start";
        if (! wake(stack.back()))
            dead = true;
        size_t deepest = 1;
        for (auto & o : c.ops) {
            if (dead)
                break;
            where = "after operation " + to_string(++step) + " of " + to_string(c.ops.size());
            ++sim::tally().steps;
            auto & p = stack.back();
            hash((u64)o[0]);
            bool fine = true;
            switch (o[0]) {
            case 1: // some arcs become active, and perhaps bounds move too, then the propagator runs
                for (size_t i = 1; i + 1 < o.size(); ++i)
                    if (m)
                        p.on[(size_t)o[i] % m] = 1;
                if (o.back() & 1)
                    p.lb[(size_t)o[1] % n] += o.back() % 5;
                for (size_t v = 0; v < n; ++v)
                    fine = fine && p.lb[v] <= p.ub[v];
                fine = fine && wake(p);
                break;
            case 2: // bounds move, as branching or another constraint would
                for (size_t i = 1; i + 1 < o.size(); i += 2) {
                    auto v = (size_t)o[i] % n;
                    i64 room = p.ub[v] - p.lb[v];
                    if (o[i + 1] & 1)
                        p.lb[v] += min(room, o[i + 1] / 2);
                    else
                        p.ub[v] -= min(room, o[i + 1] / 2);
                }
                fine = wake(p);
                break;
            case 3:
                if (stack.size() < 30) {
                    Point copy = p;
                    stack.push_back(std::move(copy));
                }
                deepest = max(deepest, stack.size());
                break;
            case 4:
                if (stack.size() > 1) {
                    auto back = min<size_t>((size_t)o[1] + 1, stack.size() - 1);
                    stack.resize(stack.size() - back);
                    sim::tally().hit("fault: jump back");
                }
                break;
            case 5: // a hole makes a bound move further than was inferred
            {
                auto v = (size_t)o[1] % n;
                if (p.lb[v] < p.ub[v])
                    (o[2] & 1 ? p.lb[v] : p.ub[v]) += o[2] & 1 ? 1 : -1;
                fine = wake(p);
                break;
            }
            }
            if (! fine) {
                // a conflict: leave this point, or give up at the root. What was done here is undone.
                sim::tally().hit("fault: contradiction");
                if (stack.size() > 1)
                    stack.pop_back();
                else
                    dead = true;
            }
        }
        sim::tally().n["most choice points deep"] = max<u64>(sim::tally().n["most choice points deep"], deepest);
        sim::tally().hit("histories");
    }

    void simplification(const Case & c)
    {
        size_t n = (size_t)c.get("nodes");
        vector<Edge> es;
        vector<DifferenceSimplifyEdge> edges;
        vector<DifferenceSimplifyRole> roles;
        vector<char> base, candidate;
        for (auto & o : c.ops)
            if (o[0] == 0) {
                es.push_back({(size_t)o[1] % n, (size_t)o[2] % n, o[3]});
                edges.push_back({es.back().from, es.back().to, Integer{o[3]}});
                i64 role = o[4] % 3;
                roles.push_back((DifferenceSimplifyRole)role);
                base.push_back(role == 0);
                candidate.push_back(role == 1);
            }
        ++sim::tally().steps;
        auto got = simplify_difference_graph(n, edges, roles);
        auto all = distances(n, es, base);
        if (got.base_negative_cycle == all.has_value())
            throw Violation{"simplify-feasibility: the base graph " + string(all ? "has no" : "has a") + " negative cycle, and the opposite was reported"};
        if (! all) {
            sim::tally().hit("fault: negative cycle");
            return;
        }
        auto kept = base;
        for (size_t e = 0; e < es.size(); ++e)
            if (got.remove.at(e))
                kept[e] = 0;
        auto after = distances(n, es, kept);
        if (! after || *after != *all)
            throw Violation{"simplify-distances: removing redundant edges changed the distances they imply"};
        set<size_t> fixed;
        for (auto & [e, path] : got.fix) {
            if (! candidate.at(e) || ! fixed.insert(e).second)
                throw Violation{"simplify-fix: edge " + to_string(e) + " is not an undecided one, or was fixed twice"};
            auto at = es[e].to;
            i64 w = es[e].d;
            for (auto p : path) {
                if (! base.at(p) || es[p].from != at)
                    throw Violation{"simplify-witness: the chain given for edge " + to_string(e) + " is not a path of active edges"};
                at = es[p].to;
                w += es[p].d;
            }
            if (at != es[e].from || w >= 0)
                throw Violation{"simplify-witness: the chain given for edge " + to_string(e) + " is not a negative cycle"};
        }
        for (size_t e = 0; e < es.size(); ++e)
            if (candidate[e]) {
                i64 there = (*all)[es[e].from][es[e].to], back = (*all)[es[e].to][es[e].from];
                bool impossible = back != none && back + es[e].d < 0, implied = there != none && there <= es[e].d;
                if (impossible && ! implied && ! fixed.contains(e))
                    throw Violation{"simplify-fix: edge " + to_string(e) + " can never hold, and that was not noticed"};
                if (got.remove[e] && ! implied)
                    throw Violation{"simplify-distances: undecided edge " + to_string(e) + " was dropped, and is not implied"};
            }
        // a zero weight cycle goes through every pair with opposite distances
        size_t on = 0;
        set<set<size_t>> classes;
        for (size_t u = 0; u < n; ++u) {
            set<size_t> k{u};
            for (size_t v = 0; v < n; ++v)
                if (u != v && (*all)[u][v] != none && (*all)[v][u] != none && (*all)[u][v] + (*all)[v][u] == 0)
                    k.insert(v);
            if (k.size() > 1)
                ++on, classes.insert(k);
        }
        if (on != got.nodes_on_zero_weight_cycles || classes.size() != got.zero_weight_cycles)
            throw Violation{"simplify-cycles: " + to_string(classes.size()) + " zero weight cycles over " + to_string(on) + " nodes exist, and " + to_string(got.zero_weight_cycles) + " over " +
                to_string(got.nodes_on_zero_weight_cycles) + " were reported"};
        sim::tally().hit("simplifications");
    }

    // Whole searches: at every node, what is left is closed under the differences in force.
    void search(const Case & c)
    {
        auto t = sim::truth(c);
        sim::note_shape(c);
        auto run = [&](const Case & k, const string & where) {
            sim::Solver s{k};
            sim::Knobs knobs;
            knobs.restarts = 0;
            knobs.at_branch = [&](const CurrentState & st) {
                for (auto & con : k.cons) {
                    if (con.kind != "difference")
                        continue;
                    for (size_t i = 0; i < con.t[0].size(); ++i) {
                        if (con.n[1][i] >= 0) {
                            auto & q = con.c.at((size_t)con.n[1][i]);
                            auto x = s.b.term(q.t);
                            bool all = true;
                            for (auto v : st.each_value(x)) {
                                sim::Cond w = q;
                                w.t = sim::Term{-1, false, v.raw_value};
                                all = all && sim::holds(w, {});
                            }
                            if (! all)
                                continue;
                        }
                        auto x = s.b.term(con.t[0][i]), y = s.b.term(con.t[1][i]);
                        i64 d = con.n[0][i];
                        sim::tally().hit("differences in force at nodes");
                        if (x == y ? d < 0
                                   : st.lower_bound(y).raw_value < st.lower_bound(x).raw_value - d || st.upper_bound(x).raw_value > st.upper_bound(y).raw_value + d)
                            throw Violation{"node-bounds " + where + ": at a search node, difference " + to_string(i) + " (at most " + to_string(d) + ") has bounds " +
                                to_string(st.lower_bound(x).raw_value) + ".." + to_string(st.upper_bound(x).raw_value) + " and " + to_string(st.lower_bound(y).raw_value) + ".." +
                                to_string(st.upper_bound(y).raw_value) + ", which are not the tightest"};
                    }
                }
            };
            auto o = s.solve(knobs);
            sim::expect_full(k, o, t, where);
            return o;
        };
        auto a = run(c, "searching");
        // the reference implementation that the library keeps, under the same schedule
        Case d = c;
        for (auto & k : d.cons)
            if (k.kind == "difference")
                k.opt ^= 2 << 8;
        auto b = run(d, "searching the other way");
        // the schedule may lead to other solutions on the way to the best
        if (! c.objective && a.sols.size() != b.sols.size())
            throw Violation{"from-scratch: incremental and from-scratch reasoning found different numbers of solutions"};
    }
}

Case sim::make_c15(Rng & r)
{
    Case c;
    i64 mode = r.below(10);
    c.p["mode"] = mode < 5 ? 0 : mode < 7 ? 1 : 2;
    if (c.get("mode") == 2) {
        GenOptions o;
        o.kinds = {"difference", "difference", "difference", "lt", "le", "linle", "ne", "or", "alldiff", "element", "disjunctive"};
        o.max_vars = (int)r.range(3, 6);
        o.max_cons = (int)r.range(1, 3);
        Case k;
        do
            k = generate(r, o);
        while (none_of(k.cons.begin(), k.cons.end(), [](auto & x) { return x.kind == "difference"; }));
        k.p = c.p;
        generate_search(r, k);
        generate_schedule(r, k);
        return k;
    }
    i64 n = r.range(2, r.chance(20) ? 12 : 6);
    c.p["nodes"] = n;
    i64 m = r.range(1, r.chance(30) ? 4 * n : 2 * n);
    i64 big = r.chance(15) ? r.range(1, 1000000000000LL) : r.range(1, 8);
    c.p["range"] = r.chance(30) ? big * n : 20;
    // distances that agree with some assignment most of the time, so that negative cycles are rare but close
    vector<i64> at;
    for (i64 v = 0; v < n; ++v)
        at.push_back(r.range(-big, big));
    bool consistent = r.chance(70);
    for (i64 i = 0; i < m; ++i) {
        i64 x = r.range(0, n - 1), y = r.range(0, n - 1);
        if (x == y && ! r.chance(10))
            y = (y + 1) % n;
        i64 d = consistent && ! r.chance(5) ? at[(size_t)x] - at[(size_t)y] + (r.chance(50) ? 0 : r.range(0, big)) : r.range(-big, 2 * big);
        c.ops.push_back({0, x, y, d, r.range(0, 2)});
    }
    if (c.get("mode") == 1)
        return c;
    c.p["always"] = r.chance(20);
    c.p["first"] = r.range(0, m);
    i64 len = r.range(3, r.chance(20) ? 200 : 50);
    for (i64 i = 0; i < len; ++i)
        switch (r.below(10)) {
        case 0: case 1: case 2: {
            vector<i64> o{1};
            for (i64 k = r.range(1, 3); k-- > 0;)
                o.push_back(r.range(0, m - 1));
            o.push_back(r.range(0, 9));
            c.ops.push_back(o);
            break;
        }
        case 3: case 4: {
            vector<i64> o{2};
            for (i64 k = r.range(1, 2); k-- > 0;) {
                o.push_back(r.range(0, n - 1));
                o.push_back(r.range(0, 12));
            }
            o.push_back(0);
            c.ops.push_back(o);
            break;
        }
        case 5: case 6: c.ops.push_back({3}); break;
        case 7: case 8: c.ops.push_back({4, r.chance(70) ? 0 : r.range(0, 5)}); break;
        default: c.ops.push_back({5, r.range(0, n - 1), r.range(0, 1)});
        }
    return c;
}

void sim::check_c15(const Case & c)
{
    switch (c.get("mode")) {
    case 0: history(c); break;
    case 1: simplification(c); break;
    default: search(c); return;
    }
    tally().schedules.insert(case_hash);
    Hash h;
    h.add((u64)c.get("nodes"));
    h.add((u64)c.get("mode"));
    h.add(c.ops.size());
    tally().shapes.insert(h.h);
}
