#include "builder.hh"
#include <gcs/constraints/cumulative.hh>
#include <gcs/constraints/disjunctive.hh>
#include <gcs/constraints/disjunctive_2d.hh>
#include <gcs/presolvers/auto_table.hh>
#include <gcs/presolvers/cumulative_strengthening.hh>
#include <gcs/presolvers/difference_logic.hh>
#include <gcs/presolvers/inferred_cumulative.hh>
#include <gcs/presolvers/inferred_disjunctive.hh>
using namespace gcs;
using namespace sim;

namespace
{
    CumulativeRules cumulative_rules(i64 v)
    {
        CumulativeRules r;
        r.time_table = v & 1;
        r.overload = v & 2;
        r.profile_overload = v & 4;
        r.elastic_overload = v & 8;
        r.knapsack_overload = v & 16;
        r.edge_finding = v & 32;
        r.time_table_edge_finding = v & 64;
        r.energetic_edge_finding = v & 128;
        r.not_first_not_last = v & 256;
        r.not_first_not_last_published = v & 512;
        return r;
    }

    template <typename F>
    bool all_constant(const std::vector<Term> & ts, F f)
    {
        for (auto & t : ts) {
            if (t.var >= 0)
                return false;
            f(t.add);
        }
        return true;
    }
}

bool sim::post_scheduling(Builder & b, const Con & k)
{
    const auto & n = k.kind;
    int v = k.opt >> 8;
    auto L = [&](size_t i) { return b.terms(k.t.at(i)); };
    std::vector<Integer> len, hei;
    if (n == "cumulative") {
        auto finish = [&](Cumulative c) {
            c.with_rules(cumulative_rules(v));
            b.post(c, k);
        };
        bool simple = k.t[3].empty() && all_constant(k.t[1], [&](i64 x) { len.push_back(Integer{x}); }) &&
            all_constant(k.t[2], [&](i64 x) { hei.push_back(Integer{x}); }) && k.t[4][0].var < 0;
        if (simple)
            finish(Cumulative{L(0), len, hei, Integer{k.t[4][0].add}});
        else if (k.t[3].empty())
            finish(Cumulative{L(0), L(1), L(2), b.term(k.t[4][0])});
        else
            finish(Cumulative{L(0), L(1), L(2), L(3), b.term(k.t[4][0])});
    }
    else if (n == "disjunctive") {
        DisjunctiveRules r;
        r.time_table = v & 1;
        r.detectable_precedences = v & 2;
        r.detectable_precedences_set = v & 4;
        r.overload = v & 8;
        r.edge_finding = v & 16;
        r.not_first_not_last = v & 32;
        r.not_first_not_last_published = v & 64;
        r.edge_finding_lb = ! (v & 128) || (v & 256);
        r.edge_finding_ub = ! (v & 256) || (v & 128);
        r.overload_cache_bridge = ! (v & 512);
        r.overload_certificate = (DisjunctiveOverloadCertificate)((v >> 10) % 3);
        auto finish = [&](Disjunctive c) {
            c.with_rules(r).with_strict(bool(k.n[0][0]));
            b.post(c, k);
        };
        if (! k.t[2].empty())
            finish(Disjunctive{L(0), L(1), L(2)});
        else if (all_constant(k.t[1], [&](i64 x) { len.push_back(Integer{x}); }))
            finish(Disjunctive{L(0), len});
        else
            finish(Disjunctive{L(0), L(1)});
    }
    else if (n == "disjunctive2d") {
        auto finish = [&](Disjunctive2D c) {
            c.with_strict(bool(k.n[0][0]));
            b.post(c, k);
        };
        if (all_constant(k.t[2], [&](i64 x) { len.push_back(Integer{x}); }) && all_constant(k.t[3], [&](i64 x) { hei.push_back(Integer{x}); }))
            finish(Disjunctive2D{L(0), L(1), len, hei});
        else
            finish(Disjunctive2D{L(0), L(1), L(2), L(3)});
    }
    else
        return false;
    return true;
}

void sim::add_presolver(Builder & b, const Pre & p)
{
    i64 f = p.n.empty() ? 0 : p.n[0];
    if (p.kind == "autotable") {
        std::vector<IntegerVariableID> vs;
        for (auto i : p.n)
            vs.push_back(b.vars.at((size_t)i));
        b.problem.add_presolver(AutoTable{vs});
    }
    else if (p.kind == "difflogic") {
        DifferenceLogic d;
        d.disabling_lifted_donors(f & 1).simplifying_at_root(f & 2).incrementally(f & 4).auditing_incremental_propagation(f & 8);
        b.problem.add_presolver(d);
    }
    else if (p.kind == "cumstrength") {
        CumulativeStrengthening c;
        if (f & 1)
            c.with_dynamic_programming_budget(p.n[1] * 3);
        if (f & 2)
            c.with_subset_sum_capacity_limit(p.n[1]);
        if (f & 4)
            c.with_rules(cumulative_rules(p.n[2]));
        b.problem.add_presolver(c);
    }
    else if (p.kind == "infcum") {
        InferredCumulative c;
        if (f & 1)
            c.with_budgets(3, 2);
        if (f & 2)
            c.with_lifting_call_budget(4);
        if (f & 4)
            c.with_rules(cumulative_rules(p.n[2]));
        if (p.n[1] >= 0)
            c.with_makespan(b.vars.at((size_t)p.n[1]));
        b.problem.add_presolver(c);
    }
    else if (p.kind == "infdisj") {
        InferredDisjunctive c;
        if (f & 1)
            c.with_budgets(3, 2);
        if (f & 2)
            c.with_minimum_clique_size(2);
        if (f & 4)
            c.with_rules(cumulative_rules(p.n[2]));
        if (p.n[1] >= 0)
            c.with_makespan(b.vars.at((size_t)p.n[1]));
        b.problem.add_presolver(c);
    }
    else
        throw std::runtime_error("unknown presolver " + p.kind);
}
