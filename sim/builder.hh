// Turns a case into a real gcs::Problem.
#pragma once
#include "case.hh"
#include <gcs/exception.hh>
#include <gcs/expression.hh>
#include <gcs/innards/literal.hh>
#include <gcs/problem.hh>
#include <gcs/variable_condition.hh>
#include <gcs/variable_id.hh>
#include <memory>
#include <vector>

namespace sim
{
    struct Builder
    {
        gcs::Problem & problem;
        std::vector<gcs::IntegerVariableID> vars;

        explicit Builder(gcs::Problem & p) : problem(p)
        {
        }

        gcs::IntegerVariableID term(const Term & t) const
        {
            using namespace gcs;
            if (t.var < 0)
                return constant_variable(Integer{t.add});
            IntegerVariableID v = vars.at((size_t)t.var);
            if (t.neg)
                v = -v;
            if (t.add != 0)
                v = v + Integer{t.add};
            return v;
        }
        std::vector<gcs::IntegerVariableID> terms(const std::vector<Term> & ts) const
        {
            std::vector<gcs::IntegerVariableID> r;
            for (auto & t : ts)
                r.push_back(term(t));
            return r;
        }
        gcs::IntegerVariableCondition cond(const Cond & c) const
        {
            using namespace gcs;
            auto v = term(c.t);
            switch (c.op) {
            case EQ: return v == Integer{c.v};
            case NE: return v != Integer{c.v};
            case GE: return v >= Integer{c.v};
            case LT: return v < Integer{c.v};
            case INR: return in_range(v, Integer{c.v}, Integer{c.v2});
            default: return not_in_range(v, Integer{c.v}, Integer{c.v2});
            }
        }
        static std::vector<gcs::Integer> ints(const std::vector<i64> & v)
        {
            std::vector<gcs::Integer> r;
            for (auto x : v)
                r.push_back(gcs::Integer{x});
            return r;
        }
        template <typename C>
        void post(const C & c, const Con & k)
        {
            if (k.name.empty())
                problem.post(c);
            else
                problem.post_named(c, k.name);
        }

        void build(const Case &); // everything, presolvers included
    };

    // Each says whether it knew the kind.
    bool post_arithmetic(Builder &, const Con &);
    bool post_compare(Builder &, const Con &);
    bool post_counting(Builder &, const Con &);
    bool post_extensional(Builder &, const Con &);
    bool post_scheduling(Builder &, const Con &);
    bool post_element(Builder &, const Con &);
    void add_presolver(Builder &, const Pre &);
}
