#include "builder.hh"
#include <gcs/constraints/abs.hh>
#include <gcs/constraints/divide.hh>
#include <gcs/constraints/knapsack.hh>
#include <gcs/constraints/linear.hh>
#include <gcs/constraints/min_max.hh>
#include <gcs/constraints/minus.hh>
#include <gcs/constraints/modulus.hh>
#include <gcs/constraints/multiply.hh>
#include <gcs/constraints/plus.hh>
#include <gcs/constraints/power.hh>
#include <gcs/constraints/power/power_table.hh>
using namespace gcs;
using namespace sim;

namespace
{
    template <typename C>
    C level(C c, int v)
    {
        if (v == 1)
            c.with_consistency(consistency::BC{});
        else if (v == 2)
            c.with_consistency(consistency::Tabulated{});
        return c;
    }
}

bool sim::post_arithmetic(Builder & b, const Con & k)
{
    const auto & n = k.kind;
    int v = k.opt >> 8;
    auto T = [&](size_t i, size_t j) { return b.term(k.t.at(i).at(j)); };
    if (n == "abs")
        b.post(Abs{T(0, 0), T(0, 1)}, k);
    else if (n == "divide")
        b.post(level(Divide{T(0, 0), T(0, 1), T(0, 2)}, v), k);
    else if (n == "modulus")
        b.post(level(Modulus{T(0, 0), T(0, 1), T(0, 2)}, v), k);
    else if (n == "multiply")
        b.post(level(Multiply{T(0, 0), T(0, 1), T(0, 2)}, v), k);
    else if (n == "plus")
        b.post(level(Plus{T(0, 0), T(0, 1), T(0, 2)}, v), k);
    else if (n == "minus")
        b.post(level(Minus{T(0, 0), T(0, 1), T(0, 2)}, v), k);
    else if (n == "power")
        b.post(level(Power{T(0, 0), T(0, 1), T(0, 2)}, v), k);
    else if (n == "powertable")
        b.post(innards::PowerTable{T(0, 0), T(0, 1), T(0, 2)}, k);
    else if (n == "min" || n == "max") {
        if ((v & 1) && k.t[0].size() == 2) {
            if (n == "min")
                b.post(Min{T(0, 0), T(0, 1), T(1, 0)}, k);
            else
                b.post(Max{T(0, 0), T(0, 1), T(1, 0)}, k);
        }
        else if (n == "min")
            b.post(ArrayMin{b.terms(k.t[0]), T(1, 0)}, k);
        else
            b.post(ArrayMax{b.terms(k.t[0]), T(1, 0)}, k);
    }
    else if (n == "knapsack") {
        auto finish = [&](Knapsack c) {
            if (v & 1)
                c.with_proof_strategy(proof_strategy::Upfront{});
            b.post(c, k);
        };
        if (k.t[1].size() == 2 && (v & 2))
            finish(Knapsack{b.ints(k.n[0]), b.ints(k.n[1]), b.terms(k.t[0]), T(1, 0), T(1, 1)});
        else {
            std::vector<std::vector<Integer>> co;
            for (size_t i = 0; i < k.t[1].size(); ++i)
                co.push_back(b.ints(k.n[i]));
            finish(Knapsack{co, b.terms(k.t[0]), b.terms(k.t[1])});
        }
    }
    else if (n == "lineq" || n == "linne" || n == "linle" || n == "linge") {
        WeightedSum s;
        for (size_t i = 0; i < k.t[0].size(); ++i)
            s += Integer{k.n[0][i]} * T(0, i);
        Integer x{k.n[1][0]};
        auto thr = (v & 2) ? std::optional<std::size_t>{1} : std::nullopt;
        if (k.reif >= 3) {
            ReificationCondition yes = reif::MustHold{}, no = reif::MustNotHold{};
            if (k.reif == 4) {
                yes = reif::If{b.cond(k.c[0])};
                no = reif::NotIf{b.cond(k.c[0])};
            }
            if (n == "lineq" || n == "linne") {
                ReifiedLinearEquality c{s, x, n == "lineq" ? no : yes};
                if (v & 1)
                    c.with_consistency(consistency::Tabulated{});
                if (thr)
                    c.with_incremental_threshold(thr);
                b.post(c, k);
            }
            else if (n == "linle")
                b.post(ReifiedLinearInequality{s, x, no, thr}, k);
            else {
                WeightedSum m;
                for (size_t i = 0; i < k.t[0].size(); ++i)
                    m += Integer{-k.n[0][i]} * T(0, i);
                b.post(ReifiedLinearInequality{m, -x, no, thr}, k);
            }
            return true;
        }
        if (n == "lineq" || n == "linne") {
            auto finish = [&](auto c) {
                if (v & 1)
                    c.with_consistency(consistency::Tabulated{});
                if (thr)
                    c.with_incremental_threshold(thr);
                b.post(c, k);
            };
            if (n == "lineq") {
                if (k.reif == 0)
                    finish(LinearEquality{s, x});
                else if (k.reif == 1)
                    finish(LinearEqualityIf{s, x, b.cond(k.c[0])});
                else
                    finish(LinearEqualityIff{s, x, b.cond(k.c[0])});
            }
            else {
                if (k.reif == 0)
                    finish(LinearNotEquals{s, x});
                else if (k.reif == 1)
                    finish(LinearNotEqualsIf{s, x, b.cond(k.c[0])});
                else
                    finish(LinearNotEqualsIff{s, x, b.cond(k.c[0])});
            }
        }
        else if (n == "linle") {
            if (k.reif == 0)
                b.post(LinearLessThanEqual{s, x, thr}, k);
            else if (k.reif == 1)
                b.post(LinearLessThanEqualIf{s, x, b.cond(k.c[0])}, k);
            else
                b.post(LinearLessThanEqualIff{s, x, b.cond(k.c[0])}, k);
        }
        else {
            if (k.reif == 0)
                b.post(LinearGreaterThanEqual{s, x, thr}, k);
            else if (k.reif == 1)
                b.post(LinearGreaterThanEqualIf{s, x, b.cond(k.c[0])}, k);
            else
                b.post(LinearGreaterThanEqualIff{s, x, b.cond(k.c[0])}, k);
        }
    }
    else
        return false;
    return true;
}
