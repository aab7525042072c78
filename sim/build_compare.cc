#include "builder.hh"
#include <gcs/constraints/all_equal.hh>
#include <gcs/constraints/comparison.hh>
#include <gcs/constraints/difference.hh>
#include <gcs/constraints/equals.hh>
#include <gcs/constraints/increasing.hh>
#include <gcs/constraints/lex.hh>
#include <gcs/constraints/lex_smart_table.hh>
#include <gcs/constraints/logical.hh>
#include <gcs/constraints/nogoods/nogoods.hh>
#include <gcs/constraints/parity.hh>
using namespace gcs;
using namespace sim;

bool sim::post_compare(Builder & b, const Con & k)
{
    const auto & n = k.kind;
    auto T = [&](size_t i, size_t j) { return b.term(k.t.at(i).at(j)); };
    auto L = [&](size_t i) { return b.terms(k.t.at(i)); };
#define REIFIED(NAME, CLASS, ...)                                  \
    if (n == NAME) {                                               \
        if (k.reif == 0)                                           \
            b.post(CLASS{__VA_ARGS__}, k);                         \
        else if (k.reif == 1)                                      \
            b.post(CLASS##If{__VA_ARGS__, b.cond(k.c[0])}, k);     \
        else                                                       \
            b.post(CLASS##Iff{__VA_ARGS__, b.cond(k.c[0])}, k);    \
        return true;                                               \
    }
    if (k.reif >= 3) {
        auto cond = [&]() -> ReificationCondition {
            if (k.reif == 3)
                return reif::MustNotHold{};
            return reif::NotIf{b.cond(k.c[0])};
        };
        auto positive = [&]() -> ReificationCondition {
            if (k.reif == 3)
                return reif::MustHold{};
            return reif::If{b.cond(k.c[0])};
        };
        bool or_equal = n == "le" || n == "ge" || n == "lexle" || n == "lexge";
        if (n == "lt" || n == "le")
            b.post(ReifiedCompareLessThanOrMaybeEqual{T(0, 0), T(0, 1), cond(), or_equal}, k);
        else if (n == "gt" || n == "ge")
            b.post(ReifiedCompareLessThanOrMaybeEqual{T(0, 1), T(0, 0), cond(), or_equal, true}, k);
        else if (n == "eq")
            b.post(ReifiedEquals{T(0, 0), T(0, 1), cond()}, k);
        else if (n == "ne")
            b.post(ReifiedEquals{T(0, 0), T(0, 1), positive()}, k);
        else if (n == "lexgt" || n == "lexge")
            b.post(LexCompareGreaterThanOrMaybeEqual{L(0), L(1), cond(), or_equal}, k);
        else if (n == "lexlt" || n == "lexle")
            b.post(LexCompareGreaterThanOrMaybeEqual{L(1), L(0), cond(), or_equal, true}, k);
        else
            return false;
        return true;
    }
    REIFIED("lt", LessThan, T(0, 0), T(0, 1))
    REIFIED("le", LessThanEqual, T(0, 0), T(0, 1))
    REIFIED("gt", GreaterThan, T(0, 0), T(0, 1))
    REIFIED("ge", GreaterThanEqual, T(0, 0), T(0, 1))
    REIFIED("eq", Equals, T(0, 0), T(0, 1))
    REIFIED("ne", NotEquals, T(0, 0), T(0, 1))
    REIFIED("lexgt", LexGreaterThan, L(0), L(1))
    REIFIED("lexge", LexGreaterEqual, L(0), L(1))
    REIFIED("lexlt", LexLessThan, L(0), L(1))
    REIFIED("lexle", LexLessThanEqual, L(0), L(1))
    if (n == "lexsmart")
        b.post(LexSmartTable{L(0), L(1)}, k);
    else if (n == "allequal")
        b.post(AllEqual{L(0)}, k);
    else if (n == "increasing") {
        switch (k.opt) {
        case 0: b.post(Increasing{L(0)}, k); break;
        case 1: b.post(StrictlyIncreasing{L(0)}, k); break;
        case 2: b.post(Decreasing{L(0)}, k); break;
        default: b.post(StrictlyDecreasing{L(0)}, k);
        }
    }
    else if (n == "difference") {
        std::vector<DifferenceEdge> es;
        for (size_t i = 0; i < k.t[0].size(); ++i) {
            DifferenceEdge e{T(0, i), T(1, i), Integer{k.n[0][i]}};
            if (k.n[1][i] >= 0)
                e.cond = b.cond(k.c.at((size_t)k.n[1][i]));
            es.push_back(e);
        }
        DifferenceConstraints dc{es};
        if (k.opt >> 8 & 1)
            dc.simplifying_at_root(false);
        if (k.opt >> 8 & 2)
            dc.incrementally(false);
        b.post(dc, k);
    }
    else if (n == "and" || n == "or") {
        if (k.opt & 1) {
            innards::Literals ls;
            for (size_t i = 1; i < k.c.size(); ++i)
                ls.push_back(b.cond(k.c[i]));
            if (n == "and")
                b.post(And{ls, innards::Literal{b.cond(k.c[0])}}, k);
            else
                b.post(Or{ls, innards::Literal{b.cond(k.c[0])}}, k);
        }
        else if (k.opt & 2) {
            if (n == "and")
                b.post(And{L(0), T(1, 0)}, k);
            else
                b.post(Or{L(0), T(1, 0)}, k);
        }
        else if (n == "and")
            b.post(And{L(0)}, k);
        else
            b.post(Or{L(0)}, k);
    }
    else if (n == "nogoods") {
        std::vector<Nogood> all;
        size_t at = 0;
        for (auto len : k.n[0]) {
            all.emplace_back();
            for (i64 i = 0; i < len; ++i)
                all.back().push_back(b.cond(k.c.at(at++)));
        }
        b.post(Nogoods{all, (k.opt >> 8 & 1) == 0}, k);
    }
    else if (n == "parity") {
        if (k.opt & 1) {
            innards::Literals ls;
            for (auto & c : k.c)
                ls.push_back(b.cond(c));
            b.post(ParityOdd{ls}, k);
        }
        else
            b.post(ParityOdd{L(0)}, k);
    }
    else
        return false;
    return true;
}
