#include "builder.hh"
#include <gcs/constraints/element.hh>
using namespace gcs;
using namespace sim;

namespace
{
    template <typename C>
    void finish(Builder & b, const Con & k, C c)
    {
        int v = k.opt >> 8;
        if (v == 1)
            c.with_consistency(consistency::BC{});
        else if (v == 2)
            c.with_consistency(consistency::GAC{});
        b.post(c, k);
    }
}

bool sim::post_element(Builder & b, const Con & k)
{
    const auto & n = k.kind;
    using I = std::pair<IntegerVariableID, Integer>;
    if (n == "element" || n == "elementc") {
        auto var = b.term(k.t[0][0]), idx = b.term(k.t[1][0]);
        Integer s{k.n[0][0]};
        if (n == "element") {
            auto a = b.terms(k.t[2]);
            if (s == 0_i)
                finish(b, k, Element{var, idx, a});
            else
                finish(b, k, Element{var, I{idx, s}, a});
        }
        else {
            auto a = b.ints(k.n[1]);
            if (s == 0_i)
                finish(b, k, ElementConstantArray{var, idx, a});
            else
                finish(b, k, ElementConstantArray{var, I{idx, s}, a});
        }
    }
    else if (n == "element2d" || n == "element2dc") {
        auto var = b.term(k.t[0][0]), i = b.term(k.t[1][0]), j = b.term(k.t[1][1]);
        Integer si{k.n[0][0]}, sj{k.n[0][1]};
        size_t rows = (size_t)k.n[2][0], cols = (size_t)k.n[2][1];
        bool zero = si == 0_i && sj == 0_i;
        if (n == "element2d") {
            std::vector<std::vector<IntegerVariableID>> a(rows);
            for (size_t r = 0; r < rows; ++r)
                for (size_t q = 0; q < cols; ++q)
                    a[r].push_back(b.term(k.t[2][r * cols + q]));
            if (zero)
                finish(b, k, Element2D{var, i, j, a});
            else
                finish(b, k, Element2D{var, I{i, si}, I{j, sj}, a});
        }
        else {
            std::vector<std::vector<Integer>> a(rows);
            for (size_t r = 0; r < rows; ++r)
                for (size_t q = 0; q < cols; ++q)
                    a[r].push_back(Integer{k.n[1][r * cols + q]});
            if (zero)
                finish(b, k, Element2DConstantArray{var, i, j, a});
            else
                finish(b, k, Element2DConstantArray{var, I{i, si}, I{j, sj}, a});
        }
    }
    else
        return false;
    return true;
}

void Builder::build(const Case & c)
{
    for (auto & d : c.vars) {
        std::optional<std::string> name;
        if (! d.name.empty())
            name = d.name;
        if (d.is_range)
            vars.push_back(problem.create_integer_variable(Integer{d.lo}, Integer{d.hi}, name));
        else
            vars.push_back(problem.create_integer_variable(ints(d.values), name));
    }
    for (auto & k : c.cons)
        if (! (post_arithmetic(*this, k) || post_compare(*this, k) || post_counting(*this, k) || post_extensional(*this, k) ||
                post_scheduling(*this, k) || post_element(*this, k)))
            throw std::runtime_error("unknown constraint " + k.kind);
    if (c.objective == 1)
        problem.minimise(term(c.obj));
    else if (c.objective == 2)
        problem.maximise(term(c.obj));
    for (auto & p : c.pre)
        add_presolver(*this, p);
}
