#include "builder.hh"
#include <gcs/constraints/mdd.hh>
#include <gcs/constraints/min_distance.hh>
#include <gcs/constraints/regular.hh>
#include <gcs/constraints/regular/regular_bacchus.hh>
#include <gcs/constraints/regular/regular_legacy.hh>
#include <gcs/constraints/smart_table.hh>
#include <gcs/constraints/table.hh>
#include <limits>
#include <unordered_map>
using namespace gcs;
using namespace sim;

namespace
{
    template <typename C>
    void table(Builder & b, const Con & k, bool wild)
    {
        auto vs = b.terms(k.t.at(0));
        size_t w = vs.size(), rows = (size_t)k.n[0][0];
        for (auto x : k.n[1])
            wild = wild || x == std::numeric_limits<i64>::min();
        if (wild) {
            WildcardTuples ts;
            for (size_t r = 0; r < rows; ++r) {
                ts.emplace_back();
                for (size_t i = 0; i < w; ++i) {
                    i64 x = k.n[1][r * w + i];
                    if (x == std::numeric_limits<i64>::min())
                        ts.back().push_back(Wildcard{});
                    else
                        ts.back().push_back(Integer{x});
                }
            }
            b.post(C{vs, ExtensionalTuples{ts}}, k);
        }
        else {
            SimpleTuples ts;
            for (size_t r = 0; r < rows; ++r) {
                ts.emplace_back();
                for (size_t i = 0; i < w; ++i)
                    ts.back().push_back(Integer{k.n[1][r * w + i]});
            }
            b.post(C{vs, ExtensionalTuples{ts}}, k);
        }
    }
}

bool sim::post_extensional(Builder & b, const Con & k)
{
    const auto & n = k.kind;
    int v = k.opt >> 8;
    auto L = [&](size_t i) { return b.terms(k.t.at(i)); };
    if (n == "table")
        table<Table>(b, k, v & 1);
    else if (n == "negtable")
        table<NegativeTable>(b, k, v & 1);
    else if (n == "smarttable") {
        auto vs = L(0);
        SmartTuples ts;
        size_t at = 1;
        for (auto rows : k.n[0]) {
            ts.emplace_back();
            for (i64 e = 0; e < rows; ++e) {
                const auto & q = k.n.at(at++);
                auto a = vs.at((size_t)q[2]);
                if (q[0] == 2) {
                    std::vector<i64> s(q.begin() + 3, q.end());
                    ts.back().push_back(q[1] == 0 ? SmartTable::in_set(a, b.ints(s)) : SmartTable::not_in_set(a, b.ints(s)));
                }
                else {
                    auto put = [&](auto y) {
                        switch (q[1]) {
                        case 0: ts.back().push_back(SmartTable::less_than(a, y)); break;
                        case 1: ts.back().push_back(SmartTable::less_than_equal(a, y)); break;
                        case 2: ts.back().push_back(SmartTable::equals(a, y)); break;
                        case 3: ts.back().push_back(SmartTable::not_equals(a, y)); break;
                        case 4: ts.back().push_back(SmartTable::greater_than(a, y)); break;
                        default: ts.back().push_back(SmartTable::greater_than_equal(a, y)); break;
                        }
                    };
                    if (q[0] == 0)
                        put(vs.at((size_t)q[3]));
                    else
                        put(Integer{q[3]});
                }
            }
        }
        SmartTable c{vs, ts};
        if (v & 1)
            c.with_short_reasons();
        b.post(c, k);
    }
    else if (n == "mdd") {
        std::vector<long> npl(k.n[1].begin(), k.n[1].end()), acc(k.n[2].begin(), k.n[2].end());
        std::vector<std::vector<std::unordered_map<Integer, long>>> tr(k.t[0].size());
        for (size_t l = 0; l < tr.size(); ++l)
            tr[l].resize((size_t)npl[l]);
        for (size_t i = 0; i + 3 < k.n[0].size(); i += 4)
            tr.at((size_t)k.n[0][i]).at((size_t)k.n[0][i + 1])[Integer{k.n[0][i + 2]}] = (long)k.n[0][i + 3];
        b.post(MDD{L(0), tr, npl, acc}, k);
    }
    else if (n == "mindist") {
        auto matrix = [&](const std::vector<i64> & f, size_t m) {
            std::vector<std::vector<Integer>> r;
            for (size_t i = 0; i < m; ++i)
                r.push_back(b.ints(std::vector<i64>(f.begin() + (long)(i * m), f.begin() + (long)((i + 1) * m))));
            return r;
        };
        using M = std::vector<std::vector<Integer>>;
        std::optional<ArrayParam<M>> req;
        if (! k.n[2].empty())
            req = ArrayParam<M>{matrix(k.n[2], k.t[0].size())};
        b.post(MinDistance{L(0), b.term(k.t[1][0]), ArrayParam<M>{matrix(k.n[1], (size_t)k.n[0][0])}, req, (MinDistancePropagation)v}, k);
    }
    else if (n == "regular") {
        if (! k.s.empty()) {
            if (v & 2) {
                RegularLegacy c{L(0), k.s};
                c.with_short_reasons(bool(v & 1));
                b.post(c, k);
            }
            else {
                Regular c{L(0), k.s};
                c.with_short_reasons(bool(v & 1));
                b.post(c, k);
            }
            return true;
        }
        long q = (long)k.n[0][0];
        std::vector<long> fin(k.n[2].begin(), k.n[2].end());
        std::vector<std::unordered_map<Integer, long>> tr((size_t)q);
        bool nonneg = true;
        i64 top = 0;
        for (size_t i = 0; i + 2 < k.n[1].size(); i += 3) {
            tr.at((size_t)k.n[1][i])[Integer{k.n[1][i + 1]}] = (long)k.n[1][i + 2];
            nonneg = nonneg && k.n[1][i + 1] >= 0;
            top = std::max(top, k.n[1][i + 1]);
        }
        std::vector<std::vector<long>> grid((size_t)q, std::vector<long>((size_t)top + 1, -1));
        if (nonneg)
            for (size_t i = 0; i + 2 < k.n[1].size(); i += 3)
                grid[(size_t)k.n[1][i]][(size_t)k.n[1][i + 1]] = (long)k.n[1][i + 2];
        bool g = nonneg && (v & 16);
        int how = (v >> 1) & 7;
        bool sr = v & 1;
        if (how == 0) {
            auto c = g ? RegularBacchus{L(0), q, grid, fin, sr} : RegularBacchus{L(0), q, tr, fin, sr};
            b.post(c, k);
        }
        else if (how == 1) {
            auto c = g ? RegularLegacy{L(0), q, grid, fin} : RegularLegacy{L(0), q, tr, fin};
            c.with_short_reasons(sr);
            b.post(c, k);
        }
        else {
            auto c = g ? Regular{L(0), q, grid, fin} : Regular{L(0), q, tr, fin};
            c.with_short_reasons(sr);
            if (how == 2)
                c.with_proof_strategy(proof_strategy::Upfront{});
            else if (how == 3)
                c.with_proof_strategy(proof_strategy::PerCall{});
            else if (how == 4)
                c.with_proof_strategy(proof_strategy::Bacchus{});
            b.post(c, k);
        }
    }
    else
        return false;
    return true;
}
