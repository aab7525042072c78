// The XCSP3 front end: the whole program but for the XML, given instances as the
// parser would call them out, stopped at any step by a signal or its own timer.
#include "process.hh"
#include "props.hh"
#include <XCSP3CoreParser.h>
#include <algorithm>
#include <climits>
#include <csignal>
#include <memory>
#include <sstream>
using namespace std;
using namespace sim;
namespace xc = XCSP3Core;

int gsim_xcsp_main(int, char **);

// A constraint is kept as the call which makes it: t are lists of variables (the
// terms are plain), n lists of numbers, and conditions are four numbers, [operator,
// operand (0 number, 1 variable, 2 interval), value or least, greatest], the
// variable being the last list of t.
namespace
{
    // what nobody catches ends the program, as it would
    int program(int argc, char ** argv) noexcept
    {
        return gsim_xcsp_main(argc, argv);
    }

    using T = xc::ExpressionType;
    enum
    {
        Number,
        Variable,
        Interval
    };

    bool compare(xc::OrderType o, i64 a, i64 b)
    {
        switch (o) {
        case xc::OrderType::LE: return a <= b;
        case xc::OrderType::LT: return a < b;
        case xc::OrderType::GE: return a >= b;
        case xc::OrderType::GT: return a > b;
        case xc::OrderType::EQ: return a == b;
        default: return a != b;
        }
    }
    bool meets(i64 x, const vector<i64> & cond, const vector<i64> & last)
    {
        if (cond.at(1) == Interval)
            return cond.at(2) <= x && x <= cond.at(3);
        return compare((xc::OrderType)cond.at(0), x, cond.at(1) == Variable ? last.at(0) : cond.at(2));
    }

    // expressions, in prefix order: a type, then a number, a variable, or how many follow
    optional<i64> evaluate(const vector<i64> & e, size_t & at, const vector<i64> & vars)
    {
        auto type = (T)e.at(at++);
        auto k = e.at(at++);
        if (type == T::ODECIMAL)
            return k;
        if (type == T::OVAR)
            return vars.at((size_t)k);
        vector<i64> x;
        bool undefined = false;
        for (i64 i = 0; i < k; ++i) {
            auto v = evaluate(e, at, vars);
            undefined |= ! v;
            x.push_back(v.value_or(0));
        }
        if (undefined)
            return nullopt;
        auto all = [&](auto f) {
            for (size_t i = 1; i < x.size(); ++i)
                if (! f(x[i - 1], x[i]))
                    return i64{0};
            return i64{1};
        };
        switch (type) {
        case T::ONEG: return -x.at(0);
        case T::OABS: return x.at(0) < 0 ? -x[0] : x[0];
        case T::OSQR: return x.at(0) * x[0];
        case T::OADD: {
            i64 s = 0;
            for (auto v : x)
                s += v;
            return s;
        }
        case T::OSUB: return x.at(0) - x.at(1);
        case T::OMUL: {
            i64 s = 1;
            for (auto v : x)
                s *= v;
            return s;
        }
        case T::ODIV: return x.at(1) ? optional<i64>{x[0] / x[1]} : nullopt;
        case T::OMOD: return x.at(1) ? optional<i64>{x[0] % x[1]} : nullopt;
        case T::OPOW: {
            i64 s = 1;
            for (i64 i = 0; i < x.at(1); ++i)
                s *= x[0];
            return s;
        }
        case T::ODIST: return x.at(0) > x.at(1) ? x[0] - x[1] : x[1] - x[0];
        case T::OMIN: return *min_element(x.begin(), x.end());
        case T::OMAX: return *max_element(x.begin(), x.end());
        case T::OLT: return x.at(0) < x.at(1);
        case T::OLE: return x.at(0) <= x.at(1);
        case T::OGE: return x.at(0) >= x.at(1);
        case T::OGT: return x.at(0) > x.at(1);
        case T::ONE: return x.at(0) != x.at(1);
        case T::OIFF:
        case T::OEQ: return all([](i64 a, i64 b) { return a == b; });
        case T::OIN:
        case T::ONOTIN: throw runtime_error{"sets are not values"};
        case T::ONOT: return ! x.at(0);
        case T::OAND: return *min_element(x.begin(), x.end());
        case T::OOR: return *max_element(x.begin(), x.end());
        case T::OXOR: {
            i64 s = 0;
            for (auto v : x)
                s ^= v;
            return s;
        }
        case T::OIMP: return ! x.at(0) || x.at(1);
        case T::OIF: return x.at(0) ? x.at(1) : x.at(2);
        default: throw runtime_error{"no meaning for this operator"};
        }
    }
    bool root_holds(const vector<i64> & e, size_t & at, const vector<i64> & vars)
    {
        auto type = (T)e.at(at);
        if (type == T::OAND) {
            auto k = e.at(at + 1);
            at += 2;
            bool r = true;
            for (i64 i = 0; i < k; ++i)
                r = root_holds(e, at, vars) && r;
            return r;
        }
        if (type == T::OIN || type == T::ONOTIN) {
            at += 2;
            auto x = evaluate(e, at, vars);
            bool in = false;
            auto k = e.at(at + 1);
            at += 2;
            for (i64 i = 0; i < k; ++i, at += 2)
                in |= x && e.at(at + 1) == *x;
            return x && in == (type == T::OIN);
        }
        auto x = evaluate(e, at, vars);
        return x && *x == 1;
    }
}

bool sim::xcsp_satisfied(const Con & c, const Assignment & a)
{
    auto k = c.kind.substr(2);
    vector<vector<i64>> v;
    for (auto & ts : c.t) {
        v.emplace_back();
        for (auto & t : ts)
            v.back().push_back(value(t, a));
    }
    auto order = (xc::OrderType)c.opt;
    auto as = [&](const string & kind, vector<vector<Term>> t, vector<vector<i64>> n, int opt = 0) {
        Con d;
        d.kind = kind;
        d.t = t;
        d.n = n;
        d.opt = opt;
        return satisfied(d, a);
    };
    auto fixed = [](const vector<i64> & xs) {
        vector<Term> r;
        for (auto x : xs)
            r.push_back({-1, false, x});
        return r;
    };
    auto different = [](vector<i64> x) {
        sort(x.begin(), x.end());
        return adjacent_find(x.begin(), x.end()) == x.end();
    };
    auto columns = [&] {
        vector<vector<i64>> r(v[0].size());
        for (auto & row : v)
            for (size_t i = 0; i < row.size(); ++i)
                r[i].push_back(row[i]);
        return r;
    };
    auto lex = [&](const vector<vector<i64>> & l) {
        for (size_t i = 1; i < l.size(); ++i)
            if (order == xc::OrderType::LT ? ! (l[i - 1] < l[i]) : order == xc::OrderType::LE ? ! (l[i - 1] <= l[i]) :
                    order == xc::OrderType::GT                                                 ? ! (l[i - 1] > l[i]) :
                                                                                                 ! (l[i - 1] >= l[i]))
                return false;
        return true;
    };
    auto among = [&](const vector<i64> & xs, const vector<i64> & values) {
        return (i64)count_if(xs.begin(), xs.end(), [&](i64 x) { return find(values.begin(), values.end(), x) != values.end(); });
    };
    static const vector<i64> none;
    auto last = v.empty() ? none : v.back();

    if (k == "extension") {
        bool hit = false;
        for (size_t i = 0; i + v[0].size() <= c.n[0].size(); i += v[0].size()) {
            bool all = true;
            for (size_t j = 0; j < v[0].size(); ++j)
                all &= c.n[0][i + j] == STAR || c.n[0][i + j] == v[0][j];
            hit |= all;
        }
        return hit == (c.opt & 1);
    }
    if (k == "intension") {
        size_t at = 0;
        return root_holds(c.n[0], at, v[0]);
    }
    if (k == "alldiff")
        return different(v[0]);
    if (k == "alldiffmatrix") {
        for (auto & r : v)
            if (! different(r))
                return false;
        for (auto & r : columns())
            if (! different(r))
                return false;
        return true;
    }
    if (k == "lex")
        return lex(v);
    if (k == "lexmatrix")
        return lex(v) && lex(columns());
    if (k == "allequal")
        return equal(v[0].begin() + 1, v[0].end(), v[0].begin());
    if (k == "ordered") {
        for (size_t i = 1; i < v[0].size(); ++i)
            if (! compare(order, v[0][i - 1] + (c.n.empty() ? 0 : c.n[0][i - 1]), v[0][i]))
                return false;
        return true;
    }
    if (k == "precedence")
        return as("valueprecede", {c.t[0]}, {c.n[0]});
    if (k == "sum") {
        i64 s = 0;
        for (size_t i = 0; i < v[0].size(); ++i)
            s += v[0][i] * (c.n[0].empty() ? 1 : c.n[0][i]);
        return meets(s, c.n[1], last);
    }
    if (k == "count")
        return meets(among(v[0], c.n[0]), c.n[1], last);
    if (k == "among")
        return among(v[0], c.n[0]) == c.n[1][0];
    if (k == "atmost")
        return among(v[0], c.n[0]) <= c.n[1][0];
    if (k == "atleast")
        return among(v[0], c.n[0]) >= c.n[1][0];
    if (k == "exactly")
        return among(v[0], c.n[0]) == c.n[1][0];
    if (k == "exactlyvar")
        return among(v[0], c.n[0]) == v[1][0];
    if (k == "nvalues")
        return meets((i64)set<i64>(v[0].begin(), v[0].end()).size(), c.n[0], last);
    if (k == "minimum")
        return meets(*min_element(v[0].begin(), v[0].end()), c.n[0], last);
    if (k == "maximum")
        return meets(*max_element(v[0].begin(), v[0].end()), c.n[0], last);
    if (k == "regular") { // n: [start], finals, transitions
        set<i64> now{c.n[0][0]};
        for (auto x : v[0]) {
            set<i64> next;
            for (size_t i = 0; i < c.n[2].size(); i += 3)
                if (now.contains(c.n[2][i]) && c.n[2][i + 1] == x)
                    next.insert(c.n[2][i + 2]);
            now = next;
        }
        return any_of(c.n[1].begin(), c.n[1].end(), [&](i64 s) { return now.contains(s); });
    }
    if (k == "mdd") { // n: transitions; the root is the source nothing leads to
        set<i64> to;
        for (size_t i = 0; i < c.n[0].size(); i += 3)
            to.insert(c.n[0][i + 2]);
        set<i64> now;
        for (size_t i = 0; i < c.n[0].size(); i += 3)
            if (! to.contains(c.n[0][i]))
                now.insert(c.n[0][i]);
        for (auto x : v[0]) {
            set<i64> next;
            for (size_t i = 0; i < c.n[0].size(); i += 3)
                if (now.contains(c.n[0][i]) && c.n[0][i + 1] == x)
                    next.insert(c.n[0][i + 2]);
            now = next;
        }
        return ! now.empty();
    }
    if (k == "nooverlap")
        return as("disjunctive", {c.t[0], c.t.size() > 1 ? c.t[1] : fixed(c.n[0]), {}}, {{! c.opt}});
    if (k == "nooverlap2d")
        return as("disjunctive2d", {c.t[0], c.t[1], c.t.size() > 2 ? c.t[2] : fixed(c.n[0]), c.t.size() > 2 ? c.t[3] : fixed(c.n[1])}, {{! c.opt}});
    if (k == "cumulative") { // opt: lengths, heights are variables
        size_t used = 1;
        auto l = c.opt & 1 ? c.t[used++] : fixed(c.n[0]);
        auto h = c.opt & 2 ? c.t[used++] : fixed(c.n[1]);
        return as("cumulative", {c.t[0], l, h, {}, {c.n[2][1] == Variable ? c.t.back()[0] : Term{-1, false, c.n[2][2]}}}, {});
    }
    if (k == "binpacking") { // opt 0 a condition on every load, 1 capacities, 2 loads, 3 loads which are variables
        vector<i64> load(c.opt == 0 ? (size_t)c.n[1][0] : c.opt == 3 ? v[1].size() : c.n[1].size());
        for (size_t i = 0; i < v[0].size(); ++i) {
            if (v[0][i] < 0 || v[0][i] >= (i64)load.size())
                return false;
            load[(size_t)v[0][i]] += c.n[0][i];
        }
        for (size_t i = 0; i < load.size(); ++i)
            if (c.opt == 0 ? ! meets(load[i], c.n[2], last) : c.opt == 1 ? load[i] > c.n[1][i] : load[i] != (c.opt == 2 ? c.n[1][i] : v[1][i]))
                return false;
        return true;
    }
    if (k == "circuit")
        return as("circuit", {c.t[0]}, {});
    if (k == "instantiation")
        return v[0] == c.n[0];
    if (k == "knapsack") {
        i64 w = 0, p = 0;
        for (size_t i = 0; i < v[0].size(); ++i) {
            w += v[0][i] * c.n[0][i];
            p += v[0][i] * c.n[1][i];
        }
        return meets(w, c.n[2], v[1]) && meets(p, c.n[3], v[2]);
    }
    if (k == "cardinality") { // opt: 1 closed; 2 variables, 4 intervals
        for (size_t i = 0; i < c.n[0].size(); ++i) {
            auto n = (i64)count(v[0].begin(), v[0].end(), c.n[0][i]);
            if (c.opt & 2 ? n != v[1][i] : c.opt & 4 ? n < c.n[1][2 * i] || n > c.n[1][2 * i + 1] : n != c.n[1][i])
                return false;
        }
        return ! (c.opt & 1) || among(v[0], c.n[0]) == (i64)v[0].size();
    }
    if (k == "element") { // t: index, value if it is one, list if it is one; n: [start], list, [value]; opt 1 numbers, 2 value is a number
        auto & list = c.opt & 1 ? c.n[1] : v[2];
        auto i = v[0][0] - c.n[0][0];
        return i >= 0 && i < (i64)list.size() && list[(size_t)i] == (c.opt & 2 ? c.n[2][0] : v[1][0]);
    }
    if (k == "matrix") { // t: row, column, value, then rows; n: [starts], [value], then rows
        auto i = v[0][0] - c.n[0][0], j = v[1][0] - c.n[0][1];
        auto rows = c.opt & 1 ? vector<vector<i64>>(c.n.begin() + 2, c.n.end()) : vector<vector<i64>>(v.begin() + 3, v.end());
        return i >= 0 && j >= 0 && i < (i64)rows.size() && j < (i64)rows[0].size() &&
            rows[(size_t)i][(size_t)j] == (c.opt & 2 ? c.n[1][0] : v[2][0]);
    }
    if (k == "channel") {
        auto & y = v.size() > 1 ? v[1] : v[0];
        auto sy = c.n[0][v.size() > 1 ? 1 : 0];
        for (size_t i = 0; i < v[0].size(); ++i) {
            auto j = v[0][i] - sy;
            if (j < 0 || j >= (i64)y.size() || y[(size_t)j] != (i64)i + c.n[0][0])
                return false;
        }
        return true;
    }
    if (k == "objective" || k == "unsupported")
        return true;
    throw runtime_error("no meaning for constraint " + c.kind);
}

namespace
{
    const vector<string> kinds{"extension", "intension", "intension", "intension", "intension", "intension", "alldiff", "alldiffmatrix", "lex", "lexmatrix",
        "allequal", "ordered", "precedence", "sum", "sum", "count", "among", "atmost", "atleast", "exactly", "exactlyvar", "nvalues", "minimum", "maximum",
        "regular", "mdd", "nooverlap", "nooverlap2d", "cumulative", "binpacking", "circuit", "instantiation", "knapsack", "cardinality", "element", "matrix",
        "channel"};

    struct Gen
    {
        Case & c;
        Rng & r;
        double product = 1;
        double most = 400;

        Term var(i64 lo = -3, i64 hi = 4, bool must = false)
        {
            vector<int> fit;
            for (size_t i = 0; i < c.vars.size(); ++i) {
                auto d = c.vars[i].domain();
                if (all_of(d.begin(), d.end(), [&](i64 x) { return x >= lo && x <= hi; }))
                    fit.push_back((int)i);
            }
            if (fit.empty() || (! must && c.vars.size() < 3) || (r.chance(25) && product * 3 <= most)) {
                VarDecl v;
                v.lo = r.chance(70) ? clamp(r.range(0, 1), lo, hi) : r.range(lo, hi);
                v.hi = min(hi, v.lo + r.range(product * 3 > most ? 0 : 1, product * 5 > most ? 1 : 3));
                if (product * 5 <= most && r.chance(15) && hi - lo >= 2) {
                    v.is_range = false;
                    for (int i = 0; i < 3; ++i)
                        if (auto x = r.chance(60) ? clamp<i64>(r.range(0, 2), lo, hi) : r.range(lo, hi); find(v.values.begin(), v.values.end(), x) == v.values.end())
                            v.values.push_back(x);
                }
                static const vector<string> stems{"x[", "y[", "cell[", "s[", "a["};
                auto n = to_string(c.vars.size());
                v.name = r.chance(50) ? r.pick(stems) + n + "]" : r.chance(50) ? "v" + n : "Z_" + n;
                product *= (double)v.domain().size();
                c.vars.push_back(v);
                return {(int)c.vars.size() - 1, false, 0};
            }
            return {r.pick(fit), false, 0};
        }
        vector<Term> some(size_t n, i64 lo = -3, i64 hi = 4)
        {
            vector<Term> v;
            while (v.size() < n)
                v.push_back(var(lo, hi));
            return v;
        }
        // no variable twice, as the format asks for where it matters
        vector<Term> distinct(size_t n, i64 lo = -3, i64 hi = 4)
        {
            vector<Term> v;
            for (int i = 0; i < 40 && v.size() < n; ++i) {
                auto t = var(lo, hi);
                if (find(v.begin(), v.end(), t) == v.end())
                    v.push_back(t);
            }
            return v;
        }
        vector<i64> numbers(size_t n, i64 lo, i64 hi)
        {
            vector<i64> v;
            while (v.size() < n)
                v.push_back(r.range(lo, hi));
            return v;
        }
        vector<i64> cond(Con & k, i64 lo, i64 hi, bool interval)
        {
            i64 op = r.pick(vector<i64>{0, 1, 2, 3, 5, 6});
            int w = interval && r.chance(20) ? Interval : r.chance(35) ? Variable : Number;
            i64 x = r.range(lo - 1, hi + 1), y = r.range(x, hi + 1);
            if (w == Variable)
                k.t.push_back({var(max<i64>(lo - 2, -4), min<i64>(hi + 2, 8))});
            else
                k.t.push_back({});
            return {op, w, x, y};
        }

        // expressions, with bounds to keep them within reason
        struct Ex
        {
            vector<i64> e;
            i64 lo, hi;
        };
        vector<Term> mentioned;
        Ex number()
        {
            auto x = r.range(-4, 6);
            return {{(i64)T::ODECIMAL, x}, x, x};
        }
        Ex leaf(Term t)
        {
            auto i = find(mentioned.begin(), mentioned.end(), t) - mentioned.begin();
            if (i == (i64)mentioned.size())
                mentioned.push_back(t);
            auto d = c.vars[(size_t)t.var].domain();
            return {{(i64)T::OVAR, i}, *min_element(d.begin(), d.end()), *max_element(d.begin(), d.end())};
        }
        Ex join(T type, const vector<Ex> & v, i64 lo, i64 hi)
        {
            Ex x{{(i64)type, (i64)v.size()}, lo, hi};
            for (auto & y : v)
                x.e.insert(x.e.end(), y.e.begin(), y.e.end());
            return x;
        }
        Ex boolean(int depth)
        {
            if (depth <= 0 || r.chance(10))
                return leaf(var(0, 1));
            auto one = [&] { return boolean(depth - 1 - (int)r.below(2)); };
            auto num = [&] { return integer(depth - 1 - (int)r.below(2)); };
            auto several = [&] {
                vector<Ex> v;
                for (i64 n = r.range(1, 3); n >= 0; --n)
                    v.push_back(one());
                return v;
            };
            switch (r.below(12)) {
            case 0: return join(T::OAND, several(), 0, 1);
            case 1: return join(T::OOR, several(), 0, 1);
            case 2: return join(T::OXOR, several(), 0, 1);
            case 3: return join(T::ONOT, {one()}, 0, 1);
            case 4: return join(T::OIMP, {one(), one()}, 0, 1);
            case 5: return join(T::OIFF, {one(), one()}, 0, 1);
            default:
                return join(r.pick(vector<T>{T::OEQ, T::ONE, T::OLT, T::OLE, T::OGT, T::OGE}), {num(), num()}, 0, 1);
            }
        }
        Ex integer(int depth)
        {
            if (depth <= 0 || r.chance(20))
                return r.chance(75) ? leaf(var()) : number();
            auto one = [&] { return integer(depth - 1 - (int)r.below(2)); };
            auto a = one();
            switch (r.below(15)) {
            case 0: {
                vector<Ex> v{a, one()};
                if (r.chance(40))
                    v.push_back(one());
                i64 lo = 0, hi = 0;
                for (auto & x : v) {
                    lo += x.lo;
                    hi += x.hi;
                }
                return join(T::OADD, v, lo, hi);
            }
            case 1: {
                auto b = one();
                return join(T::OSUB, {a, b}, a.lo - b.hi, a.hi - b.lo);
            }
            case 2: {
                auto b = one();
                auto m = max({abs(a.lo), abs(a.hi)}) * max(abs(b.lo), abs(b.hi));
                if (m > 200)
                    return a;
                return join(T::OMUL, {a, b}, -m, m);
            }
            case 3: return join(T::ONEG, {a}, -a.hi, -a.lo);
            case 4: return join(T::OABS, {a}, 0, max(abs(a.lo), abs(a.hi)));
            case 5: {
                auto m = max(abs(a.lo), abs(a.hi));
                if (m > 15)
                    return a;
                return join(T::OSQR, {a}, 0, m * m);
            }
            case 6:
            case 7: {
                vector<Ex> v{a, one()};
                if (r.chance(40))
                    v.push_back(one());
                i64 lo = a.lo, hi = a.hi;
                for (auto & x : v) {
                    lo = min(lo, x.lo);
                    hi = max(hi, x.hi);
                }
                return join(r.chance(50) ? T::OMIN : T::OMAX, v, lo, hi);
            }
            case 8: {
                auto m = max(abs(a.lo), abs(a.hi));
                i64 k = r.range(0, m <= 3 ? 4 : m <= 15 ? 2 : 1), p = 1;
                for (i64 i = 0; i < k; ++i)
                    p *= m;
                return join(T::OPOW, {a, {{(i64)T::ODECIMAL, k}, k, k}}, -max<i64>(p, 1), max<i64>(p, 1));
            }
            case 9:
            case 10: {
                auto b = one();
                if (b.lo <= 0 && b.hi >= 0) {
                    i64 k = r.range(1, 4) * (r.chance(30) ? -1 : 1);
                    b = {{(i64)T::ODECIMAL, k}, k, k};
                }
                auto m = max(abs(a.lo), abs(a.hi)), n = max(abs(b.lo), abs(b.hi));
                return r.chance(50) ? join(T::ODIV, {a, b}, -m, m) : join(T::OMOD, {a, b}, -n, n);
            }
            case 11: {
                auto b = one();
                return join(T::ODIST, {a, b}, 0, max(a.hi, b.hi) - min(a.lo, b.lo));
            }
            case 12: {
                auto b = one();
                return join(T::OIF, {boolean(depth - 1), a, b}, min(a.lo, b.lo), max(a.hi, b.hi));
            }
            case 13: return boolean(depth - 1);
            default: return a;
            }
        }
        Ex root(int depth)
        {
            switch (r.below(8)) {
            case 0: {
                vector<Ex> v;
                for (i64 n = r.range(1, 2); n >= 0; --n)
                    v.push_back(root(depth - 1));
                return join(T::OAND, v, 0, 1);
            }
            case 1: {
                vector<Ex> set;
                for (i64 n = r.range(0, 3); n >= 0; --n)
                    set.push_back(number());
                auto x = integer(depth - 1);
                return join(r.chance(50) ? T::OIN : T::ONOTIN, {x, join(T::OSET, set, 0, 0)}, 0, 1);
            }
            case 2: {
                vector<Ex> v;
                for (i64 n = r.range(1, 2); n >= 0; --n)
                    v.push_back(integer(depth - 1));
                return join(T::OEQ, v, 0, 1);
            }
            case 3: return join(r.pick(vector<T>{T::OLT, T::OLE, T::OGT, T::OGE}), {integer(r.chance(50) ? 1 : depth - 1), integer(1)}, 0, 1);
            default: return boolean(max(depth, 1));
            }
        }

        Con make(const string & k)
        {
            Con q;
            q.kind = "x-" + k;
            size_t n = (size_t)r.range(1, 4);
            auto order = [&] { q.opt = (int)r.range(0, 3); };
            if (k == "extension") {
                q.t = {some(n)};
                q.opt = r.chance(60) ? 1 : 0;
                q.n.emplace_back();
                for (i64 rows = r.range(0, 12); rows >= 0; --rows)
                    for (auto & t : q.t[0])
                        q.n[0].push_back(r.chance(8) ? STAR : r.chance(80) ? r.pick(c.vars[(size_t)t.var].domain()) : r.range(-3, 4));
            }
            else if (k == "intension") {
                mentioned.clear();
                auto e = root((int)r.range(1, 3));
                q.n = {e.e};
                q.t = {mentioned};
            }
            else if (k == "alldiff" || k == "allequal")
                q.t = {distinct(n)};
            else if (k == "alldiffmatrix" || k == "lexmatrix") {
                size_t rows = (size_t)r.range(1, 3), cols = (size_t)r.range(1, 2);
                for (size_t i = 0; i < rows; ++i)
                    q.t.push_back(some(cols, 0, 3));
                order();
            }
            else if (k == "lex") {
                for (i64 i = r.range(0, 2); i >= 0; --i)
                    q.t.push_back(some(n));
                order();
            }
            else if (k == "ordered") {
                q.t = {distinct(n)};
                order();
                if (r.chance(50))
                    q.n = {numbers(q.t[0].size() - 1, 0, 3)};
            }
            else if (k == "precedence") {
                q.t = {distinct(n)};
                q.n.emplace_back();
                for (i64 i = r.range(1, 3); i >= 0; --i)
                    if (auto x = r.range(-2, 3); find(q.n[0].begin(), q.n[0].end(), x) == q.n[0].end())
                        q.n[0].push_back(x);
            }
            else if (k == "sum") {
                q.t = {some(n)};
                q.n = {r.chance(60) ? numbers(n, -3, 4) : vector<i64>{}, {}};
                auto wide = r.chance(10);
                q.n[1] = cond(q, wide ? -60 : -8, wide ? 60 : 12, false);
            }
            else if (k == "count") {
                q.t = {some(n)};
                q.n = {numbers((size_t)r.range(1, 3), -1, 3), {}};
                sort(q.n[0].begin(), q.n[0].end());
                q.n[0].erase(unique(q.n[0].begin(), q.n[0].end()), q.n[0].end());
                q.n[1] = cond(q, 0, (i64)n, true);
            }
            else if (k == "among" || k == "atmost" || k == "atleast" || k == "exactly") {
                q.t = {distinct(n)};
                q.n = {numbers(k == "among" ? (size_t)r.range(1, 3) : 1, -1, 3), {r.range(0, (i64)q.t[0].size())}};
                sort(q.n[0].begin(), q.n[0].end());
                q.n[0].erase(unique(q.n[0].begin(), q.n[0].end()), q.n[0].end());
            }
            else if (k == "exactlyvar") {
                q.t = {distinct(n), {var(-1, 5)}};
                q.n = {numbers(1, -1, 3)};
            }
            else if (k == "nvalues") {
                q.t = {some(n)};
                q.n.emplace_back();
                q.n[0] = cond(q, 1, (i64)n, true);
            }
            else if (k == "minimum" || k == "maximum") {
                q.t = {some(n)};
                q.n.emplace_back();
                q.n[0] = cond(q, -3, 4, true);
            }
            else if (k == "regular") {
                q.t = {distinct(n)};
                i64 states = r.range(1, 4);
                q.n = {{r.below(2) ? 0 : r.range(0, states - 1)}, {}, {}};
                for (i64 s = 0; s < states; ++s) {
                    if (r.chance(50))
                        q.n[1].push_back(s);
                    for (i64 x = -3; x <= 4; ++x)
                        if (r.chance(60)) {
                            q.n[2].push_back(s);
                            q.n[2].push_back(x);
                            q.n[2].push_back(r.range(0, states - 1));
                        }
                }
                if (q.n[1].empty())
                    q.n[1].push_back(r.range(0, states - 1));
            }
            else if (k == "mdd") {
                q.t = {distinct(n)};
                q.n.emplace_back();
                vector<i64> layer{0};
                i64 next = 1;
                for (auto & t : q.t[0]) {
                    vector<i64> to;
                    for (i64 i = r.range(0, 2); i >= 0; --i)
                        to.push_back(next++);
                    set<i64> reached;
                    auto d = c.vars[(size_t)t.var].domain();
                    bool first = true;
                    for (auto from : layer)
                        for (auto x : d)
                            if (first || r.chance(65)) {
                                first = false;
                                auto s = r.pick(to);
                                q.n[0].insert(q.n[0].end(), {from, x, s});
                                reached.insert(s);
                            }
                    layer.assign(reached.begin(), reached.end());
                }
            }
            else if (k == "nooverlap") {
                q.t = {distinct(n, 0, 4)};
                q.opt = r.chance(50);
                if (r.chance(50))
                    q.t.push_back(some(q.t[0].size(), 0, 3));
                else
                    q.n = {numbers(q.t[0].size(), 0, 3)};
            }
            else if (k == "nooverlap2d") {
                n = (size_t)r.range(1, 3);
                q.t = {some(n, 0, 4), some(n, 0, 4)};
                q.opt = r.chance(50);
                if (r.chance(40)) {
                    q.t.push_back(some(n, 0, 3));
                    q.t.push_back(some(n, 0, 3));
                }
                else
                    q.n = {numbers(n, 0, 3), numbers(n, 0, 3)};
            }
            else if (k == "cumulative") {
                q.t = {distinct(n, 0, 4)};
                n = q.t[0].size();
                q.n = {{}, {}, {}};
                q.opt = r.chance(50) ? 0 : (int)r.below(4);
                for (int i = 0; i < 2; ++i)
                    if (q.opt & (1 << i))
                        q.t.push_back(some(n, 0, 3));
                    else
                        q.n[(size_t)i] = numbers(n, 0, 3);
                bool v = r.chance(30);
                q.n[2] = {(i64)xc::OrderType::LE, v ? Variable : Number, r.range(0, 5), 0};
                q.t.push_back(v ? vector<Term>{var(0, 5)} : vector<Term>{});
            }
            else if (k == "binpacking") {
                q.opt = (int)r.below(4);
                q.t = {distinct(n, 0, 2)};
                q.n = {numbers(q.t[0].size(), 0, 3), {}, {}};
                i64 most = 0, total = 0;
                for (auto & t : q.t[0])
                    for (auto x : c.vars[(size_t)t.var].domain())
                        most = max(most, x);
                for (auto x : q.n[0])
                    total += x;
                if (q.opt == 0) {
                    q.n[1] = {most + 1};
                    q.n[2] = cond(q, 0, total, true);
                }
                else if (q.opt == 3)
                    q.t.push_back(some((size_t)most + 1, 0, 5));
                else
                    q.n[1] = numbers((size_t)most + 1, 0, total);
            }
            else if (k == "circuit") {
                n = (size_t)r.range(1, 4);
                q.t = {distinct(n, 0, (i64)n - 1)};
                while (q.t[0].size() < n) {
                    VarDecl v;
                    v.hi = (i64)n - 1;
                    v.name = "c" + to_string(c.vars.size());
                    product *= (double)n;
                    c.vars.push_back(v);
                    q.t[0].push_back({(int)c.vars.size() - 1, false, 0});
                }
            }
            else if (k == "instantiation") {
                q.t = {distinct((size_t)r.range(1, 2))};
                q.n.emplace_back();
                for (auto & t : q.t[0])
                    q.n[0].push_back(r.chance(90) ? r.pick(c.vars[(size_t)t.var].domain()) : r.range(-3, 4));
            }
            else if (k == "knapsack") {
                q.t = {distinct(n, 0, 3)};
                n = q.t[0].size();
                q.n = {numbers(n, 0, 4), numbers(n, 0, 4), {}, {}};
                q.n[2] = cond(q, 0, 8, true);
                q.n[3] = cond(q, 0, 8, true);
            }
            else if (k == "cardinality") {
                q.t = {distinct(n)};
                q.n = {{}, {}};
                for (i64 i = r.range(0, 3); i >= 0; --i)
                    if (auto x = r.range(-2, 3); find(q.n[0].begin(), q.n[0].end(), x) == q.n[0].end())
                        q.n[0].push_back(x);
                auto m = q.n[0].size();
                q.opt = r.chance(40) ? 1 : 0;
                switch (r.below(3)) {
                case 0:
                    q.opt |= 2;
                    q.t.push_back(some(m, -1, 4));
                    break;
                case 1:
                    q.opt |= 4;
                    for (size_t i = 0; i < m; ++i) {
                        auto x = r.range(0, (i64)n);
                        q.n[1].push_back(x);
                        q.n[1].push_back(r.range(x, (i64)n));
                    }
                    break;
                default: q.n[1] = numbers(m, 0, (i64)n);
                }
            }
            else if (k == "element") {
                q.opt = r.chance(50) ? 1 : 2;
                q.t = {{var(-2, 5)}, {}, {}};
                q.n = {{r.chance(50) ? 0 : r.range(-2, 2)}, {}, {r.range(-3, 4)}};
                if (q.opt & 1)
                    q.n[1] = numbers(n, -3, 4);
                else
                    q.t[2] = some(n);
                if (! (q.opt & 2))
                    q.t[1] = {var()};
            }
            else if (k == "matrix") {
                q.opt = (int)r.below(3);
                size_t rows = (size_t)r.range(1, 3), cols = (size_t)r.range(1, 3);
                q.t = {{var(-1, 4)}, {var(-1, 4)}, {}};
                if (! (q.opt & 2))
                    q.t[2] = {var()};
                q.n = {{r.range(-1, 1), r.range(-1, 1)}, {r.range(-3, 4)}};
                for (size_t i = 0; i < rows; ++i)
                    if (q.opt & 1)
                        q.n.push_back(numbers(cols, -3, 4));
                    else
                        q.t.push_back(some(cols));
            }
            else if (k == "channel") {
                n = (size_t)r.range(1, 3);
                i64 s1 = r.range(0, 1), s2 = r.chance(50) ? s1 : r.range(0, 1);
                if (r.chance(40)) {
                    q.t = {distinct(n, s1 - 1, s1 + (i64)n)};
                    q.n = {{s1}};
                }
                else {
                    q.t = {distinct(n, s2 - 1, s2 + (i64)n)};
                    q.t.push_back(distinct(q.t[0].size(), s1 - 1, s1 + (i64)n));
                    if (q.t[1].size() != q.t[0].size())
                        q.t.pop_back();
                    q.n = {q.t.size() > 1 ? vector<i64>{s1, s2} : vector<i64>{s1}};
                }
            }
            return q;
        }
    };

    // calls out the instance, as the parser would
    struct Instance
    {
        const Case & c;
        vector<unique_ptr<xc::XVariable>> made;
        vector<unique_ptr<xc::Node>> nodes;

        explicit Instance(const Case & cc) : c(cc)
        {
        }
        xc::XVariable * one(const Term & t)
        {
            made.push_back(make_unique<xc::XVariable>(xc::XVariable{c.vars.at((size_t)t.var).name}));
            return made.back().get();
        }
        vector<xc::XVariable *> list(const vector<Term> & ts)
        {
            vector<xc::XVariable *> r;
            for (auto & t : ts)
                r.push_back(one(t));
            return r;
        }
        vector<vector<xc::XVariable *>> lists(const vector<vector<Term>> & ts, size_t from = 0)
        {
            vector<vector<xc::XVariable *>> r;
            for (size_t i = from; i < ts.size(); ++i)
                r.push_back(list(ts[i]));
            return r;
        }
        static vector<int> ints(const vector<i64> & xs)
        {
            return {xs.begin(), xs.end()};
        }
        xc::XCondition cond(const vector<i64> & n, const vector<Term> & v, bool blank = false)
        {
            xc::XCondition x;
            x.op = n.at(1) == Interval ? xc::OrderType::IN : (xc::OrderType)n.at(0);
            if (n.at(1) == Number)
                x.val = (int)n.at(2);
            else if (n.at(1) == Variable) {
                x.operandType = xc::OperandType::VARIABLE;
                x.var = (blank ? " " : "") + c.vars.at((size_t)v.at(0).var).name;
            }
            else {
                x.operandType = xc::OperandType::INTERVAL;
                x.min = (int)n.at(2);
                x.max = (int)n.at(3);
            }
            return x;
        }
        xc::Node * tree(const vector<i64> & e, size_t & at, const vector<Term> & vars)
        {
            auto type = (T)e.at(at++);
            auto k = e.at(at++);
            if (type == T::ODECIMAL) {
                auto n = make_unique<xc::NodeConstant>();
                n->type = type;
                n->val = (int)k;
                nodes.push_back(move(n));
                return nodes.back().get();
            }
            if (type == T::OVAR) {
                auto n = make_unique<xc::NodeVariable>();
                n->type = type;
                n->var = c.vars.at((size_t)vars.at((size_t)k).var).name;
                nodes.push_back(move(n));
                return nodes.back().get();
            }
            auto n = make_unique<xc::Node>();
            n->type = type;
            for (i64 i = 0; i < k; ++i)
                n->parameters.push_back(tree(e, at, vars));
            nodes.push_back(move(n));
            return nodes.back().get();
        }
        static vector<xc::XTransition> transitions(const vector<i64> & n)
        {
            vector<xc::XTransition> r;
            for (size_t i = 0; i + 2 < n.size(); i += 3)
                r.push_back({"q" + to_string(n[i]), (int)n[i + 1], "q" + to_string(n[i + 2])});
            return r;
        }

        void call(xc::XCSP3CoreCallbacks & b)
        {
            for (auto & v : c.vars)
                if (v.is_range)
                    b.buildVariableInteger(v.name, (int)v.lo, (int)v.hi);
                else {
                    auto d = ints(v.values);
                    b.buildVariableInteger(v.name, d);
                }
            const vector<i64> * table = nullptr;
            const Con * objective = nullptr;
            for (auto & q : c.cons)
                if (q.kind == "x-objective")
                    objective = &q;
                else
                    post(b, q, table);
            if (objective) {
                auto x = list(objective->t[0]);
                auto f = ints(objective->n[0]);
                auto type = objective->opt == 1 ? xc::ExpressionObjective::SUM_O : objective->opt == 2 ? xc::ExpressionObjective::MINIMUM_O :
                                                                                                         xc::ExpressionObjective::MAXIMUM_O;
                bool least = objective->n[1][0] == 1;
                if (objective->opt == 0)
                    least ? b.buildObjectiveMinimizeVariable(x.at(0)) : b.buildObjectiveMaximizeVariable(x.at(0));
                else if (f.empty())
                    least ? b.buildObjectiveMinimize(type, x) : b.buildObjectiveMaximize(type, x);
                else
                    least ? b.buildObjectiveMinimize(type, x, f) : b.buildObjectiveMaximize(type, x, f);
            }
        }

        void post(xc::XCSP3CoreCallbacks & b, const Con & q, const vector<i64> *& table)
        {
            auto k = q.kind.substr(2);
            auto order = (xc::OrderType)q.opt;
            auto last = [&] { return q.t.back(); };
            vector<xc::XVariable *> x, y;
            if (! q.t.empty())
                x = list(q.t[0]);
            if (q.t.size() > 1)
                y = list(q.t[1]);
            auto n = [&](size_t i) { return ints(q.n.at(i)); };
            if (k == "extension") {
                bool support = q.opt & 1;
                if (table && *table == q.n[0] && x.size() != 1)
                    b.buildConstraintExtensionAs("", x, support, false);
                else if (x.size() == 1) {
                    auto v = n(0);
                    b.buildConstraintExtension("", x[0], v, support, false);
                }
                else {
                    vector<vector<int>> rows;
                    for (size_t i = 0; i + x.size() <= q.n[0].size(); i += x.size())
                        rows.emplace_back(q.n[0].begin() + (i64)i, q.n[0].begin() + (i64)(i + x.size()));
                    b.buildConstraintExtension("", x, rows, support, true);
                    table = &q.n[0];
                }
                if (x.size() == 1)
                    table = nullptr;
            }
            else if (k == "intension") {
                size_t at = 0;
                xc::Tree t{tree(q.n[0], at, q.t[0])};
                b.buildConstraintIntension("", &t);
            }
            else if (k == "alldiff")
                b.buildConstraintAlldifferent("", x);
            else if (k == "allequal")
                b.buildConstraintAllEqual("", x);
            else if (k == "alldiffmatrix") {
                auto m = lists(q.t);
                b.buildConstraintAlldifferentMatrix("", m);
            }
            else if (k == "lex") {
                auto m = lists(q.t);
                b.buildConstraintLex("", m, order);
            }
            else if (k == "lexmatrix") {
                auto m = lists(q.t);
                b.buildConstraintLexMatrix("", m, order);
            }
            else if (k == "ordered") {
                if (q.n.empty())
                    b.buildConstraintOrdered("", x, order);
                else {
                    auto l = n(0);
                    b.buildConstraintOrdered("", x, l, order);
                }
            }
            else if (k == "precedence")
                b.buildConstraintPrecedence("", x, n(0), false);
            else if (k == "sum") {
                auto w = cond(q.n[1], last());
                auto f = n(0);
                if (f.empty())
                    b.buildConstraintSum("", x, w);
                else
                    b.buildConstraintSum("", x, f, w);
            }
            else if (k == "count") {
                auto w = cond(q.n[1], last());
                auto v = n(0);
                b.buildConstraintCount("", x, v, w);
            }
            else if (k == "among") {
                auto v = n(0);
                b.buildConstraintAmong("", x, v, (int)q.n[1][0]);
            }
            else if (k == "atmost")
                b.buildConstraintAtMost("", x, (int)q.n[0][0], (int)q.n[1][0]);
            else if (k == "atleast")
                b.buildConstraintAtLeast("", x, (int)q.n[0][0], (int)q.n[1][0]);
            else if (k == "exactly")
                b.buildConstraintExactlyK("", x, (int)q.n[0][0], (int)q.n[1][0]);
            else if (k == "exactlyvar")
                b.buildConstraintExactlyVariable("", x, (int)q.n[0][0], y.at(0));
            else if (k == "nvalues" || k == "minimum" || k == "maximum") {
                auto w = cond(q.n[0], last());
                k == "nvalues" ? b.buildConstraintNValues("", x, w) : k == "minimum" ? b.buildConstraintMinimum("", x, w) : b.buildConstraintMaximum("", x, w);
            }
            else if (k == "regular") {
                vector<string> final;
                for (auto s : q.n[1])
                    final.push_back("q" + to_string(s));
                auto tr = transitions(q.n[2]);
                b.buildConstraintRegular("", x, "q" + to_string(q.n[0][0]), final, tr);
            }
            else if (k == "mdd") {
                auto tr = transitions(q.n[0]);
                b.buildConstraintMDD("", x, tr);
            }
            else if (k == "nooverlap") {
                if (q.t.size() > 1)
                    b.buildConstraintNoOverlap("", x, y, q.opt);
                else {
                    auto l = n(0);
                    b.buildConstraintNoOverlap("", x, l, q.opt);
                }
            }
            else if (k == "nooverlap2d") {
                vector<vector<xc::XVariable *>> o, l;
                vector<vector<int>> li;
                for (size_t i = 0; i < x.size(); ++i) {
                    o.push_back({x[i], y[i]});
                    if (q.t.size() > 2)
                        l.push_back({one(q.t[2][i]), one(q.t[3][i])});
                    else
                        li.push_back({(int)q.n[0][i], (int)q.n[1][i]});
                }
                if (q.t.size() > 2)
                    b.buildConstraintNoOverlap("", o, l, q.opt);
                else
                    b.buildConstraintNoOverlap("", o, li, q.opt);
            }
            else if (k == "cumulative") {
                auto w = cond(q.n[2], last(), q.n[2][2] & 1);
                size_t used = 1;
                vector<xc::XVariable *> l, h;
                if (q.opt & 1)
                    l = list(q.t[used++]);
                if (q.opt & 2)
                    h = list(q.t[used++]);
                auto li = n(0), hi = n(1);
                switch (q.opt) {
                case 0: b.buildConstraintCumulative("", x, li, hi, w); break;
                case 1: b.buildConstraintCumulative("", x, l, hi, w); break;
                case 2: b.buildConstraintCumulative("", x, li, h, w); break;
                default: b.buildConstraintCumulative("", x, l, h, w); break;
                }
            }
            else if (k == "binpacking") {
                auto sizes = n(0);
                if (q.opt == 0) {
                    auto w = cond(q.n[2], last());
                    b.buildConstraintBinPacking("", x, sizes, w);
                }
                else if (q.opt == 3)
                    b.buildConstraintBinPacking("", x, sizes, y, true);
                else {
                    auto l = n(1);
                    b.buildConstraintBinPacking("", x, sizes, l, q.opt == 2);
                }
            }
            else if (k == "circuit")
                b.buildConstraintCircuit("", x, 0);
            else if (k == "instantiation") {
                auto v = n(0);
                b.buildConstraintInstantiation("", x, v);
            }
            else if (k == "knapsack") {
                auto w = n(0), p = n(1);
                auto cp = cond(q.n[3], q.t[2]);
                b.buildConstraintKnapsack("", x, w, p, cond(q.n[2], q.t[1]), cp);
            }
            else if (k == "cardinality") {
                if (q.opt & 2)
                    b.buildConstraintCardinality("", x, n(0), y, q.opt & 1);
                else if (q.opt & 4) {
                    vector<xc::XInterval> o;
                    for (size_t i = 0; i + 1 < q.n[1].size(); i += 2)
                        o.push_back({(int)q.n[1][i], (int)q.n[1][i + 1]});
                    b.buildConstraintCardinality("", x, n(0), o, q.opt & 1);
                }
                else {
                    auto o = n(1);
                    b.buildConstraintCardinality("", x, n(0), o, q.opt & 1);
                }
            }
            else if (k == "element") {
                int start = (int)q.n[0][0];
                if (q.opt & 1) {
                    auto l = n(1);
                    b.buildConstraintElement("", l, start, x.at(0), xc::RankType::ANY, y.at(0));
                }
                else {
                    auto l = list(q.t[2]);
                    b.buildConstraintElement("", l, start, x.at(0), xc::RankType::ANY, (int)q.n[2][0]);
                }
            }
            else if (k == "matrix") {
                int si = (int)q.n[0][0], sj = (int)q.n[0][1];
                vector<vector<int>> mi;
                for (size_t i = 2; i < q.n.size(); ++i)
                    mi.push_back(n(i));
                auto m = lists(q.t, 3);
                if (q.opt == 1)
                    b.buildConstraintElement("", mi, si, x.at(0), sj, y.at(0), one(q.t[2].at(0)));
                else if (q.opt == 2)
                    b.buildConstraintElement("", m, si, x.at(0), sj, y.at(0), (int)q.n[1][0]);
                else
                    b.buildConstraintElement("", m, si, x.at(0), sj, y.at(0), one(q.t[2].at(0)));
            }
            else if (k == "channel") {
                if (q.t.size() > 1)
                    b.buildConstraintChannel("", x, (int)q.n[0][0], y, (int)q.n[0][1]);
                else
                    b.buildConstraintChannel("", x, (int)q.n[0][0]);
            }
            else if (k == "unsupported")
                switch (q.opt) {
                case 0: b.buildConstraintCircuit("", x, 0, x.at(0)); break;
                case 1: b.buildConstraintPrecedence("", x, false); break;
                case 2: b.buildConstraintChannel("", x, 0, x.at(0)); break;
                case 3: {
                    xc::XCondition w;
                    w.operandType = xc::OperandType::INTERVAL;
                    b.buildConstraintSum("", x, w);
                    break;
                }
                default: {
                    vector<int> v{0};
                    b.buildConstraintAlldifferentExcept("", x, v);
                }
                }
            else
                throw runtime_error{"cannot say " + q.kind};
        }
    };

    i64 goal(const Con & o, const Assignment & a)
    {
        optional<i64> r;
        for (size_t i = 0; i < o.t[0].size(); ++i) {
            auto x = value(o.t[0][i], a);
            if (o.opt == 0)
                return x;
            if (o.opt == 1)
                r = r.value_or(0) + x * (o.n[0].empty() ? 1 : o.n[0][i]);
            else
                r = ! r ? x : o.opt == 2 ? min(*r, x) : max(*r, x);
        }
        return *r;
    }

    struct Said
    {
        vector<vector<optional<i64>>> sols; // of --all
        vector<i64> bounds;                 // "o" lines
        optional<vector<optional<i64>>> last;
        string status;
    };

    Said listen(const Case & c, const Ran & r, const string & where)
    {
        Said s;
        auto strange = [&](const string & line) { return Violation{"xcsp-output " + where + ": " + line.substr(0, 200)}; };
        map<string, size_t> of;
        for (size_t i = 0; i < c.vars.size(); ++i)
            of[c.vars[i].name] = i;
        auto number = [&](const string & text, const string & line) -> optional<i64> {
            if (text == "*")
                return nullopt;
            try {
                size_t used = 0;
                auto x = stoll(text, &used);
                if (used == text.size())
                    return x;
            }
            catch (const exception &) {
            }
            throw strange(line);
        };
        vector<string> names, values;
        istringstream in{r.out};
        for (string line; getline(in, line);) {
            if (line.starts_with("d ") || line.starts_with("c "))
                continue;
            if (line.starts_with("s ")) {
                if (! s.status.empty())
                    throw strange("a second status: " + line);
                s.status = line.substr(2);
                continue;
            }
            if (! s.status.empty() && ! line.starts_with("v "))
                throw strange("after the status: " + line);
            if (line.starts_with("o ")) {
                auto x = number(line.substr(2), line);
                if (! x)
                    throw strange(line);
                s.bounds.push_back(*x);
            }
            else if (line.starts_with("ENUMSOL:")) {
                vector<optional<i64>> a(c.vars.size());
                set<size_t> seen;
                istringstream ls{line.substr(8)};
                for (string w; ls >> w;) {
                    auto e = w.find('=');
                    if (e == string::npos || ! of.contains(w.substr(0, e)) || ! seen.insert(of[w.substr(0, e)]).second)
                        throw strange(line);
                    a[of[w.substr(0, e)]] = number(w.substr(e + 1), line);
                }
                if (seen.size() != c.vars.size())
                    throw strange(line);
                s.sols.push_back(a);
            }
            else if (line.starts_with("v ")) {
                istringstream ls{line.substr(2)};
                string head;
                ls >> head;
                if (head == "<list>" || head == "<values>")
                    for (string w; ls >> w && ! w.starts_with("</");)
                        (head == "<list>" ? names : values).push_back(w);
            }
            else
                throw strange(line);
        }
        if (names.size() != values.size())
            throw strange(to_string(names.size()) + " names with " + to_string(values.size()) + " values");
        if (! names.empty() || (r.out.find("<instantiation>") != string::npos && c.vars.empty())) {
            vector<optional<i64>> a(c.vars.size());
            for (size_t i = 0; i < names.size(); ++i) {
                if (! of.contains(names[i]))
                    throw strange("no such variable: " + names[i]);
                a[of[names[i]]] = number(values[i], values[i]);
            }
            if (names.size() != c.vars.size())
                throw strange("not every variable has a value");
            s.last = a;
        }
        return s;
    }
}

Case sim::make_c22(Rng & r)
{
    for (;;) {
        Case c;
        Gen g{c, r};
        g.most = r.chance(70) ? 400 : 60;
        g.some((size_t)r.range(1, 4));
        for (i64 n = r.range(1, 4); n > 0; --n) {
            auto k = g.make(r.pick(kinds));
            if (any_of(k.t.begin(), k.t.end(), [](auto & t) { return ! t.empty(); })) {
                c.cons.push_back(k);
                if (k.kind == "x-extension" && k.t[0].size() > 1 && r.chance(40)) {
                    k.t = {g.some(k.t[0].size())};
                    k.opt = r.chance(70) ? k.opt : ! k.opt;
                    c.cons.push_back(k);
                }
            }
        }
        if (g.product > 3000 || c.cons.empty())
            continue;
        if (r.chance(2)) {
            Con k;
            k.kind = "x-unsupported";
            k.opt = (int)r.below(5);
            k.t = {g.some(2)};
            c.cons.push_back(k);
        }
        if (r.chance(40)) {
            Con k;
            k.kind = "x-objective";
            k.opt = (int)r.below(4);
            k.t = {g.some(k.opt ? (size_t)r.range(1, 4) : 1)};
            k.n = {k.opt == 1 && r.chance(60) ? g.numbers(k.t[0].size(), -3, 4) : vector<i64>{}, {r.range(1, 2)}};
            c.cons.push_back(k);
        }
        c.p["all"] = r.chance(70);
        c.p["branch"] = r.chance(50) ? 0 : r.range(1, 9);
        c.p["restarts"] = r.chance(30) ? r.range(1, 20) : 0;
        c.p["diff"] = r.chance(20) ? r.range(1, 3) : 0;
        c.p["pick"] = r.range(0, 3);
        c.p["faults"] = r.range(1, 1000000000);
        return c;
    }
}

void sim::check_c22(const Case & c)
{
    note_shape(c);
    auto t = truth(c);
    const Con * o = nullptr;
    bool unsupported = false;
    for (auto & k : c.cons) {
        if (k.kind == "x-objective")
            o = &k;
        unsupported |= k.kind == "x-unsupported";
    }
    if (o && o->t[0].empty())
        throw Skip{"an objective about nothing"};
    bool all = c.get("all");
    i64 sign = o && o->n[1][0] == 2 ? -1 : 1;

    Plan base;
    base.pick = (int)c.get("pick");
    base.seed = (u64)c.get("faults");
    base.ns_per_step = 1000000000;
    auto & a = base.args;
    a = {"xcsp", "instance.xml"};
    if (all)
        a.push_back("--all");
    static const vector<string> branch{"", "dom-then-deg", "dom-wdeg", "dom-wdeg:classic", "dom-wdeg:ia", "dom-wdeg:ca", "dom-wdeg:id", "dom-wdeg:cd",
        "dom-wdeg:ca.cd", "dom-wdeg:chs"};
    if (c.get("branch"))
        a.insert(a.end(), {"--branch", branch.at((size_t)c.get("branch"))});
    if (c.get("restarts"))
        a.push_back("--restarts=" + to_string(c.get("restarts")));
    if (c.get("diff")) {
        a.push_back("--difference-logic");
        if (c.get("diff") > 1)
            a.push_back(string{"--difference-logic-simplify="} + (c.get("diff") == 2 ? "on" : "off"));
    }

    auto run = [&](const Plan & p, const string & where, bool faulty = false) {
        xc::gsim_xcsp_instance = [&](xc::XCSP3CoreCallbacks & b) {
            Instance i{c};
            i.call(b);
        };
        auto r = run_process(program, p);
        case_hash = mix(case_hash ^ r.hash ^ (u64)r.code);
        tally().schedules.insert(r.hash);
        tally().steps += r.steps;
        tally().hit("processes run");
        tally().hit("thread switches", r.switches);
        if (r.code == 99)
            throw TooLong{};
        if (r.code == 96)
            throw Violation{"xcsp-deadlock " + where + ": every thread waits for something which will never happen"};
        // a failure to write a proof is reported by the exception nobody caught
        if (r.code >= 128 && ! (faulty && r.code == 128 + SIGABRT && r.err.find("terminate called after throwing") != string::npos))
            throw Violation{"xcsp-crash " + where + ": ended by signal " + to_string(r.code - 128) + (r.err.empty() ? "" : ": " + r.err.substr(0, 300))};
        if (r.slept)
            throw Violation{"xcsp-not-prompt " + where + ": finished, but waited for its timer before it ended"};
        return r;
    };

    // the variables nothing depends on may be left open
    auto agrees = [&](const vector<optional<i64>> & s, const Assignment & x) {
        for (size_t i = 0; i < s.size(); ++i)
            if (s[i] && *s[i] != x[i])
                return false;
        return true;
    };
    auto worth = [&](const vector<optional<i64>> & s) { // how many solutions this one is
        u64 n = 1;
        for (size_t i = 0; i < s.size(); ++i)
            if (! s[i])
                n *= c.vars[i].domain().size();
        return n;
    };
    auto show = [&](const vector<optional<i64>> & s) {
        string r;
        for (size_t i = 0; i < s.size(); ++i)
            r += (i ? " " : "") + c.vars[i].name + "=" + (s[i] ? to_string(*s[i]) : "*");
        return r;
    };
    optional<i64> best;
    if (o)
        for (auto & x : t)
            best = best ? min(*best, sign * goal(*o, x)) : sign * goal(*o, x);

    auto expect_honest = [&](const Said & s, const string & where) {
        set<vector<optional<i64>>> seen;
        auto sols = s.sols;
        if (s.last)
            sols.push_back(*s.last);
        u64 covered = 0;
        for (auto & x : sols) {
            u64 n = 0;
            for (auto & y : t)
                n += agrees(x, y);
            if (n != worth(x))
                throw Violation{"xcsp-non-solution " + where + ": " + show(x)};
            if (! seen.insert(x).second)
                throw Violation{"xcsp-duplicate " + where + ": " + show(x)};
            covered += n;
        }
        for (size_t i = 0; i < s.bounds.size(); ++i) {
            if (! o)
                throw Violation{"xcsp-output " + where + ": an objective value, but no objective"};
            if (i && sign * s.bounds[i] >= sign * s.bounds[i - 1])
                throw Violation{"xcsp-not-improving " + where};
            if (none_of(t.begin(), t.end(), [&](auto & x) { return goal(*o, x) == s.bounds[i]; }))
                throw Violation{"xcsp-non-solution " + where + ": no solution has objective " + to_string(s.bounds[i])};
        }
        if (o && s.last) {
            bool right = false;
            for (auto & x : t)
                right |= agrees(*s.last, x) && ! s.bounds.empty() && goal(*o, x) == s.bounds.back();
            if (! right)
                throw Violation{"xcsp-output " + where + ": the solution does not have the last objective value"};
        }
        bool some = ! s.sols.empty() || s.last;
        if (s.status == "UNSATISFIABLE" && (! t.empty() || some))
            throw Violation{"xcsp-unsat " + where + ": said to have no solutions, but it has " + to_string(t.size())};
        if (s.status == "UNKNOWN" && some)
            throw Violation{"xcsp-unknown " + where + ": after printing solutions"};
        if ((s.status == "SATISFIABLE" || s.status == "OPTIMUM FOUND") && ! some)
            throw Violation{"xcsp-status " + where + ": " + s.status + ", but no solution"};
        if (s.status == "OPTIMUM FOUND" && (! o || s.bounds.empty() || sign * s.bounds.back() != *best))
            throw Violation{"xcsp-optimum " + where + ": said to be optimal, and is not"};
        return covered;
    };
    auto expect_finished = [&](const Ran & r, const Said & s, const string & where) {
        if (unsupported) {
            if (s.status != "UNSUPPORTED" || ! r.code || ! s.sols.empty() || ! s.bounds.empty() || s.last)
                throw Violation{"xcsp-unsupported " + where + ": the status is '" + s.status + "'"};
            return;
        }
        if (r.code)
            throw Violation{"xcsp-error " + where + ": exit status " + to_string(r.code) + ": " + s.status + " " + r.out.substr(0, 200) + r.err.substr(0, 200)};
        auto want = t.empty() ? "UNSATISFIABLE" : o ? "OPTIMUM FOUND" : "SATISFIABLE";
        if (s.status != want)
            throw Violation{"xcsp-status " + where + ": " + s.status + ", not " + want};
        if (! t.empty() && ! (all && ! o) && ! s.last)
            throw Violation{"xcsp-status " + where + ": no solution was printed"};
    };
    auto expect_all = [&](u64 covered, const string & where) {
        if (! unsupported && all && ! o && covered != t.size())
            throw Violation{"xcsp-complete " + where + ": finished with " + to_string(covered) + " of " + to_string(t.size()) + " solutions"};
    };

    auto plain = run(base, "undisturbed");
    auto said = listen(c, plain, "undisturbed");
    auto n0 = expect_honest(said, "undisturbed");
    expect_finished(plain, said, "undisturbed");
    expect_all(n0, "undisturbed");
    if (t.size() > 1 && plain.steps > 4)
        tally().hit("nontrivial");
    if (unsupported)
        return;

    Rng r{(u64)c.get("faults")};
    i64 only = c.get("only", -1), n = -1;
    auto disturbed = [&](Plan p, const string & what, bool faulty = false, i64 limit = -1) {
        p.seed = r.next();
        p.switch_permille = r.chance(60) ? 500 : r.chance(50) ? 20 : 1000;
        p.spurious_permille = r.chance(50) ? 0 : 200;
        if (only >= 0 && ++n != only)
            return;
        auto q = run(p, what, faulty);
        auto s = listen(c, q, what);
        auto covered = expect_honest(s, what);
        if (q.spurious)
            tally().hit("fault: spurious wake-up of the timer", q.spurious);
        if (q.signalled)
            tally().hit("fault: signal");
        if (q.timed_out)
            tally().hit("fault: timer fired");
        // the timer may notice that it is late only when it is told to end
        bool late = limit >= 0 && limit <= (i64)q.steps + max<i64>(0, p.jump_by / 1000000000);
        if (q.stopped_at >= 0 || late) {
            tally().n["most steps after a stop"] = max(tally().n["most steps after a stop"], q.after_stop);
            if (q.after_stop > 40)
                throw Violation{"xcsp-not-prompt " + what + ": " + to_string(q.after_stop) + " more propagators ran"};
            if (s.status.empty())
                throw Violation{"xcsp-silent " + what + ": no status"};
            if (! q.code)
                expect_finished(q, s, what);
            tally().hit(s.status == "UNKNOWN" ? "stopped before anything was known" : "stopped with some solutions");
        }
        else if (faulty && q.code)
            tally().hit("runs which said that the proof could not be written");
        else if (! (faulty && q.injected)) {
            expect_finished(q, s, what);
            expect_all(covered, what);
        }
        else
            throw Violation{"xcsp-proof " + what + ": the proof could not be written, but the exit status is that of a success"};
    };
    i64 steps = (i64)plain.steps;
    for (int i = 0; i < 3; ++i) {
        Plan p = base;
        p.signal = r.chance(50) ? SIGINT : SIGTERM;
        p.signal_at = r.range(1, steps + 1);
        disturbed(p, "stopped by a signal at step " + to_string(p.signal_at));
    }
    for (int i = 0; i < 3; ++i) {
        Plan p = base;
        i64 limit = r.chance(15) ? 0 : r.chance(15) ? 100000000 : r.range(1, steps + 10);
        p.args.push_back("--timeout=" + to_string(limit));
        string what = "with a time limit of " + to_string(limit) + " steps";
        if (r.chance(30)) {
            p.jump_at = r.range(1, steps + 1);
            p.jump_by = r.range(-100, 100) * 1000000000LL;
            what += ", the clock changed at step " + to_string(p.jump_at);
            tally().hit("fault: clock changed");
        }
        if (r.chance(25)) {
            p.signal = SIGTERM;
            p.signal_at = r.range(1, steps + 1);
            what += ", a signal at step " + to_string(p.signal_at);
        }
        disturbed(p, what, false, limit);
    }
    if (r.chance(15)) { // wrong options are an error, whatever else was asked for
        Plan p = base;
        p.args.insert(p.args.end(), {"--branch", "nonsense"});
        if (r.chance(70))
            p.args.push_back("--timeout=100");
        if (only < 0 || ++n == only) {
            auto q = run(p, "asked for an unknown heuristic");
            if (! q.code || ! listen(c, q, "").status.empty())
                throw Violation{"xcsp-option: an unknown heuristic was accepted"};
            tally().hit("fault: wrong option");
        }
    }
    if (r.chance(30)) {
        Plan p = base;
        p.args.insert(p.args.end(), {"--prove", "--proof-files-basename", "sim:/proof"});
        p.disk.capacity = r.range(0, 2500);
        p.disk.error = 28;
        disturbed(p, "with a disk which fills up", true);
        tally().hit("fault: disk full");
    }
}
