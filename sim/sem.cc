// What each constraint means, written from its documentation and never from
// the solver's code, and solving by brute force.
#include "case.hh"
#include <algorithm>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <stdexcept>
using namespace std;
using namespace sim;

namespace
{
    using V = vector<i64>;

    V vals(const vector<Term> & ts, const Assignment & a)
    {
        V r;
        for (auto & t : ts)
            r.push_back(value(t, a));
        return r;
    }

    const i64 WILD = numeric_limits<i64>::min();

    struct Regex
    {
        const string & s;
        size_t pos = 0;

        // A node is a function from a set of positions to a set of positions.
        using P = set<size_t>;
        using Node = function<P(const V &, const P &)>;

        char peek()
        {
            while (pos < s.size() && (s[pos] == ' ' || s[pos] == '\t'))
                ++pos;
            return pos < s.size() ? s[pos] : 0;
        }
        i64 number()
        {
            peek();
            size_t e = pos;
            if (s.at(e) == '-')
                ++e;
            while (e < s.size() && isdigit((unsigned char)s[e]))
                ++e;
            i64 r = stoll(s.substr(pos, e - pos));
            pos = e;
            return r;
        }
        Node alt()
        {
            vector<Node> ns{seq()};
            while (peek() == '|') {
                ++pos;
                ns.push_back(seq());
            }
            return [ns](const V & w, const P & in) {
                P out;
                for (auto & n : ns)
                    out.merge(P(n(w, in)));
                return out;
            };
        }
        Node seq()
        {
            vector<Node> ns;
            while (peek() && peek() != '|' && peek() != ')')
                ns.push_back(quantified());
            return [ns](const V & w, const P & in) {
                P cur = in;
                for (auto & n : ns)
                    cur = n(w, cur);
                return cur;
            };
        }
        static Node repeat(Node n, i64 lo, i64 hi)
        {
            return [n, lo, hi](const V & w, const P & in) {
                P out, cur = in;
                if (lo == 0)
                    out = in;
                for (i64 k = 1; hi < 0 || k <= hi; ++k) {
                    P nxt = n(w, cur);
                    if (nxt.empty() || (k > lo && includes(out.begin(), out.end(), nxt.begin(), nxt.end())))
                        break;
                    if (k >= lo)
                        out.insert(nxt.begin(), nxt.end());
                    cur = nxt;
                    if (k > (i64)w.size() + lo + 2)
                        break;
                }
                return out;
            };
        }
        Node quantified()
        {
            Node n = atom();
            while (true) {
                switch (peek()) {
                case '*': ++pos; n = repeat(n, 0, -1); continue;
                case '+': ++pos; n = repeat(n, 1, -1); continue;
                case '?': ++pos; n = repeat(n, 0, 1); continue;
                case '{': {
                    ++pos;
                    i64 lo = number(), hi = lo;
                    if (peek() == ',') {
                        ++pos;
                        hi = peek() == '}' ? -1 : number();
                    }
                    peek();
                    ++pos;
                    n = repeat(n, lo, hi);
                    continue;
                }
                default: return n;
                }
            }
        }
        static Node symbol(function<bool(i64)> f)
        {
            return [f](const V & w, const P & in) {
                P out;
                for (auto p : in)
                    if (p < w.size() && f(w[p]))
                        out.insert(p + 1);
                return out;
            };
        }
        Node atom()
        {
            char c = peek();
            if (c == '(') {
                ++pos;
                Node n = alt();
                peek();
                ++pos;
                return n;
            }
            if (c == '.') {
                ++pos;
                return symbol([](i64) { return true; });
            }
            if (c == '[') {
                ++pos;
                bool neg = peek() == '^';
                if (neg)
                    ++pos;
                vector<pair<i64, i64>> rs;
                while (peek() != ']') {
                    i64 a = number(), b = a;
                    if (peek() == '-') {
                        ++pos;
                        b = number();
                    }
                    rs.emplace_back(a, b);
                }
                ++pos;
                return symbol([rs, neg](i64 x) {
                    bool in = false;
                    for (auto & [a, b] : rs)
                        in = in || (a <= x && x <= b);
                    return in != neg;
                });
            }
            i64 k = number();
            return symbol([k](i64 x) { return x == k; });
        }
    };

    bool reified(const Con & c, const Assignment & a, bool inner)
    {
        switch (c.reif) {
        case 0: return inner;
        case 1: return ! holds(c.c.at(0), a) || inner;
        case 2: return holds(c.c.at(0), a) == inner;
        case 3: return ! inner;
        default: return ! holds(c.c.at(0), a) || ! inner;
        }
    }

    bool all_diff(const V & v)
    {
        set<i64> s(v.begin(), v.end());
        return s.size() == v.size();
    }

    bool power_ok(i64 b, i64 e, i64 r)
    {
        if (e == 0)
            return r == 1;
        if (e < 0) {
            if (b == 0)
                return false;
            if (b == 1)
                return r == 1;
            if (b == -1)
                return r == (e % 2 == 0 ? 1 : -1);
            return r == 0;
        }
        __int128 p = 1;
        for (i64 i = 0; i < e; ++i) {
            p *= b;
            if (p > (__int128)numeric_limits<i64>::max() || p < (__int128)numeric_limits<i64>::min())
                return b == 0 || b == 1 || b == -1 ? true : false;
            if (b == 0 || b == 1)
                break;
        }
        return p == r;
    }

    bool entry_ok(const V & e, const V & v)
    {
        // {kind, op, a, b...}: kind 0 binary (b an index), 1 value, 2 set
        i64 a = v.at(e.at(2));
        if (e[0] == 2) {
            bool in = find(e.begin() + 3, e.end(), a) != e.end();
            return e[1] == 0 ? in : ! in;
        }
        i64 b = e[0] == 0 ? v.at(e.at(3)) : e.at(3);
        switch (e[1]) {
        case 0: return a < b;
        case 1: return a <= b;
        case 2: return a == b;
        case 3: return a != b;
        case 4: return a > b;
        default: return a >= b;
        }
    }
}

bool sim::regex_matches(const string & regex, const vector<i64> & word, i64, i64)
{
    Regex r{regex};
    auto n = r.alt();
    return n(word, {0}).contains(word.size());
}

bool sim::satisfied(const Con & c, const Assignment & a)
{
    if (c.kind.starts_with("x-"))
        return xcsp_satisfied(c, a);
    const auto & k = c.kind;
    vector<V> v;
    for (auto & ts : c.t)
        v.push_back(vals(ts, a));
    auto N = [&](size_t i) -> const V & {
        static const V none;
        return i < c.n.size() ? c.n[i] : none;
    };

    if (k == "abs")
        return (v[0][0] < 0 ? -v[0][0] : v[0][0]) == v[0][1];
    if (k == "alldiff")
        return all_diff(v[0]);
    if (k == "alldiff_except") {
        V w;
        for (auto x : v[0])
            if (find(N(0).begin(), N(0).end(), x) == N(0).end())
                w.push_back(x);
        return all_diff(w);
    }
    if (k == "symalldiff") {
        i64 n = v[0].size(), s = N(0)[0];
        for (i64 i = 0; i < n; ++i) {
            i64 x = v[0][i] - s;
            if (x < 0 || x >= n || v[0][x] - s != i)
                return false;
        }
        return true;
    }
    if (k == "allequal")
        return all_of(v[0].begin(), v[0].end(), [&](i64 x) { return x == v[0][0]; });
    if (k == "among")
        return count_if(v[0].begin(), v[0].end(), [&](i64 x) { return find(N(0).begin(), N(0).end(), x) != N(0).end(); }) == v[1][0];
    if (k == "atmostone")
        return count(v[0].begin(), v[0].end(), v[1][0]) <= 1;
    if (k == "binpacking") {
        bool loads = c.opt & 1;
        size_t bins = loads ? v[1].size() : N(1).size();
        V sum(bins, 0);
        for (size_t i = 0; i < v[0].size(); ++i) {
            if (v[0][i] < 0 || v[0][i] >= (i64)bins)
                return false;
            sum[v[0][i]] += N(0)[i];
        }
        for (size_t b = 0; b < bins; ++b)
            if (loads ? sum[b] != v[1][b] : sum[b] > N(1)[b])
                return false;
        return true;
    }
    if (k == "circuit") {
        size_t n = v[0].size();
        if (! all_diff(v[0]))
            return false;
        for (auto x : v[0])
            if (x < 0 || x >= (i64)n)
                return false;
        size_t at = 0;
        for (size_t i = 1; i <= n; ++i) {
            at = v[0][at];
            if ((at == 0) != (i == n))
                return false;
        }
        return true;
    }
    if (k == "lt")
        return reified(c, a, v[0][0] < v[0][1]);
    if (k == "le")
        return reified(c, a, v[0][0] <= v[0][1]);
    if (k == "gt")
        return reified(c, a, v[0][0] > v[0][1]);
    if (k == "ge")
        return reified(c, a, v[0][0] >= v[0][1]);
    if (k == "eq")
        return reified(c, a, v[0][0] == v[0][1]);
    if (k == "ne")
        return reified(c, a, v[0][0] != v[0][1]);
    if (k == "count")
        return count(v[0].begin(), v[0].end(), v[1][0]) == v[1][1];
    if (k == "cumulative") {
        auto &s = v[0], &l = v[1], &h = v[2];
        i64 cap = v[4][0];
        set<i64> times;
        for (size_t i = 0; i < s.size(); ++i)
            times.insert(s[i]);
        for (auto t : times) {
            i64 use = 0;
            for (size_t i = 0; i < s.size(); ++i)
                if ((v[3].empty() || v[3][i]) && s[i] <= t && t < s[i] + l[i])
                    use += h[i];
            if (use > cap)
                return false;
        }
        return true;
    }
    if (k == "disjunctive") {
        auto &s = v[0], &l = v[1];
        bool strict = N(0)[0];
        for (size_t i = 0; i < s.size(); ++i)
            for (size_t j = i + 1; j < s.size(); ++j) {
                if (! v[2].empty() && (! v[2][i] || ! v[2][j]))
                    continue;
                if (! strict && (l[i] == 0 || l[j] == 0))
                    continue;
                if (! (s[i] + l[i] <= s[j] || s[j] + l[j] <= s[i]))
                    return false;
            }
        return true;
    }
    if (k == "disjunctive2d") {
        auto &x = v[0], &y = v[1], &w = v[2], &h = v[3];
        bool strict = N(0)[0];
        for (size_t i = 0; i < x.size(); ++i)
            for (size_t j = i + 1; j < x.size(); ++j) {
                if (! strict && (w[i] == 0 || w[j] == 0 || h[i] == 0 || h[j] == 0))
                    continue;
                if (! (x[i] + w[i] <= x[j] || x[j] + w[j] <= x[i] || y[i] + h[i] <= y[j] || y[j] + h[j] <= y[i]))
                    return false;
            }
        return true;
    }
    if (k == "difference") {
        // n[0]: d per edge; n[1]: index of the condition, or -1
        for (size_t i = 0; i < v[0].size(); ++i)
            if ((N(1)[i] < 0 || holds(c.c.at(N(1)[i]), a)) && v[0][i] - v[1][i] > N(0)[i])
                return false;
        return true;
    }
    if (k == "divide")
        return v[0][1] != 0 && v[0][0] / v[0][1] == v[0][2];
    if (k == "modulus")
        return v[0][1] != 0 && v[0][0] % v[0][1] == v[0][2];
    if (k == "multiply")
        return v[0][0] * v[0][1] == v[0][2];
    if (k == "plus")
        return v[0][0] + v[0][1] == v[0][2];
    if (k == "minus")
        return v[0][0] - v[0][1] == v[0][2];
    if (k == "power" || k == "powertable")
        return power_ok(v[0][0], v[0][1], v[0][2]);
    if (k == "element") {
        i64 i = v[1][0] - N(0)[0];
        return i >= 0 && i < (i64)v[2].size() && v[2][i] == v[0][0];
    }
    if (k == "elementc") {
        i64 i = v[1][0] - N(0)[0];
        return i >= 0 && i < (i64)N(1).size() && N(1)[i] == v[0][0];
    }
    if (k == "element2d" || k == "element2dc") {
        i64 i = v[1][0] - N(0)[0], j = v[1][1] - N(0)[1], r = N(2)[0], q = N(2)[1];
        if (i < 0 || j < 0 || i >= r || j >= q)
            return false;
        return (k == "element2d" ? v[2][i * q + j] : N(1)[i * q + j]) == v[0][0];
    }
    if (k == "gcc") {
        for (size_t i = 0; i < N(0).size(); ++i)
            if (count(v[0].begin(), v[0].end(), N(0)[i]) != v[1][i])
                return false;
        if (c.opt & 2)
            for (auto x : v[0])
                if (find(N(0).begin(), N(0).end(), x) == N(0).end())
                    return false;
        return true;
    }
    if (k == "in")
        return reified(c, a, find(v[1].begin(), v[1].end(), v[0][0]) != v[1].end() || find(N(0).begin(), N(0).end(), v[0][0]) != N(0).end());
    if (k == "increasing") {
        for (size_t i = 1; i < v[0].size(); ++i) {
            i64 x = v[0][i - 1], y = v[0][i];
            if (c.opt >= 2)
                swap(x, y);
            if (c.opt % 2 ? ! (x < y) : ! (x <= y))
                return false;
        }
        return true;
    }
    if (k == "inverse") {
        i64 n = v[0].size(), xs = N(0)[0], ys = N(0)[1];
        for (i64 i = 0; i < n; ++i) {
            i64 j = v[0][i] - ys, m = v[1][i] - xs;
            if (j < 0 || j >= n || v[1][j] - xs != i || m < 0 || m >= n || v[0][m] - ys != i)
                return false;
        }
        return true;
    }
    if (k == "knapsack") {
        for (size_t r = 0; r < v[1].size(); ++r) {
            i64 sum = 0;
            for (size_t i = 0; i < v[0].size(); ++i)
                sum += N(r)[i] * v[0][i];
            if (sum != v[1][r])
                return false;
        }
        return true;
    }
    if (k == "lexgt")
        return reified(c, a, v[0] > v[1]);
    if (k == "lexge")
        return reified(c, a, v[0] >= v[1]);
    if (k == "lexlt")
        return reified(c, a, v[0] < v[1]);
    if (k == "lexle")
        return reified(c, a, v[0] <= v[1]);
    if (k == "lexsmart")
        return v[0] > v[1];
    if (k == "lineq" || k == "linne" || k == "linle" || k == "linge") {
        i64 sum = 0;
        for (size_t i = 0; i < v[0].size(); ++i)
            sum += N(0)[i] * v[0][i];
        i64 b = N(1)[0];
        return reified(c, a, k == "lineq" ? sum == b : k == "linne" ? sum != b : k == "linle" ? sum <= b : sum >= b);
    }
    if (k == "and" || k == "or") {
        bool all = true, any = false;
        auto see = [&](bool x) {
            all = all && x;
            any = any || x;
        };
        bool value = true;
        if (c.opt & 1) { // literals: c[0] the reification, the rest the operands
            for (size_t i = 1; i < c.c.size(); ++i)
                see(holds(c.c[i], a));
            value = holds(c.c[0], a);
        }
        else {
            for (auto x : v[0])
                see(x != 0);
            if (c.opt & 2)
                value = v[1][0] != 0;
        }
        return (k == "and" ? all : any) == value;
    }
    if (k == "nogoods") {
        size_t at = 0;
        for (auto len : N(0)) {
            bool all = true;
            for (i64 i = 0; i < len; ++i)
                all = holds(c.c.at(at++), a) && all;
            if (all)
                return false;
        }
        return true;
    }
    if (k == "parity") {
        int n = 0;
        if (c.opt & 1) {
            for (auto & q : c.c)
                n += holds(q, a);
        }
        else
            for (auto x : v[0])
                n += x != 0;
        return n % 2 == 1;
    }
    if (k == "mdd") {
        // n[0]: flat layer,node,value,to; n[1] nodes per layer; n[2] accepting
        i64 node = 0;
        for (size_t l = 0; l < v[0].size(); ++l) {
            i64 to = -1;
            for (size_t i = 0; i + 3 < N(0).size(); i += 4)
                if (N(0)[i] == (i64)l && N(0)[i + 1] == node && N(0)[i + 2] == v[0][l])
                    to = N(0)[i + 3];
            if (to < 0)
                return false;
            node = to;
        }
        return find(N(2).begin(), N(2).end(), node) != N(2).end();
    }
    if (k == "mindist") {
        i64 n = N(0)[0];
        i64 best = numeric_limits<i64>::max();
        for (auto x : v[0])
            if (x < 0 || x >= n)
                return false;
        for (size_t i = 0; i < v[0].size(); ++i)
            for (size_t j = i + 1; j < v[0].size(); ++j) {
                i64 d = N(1)[v[0][i] * n + v[0][j]];
                best = min(best, d);
                if (! N(2).empty() && d < N(2)[i * v[0].size() + j])
                    return false;
            }
        return v[1][0] == best;
    }
    if (k == "min")
        return *min_element(v[0].begin(), v[0].end()) == v[1][0];
    if (k == "max")
        return *max_element(v[0].begin(), v[0].end()) == v[1][0];
    if (k == "nvalue")
        return (i64)set<i64>(v[0].begin(), v[0].end()).size() == v[1][0];
    if (k == "regular") {
        if (! c.s.empty())
            return regex_matches(c.s, v[0], 0, 0);
        // n[0]: {states}; n[1]: flat state,value,to; n[2] accepting
        i64 q = 0;
        for (auto x : v[0]) {
            i64 to = -1;
            for (size_t i = 0; i + 2 < N(1).size(); i += 3)
                if (N(1)[i] == q && N(1)[i + 1] == x)
                    to = N(1)[i + 2];
            if (to < 0)
                return false;
            q = to;
        }
        return find(N(2).begin(), N(2).end(), q) != N(2).end();
    }
    if (k == "seqprecede") {
        for (size_t i = 0; i < v[0].size(); ++i)
            if (v[0][i] >= 2 && find(v[0].begin(), v[0].begin() + i, v[0][i] - 1) == v[0].begin() + i)
                return false;
        return true;
    }
    if (k == "smarttable") {
        // n[0]: entries per row; n[1..]: the entries
        size_t at = 1;
        for (auto rows : N(0)) {
            bool ok = true;
            for (i64 e = 0; e < rows; ++e)
                ok = entry_ok(N(at++), v[0]) && ok;
            if (ok)
                return true;
        }
        return false;
    }
    if (k == "sort") {
        auto x = v[0];
        sort(x.begin(), x.end());
        return x == v[1];
    }
    if (k == "argsort") {
        vector<i64> ix(v[0].size());
        for (size_t i = 0; i < ix.size(); ++i)
            ix[i] = i;
        stable_sort(ix.begin(), ix.end(), [&](i64 i, i64 j) { return v[0][i] < v[0][j]; });
        for (size_t i = 0; i < ix.size(); ++i)
            if (v[1][i] != ix[i] + N(0)[0])
                return false;
        return true;
    }
    if (k == "table" || k == "negtable") {
        size_t w = v[0].size();
        bool found = false;
        for (i64 r = 0; r < N(0)[0]; ++r) {
            bool m = true;
            for (size_t i = 0; i < w; ++i) {
                i64 x = N(1)[r * w + i];
                m = m && (x == WILD || x == v[0][i]);
            }
            found = found || m;
        }
        return found == (k == "table");
    }
    if (k == "valueprecede") {
        for (size_t j = 1; j < N(0).size(); ++j)
            for (size_t i = 0; i < v[0].size(); ++i)
                if (v[0][i] == N(0)[j] && find(v[0].begin(), v[0].begin() + i, N(0)[j - 1]) == v[0].begin() + i)
                    return false;
        return true;
    }
    throw runtime_error("no meaning for constraint " + k);
}

vector<int> sim::scope(const Con & c)
{
    set<int> s;
    for (auto & ts : c.t)
        for (auto & t : ts)
            if (t.var >= 0)
                s.insert(t.var);
    for (auto & q : c.c)
        if (q.t.var >= 0)
            s.insert(q.t.var);
    return {s.begin(), s.end()};
}

optional<vector<Assignment>> sim::solutions(const Case & c, u64 max_nodes)
{
    vector<vector<const Con *>> at(c.vars.size() + 1);
    for (auto & k : c.cons) {
        auto s = scope(k);
        at[s.empty() ? 0 : s.back() + 1].push_back(&k);
    }
    vector<V> doms;
    for (auto & v : c.vars) {
        auto d = v.domain();
        sort(d.begin(), d.end());
        d.erase(unique(d.begin(), d.end()), d.end());
        doms.push_back(d);
    }
    vector<Assignment> out;
    Assignment a(c.vars.size(), 0);
    u64 nodes = 0;
    bool ok = true;
    function<void(size_t)> go = [&](size_t i) {
        if (! ok || ++nodes > max_nodes) {
            ok = false;
            return;
        }
        for (auto * k : at[i])
            if (! satisfied(*k, a))
                return;
        if (i == c.vars.size()) {
            out.push_back(a);
            return;
        }
        for (auto x : doms[i]) {
            a[i] = x;
            go(i + 1);
        }
    };
    go(0);
    if (! ok)
        return nullopt;
    return out;
}

bool sim::advertises_gac(const Con & c)
{
    const auto & k = c.kind;
    int v = c.opt >> 8;
    // a variable twice in a constraint is beyond what is advertised
    size_t mentions = 0;
    for (auto & ts : c.t)
        for (auto & t : ts)
            mentions += t.var >= 0;
    for (auto & q : c.c)
        mentions += q.t.var >= 0;
    if (mentions != scope(c).size())
        return false;
    if (k == "alldiff")
        return (c.opt & 255) != 2;
    if (k == "gcc") { // only on the assignment variables, by a flow between the bounds of the counts
        for (auto & t : c.t[1])
            if (t.var >= 0)
                return false;
        return c.opt & 1;
    }
    if (c.reif && (k.starts_with("lex") || k == "linne"))
        return false;
    if (k == "element" || k == "element2d")
        return v != 1;
    if (k == "plus" || k == "minus" || k == "multiply" || k == "divide" || k == "modulus" || k == "power")
        return v == 2;
    if (k == "lineq")
        return (v & 1) && c.reif == 0;
    static const set<string> gac = {"abs", "alldiff_except", "allequal", "among", "atmostone", "lt", "le", "gt", "ge", "eq", "powertable", "in",
        "increasing", "inverse", "knapsack", "lexgt", "lexge", "lexlt", "lexle", "and", "or", "parity", "mdd", "min", "max", "regular", "table", "ne",
        "linne"};
    return gac.contains(k);
}
