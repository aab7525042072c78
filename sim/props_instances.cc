// Data files of the examples: what is read is what is written in them, however
// the reads go, and what is damaged is turned down.
#include "props.hh"
#include "sys.hh"
#include "run.hh"
#include <cerrno>
#include <cmath>
#include <examples/dzn.hh>
#include <examples/p_dispersion/p_dispersion_instance.hh>
#include <examples/rcpsp/rcpsp_instance.hh>
#include <examples/table_layout/table_layout_instance.hh>
#include <optional>
#include <set>
using namespace std;
using namespace sim;

namespace
{
    const char * const path = "sim:/data";

    // Everything an instance has, flattened.
    struct Reading
    {
        bool rejected = false;
        string why;
        vector<vector<i64>> values;
    };
    struct Bad
    {
        string why;
    };

    // ---- an independent reading of the formats ----

    bool blank(char c)
    {
        return c == ' ' || c == '\t' || c == '\r' || c == '\n';
    }

    vector<string> words(const string & s)
    {
        vector<string> r;
        for (size_t i = 0; i < s.size();) {
            if (blank(s[i])) {
                ++i;
                continue;
            }
            size_t j = i;
            while (j < s.size() && ! blank(s[j]))
                ++j;
            r.push_back(s.substr(i, j - i));
            i = j;
        }
        return r;
    }

    i64 whole(const string & w)
    {
        size_t i = w.size() && (w[0] == '-' || w[0] == '+');
        if (i == w.size())
            throw Bad{"no digits: " + w};
        __int128 v = 0;
        for (size_t j = i; j < w.size(); ++j) {
            if (w[j] < '0' || w[j] > '9')
                throw Bad{"not an integer: " + w};
            v = v * 10 + (w[j] - '0');
            if (v > (__int128)INT64_MAX + 1)
                throw Bad{"too big: " + w};
        }
        if (w[0] == '-')
            v = -v;
        if (v > INT64_MAX)
            throw Bad{"too big: " + w};
        return (i64)v;
    }

    double real(const string & w)
    {
        size_t i = w.size() && (w[0] == '-' || w[0] == '+'), digits = 0;
        auto run = [&] {
            size_t n = 0;
            for (; i < w.size() && w[i] >= '0' && w[i] <= '9'; ++i)
                ++n;
            return n;
        };
        digits = run();
        if (i < w.size() && w[i] == '.') {
            ++i;
            digits += run();
        }
        if (! digits)
            throw Bad{"not a number: " + w};
        if (i < w.size() && (w[i] == 'e' || w[i] == 'E')) {
            ++i;
            if (i < w.size() && (w[i] == '-' || w[i] == '+'))
                ++i;
            if (! run())
                throw Bad{"not a number: " + w};
        }
        if (i != w.size())
            throw Bad{"not a number: " + w};
        double d = strtod(w.c_str(), nullptr);
        if (! isfinite(d))
            throw Bad{"too big: " + w};
        return d;
    }

    vector<string> lines(const string & text)
    {
        vector<string> r;
        string l;
        for (char c : text)
            if (c == '\n') {
                r.push_back(l);
                l.clear();
            }
            else
                l += c;
        if (! l.empty())
            r.push_back(l);
        return r;
    }

    struct Dzn
    {
        map<string, string> at;

        explicit Dzn(const string & text)
        {
            string all;
            for (auto & l : lines(text))
                all += l.substr(0, l.find('%')) + "\n";
            string statement;
            auto end = [&] {
                auto eq = statement.find('=');
                if (eq != string::npos) {
                    auto n = words(statement.substr(0, eq));
                    string name;
                    for (auto & w : n)
                        name += (name.empty() ? "" : " ") + w;
                    if (! name.empty()) {
                        if (at.count(name))
                            throw Bad{name + " twice"};
                        at[name] = statement.substr(eq + 1);
                    }
                }
                statement.clear();
            };
            for (char c : all)
                if (c == ';')
                    end();
                else
                    statement += c;
            end();
        }

        const string & raw(const string & n) const
        {
            auto i = at.find(n);
            if (i == at.end())
                throw Bad{"no " + n};
            return i->second;
        }

        i64 integer(const string & n) const
        {
            auto w = words(raw(n));
            if (w.size() != 1)
                throw Bad{n + " is not one integer"};
            return whole(w[0]);
        }

        string body(const string & n) const
        {
            auto & s = raw(n);
            auto a = s.find('['), b = s.rfind(']');
            if (a == string::npos || b == string::npos || b < a)
                throw Bad{n + " is no array"};
            return s.substr(a + 1, b - a - 1);
        }

        static vector<i64> list(string s)
        {
            for (auto & c : s)
                if (c == ',')
                    c = ' ';
            vector<i64> r;
            for (auto & w : words(s))
                r.push_back(whole(w));
            return r;
        }

        vector<i64> integers(const string & n) const
        {
            auto s = body(n);
            for (auto & c : s)
                if (c == '|')
                    c = ' ';
            return list(s);
        }

        vector<i64> bools(const string & n) const
        {
            auto s = body(n);
            for (auto & c : s)
                if (c == ',')
                    c = ' ';
            vector<i64> r;
            for (auto & w : words(s))
                if (w == "true" || w == "1")
                    r.push_back(1);
                else if (w == "false" || w == "0")
                    r.push_back(0);
                else
                    throw Bad{"not a Boolean: " + w};
            return r;
        }

        vector<vector<i64>> matrix(const string & n) const
        {
            auto s = body(n);
            auto w = words(s);
            if (w.empty() || w[0][0] != '|')
                throw Bad{n + " is not two dimensional"};
            vector<vector<i64>> r;
            string row;
            auto end = [&] {
                if (! words(row).empty())
                    r.push_back(list(row));
                row.clear();
            };
            for (char c : s)
                if (c == '|')
                    end();
                else
                    row += c;
            end();
            for (auto & x : r)
                if (x.size() != r[0].size())
                    throw Bad{n + " is ragged"};
            return r;
        }

        vector<vector<i64>> sets(const string & n) const
        {
            vector<vector<i64>> r;
            bool in = false;
            string one;
            for (char c : body(n))
                if (in) {
                    if (c == '}') {
                        r.push_back(list(one));
                        one.clear();
                        in = false;
                    }
                    else
                        one += c;
                }
                else if (c == '{')
                    in = true;
                else if (c != ',' && ! blank(c))
                    throw Bad{n + " is not sets"};
            if (in)
                throw Bad{n + " has an open set"};
            return r;
        }
    };

    void push(Reading & r, const vector<vector<i64>> & v)
    {
        r.values.push_back({(i64)v.size()});
        for (auto & x : v)
            r.values.push_back(x);
    }

    // Five formats. The first is dzn itself, its six names of known types.
    Reading reference(int format, const string & text)
    {
        Reading r;
        try {
            switch (format) {
            case 0: {
                Dzn d{text};
                r.values.push_back({d.integer("n"), d.integer("m")});
                r.values.push_back(d.integers("a"));
                r.values.push_back(d.bools("b"));
                push(r, d.matrix("x"));
                push(r, d.sets("s"));
                r.values.push_back({d.at.count("opt") ? d.integer("opt") : -1, (i64)d.at.count("nope")});
                break;
            }
            case 1: {
                Dzn d{text};
                i64 pw = d.integer("pixelwidth"), mc = d.integer("maxconfig"), rows = d.integer("rows"), cols = d.integer("cols");
                auto w = d.integers("width"), h = d.integers("height");
                if (rows < 1 || cols < 1 || mc < 1)
                    throw Bad{"shape"};
                if ((__int128)rows * cols > 1000000 || (__int128)rows * cols * mc != (__int128)w.size() || w.size() != h.size())
                    throw Bad{"sizes"};
                r.values = {{pw, mc, rows, cols}, w, h};
                break;
            }
            case 2: {
                Dzn d{text};
                i64 n = d.integer("n_tasks"), k = d.integer("n_res");
                auto rc = d.integers("rc"), du = d.integers("d");
                auto rr = d.matrix("rr");
                auto suc = d.sets("suc");
                if (n < 1 || k < 0 || (i64)rc.size() != k || (i64)du.size() != n || (i64)rr.size() != k || (i64)suc.size() != n)
                    throw Bad{"sizes"};
                for (auto & x : du)
                    if (x < 1)
                        throw Bad{"duration"};
                for (auto & x : rr) {
                    if ((i64)x.size() != n)
                        throw Bad{"sizes"};
                    for (auto & y : x)
                        if (y < 0)
                            throw Bad{"demand"};
                }
                vector<i64> arcs;
                for (i64 i = 0; i < n; ++i)
                    for (auto & j : suc[i]) {
                        if (j < 1 || j > n || j <= i + 1)
                            throw Bad{"successor"};
                        arcs.push_back(i);
                        arcs.push_back(j - 1);
                    }
                r.values = {{n, k}, rc, du, arcs};
                push(r, rr);
                break;
            }
            case 3: {
                auto ls = lines(text);
                size_t at = 0;
                while (at < ls.size() && words(ls[at]).empty())
                    ++at;
                if (at == ls.size())
                    throw Bad{"empty"};
                vector<i64> head;
                for (auto & w : words(ls[at]))
                    head.push_back(whole(w));
                if (head.size() < 2 || head.size() > 4 || (head.size() >= 3 && head[2]) || (head.size() >= 4 && head[3]))
                    throw Bad{"header"};
                i64 n = head[0] , k = head[1];
                if (n <= 0 || n > 1000000 || k < 0 || k > 1000000)
                    throw Bad{"header"};
                n += 2;
                vector<string> ws;
                for (++at; at < ls.size(); ++at) {
                    for (auto & c : ls[at])
                        if (c == '[' || c == ']')
                            c = ' ';
                    for (auto & w : words(ls[at]))
                        ws.push_back(w);
                }
                size_t i = 0;
                auto next = [&] {
                    if (i == ws.size())
                        throw Bad{"ended"};
                    return whole(ws[i++]);
                };
                auto record = [&](i64 t) {
                    if (next() != t || next() != 1)
                        throw Bad{"record"};
                };
                vector<i64> lags, du, cap;
                for (i64 t = 0; t < n; ++t) {
                    record(t);
                    i64 s = next();
                    if (s < 0 || s > n)
                        throw Bad{"successors"};
                    vector<i64> to;
                    for (i64 j = 0; j < s; ++j)
                        to.push_back(next());
                    for (i64 j = 0; j < s; ++j) {
                        if (to[j] < 0 || to[j] >= n)
                            throw Bad{"successor"};
                        lags.insert(lags.end(), {t, to[j], next()});
                    }
                }
                vector<vector<i64>> demand(n ? k : 0);
                for (i64 t = 0; t < n; ++t) {
                    record(t);
                    du.push_back(next());
                    if (du.back() < 0)
                        throw Bad{"duration"};
                    for (i64 j = 0; j < k; ++j)
                        demand[j].push_back(next());
                }
                for (i64 j = 0; j < k; ++j) {
                    cap.push_back(next());
                    if (cap.back() < 0)
                        throw Bad{"capacity"};
                }
                r.values = {{n, k}, lags, du, cap};
                push(r, demand);
                break;
            }
            case 4: {
                auto ls = lines(text);
                size_t at = 0;
                while (at < ls.size() && words(ls[at]).empty())
                    ++at;
                if (at == ls.size())
                    throw Bad{"empty"};
                auto head = words(ls[at]);
                i64 n = whole(head[0]), p = head.size() > 1 ? whole(head[1]) : -1;
                if (n <= 0 || n > 1000000)
                    throw Bad{"header"};
                vector<double> v;
                for (++at; at < ls.size(); ++at)
                    for (auto & w : words(ls[at]))
                        v.push_back(real(w));
                i64 pairs = n * (n - 1) / 2;
                if ((i64)v.size() < 3 * pairs)
                    throw Bad{"short"};
                map<pair<i64, i64>, i64> dist;
                set<i64> ids;
                for (i64 i = 0; i < pairs; ++i) {
                    i64 a = llround(v[3 * i]), b = llround(v[3 * i + 1]);
                    if (a == b)
                        throw Bad{"self"};
                    ids.insert(a);
                    ids.insert(b);
                    if (! dist.emplace(pair{min(a, b), max(a, b)}, llround(v[3 * i + 2])).second)
                        throw Bad{"twice"};
                }
                if ((i64)ids.size() != n)
                    throw Bad{"sites"};
                vector<i64> id(ids.begin(), ids.end());
                vector<vector<i64>> d(n, vector<i64>(n, 0)), q;
                for (i64 i = 0; i < n; ++i)
                    for (i64 j = i + 1; j < n; ++j)
                        d[i][j] = d[j][i] = dist.at({id[i], id[j]});
                i64 extra = (i64)v.size() - 3 * pairs, has = -1;
                if (p >= 2 && extra) {
                    if ((__int128)p * (p - 1) / 2 * 3 != extra)
                        throw Bad{"requirements"};
                    has = p;
                    q.assign(p, vector<i64>(p, -1));
                    for (i64 i = 0; i < extra / 3; ++i) {
                        auto * e = &v[3 * pairs + 3 * i];
                        i64 a = llround(e[0]), b = llround(e[1]);
                        if (a < 0 || b < 0 || a >= p || b >= p)
                            throw Bad{"requirement"};
                        q[a][b] = q[b][a] = llround(e[2]);
                    }
                }
                r.values = {{n, has}};
                push(r, d);
                push(r, q);
                break;
            }
            }
        }
        catch (const Bad & b) {
            r = {};
            r.rejected = true;
            r.why = b.why;
        }
        return r;
    }

    // ---- what the code says ----

    vector<i64> raw(const vector<gcs::Integer> & v)
    {
        vector<i64> r;
        for (auto & i : v)
            r.push_back(i.raw_value);
        return r;
    }
    template <typename T>
    vector<vector<i64>> all(const T & v)
    {
        vector<vector<i64>> r;
        for (auto & x : v)
            r.emplace_back(x.begin(), x.end());
        return r;
    }

    Reading actual(int format)
    {
        Reading r;
        try {
            switch (format) {
            case 0: {
                auto d = dzn::read(path);
                auto as = [](auto v) { return vector<i64>(v.begin(), v.end()); };
                r.values.push_back({d.integer("n"), d.integer("m")});
                r.values.push_back(as(d.integers("a")));
                r.values.push_back(as(d.bools("b")));
                push(r, all(d.matrix("x")));
                push(r, all(d.sets("s")));
                r.values.push_back({d.contains("opt") ? d.integer("opt") : -1, d.contains("nope")});
                break;
            }
            case 1: {
                auto i = table_layout::read_dzn(path);
                vector<i64> w, h;
                for (auto & x : i.width)
                    for (auto & y : x)
                        w.insert(w.end(), y.begin(), y.end());
                for (auto & x : i.height)
                    for (auto & y : x)
                        h.insert(h.end(), y.begin(), y.end());
                r.values = {{i.pixelwidth, i.maxconfig, i.rows, i.cols}, w, h};
                break;
            }
            case 2:
            case 3: {
                auto i = format == 2 ? rcpsp::read_dzn_file(path) : rcpsp::read_file(path);
                vector<i64> arcs, lags;
                for (auto & [a, b] : i.precedences)
                    arcs.insert(arcs.end(), {a, b});
                for (auto & l : i.lags)
                    lags.insert(lags.end(), {l.from, l.to, l.d.raw_value});
                vector<vector<i64>> d;
                for (auto & x : i.demands)
                    d.push_back(raw(x));
                if (format == 2) {
                    if (! lags.empty() || i.source_task || ! i.machine_tasks.empty())
                        throw Violation{"instance: a dzn instance has more than was in the file"};
                    r.values = {{i.n_tasks, (i64)i.capacities.size()}, raw(i.capacities), raw(i.durations), arcs};
                }
                else {
                    if (! arcs.empty() || i.source_task != 0 || ! i.machine_tasks.empty())
                        throw Violation{"instance: a sch instance has more than was in the file, or no source"};
                    r.values = {{i.n_tasks, (i64)i.capacities.size()}, lags, raw(i.durations), raw(i.capacities)};
                }
                push(r, d);
                break;
            }
            case 4: {
                auto i = p_dispersion::read_file(path);
                vector<vector<i64>> d;
                for (auto & x : i.distance)
                    d.push_back(raw(x));
                r.values = {{i.n, i.p ? *i.p : -1}};
                push(r, d);
                push(r, all(i.reqs));
                break;
            }
            }
        }
        catch (const exception & e) {
            r = {};
            r.rejected = true;
            r.why = e.what();
        }
        return r;
    }

    // ---- files ----

    struct Writer
    {
        Rng & r;
        string out;

        string gap(bool needed = false)
        {
            string s;
            for (i64 n = r.chance(70) ? (needed ? 1 : 0) : r.range(needed ? 1 : 0, 3); n > 0; --n)
                s += " \t\n\r"[r.chance(80) ? 0 : r.below(4)];
            return s;
        }
        string number(i64 lo, i64 hi)
        {
            if (r.chance(1))
                return to_string(r.chance(50) ? INT64_MAX : INT64_MIN);
            auto v = r.range(lo, hi);
            return (v >= 0 && r.chance(2) ? "+" : "") + string(r.chance(2) && v >= 0 ? "0" : "") + to_string(v);
        }
        string list(int n, i64 lo, i64 hi)
        {
            string s = gap();
            for (int i = 0; i < n; ++i)
                s += (i ? gap() + "," + gap() : "") + number(lo, hi);
            if (n && r.chance(10))
                s += ",";
            return s + gap();
        }
        string sets(int n, i64 lo, i64 hi, bool after)
        {
            string s = "[" + gap();
            for (int i = 0; i < n; ++i) {
                i64 from = after ? i + 2 : lo, to = hi;
                int k = from > to ? 0 : (int)r.range(0, min<i64>(3, to - from + 1));
                s += (i ? gap() + "," + gap() : "") + "{" + list(k, from, to) + "}";
            }
            return s + gap() + "]";
        }
        string matrix(int rows, int cols, i64 lo, i64 hi)
        {
            string s = "[|";
            for (int i = 0; i < rows; ++i)
                s += (i ? "|" : "") + list(cols, lo, hi);
            return s + "|]";
        }
        string array(int n, i64 lo, i64 hi)
        {
            auto l = "[" + list(n, lo, hi) + "]";
            if (r.chance(15))
                return "array1d(1.." + to_string(n) + "," + gap() + l + ")";
            if (r.chance(10))
                return "array3d(ROWS, COLS, CONFIGS," + gap() + l + ")";
            return l;
        }
        string statements(vector<pair<string, string>> v)
        {
            for (size_t i = v.size(); i > 1; --i)
                if (r.chance(50))
                    swap(v[i - 1], v[r.below(i)]);
            string s;
            static const vector<string> remarks = {"% a remark; with = in it\n", "%\n", "\n", " ", "output [] ;\n", ";"};
            for (size_t i = 0; i < v.size(); ++i) {
                if (r.chance(20))
                    s += remarks[r.below(remarks.size())];
                s += gap() + v[i].first + gap() + "=" + gap() + v[i].second + gap() + (i + 1 == v.size() && r.chance(30) ? "" : ";") + (r.chance(80) ? "\n" : "");
                if (r.chance(8))
                    s += " % " + v[i].first + " = 12;\n";
            }
            return s;
        }
    };

    string make_file(int format, Rng & r, i64 size)
    {
        Writer w{r, {}};
        switch (format) {
        case 0: {
            vector<pair<string, string>> v = {{"n", w.number(-100, 100)}, {"m", w.number(-1000000, 1000000)},
                {"a", r.chance(20) ? w.matrix(2, 2, -5, 5) : w.array((int)r.range(0, size), -100, 100)},
                {"x", w.matrix((int)r.range(1, 3), (int)r.range(1, 4), -50, 50)}, {"s", w.sets((int)r.range(0, size), -3, 9, false)}};
            string b = "[" + w.gap();
            for (i64 i = 0, n = r.range(0, size); i < n; ++i)
                b += string(i ? "," : "") + w.gap() + (r.chance(10) ? (r.chance(50) ? "1" : "0") : (r.chance(50) ? "true" : "false")) + w.gap();
            v.push_back({"b", b + "]"});
            if (r.chance(30))
                v.push_back({"opt", w.number(0, 9)});
            return w.statements(v);
        }
        case 1: {
            int a = (int)r.range(1, 3), b = (int)r.range(1, 3), c = (int)r.range(1, 3);
            return w.statements({{"pixelwidth", w.number(1, 2000)}, {"maxconfig", to_string(c)}, {"rows", to_string(a)}, {"cols", to_string(b)},
                {"width", w.array(a * b * c, -1, 300)}, {"height", w.array(a * b * c, -1, 300)}});
        }
        case 2: {
            int n = (int)r.range(1, size), k = (int)r.range(1, 3);
            return w.statements({{"n_tasks", to_string(n)}, {"n_res", to_string(k)}, {"rc", w.array(k, 0, 20)}, {"d", w.array(n, 1, 9)},
                {"rr", w.matrix(k, n, 0, 9)}, {"suc", w.sets(n, 1, n, true)}});
        }
        case 3: {
            int n = (int)r.range(1, size), k = (int)r.range(0, 3);
            string s = (r.chance(10) ? "\n" : "") + to_string(n) + "\t" + to_string(k) + (r.chance(70) ? "\t0\t0" : r.chance(50) ? "\t0" : "") + "\n";
            n += 2;
            for (int t = 0; t < n; ++t) {
                int m = (int)r.range(0, min(3, n));
                s += to_string(t) + "\t1\t" + to_string(m);
                for (int j = 0; j < m; ++j)
                    s += "\t" + to_string(r.range(0, n - 1));
                for (int j = 0; j < m; ++j)
                    s += string(r.chance(80) ? "\t" : "") + "[" + (r.chance(5) ? " " : "") + w.number(-20, 20) + "]";
                s += r.chance(10) ? "\r\n" : "\n";
            }
            for (int t = 0; t < n; ++t) {
                s += to_string(t) + "\t1\t" + w.number(0, 9);
                for (int j = 0; j < k; ++j)
                    s += "\t" + w.number(0, 9);
                s += "\n";
            }
            for (int j = 0; j < k; ++j)
                s += (j ? "\t" : "") + w.number(0, 30);
            return s + (r.chance(80) ? "\n" : "");
        }
        default: {
            int n = (int)r.range(1, min<i64>(size, 6)), p = (int)r.range(2, 4);
            int kind = (int)r.below(3); // with requirements, without, without even the header for them
            vector<i64> id;
            for (i64 x = r.range(0, 3); (int)id.size() < n; x += kind == 0 && r.chance(50) ? r.range(1, 5) : 1)
                id.push_back(x);
            string s = to_string(n) + (kind < 2 ? " " + to_string(p) : "") + "\n";
            auto num = [&](i64 lo, i64 hi) {
                auto v = to_string(r.range(lo, hi));
                return r.chance(30) ? v + "." + to_string(r.below(100)) : r.chance(3) ? v + "e1" : v;
            };
            vector<string> triples;
            for (int i = 0; i < n; ++i)
                for (int j = i + 1; j < n; ++j)
                    triples.push_back((r.chance(80) ? to_string(id[i]) + " " + to_string(id[j]) : to_string(id[j]) + " " + to_string(id[i])) + " " + num(0, 200) + "\n");
            for (auto & t : triples)
                s += t;
            if (kind == 0)
                for (int i = 0; i < p; ++i)
                    for (int j = i + 1; j < p; ++j)
                        s += to_string(i) + " " + to_string(j) + " " + num(0, 50) + "\n";
            if (kind == 2 && r.chance(50))
                for (int i = 0; i < n; ++i)
                    s += num(0, 50) + " " + num(0, 50) + "\n";
            return s;
        }
        }
    }

    void damage(string & s, Rng & r)
    {
        static const string bytes = "0123456789-+.,;=[]{}|% \n\teExatrue";
        static const vector<string> bits = {"99999999999999999999", "4294967297", "-", "1-2", "[", "]", "{}", "true", "|", "n = 3;", "2147483648", "-9999999999999999999", "1e5", "x"};
        if (s.empty())
            return;
        switch (r.below(6)) {
        case 0: s[r.below(s.size())] = bytes[r.below(bytes.size())]; break;
        case 1: s.erase(r.below(s.size()), (size_t)r.range(1, 4)); break;
        case 2: s.insert(r.below(s.size() + 1), string(1, bytes[r.below(bytes.size())])); break;
        case 3: s.insert(r.below(s.size() + 1), bits[r.below(bits.size())]); break;
        case 4: { // one number becomes something else
            vector<size_t> at;
            for (size_t i = 0; i < s.size(); ++i)
                if (isdigit((unsigned char)s[i]) && (i == 0 || ! isdigit((unsigned char)s[i - 1])))
                    at.push_back(i);
            if (at.empty())
                return;
            auto i = at[r.below(at.size())], j = i;
            while (j < s.size() && isdigit((unsigned char)s[j]))
                ++j;
            s.replace(i, j - i, r.chance(60) ? to_string(r.range(0, 9)) : bits[r.below(bits.size())]);
            break;
        }
        default: { // a block written twice, or moved
            auto i = r.below(s.size());
            auto n = (size_t)r.range(1, 20);
            auto b = s.substr(i, n);
            if (r.chance(50))
                s.erase(i, n);
            s.insert(r.below(s.size() + 1), b);
        }
        }
    }

    string show(const Reading & r)
    {
        if (r.rejected)
            return "rejected (" + r.why + ")";
        string s;
        for (auto & v : r.values) {
            s += "<";
            for (size_t i = 0; i < v.size(); ++i)
                s += (i ? " " : "") + to_string(v[i]);
            s += ">";
        }
        return s;
    }

    const char * const names[] = {"dzn", "table layout dzn", "rcpsp dzn", "sch", "p-dispersion"};

    // What a reader makes of text it ought to turn down is on record as a finding, and asked of recorded cases only (strict).
    void compare(int format, const string & text, const DiskPlan & plan, const string & how, bool strict = true)
    {
        auto want = reference(format, text);
        if (want.rejected && ! strict) { // however it is read, the same must come of it
            disk().reset({});
            disk().files[path] = text;
            want = actual(format);
        }
        disk().reset(plan);
        disk().files[path] = text;
        auto got = actual(format);
        tally().hit(got.rejected ? "files rejected" : "files read");
        if (open_files())
            throw Violation{string{"instance-open: the "} + names[format] + " file was left open"};
        if (want.rejected != got.rejected || want.values != got.values)
            throw Violation{string{"instance: the "} + names[format] + " file, " + how + ", should give " + show(want) + " and gives " + show(got) + ": " + text};
    }
}

Case sim::make_c20(Rng & r)
{
    Case c;
    c.p["file"] = r.range(1, 1000000000);
    c.p["format"] = (i64)r.below(5);
    c.p["size"] = r.range(2, 8);
    c.p["damaged"] = r.range(1, 1000000000);
    c.p["reads"] = r.range(1, 1000000000);
    return c;
}

void sim::check_c20(const Case & c)
{
    int format = (int)c.get("format");
    auto strict = c.get("strict"); // 1: failing reads, 2: cut short, 4: damaged, 8: as written
    Rng r{(u64)c.get("file")};
    auto text = make_file(format, r, c.get("size"));
    Hash h;
    for (char ch : text)
        h.add((u64)(unsigned char)ch);
    case_hash = mix(case_hash ^ h.h);
    tally().schedules.insert(case_hash);
    tally().shapes.insert(mix((u64)format * 1000 + text.size()));
    compare(format, text, {}, "as written", strict & 8);

    Rng q{(u64)c.get("reads")};
    DiskPlan p;
    p.short_read_permille = 900;
    p.eintr_permille = q.chance(50) ? 300 : 0;
    p.seed = (u64)q.range(1, 1000000000);
    compare(format, text, p, "read in pieces", strict & 8);
    tally().hit("fault: short and interrupted reads", disk().injected);

    for (i64 at = 1; (strict & 1) && at <= 3; ++at) { // a read which fails
        DiskPlan f = at == 1 ? DiskPlan{} : p;
        f.eintr_permille = 0;
        f.fail_read = at == 1 ? 1 : q.range(1, 6);
        f.error = EIO;
        disk().reset(f);
        disk().files[path] = text;
        auto got = actual(format);
        if (disk().failed) {
            tally().hit("fault: read error");
            if (! got.rejected)
                throw Violation{string{"instance-read-error: the "} + names[format] + " file could not be read, and was taken to say " + show(got) + ": " + text};
        }
    }
    DiskPlan o;
    o.fail_open = 1;
    o.error = EACCES;
    disk().reset(o);
    disk().files[path] = text;
    if (! actual(format).rejected)
        throw Violation{string{"instance-open: the "} + names[format] + " file could not be opened, and was read"};
    tally().hit("fault: open error");

    for (size_t n = 0; n < text.size(); ++n)
        compare(format, text.substr(0, n), n % 4 ? p : DiskPlan{}, "cut after " + to_string(n) + " bytes", strict & 2);
    tally().hit("fault: file cut short", (i64)text.size());

    Rng d{(u64)c.get("damaged")};
    for (int i = 0; i < 60; ++i) {
        auto t = text;
        for (i64 n = d.chance(70) ? 1 : d.range(1, 4); n > 0; --n)
            damage(t, d);
        compare(format, t, i % 4 ? p : DiskPlan{}, "damaged", strict & 4);
    }
    tally().hit("fault: damaged file", 60);
}
