// The Python interface: models built and solved through its calls, by a program
// which is interrupted, whose callbacks fail, and which makes mistakes.
#include "pb.hh"
#include "process.hh"
#include "props.hh"
#include <algorithm>
#include <climits>
#include <csignal>
#include <cstdio>
#include <gcs/gcs.hh>
#include <iostream>
#include <pybind11/pybind11.h>
#include <set>
#include <sstream>
using namespace std;
using namespace sim;
namespace py = pybind11;

py::module_ & gsim_module_gcspy();

namespace
{
    const vector<string> kinds{"abs", "alldiff", "circuit", "count", "divide", "element", "eq", "ne", "lt", "le", "gt", "ge", "gcc", "in", "inverse",
        "lineq", "linle", "linge", "linne", "max", "min", "modulus", "multiply", "nvalue", "plus", "power", "table", "negtable", "and", "or", "parity",
        "eq", "lt", "gt", "ge", "le", "ne", "lineq", "linle", "linge", "and", "or", "or"};

    bool boolean(const Case & c, const Term & t)
    {
        if (t.var < 0)
            return t.add == 0 || t.add == 1;
        auto d = c.vars[(size_t)t.var].domain();
        return all_of(d.begin(), d.end(), [&](i64 x) { return ((t.neg ? -x : x) + t.add) == 0 || ((t.neg ? -x : x) + t.add) == 1; });
    }

    Term opposite(Term t)
    {
        t.neg = ! t.neg;
        t.add = 1 - t.add;
        if (t.var < 0)
            t.neg = false;
        return t;
    }

    Term some_boolean(Case & c, Rng & r)
    {
        vector<int> have;
        for (size_t v = 0; v < c.vars.size(); ++v)
            if (boolean(c, Term{(int)v}))
                have.push_back((int)v);
        Term t;
        if (r.chance(4))
            return Term{-1, false, (i64)r.below(2)};
        if (! have.empty() && r.chance(75))
            t.var = r.pick(have);
        else {
            VarDecl d;
            d.lo = 0;
            d.hi = 1;
            c.vars.push_back(d);
            t.var = (int)c.vars.size() - 1;
        }
        return r.chance(25) ? opposite(t) : t;
    }

    // What can be said through the interface: everything else is turned into something which can.
    void fit(Case & c, Rng & r)
    {
        for (auto & k : c.cons) {
            bool compare = k.kind == "eq" || k.kind == "ne" || k.kind == "lt" || k.kind == "le" || k.kind == "gt" || k.kind == "ge";
            bool linear = k.kind == "lineq" || k.kind == "linle" || k.kind == "linge" || k.kind == "linne";
            if (compare || linear) {
                k.reif = compare ? (k.reif > 2 ? k.reif - 2 : k.reif) : k.kind == "linne" ? 0 : k.reif ? 2 : 0;
                if (compare && ! k.reif && r.chance(40))
                    k.reif = (int)r.range(1, 2);
                auto had = k.c;
                k.c.clear();
                if (k.reif) {
                    Cond q;
                    q.t = ! had.empty() && r.chance(30) ? had[0].t : some_boolean(c, r);
                    q.op = NE;
                    q.v = 0;
                    k.c.push_back(q);
                }
            }
            if (k.kind == "and" || k.kind == "or") {
                k.reif = 0;
                if (k.opt & 1 || r.chance(60)) {
                    k.t.assign(2, {});
                    for (i64 n = r.range(1, 4); n > 0; --n)
                        k.t[0].push_back(some_boolean(c, r));
                    k.opt = r.chance(60) ? 2 : 0;
                    if (k.opt)
                        k.t[1] = {some_boolean(c, r)};
                    if (k.kind == "and" && k.opt && r.chance(50)) // if, but not only if
                        k.t[0].push_back(k.t[1][0]);
                }
                k.c.clear();
                k.t.resize(2);
                k.opt &= 2;
            }
            if (k.kind == "parity") {
                k.opt = 0;
                k.t.resize(1);
                while (k.t[0].size() < max<size_t>(k.c.size(), 1))
                    k.t[0].push_back(some_boolean(c, r));
                k.c.clear();
            }
            if (k.kind == "element")
                k.n[0] = {0};
            if (k.kind == "inverse")
                k.n[0] = {0, 0};
            if (k.kind == "in" && ! k.t[1].empty())
                k.n[0].clear();
            if (k.kind == "table" || k.kind == "negtable")
                for (auto & x : k.n[1])
                    if (x == LLONG_MIN)
                        x = 0;
        }
        for (size_t i = 0; i < c.vars.size(); ++i)
            if (c.vars[i].name.empty())
                c.vars[i].name = "X_" + to_string(i) + "_";
    }

    struct Solve
    {
        bool all = true, callback = true, prove = false;
        i64 timeout_ms = -1, limit = 0, fail_at = 0; // the callback raises at the nth solution
        bool positional = false;
    };
    struct Job
    {
        const Case * c = nullptr;
        Solve first;
        size_t held = 0; // constraints posted only after the first solve
        u64 write = 1;
        bool mistakes = false, check_proof = false;
    };
    const Job * job = nullptr;

    // The program which uses the interface.
    struct Program
    {
        const Case & c;
        py::Class & k;
        shared_ptr<void> self;
        Rng r;
        vector<string> vars;                // their identifiers
        vector<pair<Term, string>> terms;   // and those of what was made from them
        size_t said = 0;                    // solutions, in the first solve

        Program(const Case & cc, u64 seed) : c(cc), k(gsim_module_gcspy().classes.at("GCS")), self(k.make()), r(seed)
        {
        }

        py::Value call(const string & name, const py::Args & a, const py::Named & n = {})
        {
            auto m = k.methods.find(name);
            if (m == k.methods.end())
                throw runtime_error{"AttributeError: no " + name};
            return m->second(self.get(), a, n);
        }
        string id(const py::Value & v)
        {
            if (v.kind != py::Value::Str)
                throw runtime_error{"not an identifier"};
            return v.s;
        }
        string one(const Term & t)
        {
            if (t.is_plain())
                return vars.at((size_t)t.var);
            for (auto & [u, s] : terms)
                if (u == t && r.chance(60))
                    return s;
            string s;
            if (t.var < 0)
                s = id(call("create_integer_constant", {t.add}));
            else {
                s = vars.at((size_t)t.var);
                bool again = r.chance(10); // there and back
                i64 part = r.chance(20) ? r.range(-3, 3) : 0;
                auto shift = [&](i64 d) {
                    if (d || r.chance(5))
                        s = id(call("add_constant", {s, d}));
                };
                shift(t.neg ? -part : part);
                if (again)
                    s = id(call("negate", {id(call("negate", {s}))}));
                if (t.neg)
                    s = id(call("negate", {s}));
                shift(t.add - part);
            }
            terms.emplace_back(t, s);
            return s;
        }
        py::Value list(const vector<Term> & ts)
        {
            vector<string> x;
            for (auto & t : ts)
                x.push_back(one(t));
            return x;
        }

        void declare()
        {
            for (auto & v : c.vars) {
                auto d = v.domain();
                sort(d.begin(), d.end());
                vars.push_back(id(call("create_integer_variable", {d.front(), d.back(), v.name})));
                if ((i64)d.size() != d.back() - d.front() + 1)
                    call("post_in", {vars.back(), v.domain()});
            }
            if (c.objective)
                call(c.objective == 1 ? "minimise" : "maximise", {one(c.obj)});
        }

        void post(const Con & q)
        {
            auto & t = q.t;
            auto two = [&] { return py::Args{one(t[0][0]), one(t[0][1])}; };
            static const map<string, string> compare{{"eq", "equals"}, {"ne", "not_equals"}, {"lt", "less_than"}, {"le", "less_than_equal"},
                {"gt", "greater_than"}, {"ge", "greater_than_equal"}},
                arithmetic{{"plus", "sum"}, {"multiply", "mul"}, {"divide", "div"}, {"modulus", "mod"}, {"power", "pow"}},
                linear{{"lineq", "equality"}, {"linle", "less_equal"}, {"linge", "greater_equal"}, {"linne", "not_equal"}};
            if (q.kind == "abs")
                call("post_abs", two());
            else if (arithmetic.contains(q.kind)) {
                auto a = two();
                a.push_back(one(t[0][2]));
                a.push_back(arithmetic.at(q.kind));
                call("post_arithmetic", a);
            }
            else if (compare.contains(q.kind)) {
                auto a = two();
                if (q.reif) {
                    a.push_back(one(q.c[0].t));
                    a.push_back(q.reif == 2);
                }
                call("post_" + compare.at(q.kind) + (q.reif ? "_reif" : ""), a);
            }
            else if (linear.contains(q.kind)) {
                py::Args a{list(t[0]), q.n[0], q.n[1][0]};
                if (q.reif)
                    a.push_back(one(q.c[0].t));
                call("post_linear_" + linear.at(q.kind) + (q.reif ? "_iff" : ""), a);
            }
            else if (q.kind == "and" || q.kind == "or") {
                auto xs = t[0];
                auto name = "post_" + q.kind;
                bool plain = all_of(xs.begin(), xs.end(), [&](auto & x) { return boolean(c, x); });
                if (q.kind == "or" && ! (q.opt & 2)) {
                    // said in one of several ways, when there are some
                    if (xs.size() == 2 && r.chance(50))
                        call("post_implies", {one(opposite(xs[1])), one(xs[0])});
                    else if (xs.size() == 3 && r.chance(50))
                        call("post_implies_reif", {one(opposite(xs[1])), one(xs[0]), one(opposite(xs[2])), false});
                    else if (xs.size() > 1 && r.chance(50)) {
                        auto last = xs.back();
                        xs.pop_back();
                        call("post_or_reif", {list(xs), one(opposite(last)), false});
                    }
                    else
                        call(name, {list(xs)});
                }
                else if (q.opt & 2) {
                    if (q.kind == "or" && xs.size() == 2 && plain && boolean(c, t[1][0]) && r.chance(50))
                        call("post_implies_reif", {one(opposite(xs[1])), one(xs[0]), one(t[1][0]), true});
                    else if (q.kind == "and" && xs.size() > 1 && xs.back() == t[1][0] && r.chance(80)) {
                        xs.pop_back();
                        call("post_and_reif", {list(xs), one(t[1][0]), false});
                    }
                    else
                        call(name + "_reif", {list(xs), one(t[1][0]), true});
                }
                else
                    call(name, {list(xs)});
            }
            else if (q.kind == "alldiff" || q.kind == "circuit" || q.kind == "parity")
                call(q.kind == "alldiff" ? "post_alldifferent" : q.kind == "circuit" ? "post_circuit" : "post_xor", {list(t[0])});
            else if (q.kind == "count")
                call("post_count", {list(t[0]), one(t[1][0]), one(t[1][1])});
            else if (q.kind == "gcc")
                call("post_global_cardinality", {list(t[0]), q.n[0], list(t[1]), (q.opt & 2) != 0});
            else if (q.kind == "min" || q.kind == "max")
                call("post_" + q.kind, {list(t[0]), one(t[1][0])});
            else if (q.kind == "nvalue")
                call("post_nvalue", {one(t[1][0]), list(t[0])});
            else if (q.kind == "table" || q.kind == "negtable") {
                vector<vector<i64>> rows;
                for (i64 i = 0; i < q.n[0][0]; ++i)
                    rows.emplace_back(q.n[1].begin() + i * (i64)t[0].size(), q.n[1].begin() + (i + 1) * (i64)t[0].size());
                call(q.kind == "table" ? "post_table" : "post_negative_table", {list(t[0]), rows});
            }
            else if (q.kind == "inverse")
                call("post_inverse", {list(t[0]), list(t[1])});
            else if (q.kind == "element")
                call("post_element", {one(t[0][0]), one(t[1][0]), list(t[2])});
            else if (q.kind == "in") {
                if (t[1].empty())
                    call("post_in", {one(t[0][0]), q.n[0]});
                else
                    call("post_in_vars", {one(t[0][0]), list(t[1])});
            }
            else
                throw runtime_error{"no call for " + q.kind};
        }

        static void oops(const string & s)
        {
            cout << "oops " << s << endl;
        }
        // Wrong calls raise something, and change nothing.
        void mistake()
        {
            string x = vars.empty() ? "0" : vars[0], no = r.chance(50) ? "no such thing" : "123456";
            vector<string> xs{x, x}, bad{x, no};
            vector<i64> one_coefficient{1}, two{1, 2}, three{1, 2, 3};
            vector<pair<string, py::Args>> calls{{"post_equals", {x, no}}, {"post_abs", {no, x}}, {"post_less_than_reif", {x, x, no, true}},
                {"post_alldifferent", {bad}}, {"post_linear_equality", {bad, two, 0}}, {"post_linear_equality", {xs, one_coefficient, 0}},
                {"post_linear_equality", {xs, three, 0}}, {"post_linear_less_equal", {xs, one_coefficient, 0}}, {"post_linear_not_equal", {xs, three, 1}},
                {"post_linear_greater_equal", {bad, two, 0}}, {"post_linear_equality_iff", {xs, two, 0, no}},
                {"post_linear_equality", {xs, vector<i64>{}, 0}}, {"post_arithmetic", {x, x, x, "root"}}, {"post_arithmetic", {x, x, no, "sum"}},
                {"post_count", {bad, x, x}}, {"post_element", {x, no, xs}}, {"post_and_reif", {xs, no, false}}, {"post_implies", {no, x}},
                {"post_in", {no, two}}, {"post_in_vars", {x, bad}}, {"post_table", {bad, vector<vector<i64>>{{1, 2}}}}, {"minimise", {no}},
                {"maximise", {no}}, {"negate", {no}}, {"add_constant", {no, 1}}, {"get_solution_value", {no}}, {"post_xor", {bad}}, {"post_min", {bad, x}},
                {"post_inverse", {xs, bad}}, {"post_circuit", {bad}}, {"post_nvalue", {no, xs}}, {"post_or", {bad}}, {"post_global_cardinality", {bad, two, xs, true}},
                {"post_equals", {x, 5}}, {"post_equals", {x}}, {"create_integer_variable", {"a", 1, "b"}}};
            auto & [name, args] = calls[r.below(calls.size())];
            try {
                call(name, args);
            }
            catch (const exception &) {
                return;
            }
            oops("a wrong call of " + name + " was accepted");
        }
        // Asking for a proof without saying where is an error too.
        void unprovable()
        {
            py::Named n{{"prove", true}};
            if (r.chance(70))
                n["timeout"] = r.chance(50) ? 1000.0 : 0.001;
            if (r.chance(30))
                n[r.chance(50) ? "proof_name" : "proof_location"] = "p";
            try {
                auto v = call("solve", {}, n);
                if (v.dict.empty())
                    return;
            }
            catch (const exception &) {
                return;
            }
            oops("a proof was asked for without saying where it goes, and that was accepted");
        }
        // What one may well be given: nothing. That may be an error, but no more than that.
        static void nothing(Rng & r, const Case & c)
        {
            Program q{c, r.next()};
            try {
                auto v = q.id(q.call("create_integer_variable", {0, 1, "v"}));
                vector<string> none;
                vector<i64> no_numbers;
                vector<pair<string, py::Args>> calls{{"post_alldifferent", {none}}, {"post_circuit", {none}}, {"post_min", {none, v}}, {"post_max", {none, v}},
                    {"post_or", {none}}, {"post_and", {none}}, {"post_xor", {none}}, {"post_linear_equality", {none, no_numbers, 0}}, {"post_count", {none, v, v}},
                    {"post_nvalue", {v, none}}, {"post_in", {v, no_numbers}}, {"post_element", {v, v, none}}, {"post_inverse", {none, none}},
                    {"post_global_cardinality", {none, no_numbers, none, true}}, {"post_in_vars", {v, none}}, {"post_or_reif", {none, v, true}},
                    {"post_and_reif", {none, v, false}}, {"post_table", {none, vector<vector<i64>>{}}}, {"get_solution_value", {v}}, {"get_api_calls_str", {}}};
                auto & [name, args] = calls[r.below(calls.size())];
                cout << "empty " << name << endl;
                q.call(name, args);
                q.call("solve", {});
            }
            catch (const exception &) {
            }
        }

        void solve(int n, const Solve & s)
        {
            vector<vector<i64>> seen;
            i64 calls = 0;
            py::Value callback{function<py::Value(const vector<py::Value> &)>{[&](const vector<py::Value> & a) -> py::Value {
                if (a.size() != 1 || a[0].kind != py::Value::Dict)
                    oops("the callback was not given a dictionary");
                else {
                    auto & d = a[0].dict;
                    vector<i64> row;
                    for (auto & v : vars)
                        if (! d.contains(v))
                            return oops("the callback was not told of a variable"), py::Value{};
                        else
                            row.push_back(d.at(v).i);
                    for (auto & [t, name] : terms)
                        if (! d.contains(name) || d.at(name).i != value(t, row))
                            oops("the callback was told something else of " + name + " than its variable says");
                    say(n, row);
                    seen.push_back(row);
                }
                if (++calls == s.fail_at)
                    throw py::error_already_set{"raised by the callback"};
                return {};
            }}};
            py::Args a;
            py::Named m;
            py::Value timeout, limit, f, place, name;
            if (s.timeout_ms >= 0)
                timeout = py::Value{(double)s.timeout_ms / 1000};
            if (s.limit)
                limit = py::Value{s.limit};
            if (s.callback)
                f = callback;
            if (s.prove) {
                name = "p";
                place = "sim:";
            }
            if (s.positional)
                a = {s.all, timeout, limit, f, s.prove, name, place};
            else {
                if (! s.all || r.chance(30))
                    m["all_solutions"] = s.all;
                for (auto & [key, v] : map<string, py::Value>{{"timeout", timeout}, {"solution_limit", limit}, {"callback", f}, {"proof_name", name}, {"proof_location", place}})
                    if (v.kind != py::Value::None || r.chance(10))
                        m[key] = v;
                if (s.prove)
                    m["prove"] = true;
            }
            cout << "begin " << n << " " << process_steps() << endl;
            try {
                auto v = call("solve", a, m);
                cout << "end " << n << " " << process_steps() << endl;
                if (v.kind != py::Value::Dict)
                    oops("solve did not return a dictionary");
                else if (v.dict.empty())
                    cout << "error " << n << endl;
                else
                    cout << "done " << n << " " << (v.dict.contains("completed") ? v.dict["completed"].i : -1) << " "
                         << (v.dict.contains("solutions") ? v.dict["solutions"].i : -1) << endl;
            }
            catch (const exception & e) {
                cout << "end " << n << " " << process_steps() << endl;
                cout << "error " << n << " " << e.what() << endl;
            }
            // and what can be asked afterwards
            auto ask = [&](const string & v, i64 at) { return at == -1 && r.chance(50) ? call("get_solution_value", {v}) : call("get_solution_value", {v, at}); };
            auto row_at = [&](i64 at) -> optional<vector<i64>> {
                vector<i64> row;
                for (auto & v : vars) {
                    auto x = ask(v, at);
                    if (x.kind == py::Value::None)
                        return nullopt;
                    row.push_back(x.i);
                }
                return row;
            };
            size_t count = seen.size();
            if (vars.empty())
                return;
            if (n == 1) {
                vector<vector<i64>> asked;
                while (auto row = row_at((i64)asked.size()))
                    asked.push_back(*row);
                if (! s.callback)
                    for (auto & row : asked)
                        say(n, row);
                else if (asked != seen)
                    oops("get_solution_value says something else than the callback was told: " + to_string(asked.size()) + " and " + to_string(seen.size()) + " solutions");
                seen = asked;
                count = asked.size();
                said = count;
                for (i64 beyond : {(i64)count + 1, (i64)count + 1000000, -(i64)count - 1, -(i64)count - 1000000, (i64)LLONG_MAX, (i64)LLONG_MIN + 1})
                    if (row_at(beyond))
                        oops("get_solution_value of solution " + to_string(beyond) + " of " + to_string(count) + " is something");
            }
            for (size_t i = 0; i < count; ++i) {
                auto row = row_at(-(i64)(count - i));
                if (! row || *row != seen[i])
                    oops("counting from the last, get_solution_value says something else of solution " + to_string(i + 1) + " of " + to_string(count));
                for (auto & [t, name] : terms) {
                    auto x = ask(name, -(i64)(count - i));
                    if (x.kind == py::Value::None || x.i != value(t, seen[i]))
                        oops("get_solution_value says something else of " + name + " than of its variable");
                }
            }
        }
        void say(int n, const vector<i64> & row)
        {
            cout << "solution " << n;
            for (auto x : row)
                cout << " " << x;
            cout << "\n";
        }
    };

    int python_main(int, char **)
    {
        auto & j = *job;
        auto & c = *j.c;
        Program p{c, j.write};
        try {
            Rng wrong{j.write ^ 77};
            if (j.mistakes && wrong.chance(60))
                Program::nothing(wrong, c);
            p.declare();
            size_t now = c.cons.size() - min(j.held, c.cons.size());
            for (size_t i = 0; i < now; ++i) {
                if (j.mistakes && wrong.chance(50))
                    p.mistake();
                p.post(c.cons[i]);
            }
            if (j.mistakes && wrong.chance(50))
                p.unprovable();
            if (j.mistakes)
                p.mistake();
            p.solve(1, j.first);
            if (j.check_proof) {
                auto & f = disk().files;
                auto r = pb::check(f["sim:/p.opb"], f["sim:/p.pbp"]);
                cout << "proof " << (r.gave_up ? "large" : r.ok && ! r.assertions ? "good" : "bad") << " " << r.solutions.size() << " "
                     << (r.conclusion.empty() ? "nothing" : r.conclusion) << " " << r.error << endl;
            }
            process_calm();
            disk().plan = {};
            for (size_t i = now; i < c.cons.size(); ++i)
                p.post(c.cons[i]);
            if (j.mistakes)
                p.mistake();
            Solve again;
            again.callback = p.r.chance(70) || true;
            p.solve(2, again);
        }
        catch (const exception & e) {
            Program::oops(string{"a right call was refused: "} + e.what());
        }
        cout << "finished" << endl;
        return 0;
    }

    // What it said of one solve.
    struct Said
    {
        vector<Assignment> sols;
        bool returned = false, error = false, complete = false;
        i64 begin = -1, end = -1, solutions = -1;
        string why, proof;
        i64 proof_solutions = 0;
    };

    vector<Said> listen(const Case & c, const Ran & r, const string & where)
    {
        vector<Said> s(3);
        bool finished = false;
        istringstream in{r.out};
        for (string line; getline(in, line);) {
            istringstream w{line};
            string what;
            size_t n = 0;
            w >> what;
            if (what == "oops")
                throw Violation{"py-wrong " + where + ":" + line.substr(4)};
            if (what == "finished")
                finished = true;
            else if (what == "proof") {
                w >> s[1].proof >> s[1].proof_solutions;
                getline(w, s[1].why);
            }
            else if (what == "begin" || what == "end" || what == "solution" || what == "error" || what == "done") {
                if (! (w >> n) || n < 1 || n > 2)
                    throw Violation{"py-strange " + where + ": " + line};
                auto & q = s[n];
                if (what == "begin")
                    w >> q.begin;
                else if (what == "end")
                    w >> q.end;
                else if (what == "error")
                    q.error = q.returned = true;
                else if (what == "done") {
                    i64 x = 0;
                    w >> x >> q.solutions;
                    q.complete = x == 1;
                    q.returned = true;
                }
                else {
                    Assignment a;
                    for (i64 x; w >> x;)
                        a.push_back(x);
                    if (a.size() != c.vars.size())
                        throw Violation{"py-strange " + where + ": " + line};
                    q.sols.push_back(a);
                }
            }
        }
        if (! finished)
            throw Violation{"py-ended " + where + ": the program was ended" + (r.err.empty() ? "" : ": " + r.err.substr(0, 300))};
        return s;
    }

    void expect_honest(const Case & c, const Said & s, const vector<Assignment> & t, const string & where)
    {
        set<Assignment> seen;
        for (auto & a : s.sols) {
            if (! binary_search(t.begin(), t.end(), a))
                throw Violation{"py-non-solution " + where + ": " + show(a)};
            if (! seen.insert(a).second)
                throw Violation{"py-duplicate " + where + ": " + show(a)};
        }
        i64 sign = c.objective == 2 ? -1 : 1, best = 0;
        if (c.objective) {
            for (size_t i = 1; i < s.sols.size(); ++i)
                if (sign * value(c.obj, s.sols[i]) >= sign * value(c.obj, s.sols[i - 1]))
                    throw Violation{"py-not-improving " + where};
            for (size_t i = 0; i < t.size(); ++i)
                best = i ? min(best, sign * value(c.obj, t[i])) : sign * value(c.obj, t[i]);
        }
        if (s.complete && s.sols.empty() && ! t.empty())
            throw Violation{"py-complete " + where + ": said to be complete without a solution, but there are " + to_string(t.size())};
        if (s.complete && ! c.objective && s.sols.size() != t.size())
            throw Violation{"py-complete " + where + ": said to be complete with " + to_string(s.sols.size()) + " of " + to_string(t.size())};
        if (s.complete && c.objective && ! t.empty() && sign * value(c.obj, s.sols.back()) != best)
            throw Violation{"py-complete " + where + ": said to be complete, but the last is not optimal"};
        if (s.returned && ! s.error && s.solutions != (i64)s.sols.size())
            throw Violation{"py-statistics " + where + ": " + to_string(s.solutions) + " solutions counted, " + to_string(s.sols.size()) + " reported"};
    }

    // what a solve which nobody stopped must have said
    void expect_finished(const Said & s, const Solve & o, const vector<Assignment> & t, const string & where)
    {
        if (s.error)
            throw Violation{"py-error " + where + ": nothing went wrong, but solve failed" + s.why};
        if (! o.all && s.sols.size() > 1)
            throw Violation{"py-limit " + where + ": one solution was asked for"};
        if (t.empty() && ! s.complete)
            throw Violation{"py-unfinished " + where + ": there are no solutions, but it does not say so"};
        if (! t.empty() && s.sols.empty())
            throw Violation{"py-unfinished " + where + ": there are solutions, but it reported none"};
        bool capped = (o.limit && (i64)s.sols.size() >= o.limit) || (! o.all && s.sols.size() == 1);
        if (! s.complete && ! capped)
            throw Violation{"py-unfinished " + where + ": nothing stopped it, but it does not say that it is complete"};
    }
}

Case sim::make_c21(Rng & r)
{
    GenOptions o;
    o.objective = -1;
    o.max_product = 200;
    o.max_vars = (int)r.range(2, 6);
    o.max_cons = (int)r.range(1, 4);
    o.kinds = kinds;
    if (r.chance(12)) { // what a proof may well be asked for of
        o.kinds = {"eq", "ne", "lt", "le", "lineq", "linle", "alldiff", "and", "or", "plus", "table"};
        o.proofs = true;
    }
    Case c = generate(r, o);
    fit(c, r);
    c.p["write"] = r.range(1, 1000000000);
    c.p["all"] = r.chance(80);
    c.p["limit"] = r.chance(20) ? r.range(1, 4) : 0;
    c.p["callback"] = r.chance(75);
    c.p["positional"] = r.chance(25);
    c.p["held"] = r.chance(35) ? r.range(1, 2) : 0;
    c.p["mistakes"] = r.chance(40);
    c.p["pick"] = r.range(0, 3);
    c.p["faults"] = r.range(1, 1000000000);
    return c;
}

void sim::check_c21(const Case & c)
{
    note_shape(c);
    Case early = c;
    size_t held = min((size_t)c.get("held"), c.cons.size());
    early.cons.resize(c.cons.size() - held);
    auto t = truth(c), t1 = held ? truth(early) : t;

    Job base;
    base.c = &c;
    base.held = held;
    base.write = (u64)c.get("write");
    base.mistakes = c.get("mistakes");
    base.first.all = c.get("all");
    base.first.limit = c.get("limit");
    base.first.callback = c.get("callback");
    base.first.positional = c.get("positional");
    Plan quiet;
    quiet.args = {"python"};
    quiet.pick = (int)c.get("pick");
    quiet.seed = (u64)c.get("faults");

    auto run = [&](const Plan & p, const Job & j, const string & where) {
        job = &j;
        auto r = run_process(python_main, p);
        case_hash = mix(case_hash ^ r.hash ^ (u64)r.code);
        tally().schedules.insert(r.hash);
        tally().steps += r.steps;
        tally().hit("processes run");
        tally().hit("thread switches", r.switches);
        if (j.mistakes)
            tally().hit("fault: wrong calls among the right ones");
        if (r.code == 99)
            throw TooLong{};
        if (r.code == 96)
            throw Violation{"py-deadlock " + where + ": every thread waits for something which will never happen"};
        if (r.code >= 128) {
            auto e = r.out.rfind("empty ");
            throw Violation{"py-crash " + where + ": ended by signal " + to_string(r.code - 128) + (r.err.empty() ? "" : ": " + r.err.substr(0, 300)) +
                (e != string::npos && r.out.find("begin") == string::npos ? ", after " + r.out.substr(e, r.out.find('\n', e) - e) : "")};
        }
        if (r.slept)
            throw Violation{"py-not-prompt " + where + ": finished, but waited for its timer before it went on"};
        return r;
    };

    auto plain = run(quiet, base, "undisturbed");
    auto said = listen(c, plain, "undisturbed");
    expect_honest(c, said[1], t1, "undisturbed");
    said[1].why = ": " + plain.err.substr(0, 300);
    expect_finished(said[1], base.first, t1, "undisturbed");
    expect_honest(c, said[2], t, "in the second solve");
    expect_finished(said[2], Solve{}, t, "in the second solve");
    if (t1.size() > 1 && said[1].end - said[1].begin > 4)
        tally().hit("nontrivial");

    Rng r{(u64)c.get("faults")};
    i64 only = c.get("only", -1), n = -1;
    auto disturbed = [&](Plan p, const Job & j, const string & what, bool faulty = false) {
        p.seed = r.next();
        p.switch_permille = r.chance(60) ? 500 : r.chance(50) ? 20 : 1000;
        p.spurious_permille = r.chance(50) ? 0 : 200;
        if (only >= 0 && ++n != only)
            return;
        auto q = run(p, j, what);
        auto s = listen(c, q, what);
        bool in_time = q.stopped_at >= s[1].begin && q.stopped_at <= s[1].end;
        bool stopped = q.stopped_at >= 0 && in_time;
        s[1].why = ": " + q.err.substr(0, 300);
        expect_honest(c, s[1], t1, what);
        bool failed = j.first.fail_at && (i64)s[1].sols.size() >= j.first.fail_at;
        if (failed && s[1].complete)
            throw Violation{"py-complete " + what + ": the callback failed, but the search is said to be complete"};
        if (failed && (i64)s[1].sols.size() > j.first.fail_at)
            throw Violation{"py-not-prompt " + what + ": the callback failed, but the search went on"};
        if (failed)
            tally().hit("fault: callback raises");
        if (j.first.limit && (i64)s[1].sols.size() > j.first.limit)
            throw Violation{"py-limit " + what + ": more solutions than were asked for"};
        if (q.spurious)
            tally().hit("fault: spurious wake-up of the timer", q.spurious);
        if (q.signalled && in_time)
            tally().hit("fault: signal");
        if (q.timed_out)
            tally().hit("fault: timer fired");
        if (stopped) {
            tally().n["most steps after a stop"] = max(tally().n["most steps after a stop"], q.after_stop);
            if (q.after_stop > 40)
                throw Violation{"py-not-prompt " + what + ": " + to_string(q.after_stop) + " more propagators ran"};
            if (s[1].error && ! failed && ! faulty)
                throw Violation{"py-error " + what + ": " + q.err.substr(0, 300)};
            if (! s[1].complete)
                tally().hit(s[1].sols.empty() ? "stopped before anything was known" : "stopped with some solutions");
        }
        else if (! failed && ! (faulty && q.injected))
            expect_finished(s[1], j.first, t1, what);
        if (s[1].proof == "bad" && s[1].complete && ! s[1].error)
            throw Violation{"py-proof " + what + ": said to be complete, but the proof is not: " + s[1].why};
        if (s[1].proof == "good") {
            tally().hit("proofs checked");
            if (s[1].complete && s[1].proof_solutions != (i64)s[1].sols.size())
                throw Violation{"py-proof " + what + ": " + to_string(s[1].proof_solutions) + " solutions in the proof, " + to_string(s[1].sols.size()) + " reported"};
        }
        if (faulty && q.injected && s[1].error)
            tally().hit("solves which said that the proof could not be written");
        // whatever happened, the next one is as good as any
        expect_honest(c, s[2], t, what + ", in the second solve");
        expect_finished(s[2], Solve{}, t, what + ", in the second solve");
    };

    i64 from = said[1].begin + 1, to = said[1].end + 2;
    for (int i = 0; i < 4; ++i) {
        Plan p = quiet;
        p.signal = r.chance(50) ? SIGINT : SIGTERM;
        p.signal_at = r.range(from, to);
        disturbed(p, base, "stopped by a signal at step " + to_string(p.signal_at));
    }
    for (int i = 0; i < 4; ++i) {
        Plan p = quiet;
        Job j = base;
        i64 ms = r.chance(15) ? 0 : r.range(1, to - from + 15);
        if (r.chance(15))
            ms = 100000000;
        j.first.timeout_ms = ms;
        string what = "with a time limit of " + to_string(ms) + " steps";
        if (r.chance(30)) {
            p.jump_at = r.range(from, to);
            p.jump_by = r.range(-3600, 3600) * 1000000000LL;
            what += ", the clock changed at step " + to_string(p.jump_at);
            tally().hit("fault: clock changed");
        }
        if (r.chance(25)) {
            p.signal = SIGTERM;
            p.signal_at = r.range(from, to);
            what += ", a signal at step " + to_string(p.signal_at);
        }
        if (r.chance(25)) {
            j.first.callback = true;
            j.first.fail_at = r.range(1, (i64)max<size_t>(t1.size(), 1));
            what += ", the callback failing at solution " + to_string(j.first.fail_at);
        }
        disturbed(p, j, what);
    }
    if (! t1.empty()) {
        Job j = base;
        j.first.callback = true;
        j.first.fail_at = r.range(1, (i64)t1.size());
        disturbed(quiet, j, "with the callback failing at solution " + to_string(j.first.fail_at));
    }
    bool big = false;
    try {
        too_wide(c);
    }
    catch (const Skip &) {
        big = true;
    }
    if (! big && t.size() < 60 && proofs_without_known_trouble(early)) {
        Job j = base;
        j.first.prove = j.check_proof = true;
        disturbed(quiet, j, "with a proof");
        Plan p = quiet;
        p.disk.capacity = r.range(0, 4000);
        p.disk.error = 28;
        if (r.chance(30)) {
            p.disk = {};
            p.disk.fail_open = r.range(1, 3);
            p.disk.error = 13;
        }
        if (r.chance(50))
            j.first.timeout_ms = 100000000;
        disturbed(p, j, "with a proof, and a disk which fills up", true);
        tally().hit("fault: disk full");
    }
}
