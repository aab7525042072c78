// The FlatZinc front end: the whole program, stopped at any step by a signal or
// its own timer, and honest about what it did.
#include "process.hh"
#include "props.hh"
#include <algorithm>
#include <climits>
#include <csignal>
#include <gcs/gcs.hh>
#include <nlohmann/json.hpp>
#include <sstream>
using namespace std;
using namespace sim;
using json = nlohmann::json;

namespace
{
    const vector<string> kinds{"abs", "alldiff", "alldiff_except", "allequal", "among", "argsort", "binpacking", "circuit", "count", "cumulative",
        "disjunctive", "disjunctive2d", "divide", "element", "elementc", "eq", "ne", "lt", "le", "gcc", "in", "increasing", "inverse", "knapsack", "lexlt",
        "lexle", "lineq", "linle", "linne", "mdd", "max", "min", "modulus", "multiply", "nvalue", "plus", "power", "regular", "seqprecede", "sort", "symalldiff",
        "table", "valueprecede", "and", "or", "parity"};

    bool boolean(const Case & c, const Term & t)
    {
        if (t.var < 0)
            return t.add == 0 || t.add == 1;
        auto d = c.vars[(size_t)t.var].domain();
        return all_of(d.begin(), d.end(), [](i64 x) { return x == 0 || x == 1; });
    }

    Term some_boolean(Case & c, Rng & r)
    {
        vector<int> have;
        for (size_t v = 0; v < c.vars.size(); ++v)
            if (boolean(c, Term{(int)v}))
                have.push_back((int)v);
        if (! have.empty() && r.chance(70))
            return Term{r.pick(have)};
        VarDecl d;
        d.lo = 0;
        d.hi = 1;
        c.vars.push_back(d);
        return Term{(int)c.vars.size() - 1};
    }

    // What can be said in FlatZinc: everything else is turned into something which can.
    void fit(Case & c, Rng & r)
    {
        static const set<string> reified{"lt", "le", "eq", "ne", "lineq", "linle", "linne", "lexlt", "lexle"};
        for (auto & k : c.cons) {
            bool had = k.reif;
            if (reified.contains(k.kind)) {
                k.reif = 0;
                k.c.clear();
                if (had) {
                    Cond q;
                    q.t = some_boolean(c, r);
                    q.op = EQ;
                    q.v = 1;
                    k.reif = 2;
                    k.c.push_back(q);
                }
            }
            if (k.kind == "in" && k.t[1].empty() && r.chance(50)) {
                Cond q;
                q.t = some_boolean(c, r);
                q.op = EQ;
                q.v = 1;
                k.reif = 2;
                k.c = {q};
                if (r.chance(10))
                    k.n[0].clear();
            }
            if (k.kind == "mdd") // there is one node where everything ends
                k.n[2] = {0};
            if (k.kind == "and" || k.kind == "or") {
                // literals are variables which are true, or in clauses false
                vector<Cond> q;
                for (i64 n = r.range(0, 3) + 1; n > 0; --n) {
                    Cond x;
                    x.t = some_boolean(c, r);
                    x.op = EQ;
                    x.v = k.kind == "or" && ! q.empty() && r.chance(40) ? 0 : 1;
                    q.push_back(x);
                }
                if (k.kind == "or" && r.chance(50))
                    q[0].t = Term{-1, false, 1};
                k.c = q;
                k.t.assign(1, {});
                k.opt = 1;
                k.reif = 0;
            }
            if (k.kind == "parity") {
                k.opt = 0;
                k.t.resize(1);
                while (k.t[0].size() < k.c.size())
                    k.t[0].push_back(some_boolean(c, r));
                k.c.clear();
                for (auto & t : k.t[0])
                    if (! boolean(c, t))
                        t = some_boolean(c, r);
            }
            if (k.kind == "element" || k.kind == "elementc" || k.kind == "symalldiff" || k.kind == "argsort")
                k.n[0] = {1};
            if (k.kind == "inverse")
                k.n[0] = {1, 1};
            if (k.kind == "table")
                for (auto & x : k.n[1])
                    if (x == LLONG_MIN)
                        x = 0;
            if (k.kind == "knapsack") { // a weight and a profit
                if (k.n.size() < 2)
                    k.n.push_back(k.n[0]);
                if (k.t[1].size() < 2)
                    k.t[1].push_back(k.t[1][0]);
                k.n.resize(2);
                k.t[1].resize(2);
            }
            if (k.kind == "regular" && ! k.s.empty()) {
                k.s.clear();
                k.n = {{1}, {}, {0}};
                for (i64 v = 0; v < 3; ++v)
                    k.n[1].insert(k.n[1].end(), {0, v, 0});
            }
            if (k.kind == "regular") { // one transition for each symbol, which start at 0
                vector<i64> t;
                set<pair<i64, i64>> seen;
                for (size_t i = 0; i + 2 < k.n[1].size(); i += 3)
                    if (k.n[1][i + 1] >= 0 && k.n[1][i + 1] < 30 && seen.insert({k.n[1][i], k.n[1][i + 1]}).second)
                        t.insert(t.end(), k.n[1].begin() + (long)i, k.n[1].begin() + (long)i + 3);
                k.n[1] = t;
            }
        }
        for (auto & k : c.cons)
            for (auto & ts : k.t)
                for (auto & t : ts)
                    if (t.var >= 0)
                        t.neg = false, t.add = 0;
        if (c.objective) {
            if (c.obj.var < 0)
                c.obj.var = 0;
            c.obj.neg = false;
            c.obj.add = 0;
        }
        set<string> used;
        for (auto & v : c.vars)
            if (! v.name.empty())
                used.insert(v.name);
        for (size_t i = 0; i < c.vars.size(); ++i)
            if (c.vars[i].name.empty()) {
                c.vars[i].name = "X_" + to_string(i) + "_";
            }
    }

    // The model. named: whether lists are declared, or written where they are used.
    struct Writer
    {
        const Case & c;
        Rng r;
        json arrays = json::object(), constraints = json::array();
        int n = 0;

        bool as_bool(size_t v) const
        {
            return boolean(c, Term{(int)v}) && (c.get("bools") >> (v % 60) & 1) && c.vars[v].is_range && c.vars[v].lo == 0 && c.vars[v].hi == 1;
        }
        json one(const Term & t)
        {
            return t.var < 0 ? json(t.add) : json(c.vars[(size_t)t.var].name);
        }
        json named(json a)
        {
            if (! r.chance(50) || a.empty())
                return a;
            string name = "A_" + to_string(n++) + "_";
            arrays[name] = {{"a", a}};
            return name;
        }
        json list(const vector<Term> & ts)
        {
            json a = json::array();
            for (auto & t : ts)
                a.push_back(one(t));
            return named(a);
        }
        json ints(const vector<i64> & xs)
        {
            json a = json::array();
            for (auto x : xs)
                a.push_back(x);
            return named(a);
        }
        json setof(vector<i64> xs)
        {
            sort(xs.begin(), xs.end());
            xs.erase(unique(xs.begin(), xs.end()), xs.end());
            json a = json::array();
            for (size_t i = 0; i < xs.size();) {
                size_t j = i;
                while (j + 1 < xs.size() && xs[j + 1] == xs[j] + 1)
                    ++j;
                a.push_back({xs[i], xs[j]});
                i = j + 1;
            }
            return {{"set", a}};
        }
        void say(string id, json args)
        {
            // what is said of Booleans has names of its own
            static const map<string, vector<string>> also{{"int_eq", {"bool_eq"}}, {"int_eq_reif", {"bool_eq_reif"}}, {"int_le", {"bool_le"}},
                {"int_le_reif", {"bool_le_reif"}}, {"int_lt", {"bool_lt"}}, {"int_lt_reif", {"bool_lt_reif"}}, {"int_ne", {"bool_not", "bool_xor"}},
                {"int_ne_reif", {"bool_xor"}}, {"array_int_element", {"array_bool_element"}}, {"array_var_int_element", {"array_var_bool_element"}},
                {"glasgow_increasing_int", {"glasgow_increasing_bool"}}, {"glasgow_lex_less_int", {"glasgow_lex_less_bool"}},
                {"glasgow_lex_lesseq_int", {"glasgow_lex_lesseq_bool"}}, {"glasgow_lex_less_int_reif", {"glasgow_lex_less_bool_reif"}},
                {"glasgow_lex_lesseq_int_reif", {"glasgow_lex_lesseq_bool_reif"}}, {"glasgow_member_int", {"glasgow_member_bool"}},
                {"glasgow_table_int", {"glasgow_table_bool"}}};
            if (auto i = also.find(id); i != also.end() && r.chance(30))
                id = r.pick(i->second);
            tally().hit("FlatZinc " + id);
            constraints.push_back({{"id", id}, {"args", args}});
        }

        void constraint(const Con & k)
        {
            auto & t = k.t;
            auto a = json::array();
            auto add = [&](json x) { a.push_back(x); };
            string id, suffix = k.reif ? "_reif" : "";
            auto reify = [&] {
                if (k.reif)
                    add(one(k.c[0].t));
            };
            if (k.kind == "abs" || k.kind == "divide" || k.kind == "modulus" || k.kind == "multiply" || k.kind == "plus" || k.kind == "power") {
                static const map<string, string> names{{"abs", "int_abs"}, {"divide", "int_div"}, {"modulus", "int_mod"}, {"multiply", "int_times"},
                    {"plus", "int_plus"}, {"power", "int_pow"}};
                for (auto & x : t[0])
                    add(one(x));
                id = names.at(k.kind);
            }
            else if (k.kind == "eq" || k.kind == "ne" || k.kind == "lt" || k.kind == "le") {
                for (auto & x : t[0])
                    add(one(x));
                reify();
                id = "int_" + k.kind + suffix;
                if (k.kind == "eq" && ! k.reif && r.chance(30))
                    id = "bool2int";
            }
            else if (k.kind == "lineq" || k.kind == "linle" || k.kind == "linne") {
                add(ints(k.n[0]));
                add(list(t[0]));
                add(k.n[1][0]);
                reify();
                id = "int_lin_" + k.kind.substr(3) + suffix;
                if (! k.reif && k.kind != "linne" && r.chance(20))
                    id = "bool_lin_" + k.kind.substr(3);
            }
            else if (k.kind == "min" || k.kind == "max") {
                if (t[0].size() == 2 && r.chance(60)) {
                    id = "int_" + k.kind;
                    add(one(t[0][0]));
                    add(one(t[0][1]));
                    add(one(t[1][0]));
                }
                else {
                    id = k.kind == "min" ? "array_int_minimum" : "array_int_maximum";
                    add(one(t[1][0]));
                    add(list(t[0]));
                }
            }
            else if (k.kind == "element" || k.kind == "elementc") {
                id = k.kind == "element" ? "array_var_int_element" : "array_int_element";
                add(one(t[1][0]));
                add(k.kind == "element" ? list(t[2]) : ints(k.n[1]));
                add(one(t[0][0]));
            }
            else if (k.kind == "and") {
                vector<Term> xs;
                for (size_t i = 1; i < k.c.size(); ++i)
                    xs.push_back(k.c[i].t);
                if (xs.size() == 2 && r.chance(50)) {
                    id = "bool_and";
                    add(one(xs[0]));
                    add(one(xs[1]));
                }
                else {
                    id = "array_bool_and";
                    add(list(xs));
                }
                add(one(k.c[0].t));
            }
            else if (k.kind == "or") {
                vector<Term> yes, no;
                for (size_t i = 1; i < k.c.size(); ++i)
                    (k.c[i].v ? yes : no).push_back(k.c[i].t);
                bool always = k.c[0].t.var < 0;
                if (yes.size() == 2 && no.empty() && ! always && r.chance(50)) {
                    id = "bool_or";
                    add(one(yes[0]));
                    add(one(yes[1]));
                    add(one(k.c[0].t));
                }
                else {
                    id = always ? "bool_clause" : "bool_clause_reif";
                    add(list(yes));
                    add(list(no));
                    if (! always)
                        add(one(k.c[0].t));
                }
            }
            else if (k.kind == "parity") {
                id = "array_bool_xor";
                add(list(t[0]));
            }
            else if (k.kind == "alldiff" || k.kind == "allequal" || k.kind == "circuit" || k.kind == "seqprecede" || k.kind == "symalldiff") {
                static const map<string, string> names{{"alldiff", "alldifferent"}, {"allequal", "all_equal_int"}, {"circuit", "circuit"},
                    {"seqprecede", "seq_precede_chain_int"}, {"symalldiff", "symmetric_all_different"}};
                id = "glasgow_" + names.at(k.kind);
                add(list(t[0]));
            }
            else if (k.kind == "alldiff_except") {
                id = "glasgow_all_different_except_int";
                add(list(t[0]));
                add(setof(k.n[0]));
            }
            else if (k.kind == "among") {
                id = "glasgow_among";
                add(one(t[1][0]));
                add(list(t[0]));
                add(ints(k.n[0]));
            }
            else if (k.kind == "argsort" || k.kind == "sort" || k.kind == "inverse") {
                id = k.kind == "argsort" ? "glasgow_arg_sort_int" : "glasgow_" + k.kind;
                add(list(t[0]));
                add(list(t[1]));
            }
            else if (k.kind == "lexlt" || k.kind == "lexle") {
                id = (k.kind == "lexlt" ? "glasgow_lex_less_int" : "glasgow_lex_lesseq_int") + suffix;
                add(list(t[0]));
                add(list(t[1]));
                reify();
            }
            else if (k.kind == "binpacking") {
                id = k.opt & 1 ? "glasgow_bin_packing_load" : "glasgow_bin_packing_capa";
                add(k.opt & 1 ? list(t[1]) : ints(k.n[1]));
                add(list(t[0]));
                add(ints(k.n[0]));
            }
            else if (k.kind == "count") {
                id = "glasgow_count_eq";
                add(list(t[0]));
                add(one(t[1][0]));
                add(one(t[1][1]));
            }
            else if (k.kind == "cumulative") {
                id = t[3].empty() ? "glasgow_cumulative" : "glasgow_cumulative_opt";
                for (int i = 0; i < 3; ++i)
                    add(list(t[(size_t)i]));
                if (! t[3].empty())
                    add(list(t[3]));
                add(one(t[4][0]));
            }
            else if (k.kind == "disjunctive") {
                id = string{"glasgow_disjunctive"} + (k.n[0][0] ? "_strict" : "") + (t[2].empty() ? "" : "_opt");
                add(list(t[0]));
                add(list(t[1]));
                if (! t[2].empty())
                    add(list(t[2]));
            }
            else if (k.kind == "disjunctive2d") {
                id = k.n[0][0] ? "glasgow_diffn" : "glasgow_diffn_nonstrict";
                for (int i = 0; i < 4; ++i)
                    add(list(t[(size_t)i]));
            }
            else if (k.kind == "gcc") {
                id = k.opt & 2 ? "glasgow_global_cardinality_closed" : "glasgow_global_cardinality";
                add(list(t[0]));
                add(ints(k.n[0]));
                add(list(t[1]));
            }
            else if (k.kind == "in") {
                if (t[1].empty()) {
                    id = "set_in" + suffix;
                    add(one(t[0][0]));
                    add(setof(k.n[0]));
                    reify();
                }
                else {
                    id = "glasgow_member_int";
                    auto all = t[1];
                    for (auto x : k.n[0])
                        all.push_back(Term{-1, false, x});
                    add(list(all));
                    add(one(t[0][0]));
                }
            }
            else if (k.kind == "increasing") {
                id = k.opt % 2 ? "glasgow_strictly_increasing_int" : "glasgow_increasing_int";
                auto xs = t[0];
                if ((k.opt & 255) >= 2)
                    reverse(xs.begin(), xs.end());
                add(list(xs));
            }
            else if (k.kind == "knapsack") {
                id = "glasgow_knapsack";
                add(ints(k.n[0]));
                add(ints(k.n[1]));
                add(list(t[0]));
                add(one(t[1][0]));
                add(one(t[1][1]));
            }
            else if (k.kind == "nvalue") {
                id = "glasgow_nvalue";
                add(one(t[1][0]));
                add(list(t[0]));
            }
            else if (k.kind == "regular") {
                // FlatZinc numbers states from 1, and any of them may be where it starts
                id = "glasgow_regular";
                i64 q = k.n[0][0], s = 1;
                for (size_t i = 0; i + 2 < k.n[1].size(); i += 3)
                    s = max(s, k.n[1][i + 1] + 1);
                vector<i64> called((size_t)q);
                for (i64 i = 0; i < q; ++i)
                    called[(size_t)i] = i + 1;
                if (c.get("start"))
                    r.shuffle(called);
                vector<i64> d((size_t)(q * s), 0);
                for (size_t i = 0; i + 2 < k.n[1].size(); i += 3)
                    d[(size_t)((called[(size_t)k.n[1][i]] - 1) * s + k.n[1][i + 1])] = k.n[1][i + 2] < 0 ? 0 : called[(size_t)k.n[1][i + 2]];
                vector<i64> f;
                for (auto x : k.n[2])
                    f.push_back(called[(size_t)x]);
                add(list(t[0]));
                add(q);
                add(s);
                add(ints(d));
                add(called[0]);
                add(setof(f));
            }
            else if (k.kind == "mdd") {
                // nodes are numbered from 1, which is the root; 0 is where everything ends
                id = "glasgow_mdd";
                vector<pair<i64, i64>> nodes;
                for (size_t l = 1; l < k.n[1].size(); ++l)
                    for (i64 q = 0; q < k.n[1][l]; ++q)
                        if (l + 1 < k.n[1].size() || q != 0)
                            nodes.emplace_back(l, q);
                r.shuffle(nodes);
                nodes.emplace(nodes.begin(), 0, 0);
                map<pair<i64, i64>, i64> called{{{(i64)k.n[1].size() - 1, 0}, 0}};
                vector<i64> level, from, to;
                for (auto & q : nodes) {
                    called.emplace(q, (i64)level.size() + 1);
                    level.push_back(q.first + 1);
                }
                map<pair<i64, i64>, vector<i64>> edges;
                for (size_t i = 0; i + 3 < k.n[0].size(); i += 4)
                    edges[{called.at({k.n[0][i], k.n[0][i + 1]}), called.at({k.n[0][i] + 1, k.n[0][i + 3]})}].push_back(k.n[0][i + 2]);
                vector<pair<pair<i64, i64>, vector<i64>>> es(edges.begin(), edges.end());
                r.shuffle(es);
                auto labels = json::array();
                for (auto & [e, vs] : es) {
                    from.push_back(e.first);
                    to.push_back(e.second);
                    labels.push_back(setof(vs));
                }
                add(list(t[0]));
                add(nodes.size());
                add(ints(level));
                add(es.size());
                add(ints(from));
                add(named(labels));
                add(ints(to));
            }
            else if (k.kind == "table") {
                id = "glasgow_table_int";
                add(list(t[0]));
                add(ints(k.n[1]));
            }
            else if (k.kind == "valueprecede") {
                if (k.n[0].size() == 2 && r.chance(60)) {
                    id = "glasgow_value_precede_int";
                    add(k.n[0][0]);
                    add(k.n[0][1]);
                }
                else {
                    id = "glasgow_value_precede_chain_int";
                    add(ints(k.n[0]));
                }
                add(list(t[0]));
            }
            else
                throw Skip{"no FlatZinc for " + k.kind};
            say(id, a);
        }

        string model()
        {
            json vars = json::object(), output = json::array();
            for (size_t i = 0; i < c.vars.size(); ++i) {
                auto & v = c.vars[i];
                json d;
                if (as_bool(i))
                    d["type"] = "bool";
                else {
                    d["type"] = "int";
                    d["domain"] = v.is_range ? json::array({{v.lo, v.hi}}) : setof(v.values)["set"];
                }
                if (r.chance(20))
                    d["defined"] = r.chance(80);
                vars[v.name] = d;
            }
            for (auto & k : c.cons)
                constraint(k);
            // said one by one, and some of it again in a list
            vector<size_t> order;
            for (size_t i = 0; i < c.vars.size(); ++i)
                order.push_back(i);
            r.shuffle(order);
            json together = json::array();
            for (auto i : order) {
                output.push_back(c.vars[i].name);
                together.push_back(c.vars[i].name);
            }
            arrays["ALL_"] = {{"a", together}};
            output.push_back("ALL_");
            json solve{{"method", c.objective == 0 ? "satisfy" : c.objective == 1 ? "minimize" : "maximize"}};
            if (c.objective)
                solve["objective"] = c.vars[(size_t)c.obj.var].name;
            if (c.get("ann")) {
                static const vector<string> var{"first_fail", "input_order", "dom_w_deg", "smallest", "anti_first_fail"};
                static const vector<string> val{"indomain", "indomain_min", "indomain_max", "indomain_median", "outdomain_max", "outdomain_min",
                    "indomain_split", "indomain_split_random", "indomain_random", "indomain_interval"};
                Rng q{(u64)c.get("ann")};
                auto search = [&]() -> json {
                    json over = json::array();
                    for (auto i : order)
                        if (q.chance(60))
                            over.push_back(c.vars[i].name);
                    return {{"id", q.chance(80) ? "int_search" : "bool_search"}, {"args", {over, q.pick(var), q.pick(val), "complete"}}};
                };
                json anns = json::array();
                if (q.chance(30)) {
                    json seq = json::array();
                    for (i64 n = q.range(1, 3); n > 0; --n)
                        seq.push_back(search());
                    anns.push_back({{"id", "seq_search"}, {"args", {seq}}});
                }
                else
                    anns.push_back(search());
                solve["ann"] = anns;
            }
            return json{{"variables", vars}, {"arrays", arrays}, {"constraints", constraints}, {"output", output}, {"solve", solve}, {"version", "1.0"}}.dump();
        }
    };

    // What it printed.
    struct Said
    {
        vector<Assignment> sols;
        bool complete = false, unsat = false, unknown = false;
    };

    Said listen(const Case & c, const Ran & r, const string & where)
    {
        Said s;
        auto strange = [&](const string & line) { return Violation{"strange-output " + where + ": " + line}; };
        map<string, size_t> of;
        for (size_t i = 0; i < c.vars.size(); ++i)
            of[c.vars[i].name] = i;
        istringstream in{r.out};
        map<size_t, i64> now;
        auto number = [&](string t, const string & line) -> i64 {
            if (t == "true" || t == "false")
                return t == "true";
            try {
                size_t used = 0;
                i64 v = stoll(t, &used);
                if (used == t.size())
                    return v;
            }
            catch (const exception &) {
            }
            throw strange(line);
        };
        if (! r.out.empty() && r.out.back() != '\n')
            throw strange("it ends in the middle of a line");
        for (string line; getline(in, line);) {
            if (line.starts_with("%"))
                continue;
            if (s.complete || s.unsat || s.unknown)
                throw strange("more after the final status: " + line);
            if (line == "==========")
                s.complete = true;
            else if (line == "=====UNSATISFIABLE=====")
                s.unsat = true;
            else if (line == "=====UNKNOWN=====")
                s.unknown = true;
            else if (line == "----------") {
                Assignment a;
                for (size_t i = 0; i < c.vars.size(); ++i) {
                    if (! now.contains(i))
                        throw strange("a solution without " + c.vars[i].name);
                    a.push_back(now[i]);
                }
                s.sols.push_back(a);
                now.clear();
            }
            else {
                auto e = line.find(" = ");
                if (e == string::npos || line.back() != ';')
                    throw strange(line);
                auto name = line.substr(0, e), text = line.substr(e + 3, line.size() - e - 4);
                if (name == "ALL_") {
                    if (text.size() < 2 || text.front() != '[' || text.back() != ']')
                        throw strange(line);
                    vector<i64> parts, want;
                    istringstream ps{text.substr(1, text.size() - 2)};
                    for (string p; getline(ps, p, ',');)
                        parts.push_back(number(p.substr(p.find_first_not_of(' ')), line));
                    for (auto & [_, x] : now)
                        want.push_back(x);
                    auto isbool = text.find('e') != string::npos; // a list with one true or false in it is all true and false
                    sort(parts.begin(), parts.end());
                    sort(want.begin(), want.end());
                    if (! isbool && parts != want)
                        throw strange("the list disagrees with its members: " + line);
                }
                else {
                    if (! of.contains(name))
                        throw strange(line);
                    if (! now.emplace(of[name], number(text, line)).second)
                        throw strange("twice in one solution: " + line);
                }
            }
        }
        if (! now.empty() && r.code == 0)
            throw strange("an unfinished solution");
        return s;
    }

    void expect_honest(const Case & c, const Said & s, const vector<Assignment> & t, const string & where)
    {
        set<Assignment> seen;
        for (auto & a : s.sols) {
            if (! binary_search(t.begin(), t.end(), a))
                throw Violation{"fzn-non-solution " + where + ": " + show(a)};
            if (! seen.insert(a).second)
                throw Violation{"fzn-duplicate " + where + ": " + show(a)};
        }
        i64 sign = c.objective == 2 ? -1 : 1, best = 0;
        if (c.objective) {
            for (size_t i = 1; i < s.sols.size(); ++i)
                if (sign * value(c.obj, s.sols[i]) >= sign * value(c.obj, s.sols[i - 1]))
                    throw Violation{"fzn-not-improving " + where};
            for (size_t i = 0; i < t.size(); ++i)
                best = i ? min(best, sign * value(c.obj, t[i])) : sign * value(c.obj, t[i]);
        }
        if (s.unsat && ! t.empty())
            throw Violation{"fzn-unsat " + where + ": said to have no solutions, but it has " + to_string(t.size())};
        if (s.unsat && ! s.sols.empty())
            throw Violation{"fzn-unsat " + where + ": after printing solutions"};
        if (s.unknown && ! s.sols.empty())
            throw Violation{"fzn-unknown " + where + ": after printing solutions"};
        if (s.complete && s.sols.empty())
            throw Violation{"fzn-complete " + where + ": said to be complete without a solution"};
        if (s.complete && ! c.objective && s.sols.size() != t.size())
            throw Violation{"fzn-complete " + where + ": said to be complete with " + to_string(s.sols.size()) + " of " + to_string(t.size())};
        if (s.complete && c.objective && sign * value(c.obj, s.sols.back()) != best)
            throw Violation{"fzn-complete " + where + ": said to be complete, but the last is not optimal"};
    }
}

Case sim::make_c13(Rng & r)
{
    GenOptions o;
    o.objective = -1;
    o.views = false;
    o.max_product = 300;
    o.max_vars = (int)r.range(3, 6);
    o.max_cons = (int)r.range(1, 3);
    o.kinds = kinds;
    Case c = generate(r, o);
    fit(c, r);
    c.p["bools"] = (i64)(r.next() >> 2);
    if (r.chance(60)) // so that there is time for more models
        c.p["calm"] = 1;
    c.p["write"] = r.range(1, 1000000000);
    c.p["start"] = r.chance(60);
    if (r.chance(60))
        c.p["ann"] = r.range(1, 1000000000);
    c.p["all"] = r.chance(75);
    c.p["free"] = r.chance(20);
    c.p["limit"] = r.chance(20) ? r.range(1, 4) : 0;
    c.p["stats"] = r.chance(30);
    c.p["inter"] = r.chance(20);
    c.p["restarts"] = r.chance(20) ? r.range(1, 20) : 0;
    c.p["diff"] = r.chance(20) ? r.range(1, 2) : 0;
    c.p["pick"] = r.range(0, 3);
    c.p["faults"] = r.range(1, 1000000000);
    return c;
}

void sim::check_c13(const Case & c)
{
    note_shape(c);
    auto t = truth(c);
    Writer w{c, Rng{(u64)c.get("write")}};
    auto model = w.model();

    Plan base;
    base.files["sim:/model.json"] = model;
    base.pick = (int)c.get("pick");
    base.seed = (u64)c.get("faults");
    auto & a = base.args;
    a = {"fzn-glasgow", "sim:/model.json", "-r", "17"};
    if (c.get("all"))
        a.push_back("-a");
    if (c.get("free"))
        a.push_back("--free-search");
    if (c.get("inter"))
        a.push_back("-i");
    if (c.get("stats"))
        a.push_back("--statistics");
    i64 limit = c.get("limit");
    if (limit) {
        a.push_back("-n");
        a.push_back(to_string(limit));
    }
    if (c.get("restarts")) {
        a.push_back("--restarts");
        a.push_back(to_string(c.get("restarts")));
    }
    if (c.get("diff")) {
        a.push_back("--difference-logic");
        a.push_back(string{"--difference-logic-simplify="} + (c.get("diff") == 1 ? "on" : "off"));
    }

    auto run = [&](const Plan & p, const string & where) {
        auto r = run_process(gsim_fzn_main, p);
        case_hash = mix(case_hash ^ r.hash ^ (u64)r.code);
        tally().schedules.insert(r.hash);
        tally().steps += r.steps;
        tally().hit("processes run");
        tally().hit("thread switches", r.switches);
        if (r.code == 99)
            throw TooLong{};
        if (r.code == 96)
            throw Violation{"fzn-deadlock " + where + ": every thread waits for something which will never happen"};
        if (r.code >= 128)
            throw Violation{"fzn-crash " + where + ": ended by signal " + to_string(r.code - 128) + (r.err.empty() ? "" : ": " + r.err.substr(0, 300))};
        if (r.slept)
            throw Violation{"fzn-not-prompt " + where + ": finished, but waited for its timer before it ended"};
        return r;
    };
    auto error = [](const Ran & r) { return r.err.substr(0, 300); };
    // what a run which nobody stopped must have said
    auto expect_finished = [&](const Said & s, const string & where) {
        bool all = c.get("all") || c.objective;
        bool capped = limit ? (i64)s.sols.size() >= limit : ! all;
        if (limit && (i64)s.sols.size() > limit)
            throw Violation{"fzn-limit " + where + ": more solutions than were asked for"};
        if (t.empty() && ! s.unsat)
            throw Violation{"fzn-unfinished " + where + ": there are no solutions, but it does not say so"};
        if (! t.empty() && s.sols.empty())
            throw Violation{"fzn-unfinished " + where + ": there are solutions, but it printed none"};
        if (! t.empty() && ! s.complete && ! capped)
            throw Violation{"fzn-unfinished " + where + ": nothing stopped it, but it does not say that it is complete"};
        if (! limit && ! all && s.sols.size() > 1)
            throw Violation{"fzn-limit " + where + ": one solution was asked for"};
    };

    auto plain = run(base, "undisturbed");
    if (plain.code)
        throw Violation{"fzn-error undisturbed: exit status " + to_string(plain.code) + ": " + error(plain)};
    auto said = listen(c, plain, "undisturbed");
    expect_honest(c, said, t, "undisturbed");
    expect_finished(said, "undisturbed");
    if (t.size() > 1 && plain.steps > 4)
        tally().hit("nontrivial");

    if (c.get("calm"))
        return;
    Rng r{(u64)c.get("faults")};
    i64 only = c.get("only", -1), n = -1;
    auto disturbed = [&](Plan p, const string & what, bool faulty = false) {
        p.seed = r.next();
        p.switch_permille = r.chance(60) ? 500 : r.chance(50) ? 20 : 1000;
        p.spurious_permille = r.chance(50) ? 0 : 200;
        if (only >= 0 && ++n != only)
            return;
        auto q = run(p, what);
        if (q.code && ! faulty)
            throw Violation{"fzn-error " + what + ": exit status " + to_string(q.code) + ": " + error(q)};
        auto s = listen(c, q, what);
        expect_honest(c, s, t, what);
        if (q.spurious)
            tally().hit("fault: spurious wake-up of the timer", q.spurious);
        if (q.signalled)
            tally().hit("fault: signal");
        if (q.timed_out)
            tally().hit("fault: timer fired");
        if (q.stopped_at >= 0) {
            tally().n["most steps after a stop"] = max(tally().n["most steps after a stop"], q.after_stop);
            if (q.after_stop > 40)
                throw Violation{"fzn-not-prompt " + what + ": " + to_string(q.after_stop) + " more propagators ran"};
            if (s.sols.empty() && ! s.unsat && ! s.unknown)
                throw Violation{"fzn-silent " + what + ": no solutions and no status"};
            if (s.unknown)
                tally().hit("stopped before anything was known");
            else if (! s.complete && ! s.unsat)
                tally().hit("stopped with some solutions");
        }
        else if (! q.code)
            expect_finished(s, what);
        if (faulty && ! q.code && q.injected == 0)
            expect_finished(s, what);
    };

    i64 steps = (i64)plain.steps;
    for (int i = 0; i < 4; ++i) {
        Plan p = base;
        p.signal = r.chance(50) ? SIGINT : SIGTERM;
        p.signal_at = r.range(1, steps + 3);
        disturbed(p, "stopped by a signal at step " + to_string(p.signal_at));
    }
    for (int i = 0; i < 4; ++i) {
        Plan p = base;
        i64 ms = r.chance(15) ? 0 : r.range(1, steps + 20);
        if (r.chance(15))
            ms = 100000000;
        p.args.push_back("--timeout");
        p.args.push_back(to_string(ms));
        string what = "with a time limit of " + to_string(ms) + " steps";
        if (r.chance(30)) {
            p.jump_at = r.range(1, steps + 1);
            p.jump_by = r.range(-3600, 3600) * 1000000000LL;
            what += ", the clock changed at step " + to_string(p.jump_at);
            tally().hit("fault: clock changed");
        }
        if (r.chance(25)) {
            p.signal = SIGTERM;
            p.signal_at = r.range(1, steps + 3);
            what += ", a signal at step " + to_string(p.signal_at);
        }
        disturbed(p, what);
    }
    { // reads which do less than they could, or are interrupted
        Plan p = base;
        p.disk.short_read_permille = 700;
        p.disk.eintr_permille = 300;
        p.disk.seed = r.below(1000000000) + 1;
        disturbed(p, "with short and interrupted reads");
        tally().hit("fault: short and interrupted reads");
    }
    { // a file cut short says nothing
        Plan p = base;
        auto & f = p.files["sim:/model.json"];
        f.resize(r.below(f.size()));
        p.seed = r.next();
        if (only < 0 || ++n == only) {
            auto q = run(p, "given a model cut short");
            if (! q.code || q.out.find('=') != string::npos || q.out.find("----") != string::npos)
                throw Violation{"fzn-cut: a model cut short at byte " + to_string(f.size()) + " was accepted"};
            tally().hit("fault: model cut short");
        }
    }
    if (proofs_without_known_trouble(c)) { // a proof which cannot be written is not a success
        Plan p = base;
        p.args.push_back("--prove");
        p.args.push_back("--proof-files-basename");
        p.args.push_back("sim:/proof");
        p.disk.capacity = (i64)model.size() + r.range(0, 3000);
        p.disk.error = 28;
        disturbed(p, "with a disk which fills up", true);
        tally().hit("fault: disk full");
    }
}
