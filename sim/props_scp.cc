// Problems written as s-expressions: read back, they are the same problem; cut
// short, they are no problem at all.
#include "process.hh"
#include "props.hh"
#include <algorithm>
#include <gcs/innards/s_expr.hh>
#include <gcs/scp_reader.hh>
#include <sstream>
#if __has_include(<format>) && defined(__cpp_lib_format)
#include <format>
#endif
using namespace std;
using namespace sim;
using gcs::Integer;
using gcs::IntegerVariableID;

namespace
{
    // Shapes the format's documentation says it does not carry.
    bool has_views(const Case & c)
    {
        auto odd = [](const Term & t) { return t.var >= 0 && ! t.is_plain(); };
        for (auto & k : c.cons) {
            for (auto & t : k.t)
                if (any_of(t.begin(), t.end(), odd))
                    return true;
            for (auto & x : k.c)
                if (odd(x.t) || x.op == INR || x.op == NOTINR)
                    return true;
        }
        return false;
    }

    string render(const gcs::innards::SExpr & e, bool inner = false)
    {
#if defined(__cpp_lib_print) && defined(__cpp_lib_format)
        return inner ? std::format("{:#}", e) : std::format("{}", e);
#else
        return inner ? fmt::format("{:#}", e) : fmt::format("{}", e);
#endif
    }

    struct Tree
    {
        bool atom = true;
        string text;
        vector<Tree> kids;
    };

    Tree random_tree(Rng & r, int depth)
    {
        Tree t;
        if (depth == 0 || r.chance(40)) {
            static const string chars = "abcXYZ0123456789_-+*<>=!,.:;'\"[]{}#%&|/\\~^@?";
            for (i64 n = r.range(1, 6); n > 0; --n)
                t.text += chars[r.below(chars.size())];
            return t;
        }
        t.atom = false;
        for (i64 n = r.range(0, 4); n > 0; --n)
            t.kids.push_back(random_tree(r, depth - 1));
        return t;
    }

    string canonical(const Tree & t)
    {
        if (t.atom)
            return t.text;
        string s = "(";
        for (auto & k : t.kids)
            s += (s.size() > 1 ? " " : "") + canonical(k);
        return s + ")";
    }

    string space(Rng & r, bool needed)
    {
        string s;
        for (i64 n = r.range(needed ? 1 : 0, 3); n > 0; --n)
            s += " \t\n\r"[r.below(4)];
        return s;
    }

    string spaced(const Tree & t, Rng & r)
    {
        if (t.atom)
            return t.text;
        string s = "(" + space(r, false);
        for (size_t i = 0; i < t.kids.size(); ++i) {
            bool tight = i == 0 || ! t.kids[i - 1].atom || ! t.kids[i].atom;
            s += (i ? space(r, ! tight) : "") + spaced(t.kids[i], r);
        }
        return s + space(r, false) + ")";
    }

    bool same(const Tree & t, const gcs::innards::SExpr & e)
    {
        if (t.atom != e.is_atom())
            return false;
        if (t.atom)
            return e.as_atom() == t.text;
        auto & l = e.as_list();
        if (l.size() != t.kids.size())
            return false;
        for (size_t i = 0; i < l.size(); ++i)
            if (! same(t.kids[i], l[i]))
                return false;
        return true;
    }

    void check_trees(const Case & c)
    {
        using namespace gcs::innards;
        Rng r{(u64)c.get("trees")};
        for (int i = 0; i < 6; ++i) {
            auto t = random_tree(r, (int)r.range(0, 5));
            auto text = space(r, false) + spaced(t, r) + space(r, false);
            auto want = canonical(t);
            try {
                auto e = parse_s_expr(text);
                if (! same(t, e))
                    throw Violation{"s-expression: parsed as something else: " + text};
                if (render(e) != want)
                    throw Violation{"s-expression: written as " + render(e) + " instead of " + want};
                if (! t.atom && "(" + render(e, true) + ")" != want)
                    throw Violation{"s-expression: body written as " + render(e, true) + " for " + want};
                if (! (parse_s_expr(want) == e))
                    throw Violation{"s-expression: the canonical form of " + text + " reads as something else"};
                auto seq = parse_s_expr_seq(text + " " + want);
                if (seq.size() != 2 || ! same(t, seq[0]) || ! same(t, seq[1]))
                    throw Violation{"s-expression: two terms one after the other are read wrongly: " + text};
            }
            catch (const SExprParseError & x) {
                throw Violation{string{"s-expression: rejected: "} + x.what() + ": " + text};
            }
            auto rejected = [&](const string & bad) {
                try {
                    parse_s_expr(bad);
                }
                catch (const SExprParseError &) {
                    return true;
                }
                return false;
            };
            tally().hit("s-expressions read");
            if (! rejected(text + " x") || ! rejected(text + ")") || ! rejected("(" + text) || ! rejected(")" + text))
                throw Violation{"s-expression: something is allowed around " + text};
            if (! t.atom) {
                auto end = want.size();
                for (size_t n = 0; n < end; ++n)
                    if (! rejected(want.substr(0, n)))
                        throw Violation{"s-expression: accepted when cut at byte " + to_string(n) + ": " + want};
            }
        }
    }

    struct Back
    {
        gcs::Problem problem;
        gcs::ScpModel model;
        vector<IntegerVariableID> vars;
    };

    string written(const string & name)
    {
        auto f = disk().files.find(name);
        return f == disk().files.end() ? "" : f->second;
    }
}

Case sim::make_c14(Rng & r)
{
    GenOptions o;
    o.objective = -1;
    o.names = r.chance(50);
    o.views = r.chance(10);
    o.wide = r.chance(15);
    o.max_product = 600;
    o.max_vars = (int)r.range(3, 6);
    o.max_cons = (int)r.range(1, 4);
    Case c = generate(r, o);
    for (auto & k : c.cons) // the format cannot say that a constraint must not hold
        k.reif = k.reif == 3 ? 0 : k.reif == 4 ? 1 : k.reif;
    c.p["trees"] = r.range(1, 1000000000);
    c.p["program"] = r.chance(25) ? r.range(1, 1000000000) : 0;
    return c;
}

void sim::check_c14(const Case & c)
{
    note_shape(c);
    too_wide(c);
    check_trees(c);
    auto t = truth(c);
    bool views = has_views(c);

    disk().reset();
    Solver s{c};
    Knobs k;
    k.hooks = false;
    k.proof = proof_options(c, "sim:/p");
    k.restarts = 0;
    k.default_branching = true;
    k.throw_kind = 5; // written is all it need be
    k.throw_at = 1;
    auto o = s.solve(k);
    mix_case_hash(o);
    skip_unsupported(c, o);
    if (! o.planned)
        throw Violation{"scp-exception: could not be written: " + o.exception};
    auto text = written("sim:/p.scp");

    auto read = [&](Back & b, const string & text) { b.model = gcs::read_scp(b.problem, text); };
    Back back;
    try {
        read(back, text);
    }
    catch (const gcs::ScpUnsupportedConstraintError & e) {
        throw Violation{"scp-unsupported: " + e.operator_name() + " is written but cannot be read"};
    }
    catch (const exception & e) {
        if (views)
            throw Skip{"views are not carried by the format"};
        if (string{e.what()}.find("deterministic automata only") != string::npos)
            throw Skip{"non-deterministic automata are not carried by the format"};
        throw Violation{string{"scp-rejected: "} + e.what()};
    }
    tally().hit("problems read back");
    tally().hit("bytes read", text.size());

    // the same variables
    auto list = [](gcs::Problem & p) {
        vector<tuple<string, i64, i64>> r;
        for (const auto & [_, l, u, n] : p.each_variable_with_bounds_and_name())
            r.emplace_back(n, (i64)l.raw_value, (i64)u.raw_value);
        return r;
    };
    auto before = list(s.problem), after = list(back.problem);
    if (before != after)
        throw Violation{"scp-variables: " + to_string(before.size()) + " variables were written and " + to_string(after.size()) +
            " read back, or their names or bounds differ"};
    if (back.model.variables.size() != before.size())
        throw Violation{"scp-variables: " + to_string(back.model.variables.size()) + " are returned by name, of " + to_string(before.size())};
    vector<string> names;
    {
        map<string, size_t> of;
        for (const auto & [id, l, u, n] : s.problem.each_variable_with_bounds_and_name())
            for (size_t i = 0; i < s.b.vars.size(); ++i)
                if (s.b.vars[i] == id)
                    of[n] = i;
        names.resize(s.b.vars.size());
        for (auto & [n, i] : of)
            names[i] = n;
    }
    for (size_t i = 0; i < names.size(); ++i) {
        auto v = back.model.variables.find(names[i]);
        if (v == back.model.variables.end())
            throw Violation{"scp-variables: " + names[i] + " is missing"};
        if (! c.vars[i].name.empty() && names[i] != c.vars[i].name)
            throw Violation{"scp-variables: " + c.vars[i].name + " was renamed " + names[i]};
        back.vars.push_back(v->second);
    }

    // the same solutions, and objective
    if (back.model.minimise_variable.has_value() != (c.objective != 0))
        throw Violation{"scp-objective: there should be one, or should not"};
    vector<Assignment> got;
    string wrong;
    gcs::solve_with(back.problem, gcs::SolveCallbacks{.solution = [&](const gcs::CurrentState & st) -> bool {
        Assignment a;
        for (auto & v : back.vars)
            a.push_back((i64)st(v).raw_value);
        if (c.objective) {
            // an offset has no place in the format, and does not change what is best
            i64 sign = c.objective == 1 ? 1 : -1, want = sign * value(c.obj, a) - (c.obj.var < 0 ? 0 : sign * c.obj.add), is = (i64)st(*back.model.minimise_variable).raw_value;
            if (want != is && wrong.empty())
                wrong = "at " + show(a) + " it is " + to_string(is) + ", not " + to_string(want);
        }
        got.push_back(a);
        return got.size() < 100000;
    }});
    if (! wrong.empty())
        throw Violation{"scp-objective: " + wrong};
    sort(got.begin(), got.end());
    if (got != t) {
        for (auto & a : got)
            if (! binary_search(t.begin(), t.end(), a))
                throw Violation{"scp-solutions: read back, " + show(a) + " is allowed"};
        for (auto & a : t)
            if (! binary_search(got.begin(), got.end(), a))
                throw Violation{"scp-solutions: read back, " + show(a) + " is not allowed"};
        throw Violation{"scp-solutions: read back, something is found twice"};
    }

    // and written again, the same bytes
    {
        Back again;
        read(again, text);
        if (again.model.minimise_variable)
            again.problem.minimise(*again.model.minimise_variable);
        try {
            gcs::solve_with(again.problem, gcs::SolveCallbacks{.after_proof_started = [&](const gcs::CurrentState &) { throw Planned{5}; }},
                proof_options(c, "sim:/q"));
        }
        catch (const Planned &) {
        }
        catch (const exception & e) {
            throw Violation{string{"scp-again: read back, it cannot be written: "} + e.what()};
        }
        auto second = written("sim:/q.scp");
        if (second != text) {
            size_t at = 0;
            while (at < text.size() && at < second.size() && text[at] == second[at])
                ++at;
            throw Violation{"scp-again: written again, it differs from byte " + to_string(at) + ": " + second.substr(at > 20 ? at - 20 : 0, 60) +
                " instead of " + text.substr(at > 20 ? at - 20 : 0, 60)};
        }
        if (c.objective && ! t.empty()) {
            optional<i64> last;
            gcs::solve(again.problem, [&](const gcs::CurrentState & st) -> bool {
                last = (i64)st(*again.model.minimise_variable).raw_value;
                return true;
            });
            i64 best = 0;
            for (size_t i = 0; i < t.size(); ++i) {
                i64 sign = c.objective == 1 ? 1 : -1, v = sign * value(c.obj, t[i]) - (c.obj.var < 0 ? 0 : sign * c.obj.add);
                best = i ? min(best, v) : v;
            }
            if (last != best)
                throw Violation{"scp-objective: read back, the optimum is " + (last ? to_string(*last) : "missing") + ", not " + to_string(best)};
        }
    }

    // so says the program which reads them, too
    if (c.get("program")) {
        Rng r{(u64)c.get("program")};
        Plan p;
        p.files["sim:/model.scp"] = text;
        p.seed = r.next();
        p.pick = (int)r.range(0, 3);
        p.disk.seed = r.below(1000000000) + 1;
        if (r.chance(60)) {
            p.disk.short_read_permille = 700;
            p.disk.eintr_permille = 300;
            tally().hit("fault: short and interrupted reads");
        }
        bool all = r.chance(70) || c.objective;
        p.args = {"glasgow_scp_solver", "sim:/model.scp"};
        if (all && r.chance(70))
            p.args.push_back("--all");
        else
            all = c.objective;
        auto q = run_process(gsim_scp_main, p);
        tally().hit("processes run");
        if (q.code == 99)
            throw TooLong{};
        if (q.code)
            throw Violation{"scp-program: exit status " + to_string(q.code) + ": " + q.err.substr(0, 200)};
        vector<Assignment> said;
        istringstream lines{q.out};
        for (string line; getline(lines, line);) {
            map<string, i64> of;
            istringstream parts{line};
            for (string part; parts >> part;)
                of[part.substr(0, part.find('='))] = atoll(part.substr(part.find('=') + 1).c_str());
            Assignment a;
            for (auto & n : names) {
                if (! of.contains(n))
                    throw Violation{"scp-program: a solution without " + n + ": " + line};
                a.push_back(of[n]);
            }
            if (! binary_search(t.begin(), t.end(), a))
                throw Violation{"scp-program: says that " + show(a) + " is a solution"};
            said.push_back(a);
        }
        i64 sign = c.objective == 2 ? -1 : 1;
        if (said.empty() != t.empty())
            throw Violation{"scp-program: there are " + to_string(t.size()) + " solutions, but it printed " + to_string(said.size())};
        if (c.objective && ! t.empty())
            for (auto & a : t)
                if (sign * value(c.obj, a) < sign * value(c.obj, said.back()))
                    throw Violation{"scp-program: the last solution is not optimal, " + show(a) + " is better"};
        set<Assignment> distinct(said.begin(), said.end());
        if (distinct.size() != said.size() || (all && ! c.objective && said.size() != t.size()) || (! all && said.size() > 1))
            throw Violation{"scp-program: it printed " + to_string(said.size()) + " solutions, of " + to_string(t.size())};
        p.files["sim:/model.scp"] = text.substr(0, r.below(text.find_last_not_of(" \n\t\r") + 1));
        q = run_process(gsim_scp_main, p);
        tally().hit("processes run");
        if (! q.code || ! q.out.empty())
            throw Violation{"scp-program: a file cut short is accepted"};
    }

    // cut short anywhere, rejected
    auto whole = text.find_last_not_of(" \n\t\r");
    for (size_t n = 0; n <= whole; ++n) {
        Back cut;
        bool rejected = false;
        try {
            read(cut, text.substr(0, n));
        }
        catch (const gcs::MessageException &) {
            rejected = true;
        }
        catch (const exception & e) {
            throw Violation{"scp-cut at byte " + to_string(n) + ": rejected, but not as a reading error: " + e.what()};
        }
        if (! rejected)
            throw Violation{"scp-cut at byte " + to_string(n) + " of " + to_string(text.size()) + ": read as a problem"};
    }
    tally().hit("fault: file cut short", whole + 1);
    if (t.size() > 1 && ! c.cons.empty())
        tally().hit("nontrivial");
    Hash h;
    h.add(text);
    h.add(t.size());
    case_hash = mix(case_hash ^ h.h);
    tally().schedules.insert(case_hash);
}
