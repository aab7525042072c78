#include "pb.hh"
#include <algorithm>
#include <charconv>
#include <functional>
#include <optional>
#include <set>
#include <string_view>
#include <unordered_map>
#include <utility>

using namespace std;
using namespace sim::pb;

namespace
{
    using Num = __int128;
    using Lit = int; // 2 * var + negated

    struct Bad
    {
        string why;
    };
    struct GiveUp
    {
    };
    struct Torn
    {
    };

    Num add(Num a, Num b)
    {
        Num r;
        if (__builtin_add_overflow(a, b, &r))
            throw GiveUp{};
        return r;
    }
    Num mul(Num a, Num b)
    {
        Num r;
        if (__builtin_mul_overflow(a, b, &r))
            throw GiveUp{};
        return r;
    }

    string str(Num n)
    {
        if (n == 0)
            return "0";
        bool neg = n < 0;
        string s;
        while (n != 0) {
            int d = (int)(n % 10);
            s += (char)('0' + (d < 0 ? -d : d));
            n /= 10;
        }
        if (neg)
            s += '-';
        reverse(s.begin(), s.end());
        return s;
    }

    // sum of coef * lit >= rhs, coefficients positive, variables distinct, sorted by variable
    struct Con
    {
        vector<pair<Lit, Num>> terms;
        Num rhs = 0;

        bool trivial() const
        {
            return rhs <= 0;
        }
        bool contradiction() const
        {
            Num s = 0;
            for (auto & t : terms)
                s = add(s, t.second);
            return s < rhs;
        }
        bool operator==(const Con & o) const
        {
            return rhs == o.rhs && terms == o.terms;
        }
    };

    // from any sum of coef * lit
    Con normalise(const vector<pair<Lit, Num>> & in, Num rhs)
    {
        map<int, Num> by; // var -> coefficient of the positive literal
        for (auto & [l, c] : in) {
            if (l & 1) { // c * (1 - x)
                rhs = add(rhs, -c);
                by[l / 2] = add(by[l / 2], -c);
            }
            else
                by[l / 2] = add(by[l / 2], c);
        }
        Con r;
        for (auto & [v, c] : by) {
            if (c > 0)
                r.terms.emplace_back(2 * v, c);
            else if (c < 0) {
                rhs = add(rhs, -c);
                r.terms.emplace_back(2 * v + 1, -c);
            }
        }
        r.rhs = rhs;
        return r;
    }

    Con negate(const Con & c)
    {
        Con r;
        Num s = 0;
        for (auto & [l, k] : c.terms) {
            r.terms.emplace_back(l ^ 1, k);
            s = add(s, k);
        }
        r.rhs = add(add(s, -c.rhs), 1);
        return r;
    }

    // Does d, on its own, by weakening and saturation, give c?
    bool syntactically_implies(const Con & d, const Con & c)
    {
        if (c.trivial())
            return true;
        Num left = d.rhs;
        auto j = c.terms.begin();
        for (auto & [l, a] : d.terms) {
            while (j != c.terms.end() && j->first / 2 < l / 2)
                ++j;
            Num have = 0;
            if (j != c.terms.end() && j->first == l)
                have = j->second >= c.rhs ? a : j->second; // as good as any coefficient
            if (a > have)
                left = add(left, have - a);
        }
        if (left <= 0)
            return false;
        if (left >= c.rhs)
            return true;
        // every literal of what is left is enough in c
        for (auto & [l, a] : d.terms) {
            auto i = lower_bound(c.terms.begin(), c.terms.end(), make_pair(l, (Num)0), [](auto & x, auto & y) { return x.first < y.first; });
            if (i != c.terms.end() && i->first == l && i->second < c.rhs)
                return false;
        }
        return true;
    }

    struct Reader
    {
        string_view s;
        size_t at = 0;
        bool done()
        {
            skip();
            return at >= s.size();
        }
        void skip()
        {
            while (at < s.size() && (s[at] == ' ' || s[at] == '\t'))
                ++at;
        }
        // a word, or one of ; : > which stand alone
        string_view word()
        {
            skip();
            if (at >= s.size())
                return {};
            size_t b = at;
            if (s[at] == ';' || s[at] == ':')
                return s.substr(at++, 1);
            while (at < s.size() && s[at] != ' ' && s[at] != '\t' && s[at] != ';' && s[at] != ':')
                ++at;
            return s.substr(b, at - b);
        }
        string_view peek()
        {
            auto k = at;
            auto w = word();
            at = k;
            return w;
        }
    };

    optional<Num> number(string_view w)
    {
        if (w.empty())
            return nullopt;
        size_t i = 0;
        bool neg = false;
        if (w[0] == '-' || w[0] == '+') {
            neg = w[0] == '-';
            ++i;
        }
        if (i == w.size())
            return nullopt;
        Num n = 0;
        for (; i < w.size(); ++i) {
            if (w[i] < '0' || w[i] > '9')
                return nullopt;
            n = add(mul(n, 10), w[i] - '0');
        }
        return neg ? -n : n;
    }

    struct Checker
    {
        const string & opb;
        const string & pbp;
        bool allow_torn;
        Limits limits;
        Report r;

        unordered_map<string, int> ids;
        vector<string> names;

        struct Entry
        {
            Con c;
            bool live = false, core = false;
            Num slack = 0, biggest = 0;
        };
        vector<Entry> db{1}; // by id, from 1
        unordered_map<string, size_t> labels;
        vector<vector<pair<size_t, Num>>> occ; // by literal: which constraints lose how much if it is false
        vector<int> value;                     // by variable: -1 unset, 0, 1
        vector<Lit> trail;                     // literals made true
        vector<size_t> reason;                 // by position on the trail
        vector<size_t> queue;
        vector<char> queued;
        bool root_conflict = false;
        size_t root_conflict_by = 0;
        long work = 0;
        size_t dead = 0;

        vector<pair<Lit, Num>> objective;
        Num objective_constant = 0;
        bool has_objective = false, has_preserved = false;
        vector<int> preserved;
        vector<char> is_preserved;
        size_t formula = 0;
        optional<Num> best;
        bool any_solution = false;
        long solx = 0;
        vector<pair<Con, long>> asserted; // what was said to be so, and where, whether or not it was deleted since

        Checker(const string & o, const string & p, bool t, const Limits & l) : opb(o), pbp(p), allow_torn(t), limits(l)
        {
        }

        // ---- names ----
        int variable(string_view n)
        {
            auto i = ids.find(string(n));
            if (i != ids.end())
                return i->second;
            int v = (int)names.size();
            ids.emplace(string(n), v);
            names.emplace_back(n);
            occ.emplace_back();
            occ.emplace_back();
            value.push_back(-1);
            is_preserved.push_back(0);
            return v;
        }
        Lit literal(string_view w)
        {
            if (w.empty())
                throw Bad{"a literal is missing"};
            if (w[0] == '~')
                return 2 * name(w.substr(1)) + 1;
            return 2 * name(w);
        }
        int name(string_view w)
        {
            if (w.size() < 2 || ! (isalpha((unsigned char)w[0]) || w[0] == '_'))
                throw Bad{"'" + string(w) + "' is not a variable"};
            return variable(w);
        }
        string show(const Con & c)
        {
            string s;
            for (auto & [l, k] : c.terms)
                s += str(k) + " " + (l & 1 ? "~" : "") + names[(size_t)l / 2] + " ";
            return s + ">= " + str(c.rhs);
        }

        // coef lit coef lit ... >= rhs
        Con constraint(Reader & in)
        {
            vector<pair<Lit, Num>> t;
            while (true) {
                auto w = in.word();
                if (w == ">=") {
                    auto n = number(in.word());
                    if (! n)
                        throw Bad{"no right hand side"};
                    return normalise(t, *n);
                }
                auto n = number(w);
                if (! n)
                    throw Bad{"'" + string(w) + "' where a coefficient should be"};
                t.emplace_back(literal(in.word()), *n);
            }
        }

        // ---- the database and unit propagation ----
        bool falsified(Lit l) const
        {
            return value[(size_t)l / 2] == (l & 1);
        }
        bool satisfied(Lit l) const
        {
            return value[(size_t)l / 2] == 1 - (l & 1);
        }

        void attach(size_t id)
        {
            auto & e = db[id];
            e.live = true;
            e.slack = -e.c.rhs;
            e.biggest = 0;
            for (auto & [l, k] : e.c.terms) {
                if (! falsified(l))
                    e.slack = add(e.slack, k);
                e.biggest = max(e.biggest, k);
                occ[(size_t)l].emplace_back(id, k);
            }
            push(id);
        }
        void push(size_t id)
        {
            if (queued.size() < db.size())
                queued.resize(db.size());
            if (! queued[id]) {
                queued[id] = 1;
                queue.push_back(id);
            }
        }
        size_t insert(Con c, bool core = false)
        {
            db.emplace_back();
            db.back().c = move(c);
            db.back().core = core;
            queued.resize(db.size());
            attach(db.size() - 1);
            return db.size() - 1;
        }
        void nothing() // an id with no constraint
        {
            db.emplace_back();
            queued.resize(db.size());
        }
        void assign(Lit l, size_t why)
        {
            value[(size_t)l / 2] = 1 - (l & 1);
            trail.push_back(l);
            reason.push_back(why);
            auto & o = occ[(size_t)(l ^ 1)];
            work += (long)o.size() + 1;
            for (auto & [id, k] : o) {
                auto & e = db[id];
                e.slack -= k;
                if (e.live && e.slack < e.biggest)
                    push(id);
            }
            if (work > limits.work)
                throw GiveUp{};
        }
        void undo(size_t to)
        {
            while (trail.size() > to) {
                Lit l = trail.back();
                trail.pop_back();
                reason.pop_back();
                for (auto & [id, k] : occ[(size_t)(l ^ 1)])
                    db[id].slack += k;
                value[(size_t)l / 2] = -1;
            }
        }
        // false on conflict
        bool propagate(size_t & conflict)
        {
            while (! queue.empty()) {
                size_t id = queue.back();
                queue.pop_back();
                queued[id] = 0;
                auto & e = db[id];
                if (! e.live || e.slack >= e.biggest)
                    continue;
                if (e.slack < 0) {
                    conflict = id;
                    clear_queue();
                    return false;
                }
                work += (long)e.c.terms.size();
                for (size_t i = 0; i < e.c.terms.size(); ++i) {
                    auto [l, k] = e.c.terms[i];
                    if (k > e.slack && value[(size_t)l / 2] < 0)
                        assign(l, id);
                }
            }
            return true;
        }
        void clear_queue()
        {
            for (auto id : queue)
                queued[id] = 0;
            queue.clear();
        }
        // everything which follows from the database by propagation
        bool settle()
        {
            if (root_conflict)
                return false;
            size_t by = 0;
            if (! propagate(by)) {
                root_conflict = true;
                root_conflict_by = by;
                return false;
            }
            return true;
        }
        void erase(size_t id)
        {
            auto & e = db[id];
            e.live = false;
            size_t from = trail.size();
            if (root_conflict)
                from = 0; // be simple: the conflict may have used it
            else
                for (size_t i = 0; i < trail.size(); ++i)
                    if (reason[i] == id) {
                        from = i;
                        break;
                    }
            if (root_conflict) {
                root_conflict = false;
                undo(0);
                clear_queue();
                for (size_t i = 1; i < db.size(); ++i)
                    if (db[i].live)
                        push(i);
            }
            else if (from < trail.size()) {
                // whatever is undone may be given back by something else
                vector<Lit> lost(trail.begin() + (long)from, trail.end());
                undo(from);
                for (auto l : lost)
                    for (auto side : {0, 1})
                        for (auto & [c, k] : occ[(size_t)(l ^ side)])
                            if (db[c].live)
                                push(c);
            }
            if (++dead > 2000 && dead > db.size() / 4) {
                for (auto & o : occ)
                    std::erase_if(o, [&](auto & p) { return ! db[p.first].live; });
                dead = 0;
            }
            else
                for (auto & [l, k] : e.c.terms) { // often it is near the end
                    auto & o = occ[(size_t)l];
                    while (! o.empty() && ! db[o.back().first].live)
                        o.pop_back();
                }
        }

        // The negation of c, and everything else, propagates to a conflict.
        bool rup(const Con & c)
        {
            if (c.trivial())
                return true;
            if (! settle())
                return true;
            auto mark = trail.size();
            auto before = db.size();
            insert(negate(c));
            size_t by = 0;
            bool ok = ! propagate(by);
            undo(mark);
            clear_queue();
            drop_last(before);
            return ok;
        }
        void drop_last(size_t before)
        {
            while (db.size() > before) {
                auto id = db.size() - 1;
                for (auto & [l, k] : db[id].c.terms) {
                    auto & o = occ[(size_t)l];
                    for (size_t i = o.size(); i-- > 0;)
                        if (o[i].first == id) {
                            o.erase(o.begin() + (long)i);
                            break;
                        }
                }
                db.pop_back();
            }
            queued.resize(db.size());
        }

        // Using only these.
        static bool local_rup(const vector<const Con *> & cs)
        {
            unordered_map<int, int> val;
            bool changed = true;
            while (changed) {
                changed = false;
                for (auto * c : cs) {
                    Num slack = -c->rhs;
                    for (auto & [l, k] : c->terms) {
                        auto i = val.find(l / 2);
                        if (i == val.end() || i->second == 1 - (l & 1))
                            slack = add(slack, k);
                    }
                    if (slack < 0)
                        return true;
                    for (auto & [l, k] : c->terms)
                        if (k > slack && ! val.count(l / 2)) {
                            val[l / 2] = 1 - (l & 1);
                            changed = true;
                        }
                }
            }
            return false;
        }
        static bool implies(const Con & d, const Con & c)
        {
            if (syntactically_implies(d, c))
                return true;
            auto n = negate(c);
            return local_rup({&d, &n});
        }

        size_t resolve(string_view w, size_t current)
        {
            if (! w.empty() && w[0] == '@') {
                auto i = labels.find(string(w));
                if (i == labels.end())
                    throw Bad{"there is no constraint called " + string(w)};
                return live(i->second, w);
            }
            auto n = number(w);
            if (! n)
                throw Bad{"'" + string(w) + "' is not a constraint"};
            Num id = *n < 0 ? (Num)current + 1 + *n : *n;
            if (id <= 0 || id > (Num)current)
                throw Bad{"there is no constraint " + string(w)};
            return live((size_t)id, w);
        }
        size_t live(size_t id, string_view w)
        {
            if (! db[id].live)
                throw Bad{"constraint " + string(w) + " (" + to_string(id) + ") is deleted, or never was"};
            return id;
        }
        size_t current() const
        {
            return db.size() - 1;
        }

        // ---- the formula ----
        void read_formula()
        {
            size_t at = 0;
            bool seen_constraint = false;
            while (at < opb.size()) {
                auto e = opb.find('\n', at);
                if (e == string::npos)
                    throw Bad{"the formula stops in the middle of a line"};
                Reader in{string_view(opb).substr(at, e - at)};
                at = e + 1;
                auto w = in.peek();
                if (w.empty() || w[0] == '*')
                    continue;
                if (w == "min") {
                    in.word();
                    if (in.word() != ":" || has_objective || seen_constraint)
                        throw Bad{"bad objective line"};
                    has_objective = true;
                    vector<pair<Lit, Num>> t;
                    while (in.peek() != ";") {
                        auto n = number(in.word());
                        if (! n)
                            throw Bad{"bad objective"};
                        if (in.peek() == ";") {
                            objective_constant = add(objective_constant, *n);
                            break;
                        }
                        t.emplace_back(literal(in.word()), *n);
                    }
                    objective = t;
                    continue;
                }
                if (w == "preserved") {
                    in.word();
                    if (in.word() != ":" || has_preserved || seen_constraint)
                        throw Bad{"bad preserved line"};
                    has_preserved = true;
                    while (in.peek() != ";") {
                        auto l = literal(in.word());
                        if (l & 1)
                            throw Bad{"a negated literal is preserved"};
                        preserved.push_back(l / 2);
                        is_preserved[(size_t)l / 2] = 1;
                    }
                    continue;
                }
                seen_constraint = true;
                string label;
                if (w[0] == '@')
                    label = in.word();
                auto c = constraint(in);
                if (in.word() != ";" || ! in.done())
                    throw Bad{"a constraint does not end"};
                auto id = insert(move(c), true);
                if (! label.empty() && ! labels.emplace(label, id).second)
                    throw Bad{"two constraints are called " + label};
            }
            formula = db.size() - 1;
            r.formula = formula;
            r.has_objective = has_objective;
            r.formula_ok = true;
        }

        // ---- the proof ----
        vector<string_view> lines;
        size_t next = 0;
        bool unterminated = false; // the last line has no newline

        static string_view trim(string_view s)
        {
            while (! s.empty() && (s.front() == ' ' || s.front() == '\t'))
                s.remove_prefix(1);
            while (! s.empty() && (s.back() == ' ' || s.back() == '\t' || s.back() == '\r'))
                s.remove_suffix(1);
            return s;
        }

        optional<string_view> line()
        {
            while (next < lines.size()) {
                if (next + 1 == lines.size() && unterminated) {
                    if (allow_torn)
                        throw Torn{};
                    throw Bad{"the proof stops in the middle of a line"};
                }
                auto s = trim(lines[next++]);
                if (s.empty() || s[0] == '%')
                    continue;
                ++r.lines;
                if ((long)r.lines > limits.lines)
                    throw GiveUp{};
                return s;
            }
            return nullopt;
        }

        void end(Reader & in)
        {
            if (in.word() != ";" || ! in.done())
                throw Bad{"a line does not end with ;"};
        }

        void label(const string & l, size_t id)
        {
            if (! l.empty())
                labels[l] = id;
        }

        void pol(Reader & in, const string & lab)
        {
            vector<Con> st;
            auto pop = [&]() {
                if (st.empty())
                    throw Bad{"pol: nothing on the stack"};
                auto c = move(st.back());
                st.pop_back();
                return c;
            };
            auto cur = current();
            vector<Num> numbers;
            // numbers may be constraint numbers or factors: a factor is a number followed by * or d
            vector<string_view> w;
            while (in.peek() != ";") {
                if (in.done())
                    throw Bad{"pol: no end"};
                w.push_back(in.word());
            }
            end(in);
            for (size_t i = 0; i < w.size(); ++i) {
                auto x = w[i];
                if (x == "+") {
                    auto b = pop(), a = pop();
                    vector<pair<Lit, Num>> t(a.terms);
                    t.insert(t.end(), b.terms.begin(), b.terms.end());
                    st.push_back(normalise(t, add(a.rhs, b.rhs)));
                }
                else if (x == "s") {
                    auto a = pop();
                    for (auto & [l, k] : a.terms)
                        k = min(k, max(a.rhs, (Num)0));
                    std::erase_if(a.terms, [](auto & t) { return t.second == 0; });
                    st.push_back(move(a));
                }
                else if (x == "*" || x == "d")
                    throw Bad{"pol: no factor"};
                else if (x == "w")
                    throw Bad{"pol: weakening without a variable"};
                else if (i + 1 < w.size() && (w[i + 1] == "*" || w[i + 1] == "d")) {
                    auto n = number(x);
                    if (! n || *n < (w[i + 1] == "d" ? 1 : 0))
                        throw Bad{"pol: bad factor " + string(x)};
                    auto a = pop();
                    if (w[i + 1] == "*") {
                        for (auto & [l, k] : a.terms)
                            k = mul(k, *n);
                        a.rhs = mul(a.rhs, *n);
                        std::erase_if(a.terms, [](auto & t) { return t.second == 0; });
                    }
                    else {
                        auto up = [&](Num k) { return k >= 0 ? (k + *n - 1) / *n : -((-k) / *n); };
                        for (auto & [l, k] : a.terms)
                            k = up(k);
                        a.rhs = up(a.rhs);
                    }
                    st.push_back(move(a));
                    ++i;
                }
                else if (i + 1 < w.size() && w[i + 1] == "w") {
                    auto v = literal(x) / 2;
                    auto a = pop();
                    for (size_t j = 0; j < a.terms.size(); ++j)
                        if (a.terms[j].first / 2 == v) {
                            a.rhs = add(a.rhs, -a.terms[j].second);
                            a.terms.erase(a.terms.begin() + (long)j);
                            break;
                        }
                    st.push_back(move(a));
                    ++i;
                }
                else if (x[0] == '@' || number(x))
                    st.push_back(db[resolve(x, cur)].c);
                else {
                    Con a; // a literal is at least zero
                    a.terms.emplace_back(literal(x), 1);
                    st.push_back(a);
                }
                work += (long)(st.empty() ? 1 : st.back().terms.size());
            }
            auto c = pop();
            if (! st.empty())
                throw Bad{"pol: more than one constraint left"};
            label(lab, insert(move(c)));
        }

        Con under(const Con & c, const map<int, int> & witness) // value: literal, or -1 false, -2 true
        {
            vector<pair<Lit, Num>> t;
            Num rhs = c.rhs;
            for (auto & [l, k] : c.terms) {
                auto i = witness.find(l / 2);
                if (i == witness.end()) {
                    t.emplace_back(l, k);
                    continue;
                }
                int to = i->second;
                if (to == -1 || to == -2) {
                    bool is = (to == -2) != (bool)(l & 1);
                    if (is)
                        rhs = add(rhs, -k);
                }
                else
                    t.emplace_back(to ^ (l & 1), k);
            }
            return normalise(t, rhs);
        }

        bool proves(const Con & goal, const Con & from)
        {
            return goal.trivial() || implies(from, goal) || rup(goal);
        }
        bool some_one_implies(const Con & goal)
        {
            for (size_t i = 1; i < db.size(); ++i)
                if (db[i].live && syntactically_implies(db[i].c, goal))
                    return true;
            return false;
        }

        void red(Reader & in, const string & lab)
        {
            auto c = constraint(in);
            if (in.word() != ":")
                throw Bad{"red: no witness"};
            map<int, int> witness;
            bool sub = false;
            while (true) {
                auto w = in.word();
                if (w == ";")
                    break;
                if (w == ":") {
                    if (in.word() != "subproof" || ! in.done())
                        throw Bad{"red: what follows the witness is not a subproof"};
                    sub = true;
                    break;
                }
                if (w.empty())
                    throw Bad{"red: does not end"};
                auto l = literal(w);
                if (in.word() != "->")
                    throw Bad{"red: bad witness"};
                auto to = in.word();
                int t;
                if (to == "0")
                    t = -1;
                else if (to == "1")
                    t = -2;
                else
                    t = literal(to);
                if (l & 1)
                    t = t == -1 ? -2 : t == -2 ? -1 : t ^ 1;
                witness[l / 2] = t;
            }
            for (auto & [v, t] : witness)
                if (has_preserved && is_preserved[(size_t)v])
                    throw Bad{"red: the witness changes " + names[(size_t)v] + ", which is preserved"};

            // what has to be shown, given everything and the negation of c
            auto neg = negate(c);
            struct Goal
            {
                Con c;
                bool done = false;
            };
            map<size_t, Goal> touched;
            vector<Goal> own;
            if (Con w = under(c, witness); true)
                own.push_back({w});
            if (has_objective) {
                bool hit = false;
                for (auto & [l, k] : objective)
                    hit = hit || witness.count(l / 2);
                if (hit) { // f|w <= f
                    vector<pair<Lit, Num>> t;
                    Num rhs = 0;
                    for (auto & [l, k] : objective) {
                        t.emplace_back(l, k);
                        auto i = witness.find(l / 2);
                        if (i == witness.end())
                            t.emplace_back(l, -k);
                        else if (i->second < 0) {
                            if ((i->second == -2) != (bool)(l & 1))
                                rhs = add(rhs, k);
                        }
                        else
                            t.emplace_back(i->second ^ (l & 1), -k);
                    }
                    own.push_back({normalise(t, rhs)});
                }
            }
            for (auto & [v, t] : witness)
                for (auto side : {0, 1})
                    for (auto & [id, k] : occ[(size_t)(2 * v + side)])
                        if (db[id].live && ! touched.count(id))
                            touched[id] = {under(db[id].c, witness)};

            auto base = db.size();
            auto neg_id = base;
            if (sub) {
                insert(neg); // the line which opens the subproof
                while (true) {
                    auto l = line();
                    if (! l) {
                        if (allow_torn)
                            throw Torn{};
                        throw Bad{"a subproof does not end"};
                    }
                    Reader g{*l};
                    auto w = g.word();
                    if (w == "qed") {
                        end(g);
                        break;
                    }
                    if (w != "proofgoal")
                        throw Bad{"'" + string(w) + "' where a proof goal should be"};
                    auto which = g.word();
                    Goal * goal = nullptr;
                    if (! which.empty() && which[0] == '#') {
                        auto n = number(which.substr(1));
                        if (! n || *n < 1 || *n > (Num)own.size())
                            throw Bad{"there is no proof goal " + string(which)};
                        goal = &own[(size_t)*n - 1];
                    }
                    else {
                        auto id = resolve(which, current());
                        auto i = touched.find(id);
                        if (i == touched.end())
                            throw Bad{"constraint " + string(which) + " is not a proof goal"};
                        goal = &i->second;
                    }
                    insert(negate(goal->c)); // the line which opens the goal
                    ++r.rules["proofgoal"];
                    auto inside = db.size() - 1;
                    bool closed = false;
                    while (! closed) {
                        auto s = line();
                        if (! s) {
                            if (allow_torn)
                                throw Torn{};
                            throw Bad{"a proof goal does not end"};
                        }
                        Reader q{*s};
                        if (q.peek() == "qed") {
                            q.word();
                            end(q);
                            closed = true;
                        }
                        else
                            step(*s, true);
                    }
                    bool conflict = ! settle();
                    if (! conflict)
                        throw Bad{"a proof goal ends without a contradiction: " + show(goal->c)};
                    goal->done = true;
                    for (auto i = db.size(); i-- > inside;)
                        if (db[i].live)
                            erase(i);
                }
            }

            auto check = [&](Goal & g, const string & what) {
                if (g.done)
                    return;
                if (! proves(g.c, neg) && ! some_one_implies(g.c))
                    throw Bad{"red: " + what + " is not shown: " + show(g.c)};
            };
            auto rest = [&]() {
                for (auto & g : own)
                    check(g, "a goal");
                for (auto & [id, g] : touched)
                    if (! implies(db[id].c, g.c))
                        check(g, "the goal for constraint " + to_string(id));
            };
            if (sub) {
                if (settle()) // else c follows anyway
                    rest();
                erase(neg_id);
            }
            else if (settle()) {
                auto mark = trail.size();
                insert(neg); // it has no number, and goes away again
                size_t by = 0;
                if (propagate(by))
                    rest();
                undo(mark);
                clear_queue();
                drop_last(base);
            }
            label(lab, insert(move(c)));
        }

        // The first constraint of the formula which the assignment does not make true.
        size_t unsatisfied()
        {
            for (size_t i = 1; i <= formula; ++i) {
                if (! db[i].live)
                    continue;
                Num s = 0;
                for (auto & [l, k] : db[i].c.terms)
                    if (satisfied(l))
                        s = add(s, k);
                if (s < db[i].c.rhs)
                    return i;
            }
            return 0;
        }

        // Guess what propagation leaves open, until the formula holds.
        bool extend(int & budget)
        {
            auto i = unsatisfied();
            if (! i)
                return true;
            for (auto & [l, k] : vector<pair<Lit, Num>>{db[i].c.terms}) {
                if (satisfied(l) || falsified(l))
                    continue;
                if (--budget < 0)
                    return false;
                auto mark = trail.size();
                size_t by = 0;
                assign(l, 0);
                if (propagate(by) && extend(budget))
                    return true;
                undo(mark);
                clear_queue();
            }
            return false;
        }

        void solution(Reader & in, bool improve)
        {
            if (improve != has_objective)
                throw Bad{improve ? "soli without an objective" : "solx with an objective"};
            if (! settle())
                throw Bad{"a solution after a contradiction"};
            auto mark = trail.size();
            while (in.peek() != ";") {
                if (in.done())
                    throw Bad{"a solution does not end"};
                auto l = literal(in.word());
                if (falsified(l))
                    throw Bad{"the solution contradicts what is known: " + names[(size_t)l / 2]};
                if (! satisfied(l))
                    assign(l, 0);
            }
            end(in);
            size_t by = 0;
            if (! propagate(by))
                throw Bad{"the solution violates constraint " + to_string(by) + ": " + show(db[by].c)};
            Solution sol;
            Con block;
            for (auto v : preserved) {
                if (value[(size_t)v] < 0)
                    throw Bad{"the solution says nothing about " + names[(size_t)v]};
                sol.preserved[names[(size_t)v]] = value[(size_t)v] == 1;
                block.terms.emplace_back(2 * v + value[(size_t)v], 1);
            }
            block.rhs = 1;
            sort(block.terms.begin(), block.terms.end());
            Num obj = objective_constant;
            for (auto & [l, k] : objective) {
                if (value[(size_t)l / 2] < 0)
                    throw Bad{"the solution says nothing about " + names[(size_t)l / 2] + ", which is in the objective"};
                if (satisfied(l))
                    obj = add(obj, k);
            }
            sol.objective = obj;
            if (auto i = unsatisfied()) {
                // VeriPB wants everything to follow by propagation. Does it at least hold?
                string what = to_string(i) + ": " + show(db[i].c);
                int budget = 3000;
                if (! extend(budget))
                    throw Bad{"the solution does not satisfy constraint " + what};
                if (r.unpinned++ == 0)
                    r.first_unpinned = what;
            }
            for (auto & [c, at] : asserted) {
                Num most = 0;
                for (auto & [l, k] : c.terms)
                    if (! falsified(l))
                        most = add(most, k);
                work += (long)c.terms.size();
                if (most < c.rhs)
                    throw Bad{"the solution is against what was asserted on line " + to_string(at) + ": " + show(c)};
            }
            undo(mark);
            clear_queue();
            any_solution = true;
            if (improve) {
                if (best && obj >= *best)
                    throw Bad{"a solution which is no improvement"};
                best = obj;
                vector<pair<Lit, Num>> t;
                for (auto & [l, k] : objective)
                    t.emplace_back(l, -k);
                insert(normalise(t, add(add(objective_constant, -obj), 1)), true);
            }
            else {
                ++solx;
                insert(block, true);
            }
            r.solutions.push_back(move(sol));
        }

        Con objective_at_least(Num n)
        {
            return normalise(objective, add(n, -objective_constant));
        }

        bool done = false, saw_output = false;

        void step(string_view s, bool inside = false)
        {
            Reader in{s};
            string lab;
            if (in.peek().substr(0, 1) == "@")
                lab = in.word();
            auto rule = in.word();
            ++r.rules[string(rule)];
            if (saw_output && rule != "conclusion" && rule != "end")
                throw Bad{"'" + string(rule) + "' after the output line"};
            if (! r.conclusion.empty() && rule != "end")
                throw Bad{"'" + string(rule) + "' after the conclusion"};
            if (rule == "rup") {
                auto cur = current();
                auto c = constraint(in);
                auto w = in.word();
                bool ok;
                if (w == ":") {
                    auto n = negate(c);
                    vector<const Con *> use{&n};
                    while (in.peek() != ";") {
                        if (in.done())
                            throw Bad{"rup does not end"};
                        auto h = in.word();
                        if (h == "~")
                            continue;
                        use.push_back(&db[resolve(h, cur)].c);
                    }
                    end(in);
                    ok = c.trivial() || local_rup(use);
                }
                else if (w == ";" && in.done())
                    ok = rup(c);
                else
                    throw Bad{"rup does not end"};
                if (! ok)
                    throw Bad{"not implied by propagation: " + show(c)};
                label(lab, insert(move(c)));
            }
            else if (rule == "ia") {
                auto cur = current();
                auto c = constraint(in);
                auto w = in.word();
                bool ok = false;
                if (w == ":") {
                    auto & d = db[resolve(in.word(), cur)].c;
                    end(in);
                    ok = implies(d, c);
                }
                else if (w == ";" && in.done()) {
                    for (size_t i = 1; i < db.size() && ! ok; ++i)
                        ok = db[i].live && implies(db[i].c, c);
                }
                else
                    throw Bad{"ia does not end"};
                if (! ok)
                    throw Bad{"not implied: " + show(c)};
                label(lab, insert(move(c)));
            }
            else if (rule == "e") {
                auto cur = current();
                auto c = constraint(in);
                if (in.word() != ":")
                    throw Bad{"e: which constraint?"};
                auto id = resolve(in.word(), cur);
                end(in);
                if (! (db[id].c == c))
                    throw Bad{"e: constraint " + to_string(id) + " is " + show(db[id].c) + ", not " + show(c)};
            }
            else if (rule == "a") {
                auto c = constraint(in);
                ++r.assertions;
                asserted.emplace_back(c, (long)next);
                // what follows says why: from which constraints, by which rule
                auto why = s.find(':', s.find(">="));
                if (why != string_view::npos) {
                    auto from = s.substr(why + 1, s.find(':', why + 1) - why - 1);
                    while (! from.empty()) {
                        auto n = min(from.find(' '), from.size());
                        if (n && ! labels.contains(string(from.substr(0, n))))
                            throw Bad{"asserted because of " + string(from.substr(0, n)) + ", which is not there"};
                        from.remove_prefix(min(n + 1, from.size()));
                    }
                }
                label(lab, insert(move(c)));
            }
            else if (rule == "pol")
                pol(in, lab);
            else if (rule == "red")
                red(in, lab);
            else if (rule == "solx" || rule == "soli") {
                if (inside)
                    throw Bad{"a solution inside a subproof"};
                solution(in, rule == "soli");
            }
            else if (rule == "del") {
                auto cur = current();
                auto what = in.word();
                if (what == "id") {
                    while (in.peek() != ";") {
                        if (in.done())
                            throw Bad{"del does not end"};
                        auto id = resolve(in.word(), cur);
                        no_core(id);
                        erase(id);
                    }
                    end(in);
                }
                else if (what == "range") {
                    auto a = number(in.word()), b = number(in.word());
                    end(in);
                    if (! a || ! b)
                        throw Bad{"del range: bad numbers"};
                    Num from = *a < 0 ? (Num)cur + 1 + *a : *a, to = *b < 0 ? (Num)cur + 1 + *b : *b;
                    if (from < 1 || to > (Num)cur || from > to)
                        throw Bad{"del range: not a range"};
                    for (Num i = from; i < to; ++i)
                        if (db[(size_t)i].live) {
                            no_core((size_t)i);
                            erase((size_t)i);
                        }
                }
                else
                    throw Bad{"del: what?"};
            }
            else if (rule == "output") {
                if (inside || in.word() != "NONE")
                    throw Bad{"output: not NONE"};
                end(in);
                saw_output = true;
            }
            else if (rule == "conclusion") {
                if (inside || ! saw_output)
                    throw Bad{"conclusion in the wrong place"};
                conclude(in);
            }
            else if (rule == "end") {
                if (s != "end pseudo-Boolean proof;" || r.conclusion.empty() || inside)
                    throw Bad{"bad end"};
                done = r.ended = true;
            }
            else
                throw Bad{"there is no rule '" + string(rule) + "'"};
        }
        void no_core(size_t id)
        {
            if (db[id].core)
                throw Bad{"constraint " + to_string(id) + " is part of the problem, and is deleted"};
        }

        void conclude(Reader & in)
        {
            auto what = string(in.word());
            auto cur = current();
            auto contradiction = [&]() {
                if (in.peek() == ":") {
                    in.word();
                    auto id = resolve(in.word(), cur);
                    if (! db[id].c.contradiction())
                        throw Bad{"the conclusion names " + show(db[id].c) + ", which is not a contradiction"};
                }
                else if (settle())
                    throw Bad{"there is no contradiction"};
            };
            if (what == "UNSAT") {
                contradiction();
                if (any_solution)
                    throw Bad{"concludes UNSAT after a solution"};
            }
            else if (what == "SAT") {
                if (! any_solution)
                    throw Bad{"concludes SAT without a solution"};
            }
            else if (what == "NONE") {
            }
            else if (what == "ENUMERATION_COMPLETE") {
                auto n = number(in.word());
                if (! n || *n != solx)
                    throw Bad{"concludes with the wrong number of solutions, " + to_string(solx) + " were logged"};
                contradiction();
            }
            else if (what == "BOUNDS") {
                if (! has_objective)
                    throw Bad{"concludes bounds without an objective"};
                auto a = in.word(), b = in.word();
                if (a == "INF" && b == "INF") {
                    r.inf = true;
                    if (any_solution)
                        throw Bad{"concludes infeasibility after a solution"};
                    if (settle())
                        throw Bad{"there is no contradiction"};
                }
                else {
                    auto lo = number(a), hi = number(b);
                    if (! lo || ! hi)
                        throw Bad{"bad bounds"};
                    if (! best || *best > *hi)
                        throw Bad{"no solution as good as the upper bound " + str(*hi)};
                    auto c = objective_at_least(*lo);
                    if (! rup(c) && ! some_one_implies(c))
                        throw Bad{"the lower bound " + str(*lo) + " is not shown"};
                    r.lo = *lo;
                    r.hi = *hi;
                }
            }
            else
                throw Bad{"there is no conclusion '" + what + "'"};
            end(in);
            r.conclusion = what;
        }

        Report run()
        {
            try {
                read_formula();
            }
            catch (const Bad & b) {
                r.error = "formula: " + b.why;
                return r;
            }
            catch (const GiveUp &) {
                r.gave_up = true;
                return r;
            }
            try {
                string_view s{pbp};
                while (! s.empty()) {
                    auto e = s.find('\n');
                    if (e == string_view::npos) {
                        lines.push_back(s);
                        unterminated = true;
                        break;
                    }
                    lines.push_back(s.substr(0, e));
                    s.remove_prefix(e + 1);
                }
                auto first = line();
                if (! first) {
                    if (! allow_torn)
                        throw Bad{"there is no proof"};
                    throw Torn{};
                }
                if (*first != "pseudo-Boolean proof version 3.0")
                    throw Bad{"not a proof"};
                while (auto l = line()) {
                    if (done)
                        throw Bad{"something follows the end of the proof"};
                    step(*l);
                }
                if (! done) {
                    if (! allow_torn)
                        throw Bad{"the proof does not end"};
                    throw Torn{};
                }
                r.ok = true;
            }
            catch (const Torn &) {
                r.ok = true;
                r.torn = true;
            }
            catch (const Bad & b) {
                r.error = b.why;
                r.line = (long)next;
                if (next > 0 && next <= lines.size())
                    r.error += " [line " + to_string(next) + ": " + string(trim(lines[next - 1]).substr(0, 200)) + "]";
            }
            catch (const GiveUp &) {
                r.gave_up = true;
            }
            return r;
        }
    };
}

Report sim::pb::check(const string & opb, const string & pbp, bool allow_torn, const Limits & l)
{
    return Checker{opb, pbp, allow_torn, l}.run();
}
