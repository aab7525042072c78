// The domain store, driven through seeded histories of guesses, contradictions and jumps back, against a
// reference store made of plain interval lists.
#include "props.hh"
#include <algorithm>
#include <any>
#include <gcs/innards/inference_tracker.hh>
#include <gcs/innards/state.hh>
#include <gcs/interval_set.hh>
using namespace gcs;
using namespace gcs::innards;
using namespace std;
using sim::Case;
using sim::i64;
using sim::Rng;
using sim::u64;
using sim::Violation;

namespace
{
    using Dom = vector<pair<i64, i64>>;

    Dom without(const Dom & d, i64 a, i64 b)
    {
        Dom r;
        for (auto [l, u] : d) {
            if (a > b || u < a || l > b) {
                r.emplace_back(l, u);
                continue;
            }
            if (l < a)
                r.emplace_back(l, a - 1);
            if (u > b)
                r.emplace_back(b + 1, u);
        }
        return r;
    }

    constexpr i64 far = 4000000000000000000LL;

    Dom within(const Dom & d, i64 a, i64 b)
    {
        if (a > b)
            return {};
        return without(without(d, -far, a - 1), b + 1, far);
    }

    bool has(const Dom & d, i64 v)
    {
        for (auto [l, u] : d)
            if (l <= v && v <= u)
                return true;
        return false;
    }

    bool meet(const Dom & x, const Dom & y)
    {
        for (auto [a, b] : x)
            for (auto [c, d] : y)
                if (max(a, c) <= min(b, d))
                    return true;
        return false;
    }

    i64 size(const Dom & d)
    {
        i64 n = 0;
        for (auto [l, u] : d)
            n += u - l + 1;
        return n;
    }

    string text(const Dom & d)
    {
        string s = "{";
        for (auto [l, u] : d)
            s += (s.size() > 1 ? " " : "") + to_string(l) + (l == u ? "" : ".." + to_string(u));
        return s + "}";
    }

    struct View
    {
        int var; // -1 for a constant
        bool neg;
        i64 add;
    };

    struct Lit
    {
        View v;
        int op;
        i64 a, b;
        bool operator==(const Lit & o) const
        {
            return v.var == o.v.var && v.neg == o.v.neg && v.add == o.v.add && op == o.op && a == o.a && b == o.b;
        }
    };

    struct Level
    {
        vector<Dom> doms;
        vector<vector<i64>> priv;
        size_t guesses = 0, extra = 0;
        bool subsearch = false;
        vector<int> callbacks;
        optional<Timestamp> stamp;
    };

    struct Store
    {
        unique_ptr<State> real;
        vector<Level> levels;
        vector<Lit> guesses, extra;
        vector<ConstraintStateHandle> handles;
        size_t floor = 0; // do not jump back below this
        int cloned = 0;
    };

    struct Sim
    {
        vector<Store> stores;
        size_t cur = 0;
        vector<int> called;
        int next_callback = 0;
        string where;

        Store & s()
        {
            return stores[cur];
        }
        Level & top()
        {
            return s().levels.back();
        }
        [[noreturn]] void fail(const string & kind, const string & what)
        {
            throw Violation{kind + " " + where + ": " + what};
        }

        Dom dom(const Level & l, const View & v)
        {
            if (v.var < 0)
                return {{v.add, v.add}};
            Dom r;
            for (auto [a, b] : l.doms[(size_t)v.var])
                r.emplace_back((v.neg ? -b : a) + v.add, (v.neg ? -a : b) + v.add);
            sort(r.begin(), r.end());
            return r;
        }

        IntegerVariableID id(const View & v)
        {
            if (v.var < 0)
                return ConstantIntegerVariableID{Integer{v.add}};
            SimpleIntegerVariableID x{(unsigned long long)v.var};
            if (! v.neg && v.add == 0)
                return x;
            return ViewOfIntegerVariableID{x, v.neg, Integer{v.add}};
        }

        static VariableConditionOperator op_of(int op)
        {
            using enum VariableConditionOperator;
            switch (op) {
            case 0: return Equal;
            case 1: return NotEqual;
            case 2: return Less;
            case 3: return GreaterEqual;
            case 4: return InRange;
            default: return NotInRange;
            }
        }

        Literal literal(const Lit & l)
        {
            auto v = id(l.v);
            Integer a{l.a}, b{l.b};
            switch (l.op) {
            case 0: return v == a;
            case 1: return v != a;
            case 2: return v < a;
            case 3: return v >= a;
            case 4: return in_range(v, a, b);
            default: return not_in_range(v, a, b);
            }
        }

        Dom apply(const Dom & d, const Lit & l)
        {
            switch (l.op) {
            case 0: return within(d, l.a, l.a);
            case 1: return without(d, l.a, l.a);
            case 2: return within(d, -far, l.a - 1);
            case 3: return within(d, l.a, far);
            case 4: return within(d, l.a, l.b);
            default: return without(d, l.a, l.b);
            }
        }

        // views back to the variable
        void put(const View & v, const Dom & d)
        {
            if (v.var < 0)
                return;
            Dom r;
            for (auto [a, b] : d)
                r.emplace_back(v.neg ? v.add - b : a - v.add, v.neg ? v.add - a : b - v.add);
            sort(r.begin(), r.end());
            top().doms[(size_t)v.var] = r;
        }

        template <typename V>
        Inference infer_with(State & st, const V & v, const Lit & l, int how)
        {
            Integer a{l.a}, b{l.b};
            if (how == 1) {
                VariableConditionFrom<V> c{v, op_of(l.op), a, b};
                return st.infer(c);
            }
            switch (l.op) {
            case 0: return st.infer_equal(v, a);
            case 1: return st.infer_not_equal(v, a);
            case 2: return st.infer_less_than(v, a);
            case 3: return st.infer_greater_than_or_equal(v, a);
            case 4: return st.infer_in_range(v, a, b);
            default: return st.infer_not_in_range(v, a, b);
            }
        }

        Inference infer(const Lit & l, int how)
        {
            auto & st = *s().real;
            auto v = id(l.v);
            if (how == 0)
                return st.infer(literal(l));
            if (how < 3)
                return infer_with(st, v, l, how);
            how -= 2;
            if (auto x = get_if<SimpleIntegerVariableID>(&v))
                return infer_with(st, *x, l, how);
            if (auto x = get_if<ViewOfIntegerVariableID>(&v))
                return infer_with(st, *x, l, how);
            return infer_with(st, get<ConstantIntegerVariableID>(v), l, how);
        }

        static string name(Inference i)
        {
            switch (i) {
            case Inference::NoChange: return "no change";
            case Inference::InteriorValuesChanged: return "interior values changed";
            case Inference::BoundsChanged: return "bounds changed";
            case Inference::Instantiated: return "instantiated";
            default: return "contradiction";
            }
        }

        Inference expected(const Dom & before, const Dom & after)
        {
            if (after.empty())
                return Inference::Contradiction;
            if (before == after)
                return Inference::NoChange;
            if (size(after) == 1)
                return Inference::Instantiated;
            if (before.front().first != after.front().first || before.back().second != after.back().second)
                return Inference::BoundsChanged;
            return Inference::InteriorValuesChanged;
        }

        LiteralIs truth(const Lit & l)
        {
            auto d = dom(top(), l.v), a = apply(d, l);
            return a.empty() ? LiteralIs::DefinitelyFalse : a == d ? LiteralIs::DefinitelyTrue : LiteralIs::Undecided;
        }

        void jump_back(size_t to) // leaving this many levels
        {
            auto & st = s();
            to = max(to, st.floor + 1);
            if (to >= st.levels.size())
                return;
            Level & l = st.levels[to];
            vector<int> expect;
            for (size_t i = to; i < st.levels.size(); ++i)
                for (auto c : st.levels[i].callbacks)
                    expect.push_back(c);
            called.clear();
            st.real->backtrack(*l.stamp);
            if (called.size() != expect.size() || ! is_permutation(called.begin(), called.end(), expect.begin()))
                fail("backtrack-callbacks", to_string(expect.size()) + " were due when jumping back, and " + to_string(called.size()) + " were made");
            // deeper levels may have been left without their own bookkeeping, as a restart does
            st.guesses.resize(l.guesses);
            if (l.subsearch)
                st.extra.resize(l.extra);
            sim::tally().hit(st.levels.size() - to > 1 ? "fault: jump back over several choice points" : "fault: jump back one choice point");
            st.levels.resize(to);
        }

        template <typename V>
        void compare(const V & v, const Dom & d, const string & n)
        {
            auto & st = *s().real;
            auto [l, u] = st.bounds(v);
            if (l.raw_value != d.front().first || u.raw_value != d.back().second)
                fail("bounds", n + " has bounds " + to_string(l.raw_value) + ".." + to_string(u.raw_value) + ", and should be " + text(d));
            auto one = st.optional_single_value(v);
            if (one.has_value() != (size(d) == 1) || (one && one->raw_value != d[0].first))
                fail("single-value", n + " should be " + text(d));
            Dom got;
            for (auto [a, b] : st.copy_of_values(v).each_interval())
                got.emplace_back(a.raw_value, b.raw_value);
            if (got != d)
                fail("values", n + " is " + text(got) + ", and should be " + text(d));
            for (auto [a, b] : d)
                for (i64 x : {a - 1, a, b, b + 1})
                    if (st.in_domain(v, Integer{x}) != has(d, x))
                        fail("membership", to_string(x) + " in " + n + " is wrong: it should be " + text(d));
            if (size(d) <= 64) {
                vector<i64> all, g1, g2, g3, g4;
                for (auto [a, b] : d)
                    for (i64 x = a; x <= b; ++x)
                        all.push_back(x);
                for (auto x : st.each_value_immutable(v))
                    g1.push_back(x.raw_value);
                for (auto x : st.each_value_mutable(v))
                    g2.push_back(x.raw_value);
                st.for_each_value_immutable(v, [&](Integer x) { g3.push_back(x.raw_value); });
                st.for_each_value_mutable(v, [&](Integer x) { g4.push_back(x.raw_value); return g4.size() < 3; });
                if (g1 != all || g2 != all || g3 != all || g4.size() != min<size_t>(3, all.size()) || ! equal(g4.begin(), g4.end(), all.begin()))
                    fail("iteration", "values of " + n + " were not given in ascending order, each once: it should be " + text(d));
            }
        }

        void check_one(const View & v)
        {
            auto & st = *s().real;
            auto d = dom(top(), v);
            auto x = id(v);
            string n = (v.var < 0 ? "constant " : (v.neg ? "-x" : "x") + to_string(v.var) + (v.add ? (v.add > 0 ? "+" : "") + to_string(v.add) : "")) +
                (s().cloned ? " of a clone" : "");
            compare(x, d, n);
            if (auto y = get_if<SimpleIntegerVariableID>(&x))
                compare(*y, d, n);
            else if (auto y = get_if<ViewOfIntegerVariableID>(&x))
                compare(*y, d, n);
            else
                compare(get<ConstantIntegerVariableID>(x), d, n);
            if (st.lower_bound(x).raw_value != d.front().first || st.upper_bound(x).raw_value != d.back().second)
                fail("bounds", n + " should be " + text(d));
            if (st.domain_size(x).raw_value != size(d))
                fail("size", n + " has size " + to_string(st.domain_size(x).raw_value) + ", and should be " + text(d));
            if (st.has_single_value(x) != (size(d) == 1))
                fail("single-value", n + " should be " + text(d));
            if (d.size() > 1 && ! st.domain_has_holes(x))
                fail("holes", n + " has holes: it is " + text(d));
            if (size(d) <= 64) {
                vector<i64> down;
                auto cs = st.current();
                for (auto y : cs.each_value_reversed(x))
                    down.push_back(y.raw_value);
                vector<i64> all;
                for (auto [a, b] : d)
                    for (i64 y = a; y <= b; ++y)
                        all.push_back(y);
                reverse(all.begin(), all.end());
                if (down != all)
                    fail("iteration", "values of " + n + " were not given in descending order: it should be " + text(d));
                if (cs.domain_size(x).raw_value != size(d) || cs.lower_bound(x).raw_value != d.front().first || cs.upper_bound(x).raw_value != d.back().second)
                    fail("current-state", n + " should be " + text(d));
            }
            try {
                auto y = st(x);
                if (size(d) != 1 || y.raw_value != d[0].first)
                    fail("single-value", n + " gave " + to_string(y.raw_value) + ", and should be " + text(d));
            }
            catch (const VariableDoesNotHaveUniqueValue &) {
                if (size(d) == 1)
                    fail("single-value", n + " should be " + text(d));
            }
        }

        void check(Rng & r)
        {
            for (size_t k = 0; k < stores.size(); ++k) {
                auto keep = cur;
                cur = k;
                for (int i = 0; i < (int)top().doms.size(); ++i) {
                    check_one({i, false, 0});
                    if (r.chance(30))
                        check_one({i, r.chance(60), r.range(-3, 3)});
                }
                auto & st = s();
                vector<Lit> want = st.extra;
                want.insert(want.end(), st.guesses.begin(), st.guesses.end());
                size_t i = 0;
                for (auto g : st.real->guesses()) {
                    if (i >= want.size() || ! (g == literal(want[i])))
                        fail("guesses", "guess " + to_string(i) + " is not what it should be");
                    ++i;
                }
                if (i != want.size())
                    fail("guesses", to_string(i) + " guesses are in force, and there should be " + to_string(want.size()));
                for (size_t h = 0; h < st.handles.size(); ++h)
                    if (any_cast<vector<i64> &>(st.real->get_constraint_state(st.handles[h])) != top().priv[h])
                        fail("private-state", "constraint state " + to_string(h) + " was not restored");
                cur = keep;
            }
        }
    };

    Lit lit_of(Sim & m, const vector<i64> & o, size_t at, bool backwards = false)
    {
        auto get = [&](size_t i) { return at + i < o.size() ? o[at + i] : 0; };
        Lit l;
        int n = (int)m.top().doms.size();
        l.v.var = get(0) < 0 ? -1 : (int)(get(0) % n);
        l.v.neg = l.v.var >= 0 && get(1) & 1;
        l.v.add = get(2);
        if (l.v.var < 0)
            l.v.add += m.top().doms[0].front().first;
        l.op = (int)get(3);
        // values are given relative to the domain at that moment, so histories keep meaning when parts are removed
        auto d = m.dom(m.top(), l.v);
        i64 lo = d.front().first, span = d.back().second - lo;
        auto place = [&](i64 k) { // per mille of the span, and a bit outside
            return lo + (i64)((__int128)span * (k / 16) / 1000) + (k % 16) - 7;
        };
        l.a = place(get(4));
        l.b = place(get(5));
        if (l.op < 4)
            l.b = 0;
        else if (l.a > l.b && ! backwards)
            swap(l.a, l.b);
        return l;
    }

    void run_history(const Case & c)
    {
        Sim m;
        Rng r{c.seed ^ 77};
        m.stores.emplace_back();
        m.s().real = make_unique<State>();
        m.s().levels.emplace_back();
        auto & base = m.s();
        for (auto & v : c.vars) {
            auto x = base.real->allocate_integer_variable_with_state(Integer{v.lo}, Integer{v.hi});
            if (x.index != base.levels[0].doms.size())
                m.fail("allocation", "variables are not numbered in order");
            base.levels[0].doms.push_back({{v.lo, v.hi}});
        }
        for (i64 h = 0; h < c.get("privates"); ++h) {
            vector<i64> init{h};
            base.handles.push_back(base.real->add_constraint_state(init));
            base.levels[0].priv.push_back(init);
        }
        auto hash = [&](u64 x) { sim::case_hash = sim::mix(sim::case_hash ^ x); };
        size_t deepest = 0;
        u64 step = 0;
        for (auto & o : c.ops) {
            m.where = "after " + to_string(++step) + " of " + to_string(c.ops.size()) + " operations";
            ++sim::tally().steps;
            i64 code = o[0];
            hash((u64)code);
            auto & st = m.s();
            switch (code) {
            case 1: case 2: { // infer, guess
                int how = (int)o[1] % 5;
                Lit l = lit_of(m, o, 2, code == 1 && (how == 2 || how == 4)); // a condition may not have its ends the wrong way round
                auto before = m.dom(m.top(), l.v), after = m.apply(before, l);
                auto want = m.expected(before, after);
                if (want == Inference::Contradiction && st.levels.size() <= st.floor + 1)
                    break; // there is nowhere to go back to
                if (code == 1) {
                    auto got = m.infer(l, how);
                    hash((u64)got);
                    if (got != want)
                        m.fail("inference-kind", "inferring on " + text(before) + " giving " + text(after) + " was called " + m.name(got) + ", and is " + m.name(want));
                }
                else {
                    bool threw = false;
                    try {
                        st.real->guess(m.literal(l));
                    }
                    catch (const UnexpectedException &) {
                        threw = true;
                    }
                    if (threw != (want == Inference::Contradiction))
                        m.fail("guess", threw ? "a possible guess was refused" : "an impossible guess was accepted");
                    if (! threw)
                        st.guesses.push_back(l);
                }
                if (want == Inference::Contradiction) {
                    sim::tally().hit("fault: contradiction");
                    m.jump_back(st.levels.size() - 1 - (size_t)(o[1] / 5) % st.levels.size());
                }
                else
                    m.put(l.v, after);
                break;
            }
            case 3: { // choice point
                if (st.levels.size() > 40)
                    break;
                Level l = m.top();
                l.callbacks.clear();
                l.subsearch = o[1] & 1;
                l.guesses = st.guesses.size();
                l.extra = st.extra.size();
                l.stamp = st.real->new_epoch(l.subsearch);
                st.levels.push_back(std::move(l));
                deepest = max(deepest, st.levels.size());
                break;
            }
            case 4:
                if (st.levels.size() > 1)
                    m.jump_back(st.levels.size() - 1 - (size_t)o[1] % st.levels.size());
                break;
            case 5: {
                int n = m.next_callback++;
                st.real->on_backtrack([&m, n] { m.called.push_back(n); });
                m.top().callbacks.push_back(n);
                break;
            }
            case 6: {
                Lit l = lit_of(m, o, 2);
                st.real->add_extra_proof_condition(m.literal(l));
                st.extra.push_back(l);
                break;
            }
            case 7:
                if (! st.handles.empty()) {
                    auto h = (size_t)o[1] % st.handles.size();
                    auto & p = any_cast<vector<i64> &>(st.real->get_constraint_state(st.handles[h]));
                    auto & q = m.top().priv[h];
                    if (o[2] & 1 || q.empty())
                        p.push_back(o[3]), q.push_back(o[3]);
                    else
                        p.pop_back(), q.pop_back();
                }
                break;
            case 8: // clone, drop a clone, or switch between them
                if (o[1] % 3 == 0 && m.stores.size() < 3) {
                    auto copy = make_unique<State>(st.real->clone());
                    Store n;
                    n.real = std::move(copy);
                    n.levels = st.levels;
                    n.handles = st.handles;
                    n.floor = n.levels.size() - 1;
                    n.cloned = 1; // what was guessed does not come along
                    m.stores.push_back(std::move(n));
                    sim::tally().hit("clone");
                }
                else if (o[1] % 3 == 1 && m.stores.size() > 1) {
                    m.stores.erase(m.stores.begin() + 1);
                    m.cur = 0;
                }
                else
                    m.cur = (size_t)o[2] % m.stores.size();
                break;
            case 9: { // ask about literals
                for (int i = 0; i < 6; ++i) {
                    vector<i64> p{0, 0};
                    for (int j = 0; j < 6; ++j)
                        p.push_back(j == 0 ? r.range(-1, 20) : j == 2 ? r.range(-3, 3) : j == 3 ? r.range(0, 5) : j < 2 ? r.range(0, 1) : r.range(0, 16000));
                    Lit l = lit_of(m, p, 2);
                    if (st.real->test_literal(m.literal(l)) != m.truth(l))
                        m.fail("literal-truth", "a literal over " + text(m.dom(m.top(), l.v)) + ", operator " + to_string(l.op) + " " + to_string(l.a) + " " + to_string(l.b) +
                            ", has the wrong truth value");
                }
                break;
            }
            case 10: { // domains meeting, and the arithmetic of interval sets
                View x{(int)(o[1] % (i64)c.vars.size()), bool(o[2] & 1), o[3] % 4}, y{(int)(o[4] % (i64)c.vars.size()), bool(o[5] & 1), o[6] % 4};
                if (o[2] & 2)
                    y = View{-1, false, m.dom(m.top(), x).front().first + o[6] % 4};
                auto dx = m.dom(m.top(), x), dy = m.dom(m.top(), y);
                bool want = meet(dx, dy);
                auto sx = st.real->copy_of_values(m.id(x)), sy = st.real->copy_of_values(m.id(y));
                if (st.real->domains_intersect(m.id(x), m.id(y)) != want || st.real->domains_intersect(m.id(y), m.id(x)) != want ||
                    st.real->domain_intersects_with(m.id(x), sy) != want || sx.contains_any_of(sy) != want)
                    m.fail("intersection", text(dx) + " and " + text(dy) + " meet: " + (want ? "yes" : "no"));
                Dom both, minus, gaps, gm, gg, gb;
                for (auto [a, b] : dx)
                    for (auto [p, q] : dy)
                        if (max(a, p) <= min(b, q))
                            both.emplace_back(max(a, p), min(b, q));
                minus = dx;
                for (auto [a, b] : dy)
                    minus = without(minus, a, b);
                for (size_t i = 1; i < dx.size(); ++i)
                    gaps.emplace_back(dx[i - 1].second + 1, dx[i].first); // half open, as documented
                for (auto [a, b] : sx.each_interval_minus(sy))
                    gm.emplace_back(a.raw_value, b.raw_value);
                for (auto [a, b] : sx.each_gap_interval())
                    gg.emplace_back(a.raw_value, b.raw_value);
                auto sz = sx;
                sz.intersect_with(sy);
                for (auto [a, b] : sz.each_interval())
                    gb.emplace_back(a.raw_value, b.raw_value);
                if (gm != minus || gg != gaps || gb != both)
                    m.fail("interval-sets", text(dx) + " with " + text(dy) + " gave difference " + text(gm) + ", gaps " + text(gg) + ", intersection " + text(gb));
                break;
            }
            case 11: { // change a domain whilst walking over a snapshot of it
                View x{(int)(o[1] % (i64)c.vars.size()), bool(o[2] & 1), o[3] % 4};
                auto d = m.dom(m.top(), x);
                if (size(d) > 40)
                    break;
                vector<i64> seen, want;
                for (auto [a, b] : d)
                    for (i64 v = a; v <= b; ++v)
                        want.push_back(v);
                auto drop = [&](i64 v) {
                    seen.push_back(v);
                    auto now = m.dom(m.top(), x);
                    if (size(now) > 1 && has(now, v) && (v + o[4]) % 3) {
                        auto kind = st.real->infer_not_equal(m.id(x), Integer{v});
                        auto after = without(now, v, v);
                        if (kind != m.expected(now, after))
                            m.fail("inference-kind", "removing " + to_string(v) + " from " + text(now));
                        m.put(x, after);
                    }
                };
                if (o[5] & 1)
                    st.real->for_each_value_mutable(m.id(x), [&](Integer v) { drop(v.raw_value); });
                else
                    for (auto v : st.real->each_value_mutable(m.id(x)))
                        drop(v.raw_value);
                if (seen != want)
                    m.fail("iteration", "walking over a snapshot of " + text(d) + " whilst changing it went elsewhere");
                break;
            }
            }
            m.check(r);
            for (auto & d : m.top().doms)
                for (auto [a, b] : d)
                    hash((u64)a * 31 + (u64)b);
        }
        // and all the way back
        m.where = "at the end";
        while (m.stores.size() > 1)
            m.stores.pop_back();
        m.cur = 0;
        m.jump_back(1);
        m.check(r);
        sim::tally().n["most choice points deep"] = max<u64>(sim::tally().n["most choice points deep"], deepest);
        sim::tally().hit("histories");
        sim::tally().schedules.insert(sim::case_hash);
        sim::Hash h;
        h.add(c.vars.size());
        h.add(deepest);
        h.add(c.ops.size() / 10);
        sim::tally().shapes.insert(h.h);
    }
}

Case sim::make_c08(Rng & r)
{
    Case c;
    int n = (int)r.range(1, 6);
    static const i64 bases[] = {0, 0, 0, -5, 100, -1000000, 1LL << 40, -(1LL << 60)};
    for (int i = 0; i < n; ++i) {
        VarDecl v;
        i64 base = bases[r.below(8)];
        v.lo = base + r.range(-4, 4);
        v.hi = v.lo + (r.chance(10) ? r.range(1000, 1000000000) : r.chance(15) ? 0 : r.range(1, 20));
        c.vars.push_back(v);
    }
    c.p["privates"] = r.range(0, 3);
    int len = (int)(r.chance(20) ? r.range(100, 400) : r.range(5, 80));
    int deep = (int)r.range(5, 30), back = (int)r.range(3, 25), clone = r.chance(25) ? 6 : 0;
    for (int i = 0; i < len; ++i) {
        vector<i64> o;
        int k = (int)r.below(100);
        auto lit = [&] {
            o.push_back(r.chance(3) ? -1 : r.range(0, 20));
            o.push_back(r.range(0, 1));
            o.push_back(r.chance(50) ? 0 : r.range(-3, 3));
            o.push_back(r.range(0, 5));
            // near the middle, the ends, or just beyond them
            for (int j = 0; j < 2; ++j)
                o.push_back(r.chance(40) ? (r.chance(50) ? 0 : 16000) + r.range(3, 12) : r.range(0, 1000) * 16 + r.range(3, 12));
        };
        if (k < deep)
            o = {3, r.range(0, 1)};
        else if (k < deep + back)
            o = {4, r.chance(70) ? 0 : r.range(0, 10)};
        else if (k < deep + back + clone)
            o = {8, r.range(0, 5), r.range(0, 5)};
        else
            switch (r.below(12)) {
            case 0: o = {5}; break;
            case 1: o = {6, 0}; lit(); break;
            case 2: o = {7, r.range(0, 5), r.range(0, 1), r.range(0, 99)}; break;
            case 3: o = {9}; break;
            case 4: o = {10, r.range(0, 9), r.range(0, 3), r.range(0, 3), r.range(0, 9), r.range(0, 1), r.range(0, 3)}; break;
            case 5: o = {11, r.range(0, 9), r.range(0, 1), r.range(0, 3), r.range(0, 2), r.range(0, 1)}; break;
            case 6: case 7: o = {2, r.range(0, 40)}; lit(); break;
            default: o = {1, r.range(0, 40)}; lit();
            }
        c.ops.push_back(o);
    }
    return c;
}

void sim::check_c08(const Case & c)
{
    run_history(c);
}
