// Generates cases: a problem, a way of searching it, and a schedule.
#include "case.hh"
#include <algorithm>
#include <cstdlib>
#include <limits>
#include <set>
#include <sstream>
#include <stdexcept>
using namespace std;
using namespace sim;

namespace
{
    const i64 WILD = numeric_limits<i64>::min();

    struct Gen
    {
        Rng & r;
        Case & c;
        const GenOptions & o;
        double product = 1;
        i64 off = 0; // where "ordinary" values live

        i64 lo_of(int v)
        {
            auto & d = c.vars[v];
            return d.is_range ? d.lo : *min_element(d.values.begin(), d.values.end());
        }
        i64 hi_of(int v)
        {
            auto & d = c.vars[v];
            return d.is_range ? d.hi : *max_element(d.values.begin(), d.values.end());
        }
        pair<i64, i64> bounds(const Term & t)
        {
            if (t.var < 0)
                return {t.add, t.add};
            i64 a = lo_of(t.var), b = hi_of(t.var);
            return t.neg ? pair{-b + t.add, -a + t.add} : pair{a + t.add, b + t.add};
        }
        vector<i64> values(const Term & t)
        {
            if (t.var < 0)
                return {t.add};
            auto d = c.vars[t.var].domain();
            for (auto & x : d)
                x = (t.neg ? -x : x) + t.add;
            return d;
        }

        bool can_make(i64 size)
        {
            return (int)c.vars.size() < o.max_vars && product * (double)size <= (double)o.max_product;
        }

        optional<Term> fresh(i64 lo, i64 hi)
        {
            i64 want = r.chance(6) ? 1 : r.chance(60) ? r.range(2, 4) : r.range(2, 7);
            want = min(want, hi - lo + 1);
            while (want > 1 && ! can_make(want))
                --want;
            if (! can_make(want))
                return nullopt;
            VarDecl d;
            d.lo = r.range(lo, hi - want + 1);
            d.hi = d.lo + want - 1;
            if (want > 1 && r.chance(22)) {
                // the same number of values, with gaps
                set<i64> s;
                i64 span = min<i64>(hi - lo, o.wide && r.chance(30) ? 200 : want + r.range(0, 6));
                i64 base = r.range(lo, hi - span);
                for (int k = 0; k < 40 && (i64)s.size() < want; ++k)
                    s.insert(base + r.range(0, span));
                d.is_range = false;
                d.values.assign(s.begin(), s.end());
                if (r.chance(30))
                    r.shuffle(d.values);
            }
            product *= (double)want;
            if (o.names && r.chance(70))
                d.name = "v" + to_string(c.vars.size()) + (r.chance(20) ? "_x" : "");
            c.vars.push_back(d);
            return Term{(int)c.vars.size() - 1, false, 0};
        }

        // reuse v so that everything it can be lies in lo..hi
        optional<Term> fit(int v, i64 lo, i64 hi, bool plain)
        {
            i64 a = lo_of(v), b = hi_of(v);
            bool ok_plain = a >= lo && b <= hi;
            if (ok_plain && (plain || ! o.views || r.chance(75)))
                return Term{v, false, 0};
            if (plain || ! o.views || b - a > hi - lo)
                return nullopt;
            bool neg = r.chance(45);
            if (neg) {
                swap(a, b);
                a = -a;
                b = -b;
            }
            i64 add = r.range(lo - a, hi - b);
            if (r.chance(50) && a >= lo && b <= hi)
                add = 0;
            return Term{v, neg, add};
        }

        // A term certain to be in lo..hi.
        Term term(i64 lo, i64 hi, int reuse = 50, int constant = 8, const set<int> * avoid = nullptr, bool plain = false)
        {
            if (! plain && r.chance(constant))
                return Term{-1, false, r.range(lo, hi)};
            auto try_reuse = [&]() -> optional<Term> {
                vector<int> vs;
                for (int i = 0; i < (int)c.vars.size(); ++i)
                    if (! avoid || ! avoid->contains(i))
                        vs.push_back(i);
                r.shuffle(vs);
                for (auto v : vs)
                    if (auto t = fit(v, lo, hi, plain))
                        return t;
                return nullopt;
            };
            if (r.chance(reuse))
                if (auto t = try_reuse())
                    return *t;
            if (auto t = fresh(lo, hi)) {
                if (o.views && ! plain && r.chance(12)) {
                    // a view that undoes its own shift
                    i64 s = r.range(-3, 3);
                    auto & d = c.vars[t->var];
                    d.lo -= s, d.hi -= s;
                    for (auto & x : d.values)
                        x -= s;
                    t->add = s;
                }
                return *t;
            }
            if (auto t = try_reuse())
                return *t;
            return Term{-1, false, r.range(lo, hi)};
        }

        // as list, but as many distinct variables as there can be, at least one, and no constants
        vector<Term> variables(int n, i64 lo, i64 hi)
        {
            auto ts = list(n, lo, hi, true, 0);
            erase_if(ts, [](const Term & t) { return t.var < 0; });
            if (ts.empty()) {
                VarDecl d;
                d.lo = d.hi = lo;
                c.vars.push_back(d);
                ts.push_back(Term{(int)c.vars.size() - 1, false, 0});
            }
            return ts;
        }

        Term any(int reuse = 55)
        {
            return term(off - 4, off + 6, reuse);
        }

        vector<Term> list(int n, i64 lo, i64 hi, bool distinct = false, int constant = 6, int reuse = 45)
        {
            vector<Term> ts;
            set<int> used;
            for (int i = 0; i < n; ++i) {
                ts.push_back(term(lo, hi, reuse, constant, distinct || r.chance(85) ? &used : nullptr));
                if (ts.back().var >= 0)
                    used.insert(ts.back().var);
            }
            return ts;
        }

        Cond cond()
        {
            Cond q;
            q.t = r.chance(60) && c.vars.empty() == false ? term(-50, 50, 70, 4) : term(0, 1, 50, 3);
            auto [a, b] = bounds(q.t);
            q.op = r.chance(88) ? (int)r.below(4) : INR + (int)r.below(2);
            q.v = r.range(a - (r.chance(10) ? 1 : 0), b + (r.chance(10) ? 1 : 0));
            q.v2 = q.op >= INR ? q.v + r.range(1, 3) : 0;
            return q;
        }

        void reify(Con & k)
        {
            k.reif = r.chance(92) ? (int)r.below(3) : (int)r.range(3, 4);
            if (k.reif && k.reif != 3)
                k.c.push_back(cond());
        }

        int small(int lo, int hi)
        {
            return (int)r.range(lo, hi);
        }

        bool same(const Term & a, const Term & b)
        {
            return a == b || (a.var == b.var && a.var >= 0);
        }

        static string random_regex(Rng & r, i64 lo, i64 hi, int depth)
        {
            auto sym = [&]() -> string {
                int what = (int)r.below(12);
                i64 a = r.range(lo, hi);
                if (what == 0)
                    return ".";
                if (what <= 2) {
                    i64 b = r.range(a, hi);
                    return "[" + string(r.chance(40) ? "^" : "") + to_string(a) + (b > a && a >= 0 ? "-" + to_string(b) : "") +
                        (r.chance(40) ? " " + to_string(r.range(lo, hi)) : "") + "]";
                }
                return to_string(a);
            };
            if (depth <= 0)
                return sym();
            switch (r.below(6)) {
            case 0: return "(" + random_regex(r, lo, hi, depth - 1) + "|" + random_regex(r, lo, hi, depth - 1) + ")";
            case 1: return "(" + random_regex(r, lo, hi, depth - 1) + ")" + string(1, "*+?"[r.below(3)]);
            case 2: {
                i64 a = r.range(0, 2);
                return "(" + random_regex(r, lo, hi, depth - 1) + "){" + to_string(a) +
                    (r.chance(50) ? "," + (r.chance(50) ? to_string(a + r.range(0, 2)) : string{}) : string{}) + "}";
            }
            case 3: return sym() + string(1, "*+?"[r.below(3)]) + " " + random_regex(r, lo, hi, depth - 1);
            default: return random_regex(r, lo, hi, depth - 1) + " " + random_regex(r, lo, hi, depth - 1);
            }
        }

        void make(Con & k);
        void lengthen(Con & k);
        void multiply();
    };

    // The same constraint over a longer list, most of which says little.
    void Gen::lengthen(Con & k)
    {
        const string & n = k.kind;
        int extra = (int)(o.proofs ? r.range(4, 16) : r.range(10, 80));
        auto fixed = [&](i64 v) {
            if (r.chance(30))
                return Term{-1, false, v};
            VarDecl d;
            d.lo = d.hi = v;
            c.vars.push_back(d);
            return Term{(int)c.vars.size() - 1, false, 0};
        };
        auto single = [&](i64 v) { // not a constant
            VarDecl d;
            d.lo = d.hi = v;
            c.vars.push_back(d);
            return Term{(int)c.vars.size() - 1, false, 0};
        };
        i64 A = off - 3, B = off + 5;
        auto put = [&](vector<Term> & ts, bool anywhere, Term t) {
            ts.insert(anywhere ? ts.begin() + (long)r.below(ts.size() + 1) : ts.end(), t);
        };
        if (n == "alldiff") {
            i64 lo = INT64_MAX, hi = INT64_MIN;
            for (auto & t : k.t[0]) {
                auto [a, b] = bounds(t);
                lo = min(lo, a), hi = max(hi, b);
            }
            for (int i = 0; i < extra; ++i)
                put(k.t[0], true, fixed(i % 2 ? hi + 1 + i / 2 : lo - 1 - i / 2));
        }
        else if (n == "symalldiff" || n == "inverse") {
            auto m = (i64)k.t[0].size();
            if (n == "inverse" && (i64)k.t[1].size() != m)
                return;
            for (i64 i = m; i < m + extra; ++i)
                if (n == "symalldiff")
                    k.t[0].push_back(fixed(k.n[0][0] + i));
                else {
                    k.t[0].push_back(fixed(k.n[0][1] + i));
                    k.t[1].push_back(fixed(k.n[0][0] + i));
                }
        }
        else if (n == "among" || n == "count" || n == "nvalue") {
            i64 v = r.range(A, B), w = r.range(A, B);
            auto & result = k.t[1].back();
            bool far = n != "nvalue" && r.chance(60); // none of them counts
            for (int i = 0; i < extra; ++i)
                put(k.t[0], true, fixed(far ? B + 100 + i : r.chance(50) ? v : w));
            if (! far && r.chance(50)) // let the count be about right
                result = n == "nvalue" ? term(1, 4, 0) : term(extra / 2 - 1, extra / 2 + 2, 0);
        }
        else if (n == "atmostone" && ! k.opt)
            for (int i = 0; i < extra; ++i)
                put(k.t[0], true, fixed(B + 50 + i));
        else if (n == "element")
            for (int i = 0; i < extra; ++i)
                k.t[2].push_back(fixed(r.range(A, B)));
        else if (n == "elementc")
            for (int i = 0; i < extra; ++i)
                k.n[1].push_back(r.range(A, B));
        else if (n == "min" || n == "max")
            for (int i = 0; i < extra; ++i)
                put(k.t[0], true, fixed(n == "min" ? r.range(B, B + 5) : r.range(A - 5, A)));
        else if (n == "lineq" || n == "linne" || n == "linle" || n == "linge")
            for (int i = 0; i < extra; ++i) {
                i64 q = r.chance(50) ? (r.chance(50) ? 1 : -1) : r.range(-4, 5), v = r.range(-3, 3);
                auto at = (long)r.below(k.t[0].size() + 1);
                k.t[0].insert(k.t[0].begin() + at, fixed(v));
                k.n[0].insert(k.n[0].begin() + at, q);
                k.n[1][0] += q * v;
            }
        else if ((n == "and" || n == "or" || n == "parity") && ! (k.opt & 1))
            for (int i = 0; i < extra; ++i)
                put(k.t[0], true, fixed(n == "and" ? 1 : n == "or" ? 0 : r.range(0, 1)));
        else if (n == "nogoods")
            for (int i = 0; i < extra; ++i) { // again, in another order and with something more to be false
                auto g = r.below(k.n[0].size());
                size_t at = 0;
                for (size_t j = 0; j < g; ++j)
                    at += (size_t)k.n[0][j];
                vector<Cond> again(k.c.begin() + (long)at, k.c.begin() + (long)at + k.n[0][g]);
                while (again.empty() || r.chance(60)) {
                    auto q = cond();
                    if (q.op < INR)
                        again.push_back(q);
                }
                r.shuffle(again);
                k.n[0].push_back((i64)again.size());
                k.c.insert(k.c.end(), again.begin(), again.end());
            }
        else if (n == "cumulative" || n == "disjunctive") {
            // further tasks, most of them later than all others
            for (int i = 0; i < extra; ++i) {
                k.t[0].push_back(fixed(r.chance(90) ? 12 + 3 * i : r.range(0, 6)));
                k.t[1].push_back(Term{-1, false, k.t[0].back().var >= 0 && c.vars[k.t[0].back().var].lo < 12 ? 0 : r.range(0, 3)});
                if (n == "cumulative") {
                    k.t[2].push_back(Term{-1, false, r.range(0, 1)});
                    if (! k.t[3].empty())
                        k.t[3].push_back(fixed(r.chance(80)));
                }
                else if (! k.t[2].empty())
                    k.t[2].push_back(fixed(r.chance(80)));
            }
        }
        else if (n.starts_with("lex") && n != "lexsmart")
            for (int i = 0; i < extra; ++i) {
                i64 v = r.range(A, B);
                k.t[0].insert(k.t[0].begin(), fixed(v));
                k.t[1].insert(k.t[1].begin(), fixed(v));
            }
        else if (n == "increasing") {
            bool down = k.opt >= 2;
            i64 v = down ? bounds(k.t[0][0]).second : bounds(k.t[0][0]).first;
            for (int i = 0; i < extra; ++i) {
                v += down ? 1 : -1;
                k.t[0].insert(k.t[0].begin(), single(v));
            }
        }
        else if (n == "knapsack")
            for (int i = 0; i < extra; ++i) {
                k.t[0].push_back(fixed(r.range(0, 1)));
                for (auto & w : k.n)
                    w.push_back(k.t[0].back().var >= 0 && c.vars[k.t[0].back().var].lo == 0 ? r.range(0, 3) : 0);
            }
        else if (n == "binpacking")
            for (int i = 0; i < extra; ++i) {
                k.t[0].push_back(fixed(0));
                k.n[0].push_back(0);
            }
        else if (n == "seqprecede" || n == "valueprecede")
            for (int i = 0; i < extra; ++i)
                k.t[0].push_back(fixed(r.range(0, 4)));
        else if (n == "table" || n == "negtable") {
            bool wild = (k.opt >> 8) & 1;
            auto m = (int)k.t[0].size();
            if (o.proofs && n == "table")
                return;
            k.n[0][0] += extra;
            for (int q = 0; q < extra * m; ++q)
                k.n[1].push_back(wild && r.chance(25) ? WILD : r.range(A - 3, B + 3));
        }
    }

    // Many more variables, which hang together so that there are not many more solutions.
    void Gen::multiply()
    {
        int room = (int)((double)o.max_product / product);
        auto rel = [&](const string & kind, Term a, Term b) {
            Con k;
            k.kind = kind;
            k.t = {{a, b}};
            c.cons.push_back(k);
        };
        auto before = (int)c.vars.size();
        if (room >= 6 && r.chance(60)) { // a staircase: 0 0 0 1 1 1
            int n = (int)r.range(4, min(room - 1, o.proofs ? 12 : 110));
            for (int i = 0; i < n; ++i) {
                VarDecl d;
                d.lo = 0, d.hi = 1;
                c.vars.push_back(d);
            }
            int at = r.chance(50) ? 0 : (int)r.range(0, n - 1); // where it starts
            for (int i = 0; i + 1 < n; ++i) {
                Term a{before + (at + i) % n, false, 0}, b{before + (at + i + 1) % n, false, 0};
                r.chance(50) ? rel("le", a, b) : rel("ge", b, a);
            }
            if (r.chance(40) && ! c.vars.empty()) // one step goes along with something else
                rel("eq", Term{before + (int)r.below(n), false, 0}, term(0, 1, 90));
            product *= n + 1;
        }
        else { // a copy of a copy
            int n = (int)r.range(4, o.proofs ? 10 : 90);
            for (int i = 0; i < n; ++i) {
                Term t{(int)(r.chance(30) || i == 0 ? r.below(c.vars.size()) : c.vars.size() - 1), o.views && r.chance(20), o.views && r.chance(20) ? r.range(-2, 2) : 0};
                if (c.vars[t.var].domain().size() > 12)
                    continue;
                VarDecl d;
                auto vs = values(t);
                auto [a, b] = minmax_element(vs.begin(), vs.end());
                if (*b - *a > 60)
                    continue;
                d.lo = *a, d.hi = *b;
                c.vars.push_back(d);
                rel("eq", Term{(int)c.vars.size() - 1, false, 0}, t);
            }
        }
        if (r.chance(50) && before && before < (int)c.vars.size()) { // the new ones first
            auto all = (int)c.vars.size();
            auto to = [&](Term & t) {
                if (t.var >= 0)
                    t.var = t.var < before ? t.var + all - before : t.var - before;
            };
            rotate(c.vars.begin(), c.vars.begin() + before, c.vars.end());
            for (auto & k : c.cons) {
                for (auto & ts : k.t)
                    for (auto & t : ts)
                        to(t);
                for (auto & q : k.c)
                    to(q.t);
            }
        }
    }

    void Gen::make(Con & k)
    {
        const string & n = k.kind;
        auto sub = [&](int v) { k.opt |= v << 8; }; // a variant which does not change the meaning
        i64 A = off - 3, B = off + 5;

        if (n == "abs")
            k.t = {{any(), term(-2, 8)}};
        else if (n == "alldiff") {
            k.t = {list(small(2, 5), A, B)};
            k.opt = small(0, 2);
        }
        else if (n == "alldiff_except") {
            k.t = {list(small(2, 5), -2, 3)};
            k.opt = r.chance(50);
            k.n = {{}};
            if (k.opt)
                k.n[0] = {0};
            else
                for (int i = 0, e = small(0, 2); i < e; ++i)
                    k.n[0].push_back(r.range(-2, 3));
        }
        else if (n == "symalldiff") {
            int m = small(2, 5);
            i64 s = r.range(-1, 2);
            k.t = {list(m, s - (r.chance(20) ? 1 : 0), s + m - 1, true, 3, 20)};
            k.n = {{s}};
        }
        else if (n == "allequal")
            k.t = {list(small(1, 4), A, B)};
        else if (n == "among") {
            int m = small(1, 4);
            k.t = {list(m, A, B), {term(-1, m + 1)}};
            k.n = {{}};
            for (int i = 0, e = small(1, 4); i < e; ++i)
                k.n[0].push_back(r.range(A, B));
        }
        else if (n == "atmostone") {
            k.opt = r.chance(40);
            if (k.opt) { // the smart table rejects entries relating a variable to itself
                auto ts = variables(small(2, 5), A, B);
                k.t = {{ts.begin() + 1, ts.end()}, {ts[0]}};
            }
            else
                k.t = {list(small(1, 4), A, B), {any()}};
        }
        else if (n == "binpacking") {
            int bins = small(1, 3), items = small(1, 4);
            k.opt = r.chance(50);
            k.t = {list(items, 0, bins - 1, false, 4), {}};
            k.n = {{}};
            i64 total = 0;
            for (int i = 0; i < items; ++i) {
                k.n[0].push_back(r.range(0, 4));
                total += k.n[0].back();
            }
            if (k.opt)
                k.t[1] = list(bins, 0, max<i64>(total, 1));
            else {
                k.n.push_back({});
                for (int i = 0; i < bins; ++i)
                    k.n[1].push_back(r.range(0, total));
            }
            sub(small(0, 3));
        }
        else if (n == "circuit") {
            int m = small(2, 5);
            k.t = {list(m, 0, m - 1, true, 3, 15)};
            set<pair<int, i64>> seen;
            sub((int)r.below(512));
        }
        else if (n == "lt" || n == "le" || n == "gt" || n == "ge" || n == "eq" || n == "ne") {
            Term a = any(), b = any();
            if ((n == "lt" || n == "gt" || n == "ne") && same(a, b))
                b = Term{-1, false, r.range(A, B)};
            k.t = {{a, b}};
            reify(k);
        }
        else if (n == "count") {
            int m = small(1, 4);
            k.t = {list(m, A, B), {any(), term(-1, m + 1)}};
        }
        else if (n == "cumulative") {
            int m = small(2, 4);
            bool simple = r.chance(50), pres = r.chance(25);
            k.t = {list(m, 0, 6, false, 3), {}, {}, {}, {}};
            for (int i = 0; i < m; ++i) {
                k.t[1].push_back(simple || r.chance(60) ? Term{-1, false, r.range(0, 4)} : term(0, 4, 40));
                k.t[2].push_back(simple || r.chance(60) ? Term{-1, false, r.range(0, 3)} : term(0, 3, 40));
                if (pres)
                    k.t[3].push_back(term(0, 1, 40, 20));
            }
            k.t[4] = {simple || r.chance(60) ? Term{-1, false, r.range(0, 4)} : term(0, 4, 40)};
            // switching time tabling off leaves a constraint which checks nothing (which some tests rely
            // upon), so that is not a set of rules for posting a constraint with
            sub((int)(r.chance(30) ? 7 : r.chance(30) ? 1023 : r.below(1024)) | 1);
        }
        else if (n == "disjunctive") {
            int m = small(2, 4);
            bool simple = r.chance(50), pres = r.chance(25);
            k.t = {list(m, 0, 7, false, 3), {}, {}};
            for (int i = 0; i < m; ++i) {
                k.t[1].push_back(simple || r.chance(60) ? Term{-1, false, r.range(0, 4)} : term(0, 4, 40));
                if (pres)
                    k.t[2].push_back(term(0, 1, 40, 20));
            }
            k.n = {{(i64)r.below(2)}};
            sub((int)(r.chance(30) ? 3 : r.below(4096)));
        }
        else if (n == "disjunctive2d") {
            int m = small(2, 3);
            k.t = {list(m, 0, 4), list(m, 0, 4), {}, {}};
            bool simple = r.chance(60);
            for (int d = 2; d < 4; ++d)
                for (int i = 0; i < m; ++i)
                    k.t[d].push_back(simple || r.chance(60) ? Term{-1, false, r.range(0, 3)} : term(0, 3, 40));
            k.n = {{(i64)r.below(2)}};
        }
        else if (n == "difference") {
            if (r.chance(25))
                k.opt |= 1 << 8;
            if (r.chance(15))
                k.opt |= 2 << 8;
            int m = small(1, 7);
            k.t = {{}, {}};
            k.n = {{}, {}};
            for (int i = 0; i < m; ++i) {
                for (int s = 0; s < 2; ++s) {
                    Term t = term(off - 6, off + 8, 60, 6);
                    if (t.neg)
                        t = Term{t.var, false, t.add};
                    k.t[s].push_back(t);
                }
                k.n[0].push_back(r.range(-3, 5));
                if (r.chance(40)) {
                    k.n[1].push_back((i64)k.c.size());
                    k.c.push_back(cond());
                }
                else
                    k.n[1].push_back(-1);
            }
        }
        else if (n == "divide" || n == "modulus") {
            k.t = {{term(-12, 20), term(-4, 5), term(-8, 12)}};
            sub(small(0, 2));
        }
        else if (n == "multiply") {
            k.t = {{term(-5, 6), term(-5, 6), term(-20, 25)}};
            sub(small(0, 2));
        }
        else if (n == "plus" || n == "minus") {
            k.t = {{any(), any(), term(2 * off - 8, 2 * off + 12)}};
            sub(small(0, 2));
        }
        else if (n == "power" || n == "powertable") {
            int variant = small(0, 2);
            if (r.chance(70)) {
                k.t = {{term(-4, 5), r.chance(60) ? Term{-1, false, r.range(-3, 6)} : term(-3, 5), term(-30, 40)}};
            }
            else { // results worth having, however big
                Term b = term(-5, 6);
                i64 e = r.chance(70) ? r.range(2, 8) : r.range(20, 64);
                // a result is either a few small values, or some neighbours of one big value, because a
                // domain spanning a huge gap is enumerated over
                set<i64> vs;
                vector<i64> big;
                for (auto x : values(b)) {
                    __int128 p = 1;
                    for (i64 i = 0; i < e && p < ((__int128)1 << 60) && p > -((__int128)1 << 60); ++i)
                        p *= x;
                    int bits = n == "powertable" || variant != 1 ? 12 : o.proofs ? 24 : 56;
                    if (p < 1000 && p > -1000)
                        vs.insert((i64)p);
                    else if (p < ((__int128)1 << bits) && p > -((__int128)1 << bits))
                        big.push_back((i64)p);
                }
                vs.insert(r.range(-3, 9));
                if (! big.empty() && r.chance(60)) {
                    vs.clear();
                    auto p = big[r.below(big.size())];
                    for (i64 d = -1; d <= 1; ++d)
                        if (d == 0 || r.chance(50))
                            vs.insert(p + d);
                }
                while (! can_make((i64)vs.size()) && vs.size() > 1)
                    vs.erase(r.chance(50) ? vs.begin() : prev(vs.end()));
                Term res{-1, false, *vs.begin()};
                if (can_make((i64)vs.size())) {
                    VarDecl d;
                    d.is_range = false;
                    d.values.assign(vs.begin(), vs.end());
                    product *= (double)vs.size();
                    c.vars.push_back(d);
                    res = Term{(int)c.vars.size() - 1, false, 0};
                }
                k.t = {{b, n == "powertable" && r.chance(50) ? term(0, 5) : Term{-1, false, e}, res}};
            }
            sub(variant);
        }
        else if (n == "element" || n == "elementc") {
            int m = small(1, 4);
            i64 s = r.chance(50) ? 0 : r.range(-2, 2);
            k.t = {{any()}, {term(s - 1, s + m)}};
            k.n = {{s}};
            if (n == "element")
                k.t.push_back(list(m, A, B, false, 20));
            else {
                k.n.push_back({});
                for (int i = 0; i < m; ++i)
                    k.n[1].push_back(r.range(A, B));
            }
            sub(small(0, 2));
        }
        else if (n == "element2d" || n == "element2dc") {
            int a = small(1, 3), b = small(1, 2);
            i64 si = r.chance(60) ? 0 : r.range(-1, 2), sj = r.chance(60) ? 0 : r.range(-1, 2);
            k.t = {{any()}, {term(si - 1, si + a), term(sj - 1, sj + b)}};
            k.n = {{si, sj}, {}, {a, b}};
            if (n == "element2d")
                k.t.push_back(list(a * b, A, B, false, 30));
            else
                for (int i = 0; i < a * b; ++i)
                    k.n[1].push_back(r.range(A, B));
            sub(small(0, 2));
        }
        else if (n == "gcc") {
            int m = small(1, 4), q = small(1, 3);
            k.t = {list(m, A, A + 4), {}};
            set<i64> vs;
            for (int i = 0; i < q; ++i)
                vs.insert(r.range(A, A + 4));
            k.n = {{vs.begin(), vs.end()}};
            r.shuffle(k.n[0]);
            for (size_t i = 0; i < k.n[0].size(); ++i)
                k.t[1].push_back(term(0, m + 1, 40, 35));
            k.opt = small(0, 3);
        }
        else if (n == "in") {
            k.t = {{any()}, {}};
            k.n = {{}};
            int how = small(0, 2);
            if (how != 0)
                k.t[1] = list(small(1, 3), A, B, false, 15);
            if (how != 1)
                for (int i = 0, e = small(1, 4); i < e; ++i)
                    k.n[0].push_back(r.range(A, B));
        }
        else if (n == "increasing") {
            k.t = {list(small(2, 5), A, B, true)};
            k.opt = small(0, 3);
        }
        else if (n == "inverse") {
            int m = small(1, 4);
            i64 xs = r.chance(60) ? 0 : r.range(-1, 2), ys = r.chance(60) ? 0 : r.range(-1, 2);
            i64 e = r.chance(20) ? 1 : 0;
            k.t = {list(m, ys - e, ys + m - 1 + e, true, 4, 20), list(m, xs - e, xs + m - 1 + e, true, 4, 20)};
            k.n = {{xs, ys}};
        }
        else if (n == "knapsack") {
            int m = small(1, 4), d = small(1, 2);
            k.t = {list(m, 0, 3), {}};
            for (int q = 0; q < d; ++q) {
                k.n.push_back({});
                i64 top = 0;
                for (int i = 0; i < m; ++i) {
                    k.n[q].push_back(r.range(0, 4));
                    top += k.n[q].back() * bounds(k.t[0][i]).second;
                }
                k.t[1].push_back(term(0, top + 1));
            }
            sub((int)r.below(4));
        }
        else if (n == "lexgt" || n == "lexge" || n == "lexlt" || n == "lexle" || n == "lexsmart") {
            int m = small(1, 3);
            if (n == "lexsmart") {
                auto ts = variables(2 * m, A, A + 4);
                m = (int)ts.size() / 2;
                k.t = {{ts.begin(), ts.begin() + m}, {ts.begin() + m, ts.begin() + 2 * m}};
            }
            else
                k.t = {list(m, A, A + 4, false, 10), list(n == "lexsmart" || r.chance(80) ? m : small(1, 3), A, A + 4, false, 10)};
            if (n != "lexsmart")
                reify(k);
        }
        else if (n == "lineq" || n == "linne" || n == "linle" || n == "linge") {
            int m = small(1, 4);
            k.t = {list(m, A, B)};
            k.n = {{}, {}};
            i64 lo = 0, hi = 0;
            for (int i = 0; i < m; ++i) {
                i64 q = r.chance(50) ? (r.chance(50) ? 1 : -1) : r.range(-4, 5);
                if (o.wide && r.chance(10))
                    q *= 37;
                k.n[0].push_back(q);
                auto [a, b] = bounds(k.t[0][i]);
                lo += min(q * a, q * b);
                hi += max(q * a, q * b);
            }
            i64 mid = (lo + hi) / 2, span = max<i64>(1, (hi - lo) / 3);
            k.n[1] = {r.chance(85) ? r.range(mid - span, mid + span) : r.range(lo - 1, hi + 1)};
            reify(k);
            sub((int)r.below(4));
        }
        else if (n == "and" || n == "or") {
            k.opt = (int)r.below(3);
            if (k.opt & 1) {
                for (int i = 0, e = small(1, 4); i <= e; ++i)
                    k.c.push_back(cond());
            }
            else {
                k.t = {list(small(1, 4), r.chance(80) ? 0 : -1, r.chance(80) ? 1 : 2), {}};
                if (k.opt & 2)
                    k.t[1] = {term(r.chance(90) ? 0 : -1, 1)};
            }
        }
        else if (n == "nogoods") {
            // forbidden conjunctions of simple conditions, more than one of them on the same variable
            k.n = {{}};
            for (int g = 0, e = small(1, r.chance(70) ? 3 : 8); g < e; ++g) {
                k.n[0].push_back(r.chance(97) ? small(1, 4) : 0);
                for (i64 i = 0; i < k.n[0].back(); ++i) {
                    auto q = cond();
                    while (q.op >= INR)
                        q = cond();
                    k.c.push_back(q);
                }
            }
            sub((int)r.below(2));
        }
        else if (n == "parity") {
            k.opt = r.chance(40);
            if (k.opt & 1) {
                for (int i = 0, e = small(1, 4); i < e; ++i)
                    k.c.push_back(cond());
            }
            else
                k.t = {list(small(1, 5), r.chance(80) ? 0 : -1, r.chance(80) ? 1 : 2)};
        }
        else if (n == "mdd") {
            int m = small(1, 4);
            k.t = {list(m, A, A + 3)};
            k.n = {{}, {1}, {}};
            for (int l = 0; l < m; ++l)
                k.n[1].push_back(r.range(1, 3));
            for (int l = 0; l < m; ++l)
                for (i64 q = 0; q < k.n[1][l]; ++q)
                    for (i64 v = A; v <= A + 3; ++v)
                        if (r.chance(60))
                            for (auto x : {(i64)l, q, v, (i64)r.below((u64)k.n[1][l + 1])})
                                k.n[0].push_back(x);
            for (i64 q = 0; q < k.n[1][m]; ++q)
                if (r.chance(70))
                    k.n[2].push_back(q);
            if (k.n[2].empty())
                k.n[2].push_back(0);
        }
        else if (n == "mindist") {
            int p = small(2, 3), m = small(2, 4);
            k.t = {list(p, r.chance(15) ? -1 : 0, m - 1 + (r.chance(15) ? 1 : 0)), {term(0, 7)}};
            k.n = {{m}, vector<i64>(m * m, 0), {}};
            for (int i = 0; i < m; ++i)
                for (int j = i; j < m; ++j)
                    k.n[1][i * m + j] = k.n[1][j * m + i] = i == j ? 0 : r.range(0, 6);
            if (r.chance(40)) {
                k.n[2].assign(p * p, 0);
                for (int i = 0; i < p; ++i)
                    for (int j = i + 1; j < p; ++j)
                        k.n[2][i * p + j] = k.n[2][j * p + i] = r.range(0, 4);
            }
            sub((int)r.below(5));
        }
        else if (n == "min" || n == "max") {
            k.t = {list(small(1, 4), A, B), {any()}};
            sub((int)r.below(2));
        }
        else if (n == "nvalue") {
            int m = small(1, 4);
            k.t = {list(m, A, B), {term(0, m + 1)}};
        }
        else if (n == "regular") {
            int m = small(1, 5);
            i64 lo = r.chance(70) ? 0 : -1, hi = lo + r.range(1, 3);
            k.t = {list(m, lo, hi, false, 4)};
            if (r.chance(45)) {
                k.s = random_regex(r, max<i64>(lo, 0), max<i64>(hi, 1), small(1, 3)); // regular expressions have no negative symbols
                sub((int)r.below(2) | (r.chance(30) ? 2 : 0));
            }
            else {
                i64 q = r.range(1, 4);
                k.n = {{q}, {}, {}};
                i64 l2 = max<i64>(lo, 0);
                for (i64 s = 0; s < q; ++s)
                    for (i64 v = r.chance(90) ? lo : l2; v <= hi; ++v)
                        if (r.chance(75))
                            for (auto x : {s, v, (i64)r.below((u64)q)})
                                k.n[1].push_back(x);
                for (i64 s = 0; s < q; ++s)
                    if (r.chance(55))
                        k.n[2].push_back(s);
                if (k.n[2].empty())
                    k.n[2].push_back((i64)r.below((u64)q));
                sub((int)r.below(32));
            }
        }
        else if (n == "seqprecede")
            k.t = {list(small(1, 5), r.chance(80) ? 0 : -1, 4)};
        else if (n == "smarttable") {
            int m = small(2, 4), rows = small(1, 3);
            k.t = {variables(m, A, A + 4)};
            m = (int)k.t[0].size();
            k.n = {{}};
            for (int q = 0; q < rows; ++q) {
                // the entries of a row must form a forest over the variables
                vector<int> comp(m);
                for (int i = 0; i < m; ++i)
                    comp[i] = i;
                int e = small(0, 4), made = 0;
                for (int i = 0; i < e; ++i) {
                    i64 what = r.range(0, 2), a = (i64)r.below(m);
                    if (what == 0) {
                        i64 b = (i64)r.below(m);
                        if (comp[a] == comp[b])
                            continue;
                        int from = comp[a], to = comp[b];
                        for (auto & x : comp)
                            if (x == from)
                                x = to;
                        k.n.push_back({0, r.range(0, 5), a, b});
                    }
                    else if (what == 1)
                        k.n.push_back({1, r.range(0, 5), a, r.range(A, A + 4)});
                    else {
                        set<i64> vs;
                        for (int z = 0; z < 3; ++z)
                            vs.insert(r.range(A, A + 4));
                        k.n.push_back({2, r.range(0, 1), a});
                        k.n.back().insert(k.n.back().end(), vs.begin(), vs.end());
                    }
                    ++made;
                }
                k.n[0].push_back(made);
            }
            sub((int)r.below(2));
        }
        else if (n == "sort") {
            int m = small(1, 3);
            k.t = {list(m, A, A + 4), list(m, A, A + 4)};
        }
        else if (n == "argsort") {
            int m = small(1, 3);
            i64 s = r.chance(60) ? 0 : r.range(-1, 2);
            k.t = {list(m, A, A + 4), list(m, s - (r.chance(20) ? 1 : 0), s + m - 1)};
            k.n = {{s}};
        }
        else if (n == "table" || n == "negtable") {
            int m = small(1, 4), rows = small(n == "table" ? 1 : 0, 7);
            k.t = {list(m, A, A + 4)};
            k.n = {{rows}, {}};
            bool wild = r.chance(35);
            for (int q = 0; q < rows * m; ++q)
                k.n[1].push_back(wild && r.chance(25) ? WILD : r.range(A, A + 4));
            sub(wild);
        }
        else if (n == "valueprecede") {
            set<i64> vs;
            for (int i = 0, e = small(2, 3); i < e; ++i)
                vs.insert(r.range(0, 4));
            k.n = {{vs.begin(), vs.end()}};
            r.shuffle(k.n[0]);
            if (k.n[0].size() < 2)
                k.n[0] = {1, 2};
            k.t = {list(small(1, 5), 0, 4)};
            sub((int)r.below(2));
        }
        else
            throw runtime_error("cannot generate " + n);
    }
}

const vector<string> & sim::all_kinds()
{
    static const vector<string> kinds = {"abs", "alldiff", "alldiff_except", "symalldiff", "allequal", "among", "atmostone", "binpacking", "circuit",
        "lt", "le", "gt", "ge", "eq", "ne", "count", "cumulative", "disjunctive", "disjunctive2d", "difference", "divide", "modulus", "multiply",
        "plus", "minus", "power", "powertable", "element", "elementc", "element2d", "element2dc", "gcc", "in", "increasing", "inverse", "knapsack",
        "lexgt", "lexge", "lexlt", "lexle", "lexsmart", "lineq", "linne", "linle", "linge", "and", "or", "nogoods", "parity", "mdd", "mindist", "min", "max",
        "nvalue", "regular", "seqprecede", "smarttable", "sort", "argsort", "table", "negtable", "valueprecede"};
    return kinds;
}

namespace
{
    // Nothing in its lists, where that means something.
    void hollow(Con & k, Rng & r)
    {
        static const set<string> first{"alldiff", "alldiff_except", "allequal", "among", "atmostone", "count", "nvalue", "circuit", "increasing", "seqprecede",
            "symalldiff", "gcc", "valueprecede"},
            both{"inverse", "sort", "argsort"}, linear{"lineq", "linle", "linge", "linne"}, lex{"lexlt", "lexle", "lexgt", "lexge"};
        if (first.contains(k.kind))
            k.t[0].clear();
        else if (both.contains(k.kind))
            k.t[0].clear(), k.t[1].clear();
        else if (linear.contains(k.kind))
            k.t[0].clear(), k.n[0].clear();
        else if (lex.contains(k.kind)) {
            if (r.chance(60))
                k.t[0].clear();
            if (k.t[0].size() || r.chance(50))
                k.t[1].clear();
        }
        else if (k.kind == "and" || k.kind == "or") {
            if (k.opt & 1)
                k.c.resize(1);
            else
                k.t[0].clear();
        }
        else if (k.kind == "parity") {
            k.c.clear();
            if (! k.t.empty())
                k.t[0].clear();
        }
        else if (k.kind == "cumulative" || k.kind == "disjunctive" || k.kind == "disjunctive2d") {
            for (size_t i = 0; i < k.t.size(); ++i)
                if (! (k.kind == "cumulative" && i == 4))
                    k.t[i].clear();
        }
        else if (k.kind == "binpacking")
            k.t[0].clear(), k.n[0].clear();
        else if (k.kind == "knapsack") {
            k.t[0].clear();
            for (auto & x : k.n)
                x.clear();
        }
        else if (k.kind == "in")
            k.t[1].clear(), k.n[0].clear();
        else if (k.kind == "element")
            k.t[2].clear();
        else if (k.kind == "elementc")
            k.n[1].clear();
        else if (k.kind == "table" || k.kind == "negtable")
            k.n[0] = {0}, k.n[1].clear();
    }
}

Case sim::generate(Rng & r, const GenOptions & o)
{
    auto kinds = o.kinds.empty() ? all_kinds() : o.kinds;
    if (auto only = getenv("GSIM_KINDS")) { // for development
        kinds.clear();
        stringstream ss{only};
        for (string k; ss >> k;)
            kinds.push_back(k);
    }
    Case c;
    Gen g{r, c, o};
    g.off = r.chance(75) ? 0 : o.wide && r.chance(30) ? r.range(-1000, 1000) : r.range(-6, 6);
    int n = o.gac_only ? 1 : (int)r.range(1, o.max_cons);
    int large = r.chance(getenv("GSIM_LARGE") ? atoi(getenv("GSIM_LARGE")) : o.large) ? (int)r.range(1, 3) : 0; // 1: longer lists, 2: more variables, 3: both
    for (int i = 0; i < n; ++i) {
        Con k;
        k.kind = r.pick(kinds);
        g.make(k);
        if ((large & 1) && (n == 1 || r.chance(60)))
            g.lengthen(k);
        if (o.empty && r.chance(getenv("GSIM_EMPTY") ? atoi(getenv("GSIM_EMPTY")) : o.empty))
            hollow(k, r);
        if (o.names && r.chance(50))
            k.name = "c" + to_string(i) + (r.chance(20) ? "_n" : "");
        c.cons.push_back(k);
    }
    while (c.vars.empty() || (r.chance(15) && (int)c.vars.size() < o.max_vars))
        if (! g.fresh(g.off - 2, g.off + 3))
            break;
    if ((large & 2) && ! o.gac_only)
        g.multiply();
    int w = o.objective < 0 ? r.chance(35) : o.objective;
    if (w) {
        c.objective = (int)r.range(1, 2);
        c.obj = Term{(int)r.below(c.vars.size()), o.views && r.chance(15), o.views && r.chance(20) ? r.range(-4, 4) : 0};
    }
    return c;
}

void sim::generate_search(Rng & r, Case & c)
{
    c.p["varorder"] = r.range(0, 8);
    c.p["valorder"] = r.range(0, 13);
    c.p["scheme"] = r.range(0, 6);
    c.p["bseed"] = r.range(1, 1000000);
    c.p["defbranch"] = r.chance(5);
    c.p["splitbranch"] = r.chance(10);
    c.p["viewbranch"] = r.chance(15);
    c.p["custombranch"] = r.chance(15);
}

void sim::generate_schedule(Rng & r, Case & c)
{
    // how the next propagator is chosen: 0 as shipped, 1 any, 2 last, 3 mostly as shipped
    c.p["pick"] = r.range(0, 3);
    c.p["wake"] = c.p["wakefix"] = c.p["nodisable"] = c.p["noidem"] = 0;
    // half the time nothing but the order is touched, since an extra wake-up hides a missing one
    if (r.chance(50))
        ;
    else if (r.chance(50)) {
        switch (r.below(4)) {
        case 0: c.p["wake"] = r.range(1, 80); break;      // per mille, at each run
        case 1: c.p["wakefix"] = r.range(10, 600); break; // per mille, at each fixpoint
        case 2: c.p["nodisable"] = r.range(50, 1000); break;
        default: c.p["noidem"] = r.range(50, 1000); break;
        }
    }
    else {
        c.p["wake"] = r.chance(50) ? r.range(1, 80) : 0;
        c.p["wakefix"] = r.chance(50) ? r.range(10, 600) : 0;
        c.p["nodisable"] = r.chance(40) ? r.range(50, 1000) : 0;
        c.p["noidem"] = r.chance(40) ? r.range(50, 1000) : 0;
    }
    c.p["sseed"] = r.range(1, 1000000000);
}

void sim::vary(Rng & r, GenOptions & o)
{
    switch (r.below(4)) {
    case 0: o.max_cons = 1; break;
    case 1: break;
    case 2: // a few variables which everything is about
        o.max_vars = (int)r.range(2, 4);
        o.max_cons = (int)r.range(2, 5);
        break;
    default: // a few kinds meeting each other often, half of them kinds that make claims about their own fixpoints
        o.max_vars = (int)r.range(2, 5);
        o.max_cons = (int)r.range(2, 5);
        for (int n = (int)r.range(1, 4); n--;)
            o.kinds.push_back(r.chance(50)
                    ? r.pick(vector<string>{"table", "multiply", "inverse", "element", "elementc", "plus", "minus", "argsort", "circuit", "lineq", "linle",
                          "linge", "linne", "power", "divide", "modulus", "alldiff", "difference", "eq", "lt", "negtable", "or"})
                    : r.pick(all_kinds()));
    }
}

void sim::generate_presolvers(Rng & r, Case & c)
{
    int n = (int)r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        Pre p;
        switch (r.below(5)) {
        case 0:
            p.kind = "autotable";
            p.n = {};
            for (size_t v = 0; v < c.vars.size(); ++v)
                if (r.chance(60))
                    p.n.push_back((i64)v);
            if (p.n.empty())
                p.n.push_back(0);
            break;
        case 1: p.kind = "difflogic"; p.n = {(i64)r.below(16)}; break;
        case 2: p.kind = "cumstrength"; p.n = {(i64)r.below(8), r.range(0, 6), (i64)r.below(1024)}; break;
        case 3: p.kind = "infcum"; p.n = {(i64)r.below(8), r.chance(40) ? (i64)r.below(c.vars.size()) : -1, (i64)r.below(1024)}; break;
        default: p.kind = "infdisj"; p.n = {(i64)r.below(8), r.chance(40) ? (i64)r.below(c.vars.size()) : -1, (i64)r.below(1024)}; break;
        }
        c.pre.push_back(p);
    }
}
