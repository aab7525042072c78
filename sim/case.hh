// A simulated case: a constraint problem, how it is searched, the schedule the
// simulator imposes and the faults it injects. Plain data, written to and read
// from text, and independent of the solver.
#pragma once
#include <cstdint>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace sim
{
    using i64 = long long;
    using u64 = unsigned long long;

    inline u64 mix(u64 x)
    {
        x += 0x9e3779b97f4a7c15ULL;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
        return x ^ (x >> 31);
    }

    struct Rng
    {
        u64 s;
        explicit Rng(u64 seed = 1) : s(mix(seed ^ 0x5bd1e995ULL))
        {
        }
        u64 next()
        {
            s += 0x9e3779b97f4a7c15ULL;
            u64 z = s;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
            return z ^ (z >> 31);
        }
        u64 below(u64 n)
        {
            return n ? next() % n : 0;
        }
        i64 range(i64 lo, i64 hi)
        {
            return hi <= lo ? lo : lo + (i64)below((u64)(hi - lo + 1));
        }
        bool chance(int percent)
        {
            return below(100) < (u64)percent;
        }
        bool permille(i64 p)
        {
            return below(1000) < (u64)p;
        }
        template <typename T>
        T & pick(std::vector<T> & v)
        {
            return v[below(v.size())];
        }
        template <typename T>
        const T & pick(const std::vector<T> & v)
        {
            return v[below(v.size())];
        }
        template <typename T>
        void shuffle(std::vector<T> & v)
        {
            for (size_t i = v.size(); i > 1; --i)
                std::swap(v[i - 1], v[below(i)]);
        }
    };

    struct Hash
    {
        u64 h = 1469598103934665603ULL;
        void add(u64 x)
        {
            h = mix(h ^ x);
        }
        void add(const std::string & s)
        {
            add((u64)s.size());
            u64 k = 1469598103934665603ULL;
            for (unsigned char c : s)
                k = (k ^ c) * 1099511628211ULL;
            add(k);
        }
    };

    /// value = var < 0 ? add : (neg ? -x : x) + add
    struct Term
    {
        int var = -1;
        bool neg = false;
        i64 add = 0;
        bool operator==(const Term &) const = default;
        bool is_plain() const
        {
            return var >= 0 && ! neg && add == 0;
        }
    };

    enum Op
    {
        EQ,
        NE,
        GE,
        LT,
        INR,
        NOTINR
    };

    struct Cond
    {
        Term t;
        int op = EQ;
        i64 v = 0, v2 = 0;
        bool operator==(const Cond &) const = default;
    };

    struct VarDecl
    {
        bool is_range = true;
        i64 lo = 0, hi = 0;
        std::vector<i64> values; // if not a range
        std::string name;
        std::vector<i64> domain() const;
    };

    /// One posted constraint. What the lists mean depends on the kind.
    struct Con
    {
        std::string kind;
        int opt = 0;
        int reif = 0; // 0 none, 1 if, 2 iff, 3 it must not hold, 4 it must not hold if
        std::vector<std::vector<Term>> t;
        std::vector<std::vector<i64>> n;
        std::vector<Cond> c; // c[0] is the reifying condition, if there is one
        std::string s;
        std::string name;
    };

    struct Pre
    {
        std::string kind;
        std::vector<i64> n;
    };

    struct Case
    {
        std::string prop;
        u64 seed = 0;
        std::vector<VarDecl> vars;
        std::vector<Con> cons;
        int objective = 0; // 0 none 1 minimise 2 maximise
        Term obj;
        std::vector<Pre> pre;
        std::map<std::string, i64> p;
        std::vector<std::vector<i64>> dec; // explicit schedule decisions: call number, kind, value
        std::vector<std::vector<i64>> ops; // operation history, for the component simulations
        std::string text;

        i64 get(const std::string & k, i64 d = 0) const
        {
            auto i = p.find(k);
            return i == p.end() ? d : i->second;
        }
    };

    std::string to_text(const Case &);
    Case from_text(const std::string &);

    using Assignment = std::vector<i64>;

    inline i64 value(const Term & t, const Assignment & a)
    {
        if (t.var < 0)
            return t.add;
        return (t.neg ? -a[t.var] : a[t.var]) + t.add;
    }

    inline bool holds(const Cond & c, const Assignment & a)
    {
        i64 x = value(c.t, a);
        switch (c.op) {
        case EQ: return x == c.v;
        case NE: return x != c.v;
        case GE: return x >= c.v;
        case LT: return x < c.v;
        case INR: return c.v <= x && x <= c.v2;
        default: return ! (c.v <= x && x <= c.v2);
        }
    }

    /// Is the constraint satisfied, by the independent definition of what it means?
    bool satisfied(const Con &, const Assignment &);

    /// The same for the calls of the XCSP3 front end, whose kinds start with x-.
    bool xcsp_satisfied(const Con &, const Assignment &);

    /// Every variable a constraint mentions.
    std::vector<int> scope(const Con &);

    /// Every satisfying assignment, by brute force, sorted; nullopt if there is too much to enumerate.
    std::optional<std::vector<Assignment>> solutions(const Case &, u64 max_nodes = 400000);

    /// Does this kind of constraint, posted on its own in this form, advertise domain consistency?
    bool advertises_gac(const Con &);

    /// Is our own matcher's verdict that the string of symbols is in the language?
    bool regex_matches(const std::string & regex, const std::vector<i64> & word, i64 lo, i64 hi);

    struct GenOptions
    {
        int max_vars = 5, max_cons = 3, max_product = 3000;
        bool views = true;
        bool proofs = false;   // only what a proof can be checked for at reasonable cost
        bool wide = false;     // allow large and sparse domains
        int objective = -1;    // -1 random, 0 never, 1 always
        bool names = false;
        bool gac_only = false; // a single constraint that advertises domain consistency
        bool scp = false;      // only what can be read back from an s-expression
        int large = 4;         // per cent of cases with long lists, or with many variables which depend on each other
        int empty = 2;         // per cent of constraints about nothing
        std::vector<std::string> kinds; // empty for all
    };
    Case generate(Rng &, const GenOptions &);
    const std::vector<std::string> & all_kinds();
    void vary(Rng &, GenOptions &);
    void generate_search(Rng &, Case &);
    void generate_schedule(Rng &, Case &);
    void generate_presolvers(Rng &, Case &);
}
