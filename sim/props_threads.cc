// Solves at the same time, on threads whose interleaving the simulator decides,
// and inside one another.
#include "props.hh"
#include "sys.hh"
#include <algorithm>
using namespace std;
using namespace sim;

Case sim::make_c11(Rng & r)
{
    Case c;
    bool proof = r.chance(35);
    if (proof)
        c = make_proof_case(r);
    else {
        GenOptions o;
        o.objective = -1;
        o.max_product = 1500;
        o.max_vars = 6;
        vary(r, o);
        c = generate(r, o);
        generate_search(r, c);
        generate_schedule(r, c);
        if (r.chance(25)) {
            c.p["restarts"] = r.chance(70) ? r.range(1, 4) : r.range(5, 40);
            c.p["wake"] = c.p["wakefix"] = 0;
        }
        if (r.chance(15))
            generate_presolvers(r, c);
    }
    c.p["proofs"] = proof;
    c.p["pmap"] = 1;
    c.p["oseed"] = r.range(1, 1000000000);
    c.p["tseed"] = r.range(1, 1000000000);
    c.p["other"] = r.range(0, 2);  // 0 another problem, 1 the same again, 2 both
    c.p["turns"] = r.range(0, 3);  // how often they take turns
    c.p["burst"] = r.chance(50);
    return c;
}

namespace
{
    struct One
    {
        Case c;
        unique_ptr<Solver> s;
        Knobs k;
        string prefix;
        Outcome alone, now;
        map<string, string> files;
    };

    map<string, string> files_of(const string & prefix)
    {
        map<string, string> r;
        for (auto & [n, f] : disk().files)
            if (n.starts_with(prefix + "."))
                r.emplace(n, f);
        return r;
    }

    void compare(const One & o, const Outcome & now, const string & where)
    {
        if (now.returned != o.alone.returned || now.exception != o.alone.exception)
            throw Violation{"exception " + where + ": " + o.prefix + " ends with '" + now.exception + "', alone with '" + o.alone.exception + "'"};
        if (now.sols != o.alone.sols)
            throw Violation{"results-differ " + where + ": the solutions of " + o.prefix + " are not those it has alone"};
        if (now.core.h != o.alone.core.h)
            throw Violation{"results-differ " + where + ": the callbacks or statistics of " + o.prefix + " are not those it has alone"};
        auto f = files_of(o.prefix);
        for (auto & [n, x] : o.files) {
            auto i = f.find(n);
            if (i == f.end() || i->second != x)
                throw Violation{"bytes-differ " + where + ": " + n + " is not what it is alone"};
        }
    }
}

void sim::check_c11(const Case & c)
{
    note_shape(c);
    if (c.get("proofs"))
        too_wide(c);
    Rng r{(u64)c.get("oseed")};
    c.get("scan") ? setenv("GCS_LEARNED_NOGOODS_SCAN", "1", 1) : unsetenv("GCS_LEARNED_NOGOODS_SCAN");
    vector<unique_ptr<One>> all;
    auto add = [&](Case && k, u64 salt) {
        auto o = make_unique<One>();
        o->c = move(k);
        o->c.p.erase("scan"); // the environment belongs to all of them
        o->prefix = "sim:/" + string(1, char('a' + all.size()));
        o->k.salt = salt;
        o->k.account = true;
        o->k.trace = all.size() != 1;
        if (c.get("proofs"))
            o->k.proof = proof_options(o->c, o->prefix);
        o->s = make_unique<Solver>(o->c);
        all.push_back(move(o));
    };
    add(Case{c}, 0);
    auto other = c.get("other");
    if (other != 0)
        add(Case{c}, 5);
    if (other != 1) {
        GenOptions o;
        o.objective = -1;
        o.max_product = 600;
        o.max_vars = 5;
        if (r.chance(50))
            for (auto & k : c.cons)
                o.kinds.push_back(k.kind);
        Case k = c.get("proofs") ? make_proof_case(r) : generate(r, o);
        if (! c.get("proofs")) {
            generate_search(r, k);
            generate_schedule(r, k);
        }
        else
            too_wide(k);
        add(move(k), 9);
    }

    i64 edges = 0;
    disk().reset();
    for (auto & o : all) {
        edges += (i64)count_edges([&] { o->alone = o->s->solve(o->k); });
        mix_case_hash(o->alone);
        if (c.get("proofs"))
            skip_unsupported(o->c, o->alone);
        o->files = files_of(o->prefix);
    }

    // taking turns
    Rng tr{(u64)c.get("tseed")};
    for (int round = 0; round < 2; ++round) {
        static const i64 turns[] = {20, 200, 2000, 6000};
        i64 mean = edges / turns[c.get("turns") & 3] + 1;
        i64 burst_at = c.get("burst") ? (i64)tr.below((u64)max<i64>(edges, 1)) : -1;
        disk().reset();
        vector<function<void()>> work;
        for (auto & o : all)
            work.push_back([&o] { o->now = o->s->solve(o->k); });
        auto seen = run_threads(work, tr.below(1000000000) + 1, mean, burst_at, 300);
        tally().hit("fault: thread switches", seen.switches);
        tally().hit("waits for a lock", seen.blocked);
        tally().hit("most switches in a case", seen.switches);
        if (seen.switches > 1)
            tally().hit("nontrivial");
        tally().schedules.insert(seen.hash.h);
        case_hash = mix(case_hash ^ seen.hash.h);
        for (auto & o : all) {
            mix_case_hash(o->now);
            compare(*o, o->now, "interleaved");
        }
    }

    // one inside another
    if (all.size() > 1) {
        auto & outer = *all[0];
        auto & inner = *all[1 + tr.below(all.size() - 1)];
        int where = (int)tr.below(2);
        u64 calls = where ? outer.alone.branches : outer.alone.sols.size();
        if (calls) {
            u64 at = 1 + tr.below(min<u64>(calls, 20)), n = 0;
            auto k = outer.k;
            bool happened = false;
            auto nest = [&](const gcs::CurrentState &) {
                if (++n != at)
                    return;
                inner.now = inner.s->solve(inner.k);
                happened = true;
            };
            (where ? k.at_branch : k.at_solution) = nest;
            disk().reset();
            auto o = outer.s->solve(k);
            mix_case_hash(o);
            if (happened) {
                tally().hit("fault: a solve inside another's callback");
                mix_case_hash(inner.now);
                compare(inner, inner.now, "inside another");
            }
            compare(outer, o, "with another inside");
        }
    }
}
