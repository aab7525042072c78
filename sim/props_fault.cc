// Faults around a solve: disks which fail, callbacks which throw, memory which
// runs out, and an environment which should not matter.
#include "pb.hh"
#include "props.hh"
#include "sys.hh"
#include <algorithm>
#include <cerrno>
using namespace std;
using namespace sim;

namespace
{
    using Files = map<string, string>;

    string whole(const Files & f, const string & n)
    {
        auto i = f.find(n);
        return i == f.end() ? "" : i->second;
    }

    string differs(const Files & a, const Files & b)
    {
        for (auto & [n, x] : a)
            if (whole(b, n) != x) {
                auto y = whole(b, n);
                size_t at = 0;
                while (at < x.size() && at < y.size() && x[at] == y[at])
                    ++at;
                return n + " differs from byte " + to_string(at) + " (" + to_string(x.size()) + " and " + to_string(y.size()) + " bytes)";
            }
        for (auto & [n, _] : b)
            if (! a.contains(n))
                return n + " should not be there";
        return "";
    }

    // Would a checker take this for a finished proof?
    bool finished(const Files & f)
    {
        auto pbp = whole(f, "sim:/p.pbp");
        if (pbp.find("\nconclusion ") == string::npos || pbp.find("\nend pseudo-Boolean proof") == string::npos)
            return false;
        auto r = pb::check(whole(f, "sim:/p.opb"), pbp, true);
        return r.ok && ! r.torn && ! r.conclusion.empty();
    }

    void expect_not_mistaken(const Files & now, const Files & all, const string & where)
    {
        if (! finished(now))
            return;
        auto trim = [](string s) {
            while (! s.empty() && (s.back() == '\n' || s.back() == ' ' || s.back() == ';'))
                s.pop_back();
            return s;
        };
        for (auto n : {"sim:/p.opb", "sim:/p.pbp", "sim:/p.scp"})
            if (trim(whole(now, n)) != trim(whole(all, n)))
                throw Violation{"torn-accepted " + where + ": what is left checks as a finished proof, but " + n + " is not complete"};
    }
}

// ---- C07

Case sim::make_c07(Rng & r)
{
    auto c = make_proof_case(r);
    if (r.chance(6)) { // many solutions, so a proof which does not fit in any buffer
        GenOptions o;
        o.max_product = 60000;
        o.max_vars = 7;
        o.max_cons = 1;
        o.objective = 0;
        o.kinds = {"alldiff", "ne", "le", "increasing", "linle", "among", "nvalue", "plus"};
        do
            c = generate(r, o);
        while (c.vars.size() < 4);
        generate_search(r, c);
        generate_schedule(r, c);
        c.p["pmap"] = 1;
    }
    c.p["pscp"] = r.chance(80);
    c.p["pmap"] = r.chance(90);
    c.p["dseed"] = r.range(1, 1000000000);
    return c;
}

void sim::check_c07(const Case & c)
{
    note_shape(c);
    too_wide(c);
    Solver s{c};
    Knobs k;
    k.proof = proof_options(c);
    disk().reset();
    auto ref = s.solve(k);
    mix_case_hash(ref);
    skip_unsupported(c, ref);
    if (! ref.returned)
        throw Skip{"does not solve undisturbed"};
    auto files = disk().files;
    auto log = disk().log;
    auto opens = disk().opens, writes = disk().writes, closes = disk().closes;
    size_t bytes = 0;
    for (auto & [_, f] : files)
        bytes += f.size();
    if (open_files())
        throw Violation{"left-open undisturbed: " + to_string(open_files()) + " files are still open"};
    if (opens != (i64)files.size() || closes != opens)
        throw Violation{"left-open undisturbed: opens and closes do not match files"};
    tally().hit("output bytes", bytes);
    tally().hit("most writes in a solve", (u64)writes);
    if (bytes > 2000000)
        tally().hit("proofs which do not fit in a buffer");
    bool big = bytes > 2000000;

    Rng r{(u64)c.get("dseed")};
    i64 only = c.get("only", -1), n = -1;
    auto run = [&](DiskPlan p, const string & what) {
        p.seed = r.below(1000000000) + 1;
        if (only >= 0 && ++n != only)
            return;
        disk().reset(p);
        auto o = s.solve(k);
        mix_case_hash(o);
        auto injected = disk().injected, failed = disk().failed;
        auto now = disk().files;
        auto w = disk().writes;
        if (open_files())
            throw Violation{"left-open " + what + ": " + to_string(open_files()) + " files are still open"};
        if (failed) {
            tally().hit("fault: " + what.substr(0, what.find(" number")));
            tally().hit("nontrivial");
            if (o.returned)
                throw Violation{"failure-ignored " + what + ": the solve returned as if nothing had happened (" + differs(files, now) + ")"};
            expect_not_mistaken(now, files, what);
        }
        else {
            if (injected) {
                tally().hit("fault: short or interrupted writes", (u64)injected);
                tally().hit("nontrivial");
            }
            if (! o.returned)
                throw Violation{"exception " + what + ": the solve threw: " + o.exception};
            if (auto d = differs(files, now); ! d.empty())
                throw Violation{"bytes-differ " + what + " (" + to_string(w) + " writes): " + d};
            if (o.visible.h != ref.visible.h)
                throw Violation{"results-differ " + what + ": the callbacks or statistics differ"};
        }
    };

    // what the system retries must not show
    {
        DiskPlan p;
        p.short_permille = 700;
        run(p, "short writes");
        p.eintr_permille = 300;
        run(p, "short and interrupted writes");
    }
    // what fails must be reported
    int errors[] = {ENOSPC, EIO, EDQUOT, EFBIG, EACCES};
    for (i64 i = 1; i <= opens; ++i) {
        DiskPlan p;
        p.fail_open = i;
        p.error = errors[r.below(5)];
        run(p, "open fails, number " + to_string(i));
    }
    for (i64 i = 1; i <= closes; ++i) {
        DiskPlan p;
        p.fail_close = i;
        p.error = errors[r.below(3)];
        run(p, "close fails, number " + to_string(i));
    }
    vector<i64> which;
    for (i64 i = 1; i <= writes; ++i)
        which.push_back(i);
    if (which.size() > 8) {
        r.shuffle(which);
        which.resize(8);
    }
    for (auto i : which)
        for (bool sticky : {true, false}) {
            DiskPlan p;
            p.fail_write = i;
            p.sticky = sticky;
            p.error = errors[r.below(4)];
            run(p, string(sticky ? "writes fail from then on" : "one write fails") + ", number " + to_string(i));
        }
    for (int i = 0; i < (big ? 3 : 6); ++i) {
        DiskPlan p;
        p.capacity = i == 0 ? (i64)bytes - 1 : i == 1 ? 0 : (i64)r.below(bytes);
        p.short_permille = r.chance(30) ? 500 : 0;
        run(p, "disk full, number " + to_string(p.capacity));
    }

    // whatever is on the disk at any moment is not taken for more than it is
    if (only >= 0)
        return;
    Files now;
    size_t last = 0;
    for (size_t i = 0; i < log.size(); ++i) {
        auto & [name, size] = log[i];
        vector<size_t> cuts{size};
        auto before = now[name].size();
        if (size > before + 1) {
            for (int j = 0; j < 6; ++j)
                cuts.push_back(before + 1 + r.below(size - before - 1));
            for (size_t j = 1; j < 70 && j < size - before; ++j)
                cuts.push_back(size - j); // the end is where it matters
        }
        if (big && i + 1 < log.size())
            continue;
        for (auto cut : cuts) {
            auto f = now;
            f[name] = files[name].substr(0, cut);
            expect_not_mistaken(f, files, "ended during write " + to_string(i + 1) + ", at byte " + to_string(cut) + " of " + name);
            tally().hit("fault: process ends during a write");
        }
        now[name] = files[name].substr(0, size);
        last = i;
    }
    (void)last;
}

// ---- C09

Case sim::make_c09(Rng & r)
{
    Case c;
    bool proof = r.chance(45);
    if (proof)
        c = make_proof_case(r);
    else {
        GenOptions o;
        o.objective = -1;
        o.max_product = 600;
        o.max_vars = 5;
        vary(r, o);
        c = generate(r, o);
        generate_search(r, c);
        generate_schedule(r, c);
        if (r.chance(25)) {
            c.p["restarts"] = r.chance(70) ? r.range(1, 4) : r.range(5, 40);
            c.p["wake"] = c.p["wakefix"] = 0;
        }
        if (r.chance(15))
            generate_presolvers(r, c);
    }
    c.p["proofs"] = proof;
    c.p["pmap"] = c.p["pscp"] = 0; // out of memory in either of these ends in a crash: see known_findings.txt
    c.p["fseed"] = r.range(1, 1000000000);
    return c;
}

void sim::check_c09(const Case & c)
{
    note_shape(c);
    if (c.get("proofs"))
        too_wide(c);
    auto t = truth(c);
    Solver s{c};
    Knobs base;
    base.trace = true;
    base.account = true;
    if (c.get("proofs"))
        base.proof = proof_options(c);
    auto clean = [&](const Knobs & k, const string & what) {
        disk().reset();
        memory.allocations = 0;
        memory.failed = memory.thrown = 0;
        auto before = memory.live;
        auto o = s.solve(k);
        mix_case_hash(o);
        auto leaked = memory.live - before - (o.stats ? 0 : 0);
        if (open_files())
            throw Violation{"left-open " + what + ": " + to_string(open_files()) + " files are still open"};
        return pair{move(o), leaked};
    };
    clean(base, "first"); // whatever is kept for later is kept now
    auto [full, l0] = clean(base, "undisturbed");
    auto needed = memory.allocations;
    skip_unsupported(c, full);
    expect_full(c, full, t, "undisturbed");
    full.stats.reset();
    auto files = disk().files;

    auto settle = [&](Outcome & o, i64 before, const string & what) {
        o.stats.reset();
        if (memory.live != before)
            throw Violation{"leak " + what + ": " + to_string(memory.live - before) + " blocks allocated during the solve are still there"};
    };
    auto again = [&](const string & what) {
        auto before = memory.live;
        auto [o, l] = clean(base, "after " + what);
        expect_full(c, o, t, "after " + what);
        if (o.core.h != full.core.h)
            throw Violation{"not-as-before after " + what + ": the callbacks or statistics differ from a run before it"};
        for (auto & [n, f] : files)
            if (whole(disk().files, n) != f)
                throw Violation{"not-as-before after " + what + ": " + n + " differs from a run before it"};
        settle(o, before, "after " + what);
    };

    Rng r{(u64)c.get("fseed")};
    i64 only = c.get("only", -1);
    for (i64 n = 0; n < 12; ++n) {
        Knobs k = base;
        string what;
        bool allocation = n >= 5;
        if (! allocation) {
            k.throw_kind = (int)r.range(1, 7);
            u64 most = k.throw_kind == 1 ? full.sols.size() : k.throw_kind == 2 ? full.traces : k.throw_kind == 3 || k.throw_kind == 7 ? full.branches :
                k.throw_kind == 6 ? full.notes : k.throw_kind == 5 ? full.proof_started : full.completed;
            k.throw_at = r.range(1, (i64)max<u64>(most, 1));
            what = "callback of kind " + to_string(k.throw_kind) + " throws at call " + to_string(k.throw_at);
        }
        else
            memory.fail_at = r.chance(25) ? needed - (i64)r.below((u64)min<i64>(needed, 100)) : r.range(1, max<i64>(needed, 1));
        memory.fail_more = allocation && r.chance(25) ? r.range(1, 5) : 0;
        if (allocation)
            what = "allocation " + to_string(memory.fail_at) + " of " + to_string(needed) + " fails";
        if (only >= 0 && only != n) {
            memory.fail_at = -1;
            continue;
        }
        auto before = memory.live;
        auto [o, l] = clean(k, what);
        memory.fail_at = -1;
        if (memory.failed) {
            tally().hit("fault: allocation fails");
            tally().hit("nontrivial");
            if (! o.returned && ! o.bad_alloc)
                throw Violation{"exception-changed " + what + ": the caller gets " + o.exception};
            if (memory.thrown && o.returned)
                throw Violation{"exception-lost " + what + ": the solve returned as if nothing had been thrown"};
        }
        else if (o.planned) {
            tally().hit("fault: callback of kind " + to_string(k.throw_kind) + " throws");
            tally().hit("nontrivial");
            if (o.planned_tag != k.throw_kind)
                throw Violation{"exception-changed " + what + ": the exception of another callback arrives"};
        }
        else if (! o.returned)
            throw Violation{"exception-changed " + what + ": the caller gets " + o.exception};
        else if (o.stopped)
            throw Violation{"exception-lost " + what + ": the solve returned as if nothing had been thrown"};
        if (o.returned)
            expect_full(c, o, t, what);
        else {
            bool could_complete = k.throw_kind == 4 || k.throw_kind == 6 || allocation;
            if (o.completed && ! could_complete)
                throw Violation{"completion-reported " + what + ": completion was reported"};
            if (o.completed && ! c.objective && o.sols.size() != t.size())
                throw Violation{"completion-reported " + what + ": completion was reported after " + to_string(o.sols.size()) + " of " +
                    to_string(t.size()) + " solutions"};
            if (o.completed && c.objective && o.sols.size() != full.sols.size())
                throw Violation{"completion-reported " + what + ": completion was reported without the best solution"};
            set<Assignment> real(t.begin(), t.end()), seen;
            for (auto & a : o.sols) {
                if (! real.contains(a))
                    throw Violation{"wrong-solution " + what + ": " + show(a) + " is not a solution"};
                if (! seen.insert(a).second)
                    throw Violation{"repeated-solution " + what + ": " + show(a) + " is reported twice"};
            }
            if (c.get("proofs"))
                if (auto p = whole(disk().files, "sim:/p.pbp"); ! o.completed && p.find("end pseudo-Boolean proof") != string::npos && k.throw_kind != 6)
                    expect_not_mistaken(disk().files, files, what);
        }
        settle(o, before, what);
        if (o.planned || memory.failed)
            again(what);
    }
}

// ---- C12

Case sim::make_c12(Rng & r)
{
    Case c;
    bool proof = r.chance(50);
    if (proof)
        c = make_proof_case(r);
    else {
        GenOptions o;
        o.objective = -1;
        o.max_product = 4000;
        o.max_vars = 6;
        vary(r, o);
        c = generate(r, o);
        generate_search(r, c);
        generate_schedule(r, c);
        if (r.chance(25)) {
            c.p["restarts"] = r.chance(70) ? r.range(1, 4) : r.range(5, 40);
            c.p["wake"] = c.p["wakefix"] = 0;
        }
    }
    if (r.chance(20))
        generate_presolvers(r, c);
    c.p["proofs"] = proof;
    c.p["pmap"] = 1;
    c.p["eseed"] = r.range(1, 1000000000);
    return c;
}

void sim::check_c12(const Case & c)
{
    note_shape(c);
    if (c.get("proofs"))
        too_wide(c);
    struct Reset
    {
        ~Reset()
        {
            memory.scatter = false;
            sim_clock.simulated = false;
        }
    } reset;
    Rng r{(u64)c.get("eseed")};
    struct Seen
    {
        Hash visible, core, full;
        Files files;
        string what;
        bool returned;
    };
    for (bool shipped : {false, true}) {
        optional<Seen> first;
        for (int e = 0; e < 4; ++e) {
            Rng er{r.below(1000000000) + 1};
            memory.scatter = e > 0;
            memory.rng = Rng{er.below(1000000000) + 1};
            sim_clock.simulated = e & 1;
            sim_clock.rng = Rng{er.below(1000000000) + 1};
            sim_clock.now = (i64)er.below(2000000000) * 1000000000;
            sim_clock.reads = sim_clock.jumps = 0;
            vector<unique_ptr<Case>> others;
            vector<unique_ptr<Solver>> kept;
            string env = e == 0 ? "as it comes" : e == 1 ? "other memory, other clock" : e == 2 ? "other memory, after other solves" : "other memory and clock, after other solves";
            if (e >= 2)
                for (int i = 0; i < 2; ++i) {
                    GenOptions o;
                    o.max_product = 200;
                    o.max_vars = 4;
                    auto other = make_unique<Case>(i == 0 ? c : generate(er, o));
                    auto os = make_unique<Solver>(*other);
                    Knobs k;
                    k.salt = 77;
                    k.abort_at = er.range(5, 200);
                    disk().reset();
                    if (c.get("proofs") && i == 0)
                        k.proof = proof_options(c);
                    os->solve(k);
                    if (er.chance(50)) {
                        kept.push_back(move(os));
                        others.push_back(move(other));
                    }
                }
            auto s = make_unique<Solver>(c);
            for (int again = 0; again < (e == 3 ? 2 : 1); ++again) {
                Knobs k;
                k.hooks = ! shipped;
                k.default_branching = shipped && c.get("eseed") % 3 == 0;
                k.trace = true;
                if (c.get("proofs"))
                    k.proof = proof_options(c);
                disk().reset();
                auto o = s->solve(k);
                mix_case_hash(o);
                skip_unsupported(c, o);
                Seen now{o.visible, o.core, o.full, disk().files, env + (again ? ", on the same problem again" : ""), o.returned};
                if (o.branches > 1)
                    tally().hit("nontrivial");
                if (! first) {
                    first = now;
                    continue;
                }
                if (sim_clock.simulated) {
                    tally().hit("fault: clock reads", (u64)sim_clock.reads);
                    tally().hit("fault: clock jumps", (u64)sim_clock.jumps);
                }
                tally().hit("fault: other memory layout");
                if (again ? now.core.h != first->core.h : now.visible.h != first->visible.h)
                    throw Violation{"results-differ " + now.what + ": the callbacks or statistics are not as before"};
                if (! again && now.full.h != first->full.h)
                    throw Violation{"steps-differ " + now.what + ": the propagators are not run as before"};
                if (auto d = differs(first->files, now.files); ! d.empty())
                    throw Violation{"bytes-differ " + now.what + ": " + d};
            }
        }
    }
}
