// The simulator's command line. See tools/check.py, which drives it.
#include "pb.hh"
#include "props.hh"
#include "sys.hh"
#include <chrono>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace std;
using namespace sim;

namespace
{
    struct Result
    {
        int status = 0; // 0 held, 1 violated, 2 skipped
        string text;
        u64 hash = 0;
    };

    Result execute(const Case & c)
    {
        Result r;
        case_hash = c.seed;
        try {
            prop(c.prop).check(c);
        }
        catch (const Violation & v) {
            r.status = 1;
            r.text = v.what;
        }
        catch (const TooLong &) {
            r.status = 1;
            r.text = "no-progress: the search was still going after more steps than any search this size should need";
        }
        catch (const Skip & s) {
            r.status = 2;
            r.text = s.why;
        }
        catch (const exception & e) {
            r.status = 1;
            r.text = string("exception: ") + e.what();
        }
        r.hash = mix(case_hash ^ (u64)r.status);
        for (auto & ch : r.text)
            if (ch == '\n')
                ch = ' ';
        return r;
    }

    Case make(const string & id, u64 base, u64 index)
    {
        u64 seed = mix(mix(base) + index);
        Rng r{seed};
        Case c = prop(id).make(r);
        c.prop = id;
        c.seed = seed;
        return c;
    }

    void on_time_limit(int)
    {
        static const char m[] = "time limit\n";
        (void)! ::write(2, m, sizeof m - 1);
        _exit(97);
    }

    void limit_cpu(int seconds)
    {
        signal(SIGPROF, on_time_limit);
        itimerval t{};
        t.it_value.tv_sec = seconds;
        setitimer(ITIMER_PROF, &t, nullptr);
        rlimit m{3ULL << 30, 3ULL << 30};
        setrlimit(RLIMIT_AS, &m);
    }

    string escape(const string & s)
    {
        string r;
        for (unsigned char ch : s) {
            if (ch == '"' || ch == '\\')
                r += '\\', r += (char)ch;
            else if (ch < 32)
                r += ' ';
            else
                r += (char)ch;
        }
        return r;
    }

    int run(int argc, char ** argv)
    {
        string id = argv[2];
        u64 base = strtoull(argv[3], nullptr, 10), worker = strtoull(argv[4], nullptr, 10), workers = strtoull(argv[5], nullptr, 10);
        double seconds = atof(argv[6]);
        string dir = argv[7];
        u64 first = argc > 8 ? strtoull(argv[8], nullptr, 10) : worker;
        u64 max_cases = argc > 9 ? strtoull(argv[9], nullptr, 10) : ~0ULL;
        auto now = [] {
            timespec t;
            real_clock_gettime(CLOCK_MONOTONIC, &t);
            return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
        };
        double start = now();
        int cur = open((dir + "/cur" + to_string(worker)).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        u64 done = 0, skipped = 0, index = first;
        vector<string> samples;
        string violation;
        double slowest = 0;
        u64 slowest_index = 0;
        for (; done < max_cases; index += workers) {
            if (now() - start > seconds)
                break;
            char buf[32];
            int n = snprintf(buf, sizeof buf, "%020llu\n", index);
            (void)! pwrite(cur, buf, (size_t)n, 0);
            limit_cpu(60);
            Case c = make(id, base, index);
            double t0 = now();
            Result r = execute(c);
            double t1 = now() - t0;
            if (t1 > slowest)
                slowest = t1, slowest_index = index;
            ++done;
            if (r.status == 2)
                ++skipped;
            if (r.status == 1) {
                string f = dir + "/v" + to_string(worker) + ".case";
                c.text = r.text;
                ofstream o{f};
                o << to_text(c);
                o.close();
                violation = r.text;
                break;
            }
            if (samples.size() < 2 && r.status == 0 && index % 7 == 0)
                samples.push_back(to_text(c));
        }
        limit_cpu(0);
        ostringstream o;
        o << "{\"cases\": " << done << ", \"skipped\": " << skipped << ", \"next\": " << index << ", \"steps\": " << tally().steps
          << ", \"seconds\": " << now() - start << ", \"slowest\": " << slowest << ", \"slowest_index\": " << slowest_index << ", \"violation\": \""
          << escape(violation) << "\"";
        o << ", \"counts\": {";
        bool f = true;
        for (auto & [k, v] : tally().n) {
            o << (f ? "" : ", ") << "\"" << escape(k) << "\": " << v;
            f = false;
        }
        o << "}, \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) {
            string s = samples[i];
            for (auto & ch : s)
                if (ch == '\n')
                    ch = ';';
            o << (i ? ", " : "") << "\"" << escape(s) << "\"";
        }
        o << "]}\n";
        cout << o.str();
        // what distinct schedules and shapes there were, for merging
        ofstream h{dir + "/h" + to_string(worker), ios::binary | ios::app};
        auto dump = [&](const set<u64> & s) {
            u64 n = s.size();
            h.write((const char *)&n, 8);
            for (auto x : s)
                h.write((const char *)&x, 8);
        };
        dump(tally().schedules);
        dump(tally().shapes);
        return violation.empty() ? 0 : 1;
    }

    Case load(const string & f)
    {
        ifstream i{f};
        if (! i)
            throw runtime_error("cannot read " + f);
        stringstream s;
        s << i.rdbuf();
        return from_text(s.str());
    }

    string category(const string & s)
    {
        return s.substr(0, s.find_first_of(" :"));
    }

    // In a child, so that nothing it does matters here.
    Result isolated(const Case & c, int cpu = 20, bool record = false, Case * recorded = nullptr)
    {
        int p[2];
        if (pipe(p))
            throw runtime_error("pipe");
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]);
            int nul = open("/dev/null", O_RDWR);
            dup2(nul, 1);
            dup2(nul, 2);
            limit_cpu(cpu);
            set_record_schedule(record);
            Result r = execute(c);
            string s = to_string(r.status) + " " + to_string(r.hash) + " " + r.text + "\n";
            if (record)
                for (auto & d : Solver::recorded)
                    s += to_string(d[0]) + " " + to_string(d[1]) + " " + to_string(d[2]) + "\n";
            size_t at = 0;
            while (at < s.size()) {
                auto n = ::write(p[1], s.data() + at, s.size() - at);
                if (n <= 0)
                    break;
                at += (size_t)n;
            }
            _exit(0);
        }
        close(p[1]);
        string s;
        char buf[65536];
        ssize_t n;
        while ((n = read(p[0], buf, sizeof buf)) > 0)
            s.append(buf, (size_t)n);
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        Result r;
        if (WIFSIGNALED(st)) {
            r.status = 1;
            r.text = "crash: ended by signal " + to_string(WTERMSIG(st));
            return r;
        }
        if (WEXITSTATUS(st) == 97) {
            r.status = 1;
            r.text = "hang: no answer in " + to_string(cpu) + " seconds of processor time";
            return r;
        }
        if (WEXITSTATUS(st) != 0) {
            r.status = 1;
            r.text = "crash: exit status " + to_string(WEXITSTATUS(st));
            return r;
        }
        istringstream in{s};
        in >> r.status >> r.hash;
        in.get();
        getline(in, r.text);
        if (recorded) {
            i64 a, b, v;
            while (in >> a >> b >> v)
                recorded->dec.push_back({a, b, v});
        }
        return r;
    }

    void drop_unused(Case & c)
    {
        set<int> used;
        for (auto & k : c.cons)
            for (auto v : scope(k))
                used.insert(v);
        if (c.objective && c.obj.var >= 0)
            used.insert(c.obj.var);
        vector<int> to(c.vars.size(), 0);
        vector<VarDecl> vs;
        for (size_t i = 0; i < c.vars.size(); ++i)
            if (used.contains((int)i)) {
                to[i] = (int)vs.size();
                vs.push_back(c.vars[i]);
            }
        if (vs.empty())
            return;
        c.vars = vs;
        auto fix = [&](Term & t) {
            if (t.var >= 0)
                t.var = to[(size_t)t.var];
        };
        for (auto & k : c.cons) {
            for (auto & ts : k.t)
                for (auto & t : ts)
                    fix(t);
            for (auto & q : k.c)
                fix(q.t);
        }
        fix(c.obj);
        for (auto & p : c.pre) {
            if (p.kind == "autotable") {
                set<i64> s;
                for (auto v : p.n)
                    if (used.contains((int)v))
                        s.insert(to[(size_t)v]);
                p.n.assign(s.begin(), s.end());
            }
            else if (p.kind.starts_with("inf") && p.n[1] >= 0)
                p.n[1] = used.contains((int)p.n[1]) ? to[(size_t)p.n[1]] : -1;
        }
    }

    int minimise(const string & in, const string & outf, double seconds)
    {
        timespec t;
        real_clock_gettime(CLOCK_MONOTONIC, &t);
        double start = (double)t.tv_sec;
        auto late = [&] {
            real_clock_gettime(CLOCK_MONOTONIC, &t);
            return (double)t.tv_sec - start > seconds;
        };
        Case best = load(in);
        Result r0 = isolated(best, 60);
        if (r0.status != 1) {
            cerr << "does not fail\n";
            return 3;
        }
        string cat = category(r0.text);
        u64 tries = 0;
        string text = r0.text;
        auto attempt = [&](const Case & c) {
            if (late())
                return false;
            ++tries;
            Result r = isolated(c);
            if (r.status == 1 && category(r.text) == cat) {
                best = c;
                text = r.text;
                return true;
            }
            return false;
        };
        auto zero = [&](const char * k) {
            if (best.get(k) != 0) {
                Case c = best;
                c.p[k] = 0;
                attempt(c);
            }
        };
        bool again = true;
        while (again && ! late()) {
            again = false;
            auto before = to_text(best);
            for (size_t i = best.cons.size(); i-- > 0;) {
                Case c = best;
                c.cons.erase(c.cons.begin() + (long)i);
                attempt(c);
            }
            for (size_t i = best.pre.size(); i-- > 0;) {
                Case c = best;
                c.pre.erase(c.pre.begin() + (long)i);
                attempt(c);
            }
            {
                Case c = best;
                drop_unused(c);
                if (c.vars.size() != best.vars.size())
                    attempt(c);
            }
            for (auto k : {"wake", "wakefix", "nodisable", "noidem", "pick", "splitbranch", "custombranch", "viewbranch", "varorder", "valorder", "scheme", "restarts"})
                zero(k);
            if (best.objective) {
                Case c = best;
                c.objective = 0;
                attempt(c);
            }
            // blocks of the operation history, then single operations
            for (size_t len = best.ops.size() / 2; len >= 1; len /= 2)
                for (size_t i = 0; i + len <= best.ops.size();) {
                    Case c = best;
                    c.ops.erase(c.ops.begin() + (long)i, c.ops.begin() + (long)(i + len));
                    if (! attempt(c))
                        i += len;
                    if (late())
                        break;
                }
            for (size_t v = 0; v < best.vars.size(); ++v)
                for (int side = 0; side < 3; ++side)
                    while (true) {
                        Case c = best;
                        auto & d = c.vars[v];
                        if (d.is_range) {
                            if (d.lo >= d.hi)
                                break;
                            if (side == 0)
                                d.lo = d.hi;
                            else if (side == 1)
                                d.hi--;
                            else
                                d.lo++;
                        }
                        else {
                            if (d.values.size() < 2)
                                break;
                            if (side == 0)
                                d.values.resize(1);
                            else if (side == 1)
                                d.values.pop_back();
                            else
                                d.values.erase(d.values.begin());
                        }
                        if (! attempt(c))
                            break;
                    }
            for (size_t i = 0; i < best.cons.size(); ++i) {
                for (size_t a = 0; a < best.cons[i].t.size(); ++a)
                    for (size_t b = 0; b < best.cons[i].t[a].size(); ++b) {
                        auto & x = best.cons[i].t[a][b];
                        if (x.var >= 0 && ! x.is_plain()) {
                            Case c = best;
                            c.cons[i].t[a][b] = Term{x.var, false, 0};
                            attempt(c);
                        }
                    }
                if (best.cons[i].reif) {
                    Case c = best;
                    c.cons[i].reif = 0;
                    c.cons[i].c.clear();
                    attempt(c);
                }
            }
            again = to_text(best) != before;
        }
        // the schedule itself, if it matters
        if (! best.get("explicit") && best.cons.size() && (best.get("pick") || best.get("wake") || best.get("wakefix") || best.get("nodisable") || best.get("noidem"))) {
            Case c = best;
            c.dec.clear();
            isolated(best, 20, true, &c);
            c.p["explicit"] = 1;
            if (c.dec.size() < 200000 && attempt(c))
                for (size_t len = max<size_t>(best.dec.size() / 2, 1); ; len /= 2) {
                    for (size_t i = 0; i + len <= best.dec.size();) {
                        Case d = best;
                        d.dec.erase(d.dec.begin() + (long)i, d.dec.begin() + (long)(i + len));
                        if (! attempt(d))
                            i += len;
                        if (late())
                            break;
                    }
                    if (len <= 1 || late())
                        break;
                }
        }
        best.text = text;
        ofstream o{outf};
        o << to_text(best);
        cout << "minimised in " << tries << " runs: " << text << "\n";
        return 0;
    }
}

int main(int argc, char ** argv)
{
    try {
        string cmd = argc > 1 ? argv[1] : "";
        if (cmd == "run" && argc >= 8)
            return run(argc, argv);
        if (cmd == "gen" && argc >= 5) {
            cout << to_text(make(argv[2], strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10)));
            return 0;
        }
        if (cmd == "replay" && argc >= 3) {
            Case c = load(argv[2]);
            Result r = isolated(c, 120);
            cout << "RESULT " << r.status << " " << r.hash << " " << r.text << "\n";
            return r.status == 1 ? 1 : 0;
        }
        if (cmd == "direct" && argc >= 3) { // no child process, for debuggers
            Result r = execute(load(argv[2]));
            cout << "RESULT " << r.status << " " << r.hash << " " << r.text << "\n";
            return r.status == 1 ? 1 : 0;
        }
        if (cmd == "proof" && argc >= 4) { // write the proof of a case's search, for looking at
            Case c = load(argv[2]);
            Solver s{c};
            Knobs k;
            k.proof = gcs::ProofOptions{string(argv[3])};
            auto o = s.solve(k);
            cout << (o.returned ? "returned" : o.exception) << " " << o.sols.size() << "\n";
            return 0;
        }
        if (cmd == "pbcheck" && argc >= 4) {
            auto read = [](const char * f) {
                ifstream in{f};
                return string{istreambuf_iterator<char>{in}, {}};
            };
            auto r = pb::check(read(argv[2]), read(argv[3]), argc > 4);
            cout << (r.gave_up ? "too big" : r.ok ? "ok" : "WRONG " + r.error) << " " << r.conclusion << " solutions " << r.solutions.size() << " lines "
                 << r.lines << "\n";
            return r.ok ? 0 : 1;
        }
        if (cmd == "min" && argc >= 4)
            return minimise(argv[2], argv[3], argc > 4 ? atof(argv[4]) : 60);
        if (cmd == "list") {
            for (auto & p : props())
                cout << p.id << "\n";
            return 0;
        }
    }
    catch (const exception & e) {
        cerr << "gsim: " << e.what() << "\n";
        return 3;
    }
    cerr << "usage: gsim run PROP SEED WORKER WORKERS SECONDS DIR [FIRST [CASES]] | gen PROP SEED INDEX | replay FILE | min FILE OUT [SECONDS]\n";
    return 3;
}
