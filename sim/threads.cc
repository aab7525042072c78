// Threads which take turns. Only the one holding the baton runs; it is passed on
// at basic block edges of the solver (where compiled with -fsanitize-coverage),
// so that which interleaving happens is a function of the seed.
#include "process.hh"
#include <cerrno>
#include <condition_variable>
#include <dlfcn.h>
#include <limits>
#include <mutex>
#include <pthread.h>
#include <thread>
using namespace sim;
using namespace std;

namespace
{
    constexpr i64 never = numeric_limits<i64>::max();
    i64 edges_left = never;
    i64 edges_set = never; // what edges_left was last set to
    bool any_edges = false;

    thread_local int me = -1;
    thread_local int held = 0;       // must not be interrupted
    thread_local bool inside = false; // in here

    struct Baton
    {
        mutex m;
        vector<unique_ptr<condition_variable>> cv;
        vector<bool> done;
        int holder = 0; // 0 is who started the others
        Rng rng{1};
        i64 mean = 100, burst_at = -1, burst_for = 0;
        Threads seen;
    };
    Baton * baton = nullptr;

    void set_edges()
    {
        auto & b = *baton;
        i64 at = (i64)b.seen.edges;
        i64 mean = at >= b.burst_at && at < b.burst_at + b.burst_for ? 3 : b.mean;
        edges_left = edges_set = 1 + (i64)b.rng.below((u64)(2 * mean));
        if (at < b.burst_at && at + edges_left > b.burst_at)
            edges_left = edges_set = b.burst_at - at + 1;
    }

    void pass_to(int t)
    {
        auto & b = *baton;
        if (t == me)
            return;
        unique_lock<mutex> l(b.m);
        b.holder = t;
        b.cv[(size_t)t]->notify_one();
        b.cv[(size_t)me]->wait(l, [&] { return b.holder == me; });
    }

    void change_over(bool must)
    {
        NoAllocationFaults quiet;
        inside = true;
        auto & b = *baton;
        vector<int> others;
        for (size_t t = 1; t < b.done.size(); ++t)
            if (! b.done[t] && (int)t != me)
                others.push_back((int)t);
        if (! others.empty() && (must || true)) {
            int t = others[b.rng.below(others.size())];
            ++b.seen.switches;
            b.seen.hash.add((u64)t);
            b.seen.hash.add(b.seen.edges);
            pass_to(t);
        }
        inside = false;
    }

    template <typename F>
    F real(const char * name)
    {
        return (F)dlsym(RTLD_NEXT, name);
    }
}

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *)
{
    any_edges = true;
}

void __sanitizer_cov_trace_pc_guard(uint32_t *)
{
    if (--edges_left > 0) [[likely]]
        return;
    if (! baton || me < 1 || inside) {
        edges_left = edges_set = never;
        return;
    }
    baton->seen.edges += (u64)edges_set;
    if (held || ! Memory::counting) {
        edges_left = edges_set = 5;
        return;
    }
    change_over(false);
    set_edges();
}

// One thread setting up a static must not make way for another which then waits for it.
int __cxa_guard_acquire(void * g)
{
    static auto f = (int (*)(void *))nullptr;
    if (! f)
        f = real<int (*)(void *)>("__cxa_guard_acquire");
    int r = f(g);
    if (r)
        ++held;
    return r;
}
void __cxa_guard_release(void * g)
{
    static auto f = (void (*)(void *))nullptr;
    if (! f)
        f = real<void (*)(void *)>("__cxa_guard_release");
    f(g);
    --held;
}
void __cxa_guard_abort(void * g)
{
    static auto f = (void (*)(void *))nullptr;
    if (! f)
        f = real<void (*)(void *)>("__cxa_guard_abort");
    f(g);
    --held;
}

int pthread_mutex_lock(pthread_mutex_t * m)
{
    static auto f = (int (*)(pthread_mutex_t *))nullptr;
    if (! f)
        f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    if (in_process())
        return process_mutex_lock(m);
    if (! baton || me < 1 || inside)
        return f(m);
    while (true) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY)
            return r;
        ++baton->seen.blocked;
        change_over(true);
    }
}
}

bool sim::edges_seen()
{
    return any_edges;
}

u64 sim::count_edges(const function<void()> & f)
{
    edges_left = edges_set = never;
    f();
    u64 n = (u64)(never - edges_left);
    edges_left = edges_set = never;
    return n;
}

Threads sim::run_threads(const vector<function<void()>> & work, u64 seed, i64 mean, i64 burst_at, i64 burst_for)
{
    Baton b;
    b.rng = Rng{seed};
    b.mean = max<i64>(mean, 1);
    b.burst_at = burst_at;
    b.burst_for = burst_for;
    b.done.assign(work.size() + 1, false);
    for (size_t i = 0; i <= work.size(); ++i)
        b.cv.push_back(make_unique<condition_variable>());
    vector<exception_ptr> threw(work.size() + 1);
    me = 0;
    baton = &b;
    vector<thread> ts;
    for (size_t i = 1; i <= work.size(); ++i)
        ts.emplace_back([&, i] {
            me = (int)i;
            inside = true;
            {
                unique_lock<mutex> l(b.m);
                b.cv[i]->wait(l, [&] { return b.holder == me; });
            }
            inside = false;
            set_edges();
            try {
                work[i - 1]();
            }
            catch (...) {
                threw[i] = current_exception();
            }
            inside = true;
            b.done[i] = true;
            {
                unique_lock<mutex> l(b.m);
                b.holder = 0;
                b.cv[0]->notify_one();
            }
        });
    vector<bool> joined(work.size() + 1, false);
    for (size_t left = work.size(); left > 0; --left) {
        vector<int> open;
        for (size_t t = 1; t <= work.size(); ++t)
            if (! b.done[t])
                open.push_back((int)t);
        inside = true;
        pass_to(open[b.rng.below(open.size())]);
        inside = false;
        for (size_t t = 1; t <= work.size(); ++t)
            if (b.done[t] && ! joined[t]) {
                ts[t - 1].join();
                joined[t] = true;
            }
    }
    baton = nullptr;
    me = -1;
    edges_left = edges_set = never;
    for (auto & e : threw)
        if (e)
            rethrow_exception(e);
    return b.seen;
}
