#include "process.hh"
#include "props.hh"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <iostream>
#include <limits>
#include <memory>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace sim;
using namespace std;

namespace
{
    enum State
    {
        Ready,
        Waiting,
        Done
    };

    struct Thread
    {
        sem_t turn;
        pthread_t handle{};
        void * (*f)(void *) = nullptr;
        void * arg = nullptr;
        State state = Ready;
        pthread_cond_t * cv = nullptr;
        bool timed = false, woken = false;
        clockid_t clock = CLOCK_REALTIME;
        i64 deadline = 0;
        int reason = 0;
        Thread()
        {
            sem_init(&turn, 0, 0);
        }
    };

    struct Shared
    {
        u64 steps, after_stop, hash, switches, spurious, injected, threads;
        i64 stopped_at;
        bool signalled, timed_out, slept;
    };

    // There is one in a process which is being simulated, and none otherwise.
    struct World
    {
        const Plan & plan;
        Shared * seen;
        Rng rng;
        Hash hash;
        vector<unique_ptr<Thread>> threads;
        bool busy = false, calm = false;

        World(const Plan & p, Shared * s) : plan(p), seen(s), rng(p.seed)
        {
            threads.push_back(make_unique<Thread>());
        }
    };
    World * world = nullptr;
    thread_local int me = 0;

    i64 now(clockid_t c)
    {
        timespec t;
        clock_gettime(c, &t);
        return (i64)t.tv_sec * 1000000000 + t.tv_nsec;
    }

    template <typename F>
    F real(const char * name, const char * version = nullptr)
    {
        return (F)(version ? dlvsym(RTLD_NEXT, name, version) : dlsym(RTLD_NEXT, name));
    }

    void give_up(int code)
    {
        world->seen->hash = world->hash.h;
        _exit(code);
    }

    void to_main()
    {
        auto & w = *world;
        sem_post(&w.threads[0]->turn);
        while (sem_wait(&w.threads[(size_t)me]->turn))
            ;
    }

    bool expired(const Thread & t)
    {
        return t.timed && now(t.clock) >= t.deadline;
    }

    // Main lets one other thread go on, if one can.
    bool run_another(bool must)
    {
        auto & w = *world;
        vector<size_t> can;
        for (size_t i = 1; i < w.threads.size(); ++i) {
            auto & t = *w.threads[i];
            if (t.state == Ready || (t.state == Waiting && (t.woken || expired(t) || (! must && w.rng.permille(w.plan.spurious_permille)))))
                can.push_back(i);
        }
        if (can.empty())
            return false;
        auto i = can[w.rng.below(can.size())];
        auto & t = *w.threads[i];
        if (t.state == Waiting) {
            t.reason = 0;
            if (! t.woken) {
                if (expired(t))
                    t.reason = ETIMEDOUT;
                else
                    ++w.seen->spurious;
            }
            t.state = Ready;
        }
        ++w.seen->switches;
        w.hash.add((u64)i);
        w.hash.add(w.seen->steps);
        sem_post(&t.turn);
        while (sem_wait(&w.threads[0]->turn))
            ;
        return true;
    }

    // Main has nothing to do until something has happened.
    void wait_for_others(bool sleep)
    {
        if (run_another(true))
            return;
        auto & w = *world;
        Thread * first = nullptr;
        for (auto & t : w.threads)
            if (sleep && t->state == Waiting && t->timed && (! first || t->deadline - now(t->clock) < first->deadline - now(first->clock)))
                first = t.get();
        if (! first)
            give_up(96); // nothing will ever happen
        w.seen->slept = true;
        sim_clock.now += max<i64>(1, first->deadline - now(first->clock));
    }

    void * trampoline(void * p)
    {
        me = (int)(size_t)p;
        auto & t = *world->threads[(size_t)me];
        while (sem_wait(&t.turn))
            ;
        auto r = t.f(t.arg);
        t.state = Done;
        sem_post(&world->threads[0]->turn);
        return r;
    }

    // A thread which has not been told to stop may be held up between looking and waiting.
    void hold_up()
    {
        auto & w = *world;
        if (me && w.threads[(size_t)me]->reason != ETIMEDOUT && w.rng.permille(w.plan.hold_permille))
            to_main();
    }

    int wait_on(pthread_cond_t * c, pthread_mutex_t * m, const timespec * until, clockid_t clock)
    {
        auto & t = *world->threads[(size_t)me];
        hold_up();
        t.cv = c;
        t.woken = false;
        t.timed = until;
        t.clock = clock;
        t.deadline = until ? (i64)until->tv_sec * 1000000000 + until->tv_nsec : 0;
        t.state = Waiting;
        t.reason = 0;
        pthread_mutex_unlock(m);
        if (me)
            to_main();
        else {
            while (! t.woken && ! expired(t))
                wait_for_others(true);
            t.reason = t.woken ? 0 : ETIMEDOUT;
            t.state = Ready;
        }
        process_mutex_lock(m);
        if (me && expired(t)) { // a thread which is woken late looks at the clock itself
            auto & s = *world->seen;
            s.timed_out = true;
            if (s.stopped_at < 0)
                s.stopped_at = (i64)s.steps;
        }
        return t.reason;
    }

    void wake(pthread_cond_t * c, bool all)
    {
        for (auto & t : world->threads)
            if (t->state == Waiting && t->cv == c && ! t->woken) {
                t->woken = true;
                if (! all)
                    return;
            }
    }

    void step(bool searching = false)
    {
        auto & w = *world;
        auto & s = *w.seen;
        if (me || w.busy)
            return;
        w.busy = true;
        ++s.steps;
        sim_clock.now += w.plan.ns_per_step;
        if ((i64)s.steps == w.plan.jump_at)
            sim_clock.offset += w.plan.jump_by;
        if ((i64)s.steps == w.plan.signal_at && ! w.calm) {
            struct sigaction a;
            // before the search has begun, being killed is as good an answer as any
            if (! sigaction(w.plan.signal, nullptr, &a) && (searching || (a.sa_handler != SIG_DFL && a.sa_handler != SIG_IGN))) {
                s.signalled = true;
                if (s.stopped_at < 0)
                    s.stopped_at = (i64)s.steps;
                raise(w.plan.signal);
            }
        }
        if (w.threads.size() > 1 && w.rng.permille(w.plan.switch_permille))
            run_another(false);
        if ((i64)s.steps > w.plan.max_steps)
            give_up(99);
        w.busy = false;
    }

    struct Hooks : gcs::innards::SimulationHooks
    {
        auto choose_next(size_t n) -> size_t override
        {
            auto & w = *world;
            if (w.seen->stopped_at >= 0 && ! w.calm)
                ++w.seen->after_stop;
            step(true);
            size_t r = 0;
            if (n > 1 && (w.plan.pick == 1 || (w.plan.pick == 3 && w.rng.chance(12))))
                r = w.rng.below(n);
            else if (n > 1 && w.plan.pick == 2)
                r = n - 1;
            w.hash.add(n * 1000 + r);
            return r;
        }
        auto wake_idle(size_t, bool) -> optional<size_t> override
        {
            return nullopt;
        }
        auto ignore_disable() -> bool override
        {
            return false;
        }
        auto ignore_idempotence() -> bool override
        {
            return false;
        }
    };

    string slurp(int fd)
    {
        string s;
        char b[65536];
        lseek(fd, 0, SEEK_SET);
        for (ssize_t n; (n = ::read(fd, b, sizeof b)) > 0;)
            s.append(b, (size_t)n);
        return s;
    }
}

bool sim::in_process()
{
    return world;
}

u64 sim::process_steps()
{
    return world->seen->steps;
}

void sim::process_calm()
{
    world->calm = true;
}

void sim::process_step()
{
    step();
}

int sim::process_mutex_lock(pthread_mutex_t * m)
{
    step();
    hold_up();
    while (true) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY)
            return r;
        if (me)
            to_main();
        else
            wait_for_others(false);
    }
}

extern "C" {
int pthread_create(pthread_t * h, const pthread_attr_t * a, void * (*f)(void *), void * arg)
{
    static auto g = real<int (*)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *)>("pthread_create");
    if (! world)
        return g(h, a, f, arg);
    auto & w = *world;
    w.threads.push_back(make_unique<Thread>());
    auto & t = *w.threads.back();
    t.f = f;
    t.arg = arg;
    ++w.seen->threads;
    int r = g(h, a, trampoline, (void *)(w.threads.size() - 1));
    t.handle = *h;
    return r;
}

int pthread_join(pthread_t h, void ** ret)
{
    static auto g = real<int (*)(pthread_t, void **)>("pthread_join");
    if (world)
        step();
    if (world && ! me)
        for (auto & t : world->threads)
            if (t != world->threads[0] && pthread_equal(t->handle, h))
                while (t->state != Done)
                    wait_for_others(true);
    return g(h, ret);
}

int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
    static auto g = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait", "GLIBC_2.3.2");
    return world ? wait_on(c, m, nullptr, CLOCK_REALTIME) : g(c, m);
}

int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec * t)
{
    static auto g = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const timespec *)>("pthread_cond_timedwait", "GLIBC_2.3.2");
    return world ? wait_on(c, m, t, CLOCK_REALTIME) : g(c, m, t);
}

int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const timespec * t)
{
    static auto g = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)>("pthread_cond_clockwait");
    return world ? wait_on(c, m, t, k) : g(c, m, k, t);
}

int pthread_cond_signal(pthread_cond_t * c)
{
    static auto g = real<int (*)(pthread_cond_t *)>("pthread_cond_signal", "GLIBC_2.3.2");
    if (! world)
        return g(c);
    step();
    wake(c, false);
    return 0;
}

int pthread_cond_broadcast(pthread_cond_t * c)
{
    static auto g = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast", "GLIBC_2.3.2");
    if (! world)
        return g(c);
    step();
    wake(c, true);
    return 0;
}

int nanosleep(const timespec * t, timespec *)
{
    if (! world)
        return clock_nanosleep(CLOCK_REALTIME, 0, t, nullptr) ? -1 : 0;
    sim_clock.now += (i64)t->tv_sec * 1000000000 + t->tv_nsec;
    if (me)
        to_main();
    else
        step();
    return 0;
}
}

Ran sim::run_process(int (*program)(int, char **), const Plan & plan)
{
    auto seen = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (seen == MAP_FAILED)
        throw Skip{"cannot share memory"};
    memset(seen, 0, sizeof *seen);
    seen->stopped_at = -1;
    int out = memfd_create("out", MFD_CLOEXEC), err = memfd_create("err", MFD_CLOEXEC);
    fflush(nullptr);
    cout.flush();
    cerr.flush();
    pid_t pid = fork();
    if (pid < 0)
        throw Skip{"cannot fork"};
    if (pid == 0) {
        dup2(out, 1);
        dup2(err, 2);
        for (int s : {SIGINT, SIGTERM, SIGPROF, SIGABRT, SIGSEGV, SIGXCPU})
            signal(s, SIG_DFL);
        rlimit l{30, 30};
        setrlimit(RLIMIT_CPU, &l);
        World w{plan, seen};
        disk().reset(plan.disk);
        disk().files = plan.files;
        sim_clock.simulated = true;
        sim_clock.wild = false;
        sim_clock.now = 1700000000000000000LL;
        Hooks hooks;
        gcs::innards::simulation_hooks = &hooks;
        vector<string> args = plan.args;
        vector<char *> argv;
        for (auto & a : args)
            argv.push_back(a.data());
        argv.push_back(nullptr);
        world = &w;
        int code = program((int)args.size(), argv.data());
        cout.flush();
        fflush(nullptr);
        seen->injected = (u64)disk().injected;
        give_up(code & 255);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
        ;
    Ran r;
    r.code = WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
    r.out = slurp(out);
    r.err = slurp(err);
    close(out);
    close(err);
    r.steps = seen->steps;
    r.after_stop = seen->after_stop;
    r.hash = seen->hash;
    r.switches = seen->switches;
    r.spurious = seen->spurious;
    r.injected = seen->injected;
    r.threads = seen->threads;
    r.stopped_at = seen->stopped_at;
    r.signalled = seen->signalled;
    r.timed_out = seen->timed_out;
    r.slept = seen->slept;
    munmap(seen, sizeof *seen);
    return r;
}
