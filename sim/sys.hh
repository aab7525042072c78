// The operating system, as the code under test sees it: memory, files, time.
// Each is the real thing until the simulator takes it over.
#pragma once
#include "case.hh"
#include <ctime>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim
{
    int real_clock_gettime(clockid_t, timespec *);

    // ---- files whose names start with sim:/ live in memory, and fail to order ----
    struct DiskPlan
    {
        i64 fail_open = -1;      // the nth open (from 1) fails
        i64 fail_write = -1;     // the nth write call fails, and every one after it if sticky
        i64 fail_close = -1;
        bool sticky = true;
        i64 capacity = -1;       // bytes, over all files: then writes are short, then fail
        int error = 0;           // ENOSPC, EIO, ...
        int short_permille = 0;  // writes which do part of what was asked
        int eintr_permille = 0;  // writes which do nothing, and say they were interrupted
        int short_read_permille = 0;
        i64 fail_read = -1;
        u64 seed = 1;
    };
    struct Disk
    {
        std::map<std::string, std::string> files;
        DiskPlan plan;
        Rng rng{1};
        i64 opens = 0, writes = 0, closes = 0, reads = 0;
        i64 injected = 0;           // failures, shorts and interruptions
        i64 failed = 0;             // of which failures
        std::vector<std::pair<std::string, std::size_t>> log; // after each write: which file, how long it is now
        void reset(const DiskPlan & p = {})
        {
            files.clear();
            plan = p;
            rng = Rng{p.seed};
            opens = writes = closes = reads = injected = failed = 0;
            log.clear();
        }
    };
    Disk & disk();
    int open_files(); // of those, still open

    // ---- memory ----
    struct Memory
    {
        static inline thread_local bool counting = false; // what this thread allocates now is the solver's
        i64 allocations = 0;     // since counting began
        i64 live = 0;            // blocks given out while counting and not given back
        i64 fail_at = -1;        // the nth allocation fails
        i64 fail_more = 0;       // and this many after it
        i64 failed = 0;
        i64 thrown = 0;          // of those, how many threw: the others were asked for with nothrow
        bool scatter = false;    // random layout and contents
        Rng rng{1};
    };
    extern Memory memory;
    struct NoAllocationFaults // the simulator's own allocations are not the solver's
    {
        bool was;
        NoAllocationFaults() : was(memory.counting)
        {
            memory.counting = false;
        }
        ~NoAllocationFaults()
        {
            memory.counting = was;
        }
    };

    // ---- threads: real ones, but only one of them runs, and a seed says which ----
    struct Threads
    {
        u64 switches = 0, edges = 0, blocked = 0;
        Hash hash;
    };
    // Runs every one of these on a thread of its own, changing over every few
    // (on average) basic blocks of the solver, where it has been compiled to say
    // when it enters one.
    Threads run_threads(const std::vector<std::function<void()>> &, u64 seed, i64 mean, i64 burst_at, i64 burst_for);
    bool edges_seen();  // whether it has
    u64 count_edges(const std::function<void()> &);

    // ---- time ----
    struct Clock
    {
        bool simulated = false;
        bool wild = true;    // jumps of its own accord
        i64 offset = 0;      // of the wall clock
        i64 now = 1000000000000; // ns
        Rng rng{1};
        i64 reads = 0, jumps = 0;
    };
    extern Clock sim_clock;
}
