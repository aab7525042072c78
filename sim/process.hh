// A whole program, run as a process of its own under the simulator: its files,
// clock, threads and signals are all simulated, and decided by a seed.
#pragma once
#include "sys.hh"
#include <pthread.h>

namespace sim
{
    struct Plan
    {
        std::vector<std::string> args;
        std::map<std::string, std::string> files; // what is on the disk to begin with
        DiskPlan disk;
        u64 seed = 1;
        int signal = 0;      // raised ...
        i64 signal_at = -1;  // ... at this step
        i64 ns_per_step = 1000000;
        i64 jump_at = -1, jump_by = 0; // the wall clock is changed
        int switch_permille = 500;     // how readily another thread gets to run
        int spurious_permille = 0;     // waits which end for no reason
        int hold_permille = 300;       // other threads which are held up before they lock or wait
        int pick = 0;                  // order of propagators, as for a solve
        i64 max_steps = 3000000;
    };
    struct Ran
    {
        int code = -1;    // as the shell would say: 128 + the signal which ended it
        std::string out, err;
        u64 steps = 0, after_stop = 0, hash = 0, switches = 0, spurious = 0, injected = 0, threads = 0;
        i64 stopped_at = -1;
        bool signalled = false, timed_out = false, slept = false;
    };
    Ran run_process(int (*)(int, char **), const Plan &);

    // What the interposed functions do instead, while there is such a process.
    bool in_process();
    int process_mutex_lock(pthread_mutex_t *);
    void process_step();
    u64 process_steps();  // so far
    void process_calm();  // from now on nobody stops it any more, and what stopped it so far is over
}

int gsim_fzn_main(int, char **);
int gsim_scp_main(int, char **);
