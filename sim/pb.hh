// An independent checker for the pseudo-Boolean proofs the solver writes. It
// takes the two files as text, believes nothing in them, and says what they prove.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace sim::pb
{
    struct Solution
    {
        std::map<std::string, bool> preserved; // the values of the preserved literals, by name
        __int128 objective = 0;
    };

    struct Report
    {
        bool ok = false;        // every line read is justified
        std::string error;      // else why not
        long line = 0;          // and on which line of the proof
        bool gave_up = false;   // too big for us: nothing is said
        bool formula_ok = false;
        bool torn = false;      // the text stops before the end of a line or of the proof
        bool ended = false;     // the final line was there
        std::string conclusion; // UNSAT, SAT, NONE, ENUMERATION_COMPLETE, BOUNDS or empty
        bool inf = false;       // BOUNDS INF INF
        __int128 lo = 0, hi = 0;
        std::vector<Solution> solutions;
        long unpinned = 0;      // solutions which hold, though not by propagation alone
        std::string first_unpinned;
        bool has_objective = false;
        std::size_t formula = 0, lines = 0, assertions = 0;
        std::map<std::string, long> rules;
        std::map<std::string, std::size_t> labels; // of the formula
    };

    struct Limits
    {
        long lines = 200000;
        long work = 400000000; // literal visits
    };

    /// allow_torn: the text may stop anywhere, and then only what was written must be right
    Report check(const std::string & opb, const std::string & pbp, bool allow_torn = false, const Limits & = {});
}
