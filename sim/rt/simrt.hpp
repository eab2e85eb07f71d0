// Deterministic simulation runtime.
//
// Code under test is compiled with -fsanitize=thread but linked against this
// runtime instead of libtsan: every instrumented memory access and atomic is a
// yield point, and every pthread primitive is replaced (symbol interposition).
// Real threads are used, but exactly one of them holds the baton at any time
// and a seeded scheduler decides who.  Everything else that is not a pure
// function of the program (clock, core count, thread creation failures,
// allocation failures, spurious wake-ups, try_lock failures) is decided here
// as well.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace simrt {
    // ---- fault / choice sites owned by the runtime; harness sites start at 64
    enum site : std::uint32_t {
        site_spurious = 1,      // condition wait returns without a signal
        site_trylock,           // try_lock fails although the mutex is free
        site_thread,            // thread creation fails with EAGAIN
        site_alloc,             // operator new throws bad_alloc
        site_signal,            // which waiter a signal wakes
        site_clock,             // clock jump
        site_disk,              // what a write to a file does
        site_open,              // a file or directory can not be created
        site_read,              // what a read from a file or a change of position does
        site_user = 64
    };

    enum strategy : int { serial = 0, random_walk, sync_only, pct, strategies };

    struct options {
        std::uint64_t seed        = 1;
        int           strat       = random_walk;
        double        p_sync      = 0.2;   // preemption probability at a sync operation
        std::uint32_t mem_gap     = 0;     // mean distance of preemptions at plain accesses, 0: never
        int           pct_depth   = 3;
        std::uint64_t pct_length  = 2000;
        double        p_spurious  = 0;
        double        p_trylock   = 0;
        double        p_thread    = 0;
        double        p_clock     = 0;
        std::uint64_t max_steps   = 20'000'000;
        bool          races       = true;
        unsigned      cores       = 4;
    };

    // Starts the simulation: the calling thread becomes simulated thread 0.
    void start(const options &);
    // Waits for every simulated thread to finish and leaves the simulation.
    void stop();
    bool active();
    int  tid();
    // global event sequence number (strictly increasing, total order)
    std::uint64_t sequence();
    std::uint64_t steps();
    std::uint64_t now_ns();
    void advance_clock(std::uint64_t ns);
    // explicit yield point
    void yield();
    unsigned threads_created();
    unsigned live_threads();

    // Everything inside is invisible to the scheduler and the race detector
    struct quiet {
        quiet();
        ~quiet();
        quiet(const quiet &) = delete;
    };
    // Allocation failures are only injected inside such a window
    struct alloc_faults {
        explicit alloc_faults(double p, bool threads = false);   // threads: also in threads started meanwhile
        ~alloc_faults();
        double previous, previous_threads;
    };

    // System calls on files fail only inside such a window (this thread)
    struct disk_faults {
        disk_faults(double p_write, double p_open, double p_read = 0);
        ~disk_faults();
        double previous[3];
        disk_faults(const disk_faults &) = delete;
    };
    std::uint64_t disk_errors();        // system calls on files that failed so far (not the short or interrupted ones)

    // ---- choices, recorded and replayed
    // returns a value in [0, n); 0 is the "nothing unusual" choice, which is
    // taken with probability 1-p
    std::uint32_t choose(std::uint32_t site, std::uint32_t n, double p);
    inline bool fault(std::uint32_t site, double p) { return 0 != choose(site, 2, p); }

    // ---- reporting
    [[noreturn]] void fail(const std::string &cls, const std::string &detail);
    void event(const std::string &text);            // goes into the trace and its hash
    void count(const char *name, std::uint64_t n = 1);
    void nontrivial();
    void model_time(std::uint64_t);                 // simulated model time covered (evidence)
    bool replaying();

    // ---- workload
    // Ops are numbered in the order of the calls; false: dropped by the minimiser
    bool keep();

    struct rng {
        std::uint64_t s;
        explicit rng(std::uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
        std::uint64_t next() {
            std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
        std::int64_t  range(std::int64_t a, std::int64_t b) { return a + (std::int64_t)below((std::uint64_t)(b - a + 1)); }
        double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
        bool   chance(double p) { return unit() < p; }
    };
    inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
        rng r(a ^ (b * 0xff51afd7ed558ccdull));
        return r.next();
    }
}   // namespace simrt

// Every harness defines these.
namespace harness {
    extern const char *name;
    extern std::string property;    // set by the runner: which property's oracles decide
    // called once in the parent, before any run
    void setup();
    // a directory for files of this run (only for children, not created yet)
    std::string scratch_directory();
    // one simulated run; `seed` decides the workload and the configuration
    void run(std::uint64_t seed, simrt::options opt, int tier);
}
