// Shared between the parent (search, minimiser) and the forked child (one run).
#pragma once
#include <cstdint>

namespace simrt {
    struct sched_entry { std::uint64_t step; std::uint32_t tid; std::uint32_t pad; };
    struct choice_entry { std::uint32_t site, index, value; };

    struct record {
        static constexpr unsigned max_sched = 1u << 18, max_choice = 1u << 14, max_counters = 160, text_size = 1u << 18;
        volatile int  state;            // 0 running, 1 ok, 2 failed, 3 harness error
        char          cls[160];
        char          detail[6000];
        std::uint64_t steps, hash, sched_hash, now_ns, ops;
        std::uint32_t nsched, nchoice, ncounters, ntext;
        std::uint32_t nontrivial, switches, threads;
        std::uint64_t model_time;
        struct { char name[40]; std::uint64_t n; } counters[max_counters];
        choice_entry  choices[max_choice];
        sched_entry   sched[max_sched];
        char          text[text_size];
    };

    // inputs of a run, set by the parent before forking
    struct plan {
        bool                 listed = false;   // take schedule and choices from the lists
        const sched_entry   *sched = nullptr;
        std::uint32_t        nsched = 0;
        const choice_entry  *choices = nullptr;
        std::uint32_t        nchoice = 0;
        const std::uint32_t *drop = nullptr;   // sorted op indices
        std::uint32_t        ndrop = 0;
    };
    extern record *rec;
    extern plan    the_plan;
    void child_begin();     // arms allocator and checks in the child
    void child_end();
    std::uint64_t progress();   // steps taken so far
    void seed_choices(std::uint64_t);
    void set_fill(int);     // contents of fresh memory
    void set_reuse(bool);   // freed memory is used again
}
