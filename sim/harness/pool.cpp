// C06: the thread pool, real code, seeded schedules and faults.
#include "common.hpp"

#include <esl/computation/thread_pool.hpp>

#include <mutex>
#include <system_error>

using namespace simrt;
const char *harness::name = "pool";
void harness::setup() {}

namespace {
    struct task_error : std::exception { int id; explicit task_error(int i) : id(i) {} };
    struct slot {
        int runs = 0; int argument = 0; bool threw_at_submit = false, submitted = false; int submitter = 0;
        std::string text; std::uint64_t order = 0;
        int thread = -1;
        std::vector<int> payload;      // written by the task without own synchronisation
    };
}

void harness::run(std::uint64_t seed, simrt::options o, int) {
    rng r(mix(seed, 1));
    unsigned requested = r.chance(0.1) ? 0 : 1 + (unsigned)r.below(r.chance(0.2) ? 6 : 3);
    bool thread_faults = r.chance(0.15), alloc = r.chance(0.2);
    double p_thread = thread_faults ? 0.3 : 0;
    double palloc = alloc ? 0.06 : 0;
    int submitters = 1 + (int)r.below(3), per = 1 + (int)r.below(6);
    if(rng q(mix(seed, 2)); q.chance(0.06)) {
        // many workers and tasks
        requested = q.chance(0.1) ? 0 : 1 + (unsigned)q.below(24);
        per = 6 + (int)q.below(q.chance(0.3) ? 80 : 20);
        count("large");
    }
    o.p_thread = p_thread;
    std::vector<slot> slots(submitters * per * 2 + 1);
    struct spec { int id, kind; };
    std::vector<std::vector<spec>> plan(submitters);
    int id = 0;
    for(int s = 0; s < submitters; ++s) for(int i = 0; i < per; ++i) {
        rng q(mix(seed, 100 + s * 200 + i));
        int k = (int)q.below(11);
        ++id;
        slots[id].submitter = s;
        if(keep()) plan[s].push_back({id, k});
    }
    std::uint64_t order = 0;
    auto body = [&](int i, const std::string &t, int arg) {
        quiet q;
        slot &s = slots[i];
        ++s.runs; s.text = t; s.argument = arg; s.thread = tid(); s.order = ++order;
        event(text("task ", i, " runs on T", tid()));
    };
    auto work = [&](int i, std::string t, int arg) { slots[i].payload.assign(3, i); body(i, t, arg); };
    start(o);
    bool constructed = false;
    try {
        esl::computation::thread_pool pool(requested);
        constructed = true;
        { quiet q; simrt::event(text("pool of ", pool.threads)); }
        if(requested && pool.threads != requested) violated("thread-count", "asked for ", requested, " threads, the pool has ", pool.threads);
        if(!requested && pool.threads != o.cores) violated("thread-count", "asked for one thread per core on ", o.cores, " cores, the pool has ", pool.threads);
        if(live_threads() != 1 + pool.threads) violated("thread-count", "the pool of ", pool.threads, " runs ", live_threads() - 1, " threads");
        using work_type = decltype(work);
        struct worker_object {
            work_type *work; int id;
            int perform(const std::string &t, int a) { (*work)(id, t, a); return id * 3; }
        };
        auto submit = [&](int s) {
            std::vector<std::pair<spec, std::future<int>>> ints;
            std::vector<std::pair<spec, std::future<void>>> voids;
            std::vector<std::pair<spec, std::future<std::unique_ptr<int>>>> pointers;
            std::vector<std::pair<spec, std::future<int &>>> references;
            std::vector<int> referred(plan[s].size() + 1);
            std::size_t nreferred = 0;
            ints.reserve(plan[s].size()); voids.reserve(plan[s].size());
            pointers.reserve(plan[s].size()); references.reserve(plan[s].size());
            for(auto &x : plan[s]) {
                std::string t = "argument " + std::to_string(x.id) + " that is too long for the small string buffer";
                { quiet q; slots[x.id].submitted = true; }
                try {
                    alloc_faults af(palloc);
                    if(x.kind <= 2) pool.enqueue_work(work, x.id, t, x.id * 7);
                    else if(x.kind == 3) ints.emplace_back(x, pool.enqueue_task([&work](int i, const std::string &t, int a) { work(i, t, a); return i * 3; }, x.id, t, x.id * 7));
                    else if(x.kind == 4) voids.emplace_back(x, pool.enqueue_task([&work, t, x] { work(x.id, t, x.id * 7); }));
                    else if(x.kind == 5) ints.emplace_back(x, pool.enqueue_task([&work, t, x]() -> int { work(x.id, t, x.id * 7); throw task_error(x.id); }));
                    else if(x.kind == 7) {
                        // a variable passed by reference, and returned as one
                        int &v = referred[nreferred++];
                        v = x.id;
                        references.emplace_back(x, pool.enqueue_task([&work, t, x](int &n) -> int & { work(x.id, t, x.id * 7); n = n * 3; return n; }, std::ref(v)));
                    } else if(x.kind == 8) {
                        // a task that cannot be copied, with a result that cannot
                        pointers.emplace_back(x, pool.enqueue_task([&work, t, x, p = std::make_unique<int>(x.id * 3)]() mutable {
                            work(x.id, t, x.id * 7); return std::move(p); }));
                    } else if(x.kind == 9) {
                        // a member function of an object
                        ints.emplace_back(x, pool.enqueue_task(&worker_object::perform, worker_object{&work, x.id}, t, x.id * 7));
                    } else if(x.kind == 10) pool.enqueue_work(std::ref(work), x.id, t, x.id * 7);
                    else {
                        // a task that submits another one; its future is awaited
                        voids.emplace_back(x, pool.enqueue_task([&, t, x] {
                            work(x.id, t, x.id * 7);
                            int n = x.id + submitters * per;
                            { quiet q; slots[n].submitted = true; slots[n].submitter = 100 + x.id; }
                            alloc_faults none(0);
                            pool.enqueue_work(work, n, t, n * 7);
                        }));
                    }
                } catch(const std::bad_alloc &) {
                    quiet q;
                    slots[x.id].threw_at_submit = true;
                    simrt::event(text("submission of ", x.id, " failed"));
                }
            }
            for(auto &f : ints) {
                try {
                    int v = f.second.get();
                    quiet q;
                    if(f.first.kind == 5) violated("lost-exception", "task ", f.first.id, " threw, its future holds a value");
                    if(v != f.first.id * 3) violated("future-value", "task ", f.first.id, " returned ", f.first.id * 3, ", its future holds ", v);
                } catch(const task_error &e) {
                    quiet q;
                    if(f.first.kind != 5 || e.id != f.first.id) violated("future-exception", "task ", f.first.id, " received the exception of task ", e.id);
                } catch(const std::future_error &e) { violated("broken-promise", "task ", f.first.id, ": ", e.what()); }
                if(slots[f.first.id].runs != 1) violated("future-ready-early", "the future of task ", f.first.id, " is ready, the task ran ", slots[f.first.id].runs, " times");
                if(slots[f.first.id].payload.size() != 3) violated("effects", "task ", f.first.id);
            }
            for(auto &f : references) {
                int &v = f.second.get();
                quiet q;
                if(&v < referred.data() || &v >= referred.data() + referred.size() || v != f.first.id * 3)
                    violated("future-value", "task ", f.first.id, " returned a reference to a variable of the submitter with ", f.first.id * 3, ", its future another, or with ", v);
                if(slots[f.first.id].runs != 1) violated("future-ready-early", "the future of task ", f.first.id, " is ready, the task ran ", slots[f.first.id].runs, " times");
            }
            for(auto &f : pointers) {
                auto v = f.second.get();
                quiet q;
                if(!v || *v != f.first.id * 3) violated("future-value", "task ", f.first.id, " returned ", f.first.id * 3, ", its future holds ", v ? *v : 0);
                if(slots[f.first.id].runs != 1) violated("future-ready-early", "the future of task ", f.first.id, " is ready, the task ran ", slots[f.first.id].runs, " times");
            }
            for(auto &f : voids) {
                try { f.second.get(); }
                catch(const std::bad_alloc &) { continue; }
                catch(const std::future_error &e) { violated("broken-promise", "task ", f.first.id, ": ", e.what()); }
                if(slots[f.first.id].runs != 1) violated("future-ready-early", "the future of task ", f.first.id, " is ready, the task ran ", slots[f.first.id].runs, " times");
            }
        };
        std::vector<std::thread> others;
        for(int s = 1; s < submitters; ++s) {
            try { others.emplace_back(submit, s); } catch(const std::system_error &) {}
        }
        submit(0);
        for(auto &t : others) t.join();
    } catch(const std::system_error &e) {
        if(!thread_faults || constructed) violated("unexpected-exception", e.what());
        count("pool.construction_failed");
        event("construction failed");
    }
    unsigned left = live_threads();
    stop();
    quiet q;
    if(left != 1) violated("thread-leak", left - 1, " threads are left when the pool is gone");
    // the pool is gone: everything has been executed exactly once
    for(std::size_t i = 0; i < slots.size(); ++i) {
        slot &s = slots[i];
        if(s.submitted && !s.threw_at_submit) {
            count("tasks");
            if(s.runs != 1) violated(s.runs ? "task-duplicated" : "task-lost", "task ", i, " ran ", s.runs, " times");
            std::string t = "argument " + std::to_string((int)i > submitters * per ? (int)i - submitters * per : (int)i) + " that is too long for the small string buffer";
            if(s.argument != (int)i * 7 || s.text != t) violated("task-arguments", "task ", i, " got ", s.argument, " '", s.text, "'");
            if(s.thread < 1) violated("task-thread", "task ", i, " did not run on a worker");
        } else if(s.runs) violated("task-after-failure", "task ", i, " ran although its submission failed");
    }
    if(constructed && requested == 1) {
        for(int s = 0; s < submitters; ++s) {
            std::uint64_t last = 0;
            for(auto &x : plan[s]) if(slots[x.id].runs) {
                if(slots[x.id].order < last) violated("single-worker-order", "with one worker, task ", x.id, " ran before one that the same thread submitted earlier");
                last = slots[x.id].order;
            }
        }
    }
    if(constructed && id > 1) nontrivial();
}
