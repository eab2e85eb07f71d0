// C05: the blocking queue, real code, under every interleaving the scheduler
// draws; the recorded history is checked for linearizability against a FIFO.
#include "common.hpp"

#include <esl/computation/blocking_queue.hpp>

using namespace simrt;
const char *harness::name = "queue";
void harness::setup() {}

namespace {
    constexpr std::uint32_t site_copy = site_user;      // an element's copy throws
    double p_copy = 0;


    // an element with observable copies; its payload is on the heap
    struct element {
        std::vector<int> v;
        element() : v(2, -1) {}
        explicit element(int i) : v(2, i) {}
        element(const element &o) : v(o.v) { maybe_throw(); }
        element(element &&o) noexcept : v(std::move(o.v)) {}
        element &operator=(const element &o) { maybe_throw(); v = o.v; return *this; }
        element &operator=(element &&o) { maybe_throw(); v = std::move(o.v); return *this; }
        static void maybe_throw() {
            if(p_copy >= 0 && fault(site_copy, p_copy)) { count("fault.element_copy"); throw harness::injected_error(); }
        }
        int value() const { return v.size() == 2 && v[0] == v[1] ? v[0] : -2; }
    };

    enum kind { k_push, k_push_move, k_try_push, k_try_push_move, k_pop, k_try_pop, k_size, k_empty, k_close };
    const char *names[] = {"push", "push(move)", "try_push", "try_push(move)", "pop", "try_pop", "size", "empty", "close"};

    struct op {
        kind k; int thread; int value;
        std::uint64_t inv = 0, res = UINT64_MAX;
        int result = 0;            // 1 success, 0 failure, size for k_size; -1 threw
        int got = -1;
        bool trylock_fault = false;
        int pause = 0;
    };
    std::string show(const op &o) {
        std::string s = harness::text("T", o.thread, " ", names[o.k]);
        if(o.k <= k_try_push_move) s += harness::text("(", o.value, ")");
        if(o.result == -1) s += " threw";
        else if(o.k == k_pop || o.k == k_try_pop) s += o.result ? harness::text(" -> ", o.got) : " -> false";
        else if(o.k == k_size || o.k == k_empty || o.k == k_try_push || o.k == k_try_push_move) s += harness::text(" -> ", o.result);
        return s + harness::text(" [", o.inv, ",", o.res, "]");
    }

    // Wing & Gong search with memoisation
    struct checker {
        const std::vector<op> &h;
        std::unordered_set<std::string> seen;
        bool give_up = false;
        explicit checker(const std::vector<op> &h) : h(h) {}
        bool dfs(std::uint64_t done, std::deque<int> q, bool closed) {
            if(done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return true;
            std::string key((const char *)&done, 8);
            key += closed ? 'c' : 'o';
            for(int x : q) key.append((const char *)&x, 4);
            if(!seen.insert(key).second) return false;
            if(seen.size() > 400000) { give_up = true; return true; }
            std::uint64_t first_res = UINT64_MAX;
            for(std::size_t i = 0; i < h.size(); ++i) if(!(done >> i & 1) && h[i].res < first_res) first_res = h[i].res;
            for(std::size_t i = 0; i < h.size(); ++i) {
                if(done >> i & 1) continue;
                const op &o = h[i];
                if(o.inv > first_res) continue;
                std::uint64_t nd = done | 1ull << i;
                auto next = q;
                switch(o.k) {
                case k_push: case k_push_move:
                    if(o.result == 1) {
                        if(closed && dfs(nd, next, closed)) return true;   // a closed queue need not accept
                        next.push_back(o.value);
                    }
                    break;
                case k_try_push: case k_try_push_move:
                    if(o.result == 1) next.push_back(o.value);
                    break;
                case k_pop:
                    if(o.result == 1) { if(q.empty() || q.front() != o.got) continue; next.pop_front(); }
                    else if(o.result == 0) { if(!q.empty() || !closed) continue; }
                    break;
                case k_try_pop:
                    if(o.result == 1) { if(q.empty() || q.front() != o.got) continue; next.pop_front(); }
                    break;
                case k_size: if((int)q.size() != o.result) continue; break;
                case k_empty: if(q.empty() != (o.result == 1)) continue; break;
                case k_close: if(dfs(nd, next, true)) return true; continue;
                }
                if(dfs(nd, next, closed)) return true;
            }
            return false;
        }
    };
}

void harness::run(std::uint64_t seed, simrt::options o, int tier) {
    rng r(mix(seed, 1));
    o.p_thread = 0;
    bool with_close  = r.chance(0.6);
    bool racing_close = with_close && r.chance(0.5);
    bool faults = r.chance(0.4);
    p_copy = faults ? 0.15 : 0;
    double palloc = faults ? 0.05 : 0;
    int producers = 1 + (int)r.below(3), consumers = 1 + (int)r.below(3);
    int per = 1 + (int)r.below(r.chance(0.2) ? 7 : 4);
    // many threads and elements: too long for the search for a linearization,
    // decided by the order of the elements alone
    if(rng q(mix(seed, 2)); q.chance(0.06)) {
        producers = 1 + (int)q.below(10); consumers = 1 + (int)q.below(10);
        per = 5 + (int)q.below(q.chance(0.3) ? 60 : 15);
        count("large");
    }
    std::vector<std::vector<op>> plan(producers + consumers + (racing_close ? 1 : 0));
    int value = 0, pushes = 0, trypops = 0;
    for(int t = 0; t < producers; ++t) for(int i = 0; i < per; ++i) {
        rng q(mix(seed, 1000 + t * 100 + i));
        op x{k_push, t, ++value};
        std::uint64_t c = q.below(10);
        x.k = c < 3 ? k_push : c < 6 ? k_push_move : c < 7 ? k_try_push : c < 8 ? k_try_push_move : c < 9 ? k_size : k_empty;
        x.pause = q.below(3);
        if(keep()) plan[t].push_back(x);
    }
    for(auto &p : plan) for(auto &x : p) if(x.k <= (with_close ? k_push_move : k_try_push_move)) ++pushes;
    for(int t = producers; t < producers + consumers; ++t) for(int i = 0; i < per; ++i) {
        rng q(mix(seed, 1000 + t * 100 + i));
        op x{k_pop, t, 0};
        std::uint64_t c = q.below(10);
        x.k = c < 6 ? k_pop : c < 8 ? k_try_pop : c < 9 ? k_size : k_empty;
        x.pause = q.below(3);
        if(!keep()) continue;
        plan[t].push_back(x);
        if(x.k == k_try_pop) ++trypops;
    }
    if(!with_close) {
        // without close every blocking pop must be certain to find an element
        p_copy = 0; palloc = 0;
        int allowed = pushes - trypops;
        for(int t = producers; t < producers + consumers; ++t) {
            std::vector<op> kept;
            for(auto &x : plan[t]) if(x.k != k_pop || allowed-- > 0) kept.push_back(x);
            plan[t] = kept;
        }
    }
    if(racing_close) { op x{k_close, producers + consumers, 0}; x.pause = (int)r.below(6); if(keep()) plan.back().push_back(x); }

    std::vector<op> history;
    {
        start(o);
        auto *queue = new esl::computation::blocking_queue<element>();
        auto perform = [&](op x) {
            for(int i = 0; i < x.pause; ++i) yield();
          again:
            { quiet q; x.inv = sequence(); }
            try {

                alloc_faults af(palloc);
                switch(x.k) {
                case k_push: { const element e(x.value); queue->push(e); x.result = 1; break; }
                case k_push_move: { queue->push(element(x.value)); x.result = 1; break; }
                case k_try_push: { const element e(x.value); x.result = queue->try_push(e); break; }
                case k_try_push_move: { x.result = queue->try_push(element(x.value)); break; }
                case k_pop: { element e; x.result = queue->pop(e); x.got = e.value(); break; }
                case k_try_pop: { element e; x.result = queue->try_pop(e); x.got = e.value(); break; }
                case k_size: x.result = (int)queue->size(); break;
                case k_empty: x.result = queue->empty(); break;
                case k_close: queue->close(); x.result = 1; break;
                }
            } catch(const injected_error &) { x.result = -1; } catch(const std::bad_alloc &) { x.result = -1; }
            {
                quiet q;
                x.res = sequence();
                history.push_back(x);
                event(show(x));
            }
            // without a close the consumers count on every element
            if(!with_close && x.result == 0 && (x.k == k_try_push || x.k == k_try_push_move)) { std::this_thread::sleep_for(std::chrono::microseconds(20)); goto again; }
        };
        std::vector<std::thread> threads;
        for(std::size_t t = 0; t < plan.size(); ++t) threads.emplace_back([&, t] { for(auto &x : plan[t]) perform(x); });
        for(int t = 0; t < producers; ++t) threads[t].join();
        if(with_close && !racing_close) { op x{k_close, 99, 0}; perform(x); }
        if(racing_close) { threads.back().join(); if(plan.back().empty()) { op x{k_close, 99, 0}; perform(x); } }
        for(std::size_t t = producers; t < threads.size(); ++t) if(threads[t].joinable()) threads[t].join();
        // drain
        while(!queue->empty()) { op x{k_try_pop, 99, 0}; perform(x); }
        perform(op{k_size, 99, 0});
        stop();
        quiet q;
        delete queue;
    }
    quiet q;
    std::uint64_t tl = 0;
    for(auto &x : history) { count(text("op.", names[x.k]).c_str()); tl += x.result == 0 && (x.k == k_try_pop || x.k == k_try_push || x.k == k_try_push_move); }
    count("op.try_failed", tl);
    // every element at most once, and only elements that were pushed
    std::map<int, const op *> pushed; std::set<int> popped;
    for(auto &x : history) if(x.k <= k_try_push_move && x.result == 1) pushed[x.value] = &x;
    std::string all;
    for(auto &x : history) all += show(x) + "; ";
    for(auto &x : history) if((x.k == k_pop || x.k == k_try_pop) && x.result == 1) {
        if(!pushed.count(x.got)) violated("phantom-element", "an element was popped that no successful push added: ", show(x), " in ", all);
        if(!popped.insert(x.got).second) violated("duplicated-element", show(x), " in ", all);
    }
    std::uint64_t closed_at = UINT64_MAX;
    for(auto &x : history) if(x.k == k_close) closed_at = std::min(closed_at, x.inv);
    for(auto &p : pushed) if(!popped.count(p.first) && p.second->inv < closed_at && p.second->res < closed_at)
        violated("lost-element", "pushed and never popped although the queue was drained: ", show(*p.second), " in ", all);
    // first in, first out, whatever the length of the history
    std::vector<std::pair<const op *, const op *>> both;
    for(auto &x : history) if((x.k == k_pop || x.k == k_try_pop) && x.result == 1) both.emplace_back(pushed[x.got], &x);
    for(auto &a : both) {
        if(a.second->res < a.first->inv) violated("popped-before-pushed", show(*a.second), " before ", show(*a.first));
        for(auto &b : both) if(a.first->res < b.first->inv && b.second->res < a.second->inv)
            violated("not-first-in-first-out", show(*a.first), " before ", show(*b.first), " but ", show(*b.second), " before ", show(*a.second));
    }
    // a pop that gives up saw an empty, closed queue: nothing that was in
    // before it began and left after it ended
    for(auto &x : history) if(x.k == k_pop && x.result == 0) {
        if(closed_at > x.res) violated("gave-up-on-open-queue", show(x), " in ", all);
        for(auto &b : both) if(b.first->res < x.inv && x.res < b.second->inv)
            violated("gave-up-on-element", show(x), " while element ", b.first->value, " was in: ", show(*b.first), " ", show(*b.second));
    }
    // a non-blocking call may only fail because of contention or emptiness
    for(auto &x : history) if((x.k == k_try_push || x.k == k_try_push_move) && x.result == 0 && o.p_trylock == 0) {
        bool overlap = false;
        for(auto &y : history) if(&y != &x && y.inv < x.res && x.inv < y.res) overlap = true;
        if(!overlap && x.inv < closed_at) violated("try-push-refused", "without any concurrent call: ", show(x), " in ", all);
    }
    if(history.size() <= 40) {
        // a try_pop that fails without contention saw an empty queue
        std::vector<op> h = history;
        std::sort(h.begin(), h.end(), [](const op &a, const op &b) { return a.inv < b.inv; });
        if(o.p_trylock == 0) for(auto &x : h) if(x.k == k_try_pop && x.result == 0) {
            bool overlap = false;
            for(auto &y : history) if(y.inv != x.inv && y.inv < x.res && x.inv < y.res) overlap = true;
            if(!overlap) { x.k = k_empty; x.result = 1; }
        }
        checker c(h);
        if(!c.dfs(0, {}, false)) violated("not-linearizable", "no sequential FIFO order explains ", all);
        count(c.give_up ? "linearizability.too_long" : "linearizability.checked");
    }
    if(history.size() > 2) nontrivial();
    (void)tier;
}
