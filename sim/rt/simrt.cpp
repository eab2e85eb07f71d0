#include "simrt.hpp"
#include "record.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <new>
#include <unordered_map>

#include <dlfcn.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>

#define IE __attribute__((tls_model("initial-exec")))

// the strings of a report are built by code that may itself be instrumented
#define FAIL(...) do { ++tls_quiet; g_max = ~0ull; fail(__VA_ARGS__); } while(0)

namespace simrt {
    record *rec = nullptr;
    plan    the_plan;

    namespace {
        constexpr int MAXT = 64;
        constexpr std::uintptr_t STACKS = 0x500000000000ull;
        constexpr std::size_t STACK_SIZE = 1 << 20;
        std::size_t stacks = 0;
        enum state_t { unused, runnable, blocked, finished };
        enum why_t { w_none, w_mutex, w_cond, w_join, w_once, w_futex, w_sleep, w_all, w_rw };
        const char *why_name[] = {"-", "mutex", "condition", "join", "once", "future", "sleep", "stop", "rwlock"};

        struct vc { std::uint32_t c[MAXT]; };

        struct thread_t {
            state_t       state = unused;
            why_t         why = w_none;
            const void   *obj = nullptr;
            std::uint64_t deadline = UINT64_MAX;
            bool          timed_out = false;
            std::atomic<int> baton{0};
            pthread_t     real{};
            bool          joined = false, detached = false;
            void         *stack = nullptr;
            bool          stack_free = false;
            void         *(*fn)(void *) = nullptr;
            void         *arg = nullptr;
            void         *ret = nullptr;
            std::int64_t  prio = 0;
            double        p_alloc = 0;    // allocation failures it starts with
            std::uint32_t spins = 0;      // synchronisations since it last blocked or was set back
            std::uint32_t ended = 0;      // clock of the last thread in this slot that ended
            vc            clock{};
        };
        thread_t T[MAXT];
        int      cur = 0;
        int      nlive = 0;
        bool     g_on = false;        // child run in progress
        bool     g_sim = false;       // between start and stop
        bool     g_multi = false;     // more than one live thread
        options  opt;
        rng      srng(1), crng(1);
        std::uint64_t g_step = 0, g_trigger = UINT64_MAX, g_max = UINT64_MAX;
        std::uint64_t g_now = 0, g_seq = 0;
        std::uint32_t list_pos = 0, op_index = 0;
        std::uint32_t site_index[256];
        std::map<std::pair<std::uint32_t, std::uint32_t>, std::uint32_t> listed_choices;
        std::vector<std::uint64_t> change_points;
    
        unsigned created = 0;

        thread_local int tls_tid IE = -1;
        thread_local int tls_quiet IE = 0;
        thread_local double p_alloc IE = 0;
        thread_local double p_alloc_threads IE = 0;
        thread_local double p_write IE = 0, p_open IE = 0, p_read IE = 0;
        std::uint64_t n_disk_errors = 0;

        inline void hash(std::uint64_t &h, std::uint64_t v) { h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29; }

        // ------------------------------------------------------------ futex
        long futex(std::atomic<int> *a, int op, int v) { return syscall(SYS_futex, reinterpret_cast<int *>(a), op, v, nullptr, nullptr, 0); }
        void baton_wait(thread_t &t) {
            while(0 == t.baton.load(std::memory_order_acquire)) futex(&t.baton, FUTEX_WAIT_PRIVATE, 0);
            t.baton.store(0, std::memory_order_relaxed);
        }
        void baton_give(thread_t &t) {
            t.baton.store(1, std::memory_order_release);
            futex(&t.baton, FUTEX_WAKE_PRIVATE, 1);
        }

        // ------------------------------------------------------------ arena
        constexpr std::uintptr_t ARENA = 0x100000000000ull;
        constexpr std::size_t    ARENA_SIZE = 3ull << 29;
        std::uint8_t *shadow = nullptr;       // one byte per 8: 0 bad, 1..8 usable bytes, 0xFD freed
        std::atomic<std::uintptr_t> arena_top{ARENA};
        bool arena_on = false;
        struct header_t { std::uint64_t size, magic; };
        int fill_byte = 0;
        // in some runs freed memory is used again, last freed first, so that state kept
        // for an address meets another object there
        bool reuse = false;
        constexpr std::size_t REUSED = 512;
        std::uintptr_t reusable[REUSED / 16 + 1];
        std::atomic_flag reuse_lock = ATOMIC_FLAG_INIT;
        void race_clear(std::uintptr_t a, std::size_t n);

        void *arena_give(std::uintptr_t p, std::size_t n) {
            auto *h = reinterpret_cast<header_t *>(p - sizeof(header_t));
            h->size = n; h->magic = 0xA110CA7EDull;
            std::uint8_t *s = shadow + ((p - ARENA) >> 3);
            std::size_t full = n >> 3;
            memset(s, 8, full);
            if(n & 7) s[full] = n & 7;
            if(fill_byte) memset(reinterpret_cast<void *>(p), fill_byte, n);
            return reinterpret_cast<void *>(p);
        }
        void *arena_alloc(std::size_t n, std::size_t align) {
            if(align < 16) align = 16;
            std::size_t rounded = (n + 15) & ~std::size_t(15), total = rounded + 32 + align;
            if(reuse && rounded && rounded <= REUSED && align == 16 && !(g_sim && tls_tid < 0)) {
                while(reuse_lock.test_and_set(std::memory_order_acquire)) {}
                std::uintptr_t q = reusable[rounded / 16];
                if(q) reusable[rounded / 16] = *reinterpret_cast<std::uintptr_t *>(q);
                reuse_lock.clear(std::memory_order_release);
                if(q) {
                    tls_quiet++;
                    if(g_sim) race_clear(q, rounded);
                    tls_quiet--;
                    return arena_give(q, n);
                }
            }
            std::uintptr_t base = arena_top.fetch_add(total);
            if(base + total > ARENA + ARENA_SIZE) {
                FAIL("memory-exhausted", "the simulated heap of 1.5 GB is used up");
            }
            std::uintptr_t p = (base + sizeof(header_t) + align - 1) & ~(align - 1);
            return arena_give(p, n);
        }
        void bad_memory(std::uintptr_t a, unsigned size, bool write, const void *pc);
        void arena_free(void *p) {
            auto a = reinterpret_cast<std::uintptr_t>(p);
            auto *h = reinterpret_cast<header_t *>(a - sizeof(header_t));
            if(h->magic == 0xDEADull) FAIL("double-free", "memory freed twice");
            if(h->magic != 0xA110CA7EDull) FAIL("bad-free", "free of a pointer that was not allocated");
            h->magic = 0xDEADull;
            std::uint8_t *s = shadow + ((a - ARENA) >> 3);
            memset(s, 0xFD, (h->size + 7) >> 3);
            std::size_t rounded = (h->size + 15) & ~std::size_t(15);
            if(reuse && rounded && rounded <= REUSED && 0 == (a & 15) && !(g_sim && tls_tid < 0)) {
                while(reuse_lock.test_and_set(std::memory_order_acquire)) {}
                *reinterpret_cast<std::uintptr_t *>(a) = reusable[rounded / 16];
                reusable[rounded / 16] = a;
                reuse_lock.clear(std::memory_order_release);
            }
        }
        inline bool addressable(std::uintptr_t a, unsigned size) {
            for(unsigned i = 0; i < size;) {
                std::uintptr_t x = a + i;
                std::uint8_t s = shadow[(x - ARENA) >> 3];
                unsigned off = x & 7, n = 8 - off;
                if(n > size - i) n = size - i;
                if(s == 0 || s == 0xFD || off + n > s) return false;
                i += n;
            }
            return true;
        }

        std::string where(const void *pc) {
            Dl_info i;
            if(!dladdr(pc, &i)) return "at ?";
            std::string r = "in ";
            if(i.dli_sname) {
                int st = 1;
                char *n = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
                std::string name = !st && n ? n : i.dli_sname;
                free(n);
                if(name.size() > 160) name = name.substr(0, 157) + "...";
                r += name;
            } else r += "?";
            char b[40];
            snprintf(b, sizeof b, " (0x%lx)", (unsigned long)((const char *)pc - 1));
            return r + b;
        }

        // ------------------------------------------------------------ races
        struct cell { std::uint8_t tid, mask, kind; std::uint8_t pad; std::uint32_t clk; const void *pc; };  // kind: 1 read, 2 write, +4 atomic
        struct granule { std::uintptr_t key; cell c[4]; std::uint8_t next; };
        std::vector<granule> races;
        std::size_t races_used = 0;
        std::unordered_map<const void *, vc> atomics;

        granule &race_slot(std::uintptr_t g) {
            if(races.empty()) races.resize(1u << 14);
            if(races_used * 2 > races.size()) {
                std::vector<granule> old(races.size() * 2);
                old.swap(races);
                races_used = 0;
                for(auto &o : old) if(o.key) { race_slot(o.key) = o; }
            }
            std::size_t m = races.size() - 1, i = (g * 0x9E3779B97F4A7C15ull >> 20) & m;
            while(races[i].key && races[i].key != g) i = (i + 1) & m;
            if(!races[i].key) { races[i].key = g; ++races_used; }
            return races[i];
        }
        void race_clear(std::uintptr_t a, std::size_t n) {
            if(!races_used) return;
            for(std::uintptr_t g = (a >> 3); g <= ((a + n - 1) >> 3); ++g) {
                std::size_t m = races.size() - 1, i = (g * 0x9E3779B97F4A7C15ull >> 20) & m;
                while(races[i].key && races[i].key != g) i = (i + 1) & m;
                if(races[i].key) { memset(races[i].c, 0, sizeof races[i].c); }
            }
        }
        void race_access(std::uintptr_t a, unsigned size, unsigned kind, const void *pc) {
            vc &me = T[tls_tid].clock;
            while(size) {
                unsigned off = a & 7, n = 8 - off;
                if(n > size) n = size;
                std::uint8_t mask = std::uint8_t(((1u << n) - 1) << off);
                granule &g = race_slot(a >> 3);
                int mine = -1, dead = -1;
                for(int i = 0; i < 4; ++i) {
                    cell &c = g.c[i];
                    if(!c.mask) { if(dead < 0) dead = i; continue; }
                    if(c.tid == tls_tid) {
                        if((c.kind & 2) <= (kind & 2) && (c.kind & 4) >= (kind & 4) && c.mask == mask) mine = i;
                        continue;
                    }
                    bool ordered = c.clk <= me.c[c.tid];
                    if((c.mask & mask) && !ordered && ((c.kind | kind) & 2) && !((c.kind & 4) && (kind & 4))) {
                        std::string d = "unsynchronised accesses to the same memory: thread " + std::to_string(c.tid)
                            + ((c.kind & 2) ? " write " : " read ") + where(c.pc) + ", thread " + std::to_string(tls_tid)
                            + ((kind & 2) ? " write " : " read ") + where(pc);
                        FAIL("data-race", d);
                    }
                    if(ordered && (c.mask & ~mask) == 0 && ((kind & 2) || !(c.kind & 2))) dead = i;
                }
                int at = mine >= 0 ? mine : dead >= 0 ? dead : (g.next++ & 3);
                g.c[at] = cell{std::uint8_t(tls_tid), mask, std::uint8_t(kind), 0, me.c[tls_tid], pc};
                a += n; size -= n;
            }
        }
        void join_vc(vc &a, const vc &b) { for(int i = 0; i < MAXT; ++i) if(b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

        // ------------------------------------------------------------ scheduling
        struct mutex_t { int owner = -1; int count = 0; vc clock{}; };
        struct rw_t { int writer = -1; int readers = 0; vc clock{}; };
        std::unordered_map<const void *, mutex_t> mutexes;
        std::unordered_map<const void *, rw_t> rwlocks;
        std::unordered_map<const void *, std::deque<int>> conds;
        std::unordered_map<const void *, vc> onces;
        std::unordered_map<const void *, int> object_ids;
        int object_id(const void *p) {
            auto [i, f] = object_ids.emplace(p, (int)object_ids.size());
            return i->second;
        }

        constexpr unsigned SPIN = 4000;
        void next_trigger() {
            g_trigger = g_max;
            if(!g_sim || !g_multi) return;
            if(the_plan.listed) {
                while(list_pos < the_plan.nsched && the_plan.sched[list_pos].step <= g_step) ++list_pos;
                if(list_pos < the_plan.nsched) g_trigger = std::min<std::uint64_t>(g_max, the_plan.sched[list_pos].step);
                return;
            }
            if(opt.strat == random_walk && opt.mem_gap) {
                g_trigger = std::min<std::uint64_t>(g_max, g_step + 1 + srng.below(2 * opt.mem_gap));
            } else if(opt.strat == pct) {
                for(auto c : change_points) if(c > g_step) { g_trigger = std::min<std::uint64_t>(g_max, c); break; }
            }
        }

        int runnables(int *out) {
            int n = 0;
            for(int i = 0; i < MAXT; ++i) if(T[i].state == runnable) out[n++] = i;
            return n;
        }
        void record_switch(int to) {
            ++rec->switches;
            hash(rec->sched_hash, (g_step << 8) ^ to);
            if(rec->nsched < record::max_sched) rec->sched[rec->nsched++] = sched_entry{g_step, (std::uint32_t)to, 0};
        }
        void transfer(int to, bool wait_self) {
            int self = tls_tid;
            if(to == self) { cur = self; return; }
            cur = to;
            baton_give(T[to]);
            if(wait_self) baton_wait(T[self]);
        }
        std::string dump() {
            std::string s;
            for(int i = 0; i < MAXT; ++i) if(T[i].state == blocked) {
                s += "thread " + std::to_string(i) + " waits for " + why_name[T[i].why];
                if(T[i].why == w_mutex && mutexes.count(T[i].obj)) s += " held by thread " + std::to_string(mutexes[T[i].obj].owner);
                s += "; ";
            }
            return s;
        }
        void fire_timers(bool force) {
            if(force) {
                std::uint64_t d = UINT64_MAX;
                for(auto &t : T) if(t.state == blocked && t.deadline < d) d = t.deadline;
                if(d == UINT64_MAX) return;
                if(g_now < d) g_now = d;
            }
            for(int i = 0; i < MAXT; ++i) {
                auto &t = T[i];
                if(t.state == blocked && t.deadline <= g_now) {
                    t.timed_out = true; t.deadline = UINT64_MAX; t.state = runnable;
                    if(t.why == w_cond) for(auto &c : conds) for(auto k = c.second.begin(); k != c.second.end(); ++k) if(*k == i) { c.second.erase(k); break; }
                }
            }
        }
        // the current thread can not continue
        int forced_choice() {
            ++g_step;
            int r[MAXT], n = runnables(r);
            if(!n) { fire_timers(true); n = runnables(r); }
            if(!n) FAIL("deadlock", dump());
            int def = r[0];
            for(int i = 0; i < n; ++i) if(r[i] > tls_tid) { def = r[i]; break; }
            int to = def;
            if(the_plan.listed) {
                for(std::uint32_t i = list_pos ? list_pos - 1 : 0; i < the_plan.nsched && the_plan.sched[i].step <= g_step; ++i)
                    if(the_plan.sched[i].step == g_step && T[the_plan.sched[i].tid % MAXT].state == runnable) to = the_plan.sched[i].tid;
            } else if(opt.strat == random_walk || opt.strat == sync_only) {
                to = r[srng.below(n)];
            } else if(opt.strat == pct) {
                for(int i = 0; i < n; ++i) if(T[r[i]].prio > T[to].prio || T[to].state != runnable) to = r[i];
            }
            if(to != def) record_switch(to); else hash(rec->sched_hash, (g_step << 8) ^ to ^ 0x80);
            next_trigger();
            return to;
        }
        // a point where the scheduler may preempt; `sync`: at a synchronisation operation
        // a thread that synchronises this often without ever blocking spins:
        // the others get their turn under every strategy
        void maybe_switch(bool sync) {
            if(g_step >= g_max) FAIL("step-budget", "no end of the run within " + std::to_string(g_step) + " steps (livelock)");
            if(!g_sim || !g_multi || tls_tid < 0) return;
            tls_quiet++;
            if(sync) { g_now += 1000; fire_timers(false); }
            int r[MAXT], n = runnables(r), to = tls_tid;
            bool spinning = n > 1 && sync && ++T[tls_tid].spins > SPIN;
            if(n > 1) {
                if(spinning) {
                    T[tls_tid].spins = 0;
                    T[tls_tid].prio = -(std::int64_t)g_step;
                    to = r[0];
                    for(int i = 0; i < n; ++i) if(r[i] > tls_tid) { to = r[i]; break; }
                }
                if(the_plan.listed) {
                    for(std::uint32_t i = list_pos; i < the_plan.nsched && the_plan.sched[i].step <= g_step; ++i)
                        if(the_plan.sched[i].step == g_step && T[the_plan.sched[i].tid % MAXT].state == runnable) to = the_plan.sched[i].tid;
                } else if(opt.strat == random_walk || opt.strat == sync_only) {
                    if(!spinning && (!sync || srng.chance(opt.p_sync))) to = r[srng.below(n)];
                } else if(opt.strat == pct) {
                    for(auto c : change_points) if(c == g_step) T[tls_tid].prio = -(std::int64_t)(c);
                    for(int i = 0; i < n; ++i) if(T[r[i]].prio > T[to].prio) to = r[i];
                }
            }
            if(to != tls_tid) record_switch(to);
            next_trigger();
            if(to != tls_tid) transfer(to, true);
            tls_quiet--;
        }
        inline void mem_point() { if(++g_step >= g_trigger) maybe_switch(false); }
        void sync_point(int kind, const void *obj) {
            if(!g_sim || tls_tid < 0) return;
            ++g_step;
            if(g_multi) { tls_quiet++; hash(rec->sched_hash, (std::uint64_t)kind << 40 ^ (std::uint64_t)object_id(obj) << 8 ^ tls_tid); tls_quiet--; }
            maybe_switch(true);
        }
        void block(why_t why, const void *obj, std::uint64_t deadline = UINT64_MAX) {
            thread_t &t = T[tls_tid];
            t.state = blocked; t.spins = 0; t.why = why; t.obj = obj; t.deadline = deadline; t.timed_out = false;
            int to = forced_choice();
            if(to != tls_tid) transfer(to, true);
            t.why = w_none; t.obj = nullptr; t.deadline = UINT64_MAX;
        }
        void wake(why_t why, const void *obj) {
            for(auto &t : T) if(t.state == blocked && t.why == why && t.obj == obj) t.state = runnable;
        }
        inline bool in_sim() { return g_sim && tls_tid >= 0 && !tls_quiet; }

        // ------------------------------------------------------------ primitives
        int lock_mutex(pthread_mutex_t *m, bool tryonly, std::uint64_t deadline = UINT64_MAX) {
            sync_point(tryonly ? 2 : 1, m);
            tls_quiet++;
            mutex_t *x = &mutexes[m];
            bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
            if(x->owner == tls_tid && recursive) { ++x->count; tls_quiet--; return 0; }
            if(tryonly) {
                bool free_ = x->owner < 0;
                if(free_ && fault(site_trylock, opt.p_trylock)) { count("fault.trylock"); free_ = false; }
                if(!free_) { tls_quiet--; return EBUSY; }
            } else {
                while(x->owner >= 0) {
                    if(deadline != UINT64_MAX) {
                        if(deadline <= g_now) { tls_quiet--; return ETIMEDOUT; }
                        block(w_mutex, m, deadline);
                        x = &mutexes[m];
                        continue;
                    }
                    if(x->owner == tls_tid) FAIL("deadlock", "thread " + std::to_string(tls_tid) + " locks a mutex it already holds; " + dump());
                    block(w_mutex, m);
                    x = &mutexes[m];
                }
            }
            x->owner = tls_tid; x->count = 1;
            join_vc(T[tls_tid].clock, x->clock);
            tls_quiet--;
            return 0;
        }
        void unlock_mutex_now(const void *m) {
            mutex_t &x = mutexes[m];
            if(x.owner != tls_tid) FAIL("mutex-misuse", "thread " + std::to_string(tls_tid) + " unlocks a mutex it does not hold");
            if(--x.count > 0) return;
            x.owner = -1;
            x.clock = T[tls_tid].clock;
            ++T[tls_tid].clock.c[tls_tid];
            wake(w_mutex, m);
        }
        int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, std::uint64_t deadline) {
            sync_point(4, c);
            tls_quiet++;
            int result = 0;
            bool spurious = fault(site_spurious, opt.p_spurious);
            if(spurious) {
                count("fault.spurious_wakeup");
                unlock_mutex_now(m);
                tls_quiet--; sync_point(5, c); tls_quiet++;
            } else {
                conds[c].push_back(tls_tid);
                unlock_mutex_now(m);
                block(w_cond, c, deadline);
                if(T[tls_tid].timed_out) result = ETIMEDOUT;
            }
            mutex_t *x = &mutexes[m];
            while(x->owner >= 0) { block(w_mutex, m); x = &mutexes[m]; }
            x->owner = tls_tid; x->count = 1;
            join_vc(T[tls_tid].clock, x->clock);
            tls_quiet--;
            return result;
        }
        void cond_wake(pthread_cond_t *c, bool all) {
            sync_point(6, c);
            tls_quiet++;
            auto &q = conds[c];
            if(all) { for(int t : q) T[t].state = runnable; q.clear(); }
            else if(!q.empty()) {
                std::size_t i = q.size() > 1 ? choose(site_signal, (std::uint32_t)q.size(), 0.5) : 0;
                T[q[i]].state = runnable;
                q.erase(q.begin() + i);
            }
            tls_quiet--;
            sync_point(7, c);
        }
        void finish_thread(void *ret) {
            tls_quiet++;
            thread_t &t = T[tls_tid];
            t.ret = ret;
            t.state = finished;
            ++t.clock.c[tls_tid];
            --nlive;
            for(int i = 0; i < MAXT; ++i) if(T[i].state == blocked && ((T[i].why == w_join && T[i].obj == &t) || T[i].why == w_all)) T[i].state = runnable;
            t.ended = t.clock.c[tls_tid];
            g_multi = nlive > 1;
            if(t.detached) t.joined = true;
            int to = forced_choice();
            tls_tid = -1;     // never counted as simulated again
            cur = to;
            baton_give(T[to]);
        }
        std::vector<std::pair<void (*)(void *), void *>> thread_exits[MAXT];
        void *trampoline(void *p) {
            int id = (int)(std::intptr_t)p;
            tls_tid = id;
            tls_quiet = 0; p_write = p_open = p_read = 0;
            baton_wait(T[id]);
            p_alloc = p_alloc_threads = T[id].p_alloc;
            void *r = T[id].fn(T[id].arg);
            // destructors of its thread-local variables, while it is still simulated
            auto &l = thread_exits[id];
            while(!l.empty()) {
                auto [f, o] = l.back();
                tls_quiet++; l.pop_back(); tls_quiet--;
                f(o);
            }
            finish_thread(r);
            return r;
        }

        template<class F> F real(const char *n) {
            static F f = nullptr;
            if(!f) f = reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
            return f;
        }

        // memory whose reuse the runtime knows of: not what malloc gives to libraries
        // (exceptions in flight, for example)
        extern "C" char __executable_start, _end;
        std::uintptr_t main_stack = 0;
        inline bool tracked(std::uintptr_t a) {
            return a - ARENA < ARENA_SIZE || a - STACKS < 2 * STACK_SIZE * stacks
                || (a >= (std::uintptr_t)&__executable_start && a < (std::uintptr_t)&_end)
                || main_stack - a < (64u << 20);
        }

        void on_access(const void *p, unsigned size, unsigned kind, const void *pc) {
            if(!g_on || tls_quiet) return;
            if(tls_tid < 0 && g_sim) return;      // a thread that already left the simulation
            mem_point();
            auto a = reinterpret_cast<std::uintptr_t>(p);
            if(a - ARENA < ARENA_SIZE) {
                if(!addressable(a, size)) bad_memory(a, size, kind & 2, pc);
            } else if(a < 4096) return;           // the access itself will fault
            if(g_multi && opt.races && tracked(a)) { tls_quiet++; race_access(a, size, kind, pc); tls_quiet--; }
        }
        void bad_memory(std::uintptr_t a, unsigned size, bool write, const void *pc) {
            tls_quiet++; g_max = ~0ull;
            std::uint8_t s = shadow[(a - ARENA) >> 3];
            std::string d = std::string(write ? "write" : "read") + " of " + std::to_string(size) + " bytes " + where(pc);
            FAIL(s == 0xFD ? "use-after-free" : "out-of-bounds", d);
        }
    }   // namespace

    // ---------------------------------------------------------------- API
    quiet::quiet() { tls_quiet++; }
    quiet::~quiet() { tls_quiet--; }
    alloc_faults::alloc_faults(double p, bool threads) : previous(p_alloc), previous_threads(p_alloc_threads) { p_alloc = p; if(threads) p_alloc_threads = p; }
    alloc_faults::~alloc_faults() { p_alloc = previous; p_alloc_threads = previous_threads; }
    disk_faults::disk_faults(double w, double o, double r) : previous{p_write, p_open, p_read} { p_write = w; p_open = o; p_read = r; }
    disk_faults::~disk_faults() { p_write = previous[0]; p_open = previous[1]; p_read = previous[2]; }
    std::uint64_t disk_errors() { return n_disk_errors; }

    void fail(const std::string &cls, const std::string &detail) {
        tls_quiet++;
        if(rec && rec->state == 0) {
            snprintf(rec->cls, sizeof rec->cls, "%s", cls.c_str());
            snprintf(rec->detail, sizeof rec->detail, "%s", detail.c_str());
            rec->steps = g_step; rec->now_ns = g_now; rec->ops = op_index;
            rec->state = 2;
        }
        _exit(42);
    }
    void event(const std::string &t) {
        tls_quiet++;
        for(unsigned char c : t) hash(rec->hash, c);
        hash(rec->hash, '\n');
        if(rec->ntext + t.size() + 2 < record::text_size) {
            memcpy(rec->text + rec->ntext, t.data(), t.size());
            rec->ntext += t.size();
            rec->text[rec->ntext++] = '\n';
            rec->text[rec->ntext] = 0;
        }
        tls_quiet--;
    }
    void count(const char *name, std::uint64_t n) {
        for(unsigned i = 0; i < rec->ncounters; ++i) if(0 == strcmp(rec->counters[i].name, name)) { rec->counters[i].n += n; return; }
        if(rec->ncounters < record::max_counters) {
            snprintf(rec->counters[rec->ncounters].name, sizeof rec->counters[0].name, "%s", name);
            rec->counters[rec->ncounters++].n = n;
        }
    }
    void nontrivial() { rec->nontrivial = 1; }
    void model_time(std::uint64_t t) { rec->model_time += t; }
    bool replaying() { return the_plan.listed; }
    bool keep() {
        std::uint32_t i = op_index++;
        rec->ops = op_index;
        for(std::uint32_t k = 0; k < the_plan.ndrop; ++k) if(the_plan.drop[k] == i) return false;
        return true;
    }
    std::uint32_t choose(std::uint32_t site, std::uint32_t n, double p) {
        if(n < 2) return 0;
        quiet scope;
        std::uint32_t index = site_index[site & 255]++;
        std::uint32_t v = 0;
        if(the_plan.listed) {
            auto i = listed_choices.find({site, index});
            if(i != listed_choices.end()) v = i->second % n;
        } else if(p > 0 && crng.chance(p)) {
            v = 1 + (std::uint32_t)crng.below(n - 1);
        }
        if(v && rec->nchoice < record::max_choice) rec->choices[rec->nchoice++] = choice_entry{site, index, v};
        return v;
    }
    bool active() { return g_sim; }
    int tid() { return tls_tid; }
    std::uint64_t sequence() { return ++g_seq; }
    std::uint64_t steps() { return g_step; }
    std::uint64_t now_ns() { return g_now; }
    void advance_clock(std::uint64_t ns) { g_now += ns; }
    void yield() { if(in_sim()) sync_point(9, nullptr); }
    unsigned threads_created() { return created; }
    unsigned live_threads() { return nlive; }

    void start(const options &o) {
        tls_quiet++;
        opt = o;
        srng = rng(mix(o.seed, 11));
        g_max = g_step + o.max_steps;
        for(auto &t : T) { t.state = unused; }
        T[0].state = runnable; T[0].spins = 0; T[0].real = pthread_self();
        for(auto &t : T) join_vc(T[0].clock, t.clock);        // everything before is over
        ++T[0].clock.c[0];
        tls_tid = 0; cur = 0; nlive = 1; g_multi = false; created = 0;
        if(o.strat == pct) {
            change_points.clear();
            for(int i = 0; i < o.pct_depth; ++i) change_points.push_back(1 + srng.below(o.pct_length));
            std::sort(change_points.begin(), change_points.end());
            T[0].prio = 1 + srng.below(1000000);
        }
        g_sim = true;
        next_trigger();
        tls_quiet--;
    }
    void stop() {
        if(!g_sim) return;
        tls_quiet++;
        while(nlive > 1) block(w_all, nullptr);
        g_sim = false; g_multi = false;
        g_trigger = g_max;
        tls_tid = -1;
        tls_quiet--;
    }

    void child_begin() {
        // a handful of runs are listed (replay); everything else draws
        listed_choices.clear();
        for(std::uint32_t i = 0; i < the_plan.nchoice; ++i) listed_choices[{the_plan.choices[i].site, the_plan.choices[i].index}] = the_plan.choices[i].value;
        memset(site_index, 0, sizeof site_index);
        g_step = 0; g_trigger = g_max = 200'000'000; g_now = 0; g_seq = 0; op_index = 0; list_pos = 0;
        if(!shadow) {
            shadow = (std::uint8_t *)mmap(nullptr, ARENA_SIZE >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            void *a = mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if(shadow == MAP_FAILED || a == MAP_FAILED) { fprintf(stderr, "simrt: no arena\n"); _exit(97); }
        }
        main_stack = (std::uintptr_t)__builtin_frame_address(0) + (1 << 16);   // the harness runs below
        arena_on = true;
        g_on = true;
    }
    void seed_choices(std::uint64_t s) { crng = rng(mix(s, 23)); }
    void set_fill(int b) { fill_byte = b; }
    void set_reuse(bool r) { reuse = r; }
    std::uint64_t progress() { return g_step; }
    void child_end() {
        stop();
        g_on = false;
        rec->steps = g_step; rec->now_ns += g_now; rec->ops = op_index; rec->threads = created;
        rec->state = 1;
    }
}   // namespace simrt

using namespace simrt;

// ==================================================================== allocation
static void *sim_new(std::size_t n, std::size_t align, bool nothrow) {
    if(arena_on && !tls_quiet) {
        if(p_alloc > 0 && fault(site_alloc, p_alloc)) {
            count("fault.allocation");
            if(nothrow) return nullptr;
            throw std::bad_alloc();
        }
        void *p = arena_alloc(n, align);
        return p;
    }
    void *p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
    if(!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void sim_delete(void *p) {
    if(!p) return;
    auto a = reinterpret_cast<std::uintptr_t>(p);
    if(a - ARENA < ARENA_SIZE) { arena_free(p); return; }
    free(p);
}
void *operator new(std::size_t n) { return sim_new(n, 16, false); }
void *operator new[](std::size_t n) { return sim_new(n, 16, false); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return sim_new(n, 16, true); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return sim_new(n, 16, true); }
void *operator new(std::size_t n, std::align_val_t a) { return sim_new(n, (std::size_t)a, false); }
void *operator new[](std::size_t n, std::align_val_t a) { return sim_new(n, (std::size_t)a, false); }
void operator delete(void *p) noexcept { sim_delete(p); }
void operator delete[](void *p) noexcept { sim_delete(p); }
void operator delete(void *p, std::size_t) noexcept { sim_delete(p); }
void operator delete[](void *p, std::size_t) noexcept { sim_delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { sim_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_delete(p); }

// memory that libstdc++ or libc take from malloc (exception objects, streams)
// starts without access history, whoever used that address before
extern "C" {
void *__libc_malloc(std::size_t);
void *__libc_calloc(std::size_t, std::size_t);
void *__libc_realloc(void *, std::size_t);
void *malloc(std::size_t n) {
    void *p = __libc_malloc(n);
    if(p && g_multi && tls_tid >= 0 && !tls_quiet) { tls_quiet++; race_clear(reinterpret_cast<std::uintptr_t>(p), n ? n : 1); tls_quiet--; }
    return p;
}
void *calloc(std::size_t a, std::size_t b) {
    void *p = __libc_calloc(a, b);
    if(p && g_multi && tls_tid >= 0 && !tls_quiet) { tls_quiet++; race_clear(reinterpret_cast<std::uintptr_t>(p), a * b ? a * b : 1); tls_quiet--; }
    return p;
}
void *realloc(void *o, std::size_t n) {
    void *p = __libc_realloc(o, n);
    if(p && n && g_multi && tls_tid >= 0 && !tls_quiet) { tls_quiet++; race_clear(reinterpret_cast<std::uintptr_t>(p), n); tls_quiet--; }
    return p;
}
}

// ==================================================================== pthread
#define REAL(ret, name, ...) \
    typedef ret (*name##_f)(__VA_ARGS__); \
    static name##_f r_##name() { static name##_f f = nullptr; if(!f) f = (name##_f)dlsym(RTLD_NEXT, #name); return f; }

REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)
REAL(int, pthread_join, pthread_t, void **)
REAL(int, pthread_detach, pthread_t)
REAL(int, pthread_mutex_lock, pthread_mutex_t *)
REAL(int, pthread_mutex_trylock, pthread_mutex_t *)
REAL(int, pthread_mutex_unlock, pthread_mutex_t *)
REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *)
REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *)
REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)
REAL(int, pthread_cond_signal, pthread_cond_t *)
REAL(int, pthread_cond_broadcast, pthread_cond_t *)
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *)
REAL(int, nanosleep, const struct timespec *, struct timespec *)
REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *)
REAL(int, clock_gettime, clockid_t, struct timespec *)
REAL(int, sched_yield, void)
REAL(int, get_nprocs, void)

static constexpr std::uint64_t realtime_base = 1'700'000'000ull * 1'000'000'000ull;
static constexpr std::uint64_t monotonic_base = 1'000ull * 1'000'000'000ull;
static std::uint64_t to_virtual(clockid_t c, const struct timespec *t) {
    std::uint64_t n = (std::uint64_t)t->tv_sec * 1'000'000'000ull + t->tv_nsec;
    std::uint64_t b = c == CLOCK_REALTIME ? realtime_base : monotonic_base;
    return n > b ? n - b : 0;
}

extern "C" {
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if(!in_sim()) return r_pthread_create()(out, attr, fn, arg);
    sync_point(20, nullptr);
    tls_quiet++;
    int id = -1;
    if(fault(site_thread, opt.p_thread)) { count("fault.thread_creation"); tls_quiet--; return EAGAIN; }
    for(int i = 1; i < MAXT; ++i) if(T[i].state == unused || (T[i].state == finished && T[i].joined)) { id = i; break; }
    if(id < 0) { count("thread_slots_exhausted"); tls_quiet--; return EAGAIN; }
    thread_t &t = T[id];
    std::uint32_t own = t.clock.c[id];
    t.fn = fn; t.arg = arg; t.joined = t.detached = false; t.why = w_none; t.deadline = UINT64_MAX; t.ret = nullptr;
    t.baton.store(0);
    // a stack that was used before only if the end of that thread is known here:
    // accesses to it are not to be taken for those of the earlier thread
    if(t.stack && (t.ended > T[tls_tid].clock.c[id] || !t.stack_free)) {
        if(t.stack_free) munmap(t.stack, STACK_SIZE);
        t.stack = nullptr;
    }
    t.clock = T[tls_tid].clock;
    if(t.clock.c[id] < own) t.clock.c[id] = own;
    ++t.clock.c[id];
    ++T[tls_tid].clock.c[tls_tid];
    if(opt.strat == pct) t.prio = 1 + srng.below(1000000);
    t.state = runnable; t.spins = 0; t.p_alloc = p_alloc_threads;
    ++nlive; ++created;
    g_multi = true;
    pthread_attr_t a;
    pthread_attr_init(&a);
    if(!t.stack) {
        void *at = (void *)(STACKS + 2 * STACK_SIZE * stacks++);
        t.stack = mmap(at, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if(t.stack != at) { fprintf(stderr, "simrt: no stack\n"); _exit(97); }
    }
    t.stack_free = false;
    pthread_attr_setstack(&a, t.stack, STACK_SIZE);
    int r = r_pthread_create()(&t.real, &a, trampoline, (void *)(std::intptr_t)id);
    pthread_attr_destroy(&a);
    if(r) { fprintf(stderr, "simrt: real thread creation failed\n"); _exit(98); }
    *out = t.real;
    next_trigger();
    tls_quiet--;
    sync_point(21, nullptr);
    return 0;
}
int pthread_join(pthread_t th, void **ret) {
    if(!in_sim()) return r_pthread_join()(th, ret);
    sync_point(22, nullptr);
    tls_quiet++;
    for(int i = 1; i < MAXT; ++i) if((T[i].state != unused) && !T[i].joined && pthread_equal(T[i].real, th)) {
        if(i == tls_tid) { tls_quiet--; return EDEADLK; }
        while(T[i].state != finished) block(w_join, &T[i]);
        join_vc(T[tls_tid].clock, T[i].clock);
        T[i].joined = true;
        if(ret) *ret = T[i].ret;
        r_pthread_join()(th, nullptr);
        T[i].stack_free = true;
        tls_quiet--;
        return 0;
    }
    tls_quiet--;
    return ESRCH;
}
int pthread_detach(pthread_t th) {
    if(!in_sim()) return r_pthread_detach()(th);
    for(int i = 1; i < MAXT; ++i) if(T[i].state != unused && !T[i].joined && pthread_equal(T[i].real, th)) {
        T[i].detached = true;
        if(T[i].state == finished) T[i].joined = true;
    }
    return r_pthread_detach()(th);
}
int pthread_mutex_lock(pthread_mutex_t *m) { return in_sim() ? lock_mutex(m, false) : g_sim ? 0 : r_pthread_mutex_lock()(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return in_sim() ? lock_mutex(m, true) : g_sim ? 0 : r_pthread_mutex_trylock()(m); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return in_sim() ? lock_mutex(m, false, to_virtual(CLOCK_REALTIME, t)) : pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) { return in_sim() ? lock_mutex(m, false, to_virtual(c, t)) : pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if(!in_sim()) return g_sim ? 0 : r_pthread_mutex_unlock()(m);
    tls_quiet++;
    unlock_mutex_now(m);
    tls_quiet--;
    sync_point(3, m);
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return in_sim() ? cond_wait(c, m, UINT64_MAX) : r_pthread_cond_wait()(c, m); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    return in_sim() ? cond_wait(c, m, to_virtual(CLOCK_REALTIME, t)) : r_pthread_cond_timedwait()(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
    return in_sim() ? cond_wait(c, m, to_virtual(k, t)) : r_pthread_cond_clockwait()(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t *c) { if(!in_sim()) return g_sim ? 0 : r_pthread_cond_signal()(c); cond_wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if(!in_sim()) return g_sim ? 0 : r_pthread_cond_broadcast()(c); cond_wake(c, true); return 0; }

static int rw_acquire(pthread_rwlock_t *l, bool write, bool tryonly) {
    sync_point(write ? 31 : 30, l);
    tls_quiet++;
    rw_t *x = &rwlocks[l];
    auto busy = [&] { return x->writer >= 0 || (write && x->readers > 0); };
    if(tryonly && busy()) { tls_quiet--; return EBUSY; }
    while(busy()) { block(w_rw, l); x = &rwlocks[l]; }
    if(write) x->writer = tls_tid; else ++x->readers;
    join_vc(T[tls_tid].clock, x->clock);
    tls_quiet--;
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return in_sim() ? rw_acquire(l, false, false) : r_pthread_rwlock_rdlock()(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return in_sim() ? rw_acquire(l, true, false) : r_pthread_rwlock_wrlock()(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return in_sim() ? rw_acquire(l, false, true) : r_pthread_rwlock_tryrdlock()(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return in_sim() ? rw_acquire(l, true, true) : r_pthread_rwlock_trywrlock()(l); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if(!in_sim()) return r_pthread_rwlock_unlock()(l);
    tls_quiet++;
    rw_t &x = rwlocks[l];
    if(x.writer == tls_tid) x.writer = -1; else --x.readers;
    join_vc(x.clock, T[tls_tid].clock);
    ++T[tls_tid].clock.c[tls_tid];
    wake(w_rw, l);
    tls_quiet--;
    sync_point(32, l);
    return 0;
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
    int *state = reinterpret_cast<int *>(o);      // 0: not yet, 1: running, 2: done (zero-initialised by glibc)
    if(!in_sim()) {
        if(*state == 2) return 0;
        *state = 1;
        try { f(); } catch(...) { *state = 0; throw; }
        *state = 2;
        return 0;
    }
    sync_point(24, o);
    tls_quiet++;
    while(*state == 1) block(w_once, o);
    if(*state == 2) { join_vc(T[tls_tid].clock, onces[o]); tls_quiet--; return 0; }
    *state = 1;
    tls_quiet--;
    try { f(); } catch(...) { *state = 0; tls_quiet++; wake(w_once, o); tls_quiet--; throw; }
    tls_quiet++;
    *state = 2;
    onces[o] = T[tls_tid].clock;
    ++T[tls_tid].clock.c[tls_tid];
    wake(w_once, o);
    tls_quiet--;
    return 0;
}
int __cxa_guard_acquire(std::uint64_t *g) {
    auto *b = reinterpret_cast<std::uint8_t *>(g);
    if(b[0]) { if(in_sim()) { tls_quiet++; join_vc(T[tls_tid].clock, onces[g]); tls_quiet--; } return 0; }
    if(in_sim()) {
        sync_point(25, g);
        tls_quiet++;
        while(b[1]) block(w_once, g);
        tls_quiet--;
        if(b[0]) { tls_quiet++; join_vc(T[tls_tid].clock, onces[g]); tls_quiet--; return 0; }
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(std::uint64_t *g) {
    auto *b = reinterpret_cast<std::uint8_t *>(g);
    b[0] = 1; b[1] = 0;
    if(in_sim()) { tls_quiet++; onces[g] = atomics[g] = T[tls_tid].clock; ++T[tls_tid].clock.c[tls_tid]; wake(w_once, g); tls_quiet--; }
}
void __cxa_guard_abort(std::uint64_t *g) {
    auto *b = reinterpret_cast<std::uint8_t *>(g);
    b[1] = 0;
    if(in_sim()) { tls_quiet++; wake(w_once, g); tls_quiet--; }
}
int sched_yield(void) { if(!in_sim()) return r_sched_yield()(); if(opt.strat == pct) T[tls_tid].prio = -(std::int64_t)g_step; sync_point(26, nullptr); return 0; }
int nanosleep(const struct timespec *t, struct timespec *rem) {
    if(!in_sim()) return r_nanosleep()(t, rem);
    sync_point(27, nullptr);
    tls_quiet++;
    block(w_sleep, nullptr, g_now + (std::uint64_t)t->tv_sec * 1'000'000'000ull + t->tv_nsec);
    tls_quiet--;
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem) {
    if(!in_sim()) return r_clock_nanosleep()(c, flags, t, rem);
    sync_point(27, nullptr);
    tls_quiet++;
    std::uint64_t d = (flags & TIMER_ABSTIME) ? to_virtual(c, t) : g_now + (std::uint64_t)t->tv_sec * 1'000'000'000ull + t->tv_nsec;
    block(w_sleep, nullptr, d);
    tls_quiet--;
    return 0;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    if(!g_on || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) {
        auto f = r_clock_gettime();
        return f ? f(c, t) : (int)syscall(SYS_clock_gettime, c, t);
    }
    g_now += 100;
    if(g_sim && !tls_quiet) {
        // clock jumps: forwards by up to ten seconds
        std::uint32_t j = choose(site_clock, 11, opt.p_clock);
        if(j) { count("fault.clock_jump"); g_now += (std::uint64_t)j * 1'000'000'000ull; }
    }
    std::uint64_t n = g_now + (c == CLOCK_REALTIME ? realtime_base : monotonic_base);
    t->tv_sec = n / 1'000'000'000ull;
    t->tv_nsec = n % 1'000'000'000ull;
    return 0;
}
int __cxa_thread_atexit(void (*f)(void *), void *o, void *dso) {
    if(g_sim && tls_tid > 0) { tls_quiet++; thread_exits[tls_tid].emplace_back(f, o); tls_quiet--; return 0; }
    auto impl = real<int (*)(void (*)(void *), void *, void *)>("__cxa_thread_atexit_impl");
    return impl ? impl(f, o, dso) : 0;
}
int get_nprocs(void) { return g_on ? (int)opt.cores : 8; }
long sysconf_nprocs_guard(void) { return 0; }

// std::future: the only blocking point of libstdc++ that does not use pthread
bool sim_futex_wait(void *, unsigned *addr, unsigned val, bool timed, long s, long ns) __asm__(
    "_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool sim_futex_wait(void *, unsigned *addr, unsigned val, bool timed, long s, long ns) {
    if(!in_sim()) {
        while(__atomic_load_n(addr, __ATOMIC_ACQUIRE) == val) r_sched_yield()();
        return true;
    }
    sync_point(28, addr);
    tls_quiet++;
    bool r = true;
    if(__atomic_load_n(addr, __ATOMIC_ACQUIRE) == val) {
        std::uint64_t d = UINT64_MAX;
        if(timed) { struct timespec t{s, ns}; d = to_virtual(CLOCK_REALTIME, &t); }
        block(w_futex, addr, d);
        r = !T[tls_tid].timed_out;
    }
    tls_quiet--;
    return r;
}
bool sim_futex_wait_steady(void *, unsigned *addr, unsigned val, bool timed, long s, long ns) __asm__(
    "_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool sim_futex_wait_steady(void *self, unsigned *addr, unsigned val, bool timed, long s, long ns) {
    if(!in_sim()) return sim_futex_wait(self, addr, val, timed, s, ns);
    sync_point(28, addr);
    tls_quiet++;
    bool r = true;
    if(__atomic_load_n(addr, __ATOMIC_ACQUIRE) == val) {
        std::uint64_t d = UINT64_MAX;
        if(timed) { struct timespec t{s, ns}; d = to_virtual(CLOCK_MONOTONIC, &t); }
        block(w_futex, addr, d);
        r = !T[tls_tid].timed_out;
    }
    tls_quiet--;
    return r;
}
void sim_futex_notify(unsigned *addr) __asm__("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
void sim_futex_notify(unsigned *addr) {
    if(!in_sim()) return;
    tls_quiet++;
    wake(w_futex, addr);
    tls_quiet--;
    sync_point(29, addr);
}

// ==================================================================== tsan hooks
void __tsan_init() {}
void __tsan_func_entry(void *) { if(g_on && !tls_quiet && ++g_step >= g_trigger) maybe_switch(false); }
void __tsan_func_exit() {}
#define PC __builtin_return_address(0)
#define ACCESS(n) \
    void __tsan_read##n(void *p) { on_access(p, n, 1, PC); } \
    void __tsan_write##n(void *p) { on_access(p, n, 2, PC); } \
    void __tsan_unaligned_read##n(void *p) { on_access(p, n, 1, PC); } \
    void __tsan_unaligned_write##n(void *p) { on_access(p, n, 2, PC); } \
    void __tsan_volatile_read##n(void *p) { on_access(p, n, 1, PC); } \
    void __tsan_volatile_write##n(void *p) { on_access(p, n, 2, PC); } \
    void __tsan_unaligned_volatile_read##n(void *p) { on_access(p, n, 1, PC); } \
    void __tsan_unaligned_volatile_write##n(void *p) { on_access(p, n, 2, PC); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void *p, unsigned long n) { if(n) on_access(p, n, 1, PC); }
void __tsan_write_range(void *p, unsigned long n) { if(n) on_access(p, n, 2, PC); }
void __tsan_vptr_update(void **p, void *) { on_access(p, 8, 2, PC); }
void __tsan_vptr_read(void **p) { on_access(p, 8, 1, PC); }

static void atomic_before(const volatile void *p, unsigned size, bool write, int order_load, int order_store, const void *pc) {
    if(!g_on || tls_quiet || (g_sim && tls_tid < 0)) return;
    if(g_sim) sync_point(write ? 41 : 40, (const void *)p);
    else mem_point();
    auto a = reinterpret_cast<std::uintptr_t>(p);
    if(a - ARENA < ARENA_SIZE && !addressable(a, size)) bad_memory(a, size, write, pc);
    if(!g_multi || tls_tid < 0) return;
    tls_quiet++;
    if(opt.races) race_access(a, size, (write ? 2 : 1) | 4, pc);
    vc &me = T[tls_tid].clock;
    auto acquire = [](int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST || o == __ATOMIC_CONSUME; };
    auto release = [](int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; };
    vc &v = atomics[(const void *)p];
    if(order_load >= 0 && acquire(order_load)) join_vc(me, v);
    if(order_store >= 0) {
        if(release(order_store)) {
            if(order_load >= 0) join_vc(v, me); else v = me;
            ++me.c[tls_tid];
        } else if(order_load < 0) v = vc{};
    }
    tls_quiet--;
}
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo) { atomic_before(p, bits / 8, false, mo, -1, PC); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { atomic_before(p, bits / 8, true, -1, mo, PC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { atomic_before(p, bits / 8, true, mo, mo, PC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { atomic_before(p, bits / 8, true, mo, mo, PC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { atomic_before(p, bits / 8, true, mo, mo, PC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { atomic_before(p, bits / 8, true, mo, mo, PC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { atomic_before(p, bits / 8, true, mo, mo, PC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { atomic_before(p, bits / 8, true, mo, mo, PC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { atomic_before(p, bits / 8, true, mo, mo, PC); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fmo) { atomic_before(p, bits / 8, true, mo, mo, PC); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) { atomic_before(p, bits / 8, true, mo, mo, PC); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fmo) { atomic_before(p, bits / 8, true, mo, mo, PC); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
typedef std::uint8_t a8; typedef std::uint16_t a16; typedef std::uint32_t a32; typedef std::uint64_t a64;
ATOMIC(8, a8) ATOMIC(16, a16) ATOMIC(32, a32) ATOMIC(64, a64)
void __tsan_atomic_thread_fence(int) { if(in_sim()) sync_point(42, nullptr); }
void __tsan_atomic_signal_fence(int) {}

// ==================================================================== files
// 0: the real call; otherwise the fault
static int disk_fault() {
    if(!g_on || tls_quiet || p_write <= 0) return 0;
    int k = (int)choose(site_disk, 5, p_write);
    static const char *names[] = {"", "fault.disk_short_write", "fault.disk_interrupted", "fault.disk_full", "fault.disk_io_error"};
    if(k) { tls_quiet++; count(names[k]); if(k > 2) ++n_disk_errors; tls_quiet--; }
    return k;
}
ssize_t write(int fd, const void *b, size_t n) {
    typedef ssize_t (*F)(int, const void *, size_t);
    static F f = nullptr; if(!f) f = (F)dlsym(RTLD_NEXT, "write");   // no guard: it would count as a step
    if(fd > 2) switch(disk_fault()) {
        case 1: if(n > 1) n = n / 2; break;
        case 2: errno = EINTR; return -1;
        case 3: errno = ENOSPC; return -1;
        case 4: errno = EIO; return -1;
    }
    return f(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    typedef ssize_t (*F)(int, const struct iovec *, int);
    static F f = nullptr; if(!f) f = (F)dlsym(RTLD_NEXT, "writev");   // no guard: it would count as a step
    if(fd > 2) switch(disk_fault()) {
        case 1: {
            if(n < 1) break;
            struct iovec one = v[0];
            if(one.iov_len > 1) one.iov_len /= 2;
            return f(fd, &one, 1);
        }
        case 2: errno = EINTR; return -1;
        case 3: errno = ENOSPC; return -1;
        case 4: errno = EIO; return -1;
    }
    return f(fd, v, n);
}
static int read_fault(bool seek) {
    if(!g_on || tls_quiet || p_read <= 0) return 0;
    int k = seek ? 5 * (int)choose(site_read, 2, p_read / 10) : (int)choose(site_read, 5, p_read);
    static const char *names[] = {"", "fault.disk_short_read", "fault.disk_read_interrupted", "fault.disk_file_shorter", "fault.disk_read_error", "fault.disk_seek_error"};
    if(k) { tls_quiet++; count(names[k]); if(k > 2) ++n_disk_errors; tls_quiet--; }
    return k;
}
ssize_t read(int fd, void *b, size_t n) {
    typedef ssize_t (*F)(int, void *, size_t);
    static F f = nullptr; if(!f) f = (F)dlsym(RTLD_NEXT, "read");   // no guard: it would count as a step
    if(fd > 2) switch(read_fault(false)) {
        case 1: if(n > 1) n = n / 2 + n % 3; break;
        case 2: errno = EINTR; return -1;
        case 3: return 0;
        case 4: errno = EIO; return -1;
    }
    return f(fd, b, n);
}
off64_t lseek64(int fd, off64_t o, int w) {
    typedef off64_t (*F)(int, off64_t, int);
    static F f = nullptr; if(!f) f = (F)dlsym(RTLD_NEXT, "lseek64");   // no guard: it would count as a step
    if(fd > 2 && read_fault(true)) { errno = EIO; return -1; }
    return f(fd, o, w);
}
off_t lseek(int fd, off_t o, int w) {
    typedef off_t (*F)(int, off_t, int);
    static F f = nullptr; if(!f) f = (F)dlsym(RTLD_NEXT, "lseek");   // no guard: it would count as a step
    if(fd > 2 && read_fault(true)) { errno = EIO; return -1; }
    return f(fd, o, w);
}
static bool open_fault() {
    if(!g_on || tls_quiet || p_open <= 0) return false;
    static const int e[] = {0, ENOSPC, EACCES, EMFILE};
    int k = (int)choose(site_open, 4, p_open);
    if(!k) return false;
    tls_quiet++; count("fault.file_not_created"); ++n_disk_errors; tls_quiet--;
    errno = e[k];
    return true;
}
FILE *fopen64(const char *n, const char *m) {
    typedef FILE *(*F)(const char *, const char *);
    static F f = nullptr; if(!f) f = (F)dlsym(RTLD_NEXT, "fopen64");   // no guard: it would count as a step
    if(open_fault()) return nullptr;
    return f(n, m);
}
FILE *fopen(const char *n, const char *m) {
    typedef FILE *(*F)(const char *, const char *);
    static F f = nullptr; if(!f) f = (F)dlsym(RTLD_NEXT, "fopen");   // no guard: it would count as a step
    if(open_fault()) return nullptr;
    return f(n, m);
}
int mkdir(const char *n, mode_t m) {
    typedef int (*F)(const char *, mode_t);
    static F f = nullptr; if(!f) f = (F)dlsym(RTLD_NEXT, "mkdir");   // no guard: it would count as a step
    if(open_fault()) return -1;
    return f(n, m);
}

// ==================================================================== abnormal ends
void __assert_fail(const char *expr, const char *file, unsigned line, const char *fn) {
    if(!g_on) { fprintf(stderr, "%s:%u: assertion %s failed\n", file, line, expr); abort(); }
    const char *b = strrchr(file, '/');
    (void)line; (void)fn;
    FAIL(std::string("assertion"), std::string("assertion `") + expr + "' failed in " + (b ? b + 1 : file));
}
}   // extern "C"
