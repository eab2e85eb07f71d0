// The parent process: seeded search, minimiser and replay.  Every run is a
// forked child that executes harness::run under the simulator.
#include "simrt.hpp"
#include "record.hpp"

#include <algorithm>
#include <csignal>
#include <cstdio>
#include <filesystem>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <vector>

#include <cxxabi.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

std::string harness::property;
std::string harness::scratch_directory() { char b[64]; snprintf(b, sizeof b, "/tmp/esl-sim-%08d", (int)getppid()); return b; }
namespace {
    // the scratch directory of this process' children, removed at the end
    struct scratch_cleaner {
        pid_t owner = getpid();
        ~scratch_cleaner() {
            if(getpid() != owner) return;
            char b[64]; snprintf(b, sizeof b, "/tmp/esl-sim-%08d", (int)owner);
            std::error_code e; std::filesystem::remove_all(b, e);
        }
    };
}

namespace {
    using namespace simrt;

    struct result {
        int state = 0;     // 1 ok, 2 violation, 3 error of the harness
        std::string cls, detail;
        std::uint64_t steps = 0, hash = 0, ops = 0;
        std::vector<sched_entry> sched;
        std::vector<choice_entry> choices;
        bool truncated = false;
    };
    struct inputs {
        std::uint64_t seed = 0, sched_seed = 0;
        bool listed = false;
        std::vector<sched_entry> sched;
        std::vector<choice_entry> choices;
        std::vector<std::uint32_t> drop;
    };
    int  tier = 0;
    bool verbose = false;
    int  strategy_override = -1;
    std::uint64_t total_children = 0;

    double wall() {
        timespec t;
        syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }

    simrt::options swarm(std::uint64_t seed) {
        simrt::options o;
        rng r(mix(seed, 7));
        o.seed = seed;
        std::uint64_t k = r.below(100);
        o.strat = k < 10 ? serial : k < 55 ? random_walk : k < 78 ? sync_only : pct;
        if(strategy_override >= 0) o.strat = strategy_override;
        static const double ps[] = {0.02, 0.05, 0.1, 0.2, 0.35, 0.5};
        o.p_sync = ps[r.below(6)];
        static const std::uint32_t gaps[] = {0, 5, 20, 60, 200, 1000};
        o.mem_gap = gaps[r.below(6)];
        o.pct_depth = 1 + (int)r.below(6);
        static const std::uint64_t lens[] = {200, 1000, 5000, 20000, 100000};
        o.pct_length = lens[r.below(5)];
        static const double fs[] = {0, 0, 0.02, 0.1, 0.3};
        o.p_spurious = fs[r.below(5)];
        o.p_trylock  = fs[r.below(5)];
        static const double cs[] = {0, 0, 0, 0.01, 0.1};
        o.p_clock = cs[r.below(5)];
        o.cores = 1 + (unsigned)r.below(8);
        return o;
    }

    void on_signal(int s, siginfo_t *, void *) {
        const char *n = s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : "SIGABRT";
        if(rec->state == 0) {
            strcpy(rec->cls, "crash:");
            strcat(rec->cls, n);
            strcpy(rec->detail, "the code under test crashed with ");
            strcat(rec->detail, n);
            rec->state = 2;
        }
        _exit(42);
    }
    // so much processor time went by: that is a hang unless steps were taken
    constexpr unsigned HANG = 20;
    void on_cpu(int) {
        static std::uint64_t before = 0;
        static rlim_t limit = HANG;
        auto now = progress();
        if(now == before) {
            if(rec->state == 0) {
                strcpy(rec->cls, "hang");
                strcpy(rec->detail, "no step of the run within 20 s of processor time");
                rec->state = 2;
            }
            _exit(42);
        }
        before = now;
        struct rlimit rl{limit += HANG, RLIM_INFINITY};
        setrlimit(RLIMIT_CPU, &rl);
    }
    [[noreturn]] void on_terminate() {
        std::string d = "std::terminate was called";
        if(auto *t = abi::__cxa_current_exception_type()) {
            int st = 0;
            char *n = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
            d += std::string(" with an exception of type ") + (n && !st ? n : t->name());
            try { throw; } catch(const std::exception &e) { d += std::string(": ") + e.what(); } catch(...) {}
        }
        fail("terminate", d);
    }

    result execute(const inputs &in) {
        ++total_children;
        memset((void *)rec, 0, offsetof(record, choices));
        the_plan = plan{};
        the_plan.listed = in.listed;
        the_plan.sched = in.sched.data();  the_plan.nsched = (std::uint32_t)in.sched.size();
        the_plan.choices = in.choices.data(); the_plan.nchoice = (std::uint32_t)in.choices.size();
        the_plan.drop = in.drop.data(); the_plan.ndrop = (std::uint32_t)in.drop.size();
        fflush(stdout); fflush(stderr);
        rec->text[0] = 0;
        pid_t p = fork();
        if(p < 0) { perror("fork"); exit(3); }
        if(p == 0) {
            if(!verbose) {
                int n = open("/dev/null", O_WRONLY);
                dup2(n, 1); dup2(n, 2);
            }
            static char alt[1 << 16];
            stack_t st{}; st.ss_sp = alt; st.ss_size = sizeof alt;
            sigaltstack(&st, nullptr);
            struct sigaction sa{};
            sa.sa_sigaction = on_signal;
            sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND;
            for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
            std::set_terminate(on_terminate);
            signal(SIGXCPU, on_cpu);
            struct rlimit rl{HANG, RLIM_INFINITY};
            setrlimit(RLIMIT_CPU, &rl);
            rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            auto o = swarm(in.seed);
            o.seed = in.sched_seed;
            static const int fills[] = {0, 0xFF, 0xA5};
            set_fill(fills[mix(in.seed, 31) % 3]);
            set_reuse(mix(in.seed, 37) % 3 == 0);
            seed_choices(in.sched_seed);
            child_begin();
            try {
                harness::run(in.seed, o, tier);
            } catch(const std::exception &e) {
                fail("uncaught-exception", e.what());
            } catch(...) {
                fail("uncaught-exception", "unknown type");
            }
            child_end();
            _exit(0);
        }
        int status = 0;
        double t0 = wall();
        for(unsigned spin = 0;; ++spin) {
            pid_t w = waitpid(p, &status, WNOHANG);
            if(w == p) break;
            if(wall() - t0 > 240) {
                kill(p, SIGKILL);
                waitpid(p, &status, 0);
                result r; r.state = 3; r.cls = "wall-clock"; r.detail = "a run took more than 240 s of real time";
                return r;
            }
            usleep(spin < 50 ? 200 : spin < 200 ? 1000 : 5000);
        }
        result r;
        if(WIFEXITED(status) && (WEXITSTATUS(status) == 97 || WEXITSTATUS(status) == 98)) {
            r.state = 3; r.cls = "simulator"; r.detail = "no resources";
        } else if(rec->state == 2) {
            r.state = 2; r.cls = rec->cls; r.detail = rec->detail;
            if(r.cls.rfind("harness:", 0) == 0) r.state = 3;
        } else if(WIFSIGNALED(status)) {
            r.state = 2;
            int s = WTERMSIG(status);
            if(s == SIGKILL) {
                r.state = 3; r.cls = "killed"; r.detail = "the process of a run was killed";
            } else {
                r.cls = std::string("crash:") + (s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : "SIG" + std::to_string(s));
                r.detail = "the code under test crashed";
            }
        } else if(rec->state == 1) {
            r.state = 1;
        } else {
            r.state = 2; r.cls = "exit"; r.detail = "the process exited with status " + std::to_string(WEXITSTATUS(status));
        }
        r.steps = rec->steps; r.ops = rec->ops;
        r.hash = rec->hash ^ (rec->sched_hash * 3);
        for(char c : r.cls + "|" + r.detail) r.hash = (r.hash ^ (unsigned char)c) * 0x100000001b3ull;
        r.sched.assign(rec->sched, rec->sched + rec->nsched);
        r.choices.assign(rec->choices, rec->choices + rec->nchoice);
        r.truncated = rec->nsched >= record::max_sched || rec->nchoice >= record::max_choice;
        return r;
    }

    inputs fresh(std::uint64_t seed) { inputs i; i.seed = seed; i.sched_seed = seed; return i; }

    std::string class_key(const result &r) { return r.cls; }

    // ---------------------------------------------------------------- minimiser
    inputs minimise(inputs start, result first, double seconds, result &final_result) {
        double until = wall() + seconds;
        std::string key = class_key(first);
        inputs best = start;
        best.listed = true; best.sched = first.sched; best.choices = first.choices;
        result br = execute(best);
        if(br.state != 2 || class_key(br) != key) { final_result = first; return start; }
        auto attempt = [&](const inputs &c, result &out) { out = execute(c); return out.state == 2 && class_key(out) == key; };

        // 1. operations
        std::vector<std::uint32_t> present;
        for(std::uint32_t i = 0; i < br.ops; ++i) present.push_back(i);
        for(std::size_t chunk = std::max<std::size_t>(1, present.size() / 2); chunk >= 1 && wall() < until; chunk = chunk == 1 ? 0 : chunk / 2) {
            for(std::size_t at = 0; at < present.size() && wall() < until;) {
                std::vector<std::uint32_t> drop = best.drop, rest;
                for(std::size_t i = 0; i < present.size(); ++i)
                    if(i >= at && i < at + chunk) drop.push_back(present[i]); else rest.push_back(present[i]);
                std::sort(drop.begin(), drop.end());
                bool ok = false;
                for(int k = 0; k < 5 && !ok && wall() < until; ++k) {
                    inputs c = best;
                    c.drop = drop;
                    if(k) { c.listed = false; c.sched_seed = mix(start.seed, 1000 + k); }
                    result r;
                    if(attempt(c, r)) {
                        c.listed = true; c.sched = r.sched; c.choices = r.choices;
                        if(k) { result r2; if(!attempt(c, r2)) continue; r = r2; }
                        best = c; br = r; ok = true;
                    }
                }
                if(ok) present = rest; else at += chunk;
            }
            if(chunk == 1) break;
        }
        // 2. choices (faults), 3. schedule
        auto reduce = [&](auto member) {
            for(std::size_t chunk = std::max<std::size_t>(1, (best.*member).size()); chunk >= 1 && wall() < until;) {
                bool any = false;
                for(std::size_t at = 0; at < (best.*member).size() && wall() < until;) {
                    inputs c = best;
                    auto &l = c.*member;
                    l.erase(l.begin() + at, l.begin() + std::min(l.size(), at + chunk));
                    result r;
                    if(attempt(c, r)) { best = c; br = r; any = true; } else at += chunk;
                }
                if(chunk == 1 && !any) break;
                if(chunk > 1) chunk /= 2;
            }
        };
        reduce(&inputs::choices);
        reduce(&inputs::sched);
        reduce(&inputs::choices);
        final_result = br;
        return best;
    }

    void write_replay(const std::string &path, const inputs &in, const result &r, std::uint64_t original) {
        std::ofstream f(path);
        f << "esl-sim-replay 1\nharness " << harness::name << "\nproperty " << harness::property << "\nseed " << in.seed
          << "\nfound_with_seed " << original << "\nsched_seed " << in.sched_seed << "\nlisted " << in.listed << "\ntier " << tier << "\nclass " << r.cls
          << "\nhash " << r.hash << "\nsteps " << r.steps << "\nops " << r.ops << "\n";
        if(strategy_override >= 0) f << "strategy " << strategy_override << "\n";
        f << "drop"; for(auto d : in.drop) f << ' ' << d; f << "\n";
        for(auto &c : in.choices) f << "choice " << c.site << ' ' << c.index << ' ' << c.value << "\n";
        for(auto &s : in.sched) f << "sched " << s.step << ' ' << s.tid << "\n";
        f << "--- detail\n" << r.detail << "\n--- trace\n" << (const char *)rec->text;
    }
    bool read_replay(const std::string &path, inputs &in, std::string &cls, std::uint64_t &h) {
        std::ifstream f(path);
        std::string line;
        if(!std::getline(f, line) || line != "esl-sim-replay 1") return false;
        while(std::getline(f, line)) {
            if(line.rfind("---", 0) == 0) break;
            std::istringstream s(line);
            std::string k;
            s >> k;
            if(k == "property") s >> harness::property;
            else if(k == "seed") s >> in.seed;
            else if(k == "sched_seed") s >> in.sched_seed;
            else if(k == "listed") s >> in.listed;
            else if(k == "tier") s >> tier;
            else if(k == "strategy") s >> strategy_override;
            else if(k == "class") { std::getline(s, cls); cls.erase(0, 1); }
            else if(k == "hash") s >> h;
            else if(k == "drop") { std::uint32_t d; while(s >> d) in.drop.push_back(d); }
            else if(k == "choice") { choice_entry c{}; s >> c.site >> c.index >> c.value; in.choices.push_back(c); }
            else if(k == "sched") { sched_entry c{}; s >> c.step >> c.tid; in.sched.push_back(c); }
        }
        return true;
    }
    std::string json_string(const std::string &s) {
        std::string o = "\"";
        for(unsigned char c : s) {
            if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
            else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += (char)c;
        }
        return o + "\"";
    }
}

int main(int argc, char **argv) {
    if(!getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        int p = personality(0xffffffff);
        if(p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> a;
    std::vector<std::string> known;
    std::string mode = argc > 1 ? argv[1] : "";
    for(int i = 2; i < argc; ++i) {
        std::string k = argv[i];
        if(k == "--known" && i + 1 < argc) known.push_back(argv[++i]);
        else if(k.rfind("--", 0) == 0 && i + 1 < argc) { a[k.substr(2)] = argv[i + 1]; ++i; }
        else a["file"] = k;
    }
    if(a.count("property")) harness::property = a["property"];
    if(a.count("tier")) tier = a["tier"] == "thorough";
    if(a.count("strategy")) strategy_override = atoi(a["strategy"].c_str());
    rec = (record *)mmap(nullptr, sizeof(record), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(rec == MAP_FAILED) { perror("mmap"); return 3; }
    scratch_cleaner cleaner;
    harness::setup();

    if(mode == "run") {
        verbose = a.count("verbose");
        std::uint64_t s = strtoull(a["seed"].c_str(), nullptr, 10), n = a.count("count") ? strtoull(a["count"].c_str(), nullptr, 10) : 1;
        int rc = 0;
        for(std::uint64_t i = 0; i < n; ++i) {
            auto r = execute(fresh(s + i));
            if(a.count("trace")) fputs((const char *)rec->text, stdout);
            if(n == 1 || r.state != 1) printf("seed %lu state %d class %s steps %lu switches %u threads %u ops %lu hash %016lx nontrivial %u\n%s\n", s + i, r.state, r.cls.c_str(), r.steps, rec->switches, rec->threads, r.ops, r.hash, rec->nontrivial, r.detail.c_str());
            if(n == 1) for(unsigned k = 0; k < rec->ncounters; ++k) printf("  %s %lu\n", rec->counters[k].name, rec->counters[k].n);
            if(a.count("hashes")) printf("%lu %016lx %lu\n", s + i, r.hash, r.steps);
            rc |= r.state != 1;
        }
        return rc;
    }
    if(mode == "replay") {
        inputs in; std::string cls; std::uint64_t h = 0;
        if(!read_replay(a["file"], in, cls, h)) { fprintf(stderr, "not a replay file\n"); return 3; }
        auto r = execute(in);
        if(!a.count("silent")) { fputs((const char *)rec->text, stdout); printf("class %s\n%s\nhash %lu\nsteps %lu\n", r.cls.c_str(), r.detail.c_str(), r.hash, r.steps); }
        if(a.count("rewrite") && r.state == 2 && r.cls == cls) { write_replay(a["file"], in, r, in.seed); return 1; }
        if(r.state == 2 && r.cls == cls && r.hash == h) { printf("REPRODUCED\n"); return 1; }
        printf("NOT REPRODUCED: state %d class %s hash %lu, expected %s %lu\n", r.state, r.cls.c_str(), r.hash, cls.c_str(), h);
        return r.state == 1 ? 0 : 4;
    }
    if(mode != "search") { fprintf(stderr, "usage: search|run|replay\n"); return 3; }

    std::uint64_t s0 = strtoull(a["seed"].c_str(), nullptr, 10);
    std::uint64_t stride = a.count("stride") ? strtoull(a["stride"].c_str(), nullptr, 10) : 1;
    std::uint64_t count = a.count("count") ? strtoull(a["count"].c_str(), nullptr, 10) : UINT64_MAX;
    double seconds = a.count("seconds") ? atof(a["seconds"].c_str()) : 1e9;
    double t0 = wall();
    std::map<std::string, std::uint64_t> counters;
    std::set<std::uint64_t> hashes, schedules;
    std::uint64_t runs = 0, nontriv = 0, steps = 0, ns = 0, mt = 0, switches = 0, threads = 0, determinism = 0, strat[8] = {};
    std::uint64_t multi = 0, truncated = 0;
    std::map<std::string, std::uint64_t> known_hits;
    std::vector<std::string> samples;
    // an error ends the search with an error unless a later run is a
    // violation that repeats exactly
    std::string violation = "null", error;
    int errors = 0;
    for(std::uint64_t i = 0; i < count && wall() - t0 < seconds && errors < 30; ++i) {
        std::uint64_t seed = s0 + i * stride;
        auto in = fresh(seed);
        auto r = execute(in);
        ++runs;
        ++strat[swarm(seed).strat];
        steps += r.steps; ns += rec->now_ns; mt += rec->model_time; switches += rec->switches; threads += rec->threads;
        if(rec->threads) ++multi;
        truncated += r.truncated;
        for(unsigned k = 0; k < rec->ncounters; ++k) counters[rec->counters[k].name] += rec->counters[k].n;
        if(rec->nontrivial || r.state != 1) { ++nontriv; if(hashes.size() < 2000000) hashes.insert(r.hash); }
        if(schedules.size() < 2000000) schedules.insert(rec->sched_hash);
        if(rec->nontrivial && samples.size() < 2 && (runs % 3) == 0) {
            std::string t((const char *)rec->text);
            samples.push_back("seed " + std::to_string(seed) + ": " + t.substr(0, 1500));
        }
        if(r.state == 3) { error = r.cls + ": " + r.detail + " (seed " + std::to_string(seed) + ")"; ++errors; continue; }
        if(r.state == 1) {
            if(i % 50 == 7) {
                auto r2 = execute(in);
                ++determinism;
                if(r2.hash != r.hash || r2.steps != r.steps) { error = "nondeterministic run, seed " + std::to_string(seed); ++errors; }
            }
            continue;
        }
        bool is_known = false;
        for(auto &k : known) {
            auto bar = k.find('|');
            std::string kc = k.substr(0, bar), sub = bar == std::string::npos ? "" : k.substr(bar + 1);
            if(r.cls == kc && r.detail.find(sub) != std::string::npos) { ++known_hits[k]; is_known = true; break; }
        }
        if(is_known) continue;
        if(r.cls != "hang") {
            auto r2 = execute(in);
            ++determinism;
            if(r2.hash != r.hash || r2.cls != r.cls) {
                error = "a failing run does not repeat, seed " + std::to_string(seed) + " " + r.cls + " / " + r2.cls + " " + r2.detail;
                ++errors;
                continue;
            }
        }
        result fin;
        double budget = a.count("minimise") ? atof(a["minimise"].c_str()) : 20;
        inputs m = r.cls == "hang" ? in : minimise(in, r, budget, fin);
        result last = execute(m);       // fills the trace and the lists
        if(last.state != 2) { error = "the minimised run does not fail, seed " + std::to_string(seed); ++errors; continue; }
        // a second execution has to agree in everything
        result again = execute(m);
        if(again.hash != last.hash) { error = "the minimised run does not repeat, seed " + std::to_string(seed); ++errors; continue; }
        std::string path = a["replay"] ;
        write_replay(path, m, last, seed);
        violation = "{\"seed\": " + std::to_string(seed) + ", \"class\": " + json_string(last.cls) + ", \"detail\": " + json_string(last.detail)
            + ", \"ops_dropped\": " + std::to_string(m.drop.size()) + ", \"ops\": " + std::to_string(last.ops) + ", \"sched_entries\": " + std::to_string(m.sched.size())
            + ", \"choices\": " + std::to_string(m.choices.size()) + ", \"original_sched_entries\": " + std::to_string(r.sched.size()) + ", \"replay\": " + json_string(path) + "}";
        break;
    }
    std::ostringstream o;
    o << "{\"harness\": " << json_string(harness::name) << ", \"runs\": " << runs << ", \"nontrivial\": " << nontriv << ", \"steps\": " << steps << ", \"simulated_ns\": " << ns
      << ", \"model_time\": " << mt << ", \"switches\": " << switches << ", \"threads\": " << threads << ", \"multithreaded_runs\": " << multi
      << ", \"determinism_checks\": " << determinism << ", \"truncated\": " << truncated
      << ", \"distinct_traces\": " << hashes.size() << ", \"distinct_schedules\": " << schedules.size() << ", \"wall_s\": " << wall() - t0
      << ", \"strategies\": {\"serial\": " << strat[0] << ", \"random_walk\": " << strat[1] << ", \"sync_only\": " << strat[2] << ", \"pct\": " << strat[3] << "}"
      << ", \"counters\": {";
    bool f = true;
    for(auto &c : counters) { if(!f) o << ", "; f = false; o << json_string(c.first) << ": " << c.second; }
    o << "}, \"known\": {";
    f = true;
    for(auto &c : known_hits) { if(!f) o << ", "; f = false; o << json_string(c.first) << ": " << c.second; }
    o << "}, \"samples\": [";
    f = true;
    for(auto &c : samples) { if(!f) o << ", "; f = false; o << json_string(c); }
    o << "], \"error\": " << (error.empty() ? "null" : json_string(error)) << ", \"violation\": " << violation << "}\n";
    if(a.count("out")) std::ofstream(a["out"]) << o.str(); else std::cout << o.str();
    if(a.count("hashes")) {
        std::ofstream h(a["hashes"], std::ios::binary);
        for(auto x : hashes) h.write((const char *)&x, 8);
    }
    return violation != "null" ? 1 : !error.empty() ? 3 : 0;
}
