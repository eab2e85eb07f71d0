// C18: files of recorded order book events, read by several threads from a
// simulated faulty disk.
#include "common.hpp"

#include <esl/data/format/openbook.hpp>

#include <fstream>
#include <filesystem>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace simrt;
using harness::text;
const char *harness::name = "openbook";
void harness::setup() { std::cerr.setstate(std::ios::failbit); }

namespace {
    typedef std::uint64_t u64;
    struct entry {
        bool update = false;                // one that is handed to the caller
        std::string symbol;
        char status = 'O', reason = 'O', side = 'B';
        u64 milliseconds = 0, micros = 0, numerator = 0, quantity = 0;
        int scale = 4;
    };
    void big(std::string &s, std::size_t at, u64 v, int n) { for(int i = 0; i < n; ++i) s[at + i] = (char)(v >> (8 * (n - 1 - i))); }

    u64 edgy(rng &r, u64 top) {
        switch(r.below(6)) {
            case 0: return r.below(4) > top ? top : r.below(4);
            case 1: return top - r.below(std::min<u64>(top, 3) + 1);
            case 2: return (u64)1 << r.below(64) & top;
            default: return r.below(top) + r.below(2);
        }
    }
    std::string pick(rng &r, const char *const *v, int n) { return v[r.below(n)]; }

    // one message of 71 bytes
    std::string make(rng &r, entry &e) {
        static const int others[] = {1, 2, 5, 10, 19, 20, 22, 24, 27, 34, 35, 0, 229, 232, 486, 59136, 59392, 65535};
        static const char *symbols[] = {"ABC", "A", "AB", "ABCD", "BRK A", "ELEVENCHARS", "TENLETTERS"};
        std::string s(71, ' ');
        for(auto &c : s) c = (char)r.below(256);            // what the reader does not look at
        e.update = r.chance(0.75);
        big(s, 4, e.update ? 230 + r.below(2) : others[r.below(sizeof others / sizeof *others)], 2);
        e.symbol = symbols[r.below(7)];
        for(int i = 0; i < 11; ++i) s[10 + i] = i < (int)e.symbol.size() ? e.symbol[i] : ' ';
        e.milliseconds = r.chance(0.5) ? r.below(86'400'000) : edgy(r, 86'399'999);
        e.micros = edgy(r, 999);
        big(s, 27, e.milliseconds, 4);
        big(s, 31, e.micros, 2);
        static const char statuses[] = "OOOOPEBLXCH", reasons[] = "OOOCCEX ", sides[] = "BS";
        s[34] = e.status = statuses[r.below(sizeof statuses - 1)];
        s[57] = e.reason = reasons[r.below(sizeof reasons - 1)];
        s[55] = e.side = sides[r.below(2)];
        e.scale = r.chance(0.5) ? 4 : (int)r.below(8);
        s[40] = (char)e.scale;
        e.numerator = edgy(r, 0xffffffffull);
        big(s, 41, e.numerator, 4);
        e.quantity = edgy(r, 0xffffffffull);
        big(s, 49, e.quantity, 4);
        return s;
    }
    std::string differs(const entry &e, const std::string &symbol, char status, char reason, u64 time, const esl::economics::markets::quote &q, u64 quantity, bool buy) {
        if(symbol != e.symbol) return text("the symbol is `", symbol, "'");
        if(status != e.status || reason != e.reason) return "status or reason differ";
        if(time != e.milliseconds * 1000 + e.micros) return text("the time is ", time, " instead of ", e.milliseconds * 1000 + e.micros);
        if(quantity != e.quantity) return text("the quantity is ", quantity, " instead of ", e.quantity);
        if(buy != (e.side == 'B')) return "the side differs";
        auto &p = std::get<esl::economics::price>(q.type);
        if(p.valuation != esl::economics::currencies::USD) return "the currency differs";
        // cents per lot units of goods
        __int128 left = (__int128)p.value, right = (__int128)e.numerator * 100 * q.lot;
        for(int i = 0; i < e.scale; ++i) left *= 10;
        if(left != right) return text("the price is ", p.value, " cents for ", q.lot, " instead of ", e.numerator, " with ", e.scale, " decimals");
        return {};
    }
    struct caller_failed : std::runtime_error { caller_failed() : runtime_error("the caller gives up") {} };
}

void harness::run(u64 seed, simrt::options opt, int) {
    rng r(mix(seed, 1));
    opt.p_thread = 0;
    int threads = 1 + (int)r.below(3);
    double p_read = r.chance(0.7) ? (r.chance(0.5) ? 0.3 : 0.08) : 0, p_open = r.chance(0.2) ? 0.3 : 0;
    std::string dir;
    {
        quiet q;
        dir = scratch_directory();
        mkdir(dir.c_str(), 0700);
        if(chdir(dir.c_str())) simrt::fail("harness:scratch", "no scratch directory");
        std::error_code e;
        for(auto &x : std::filesystem::directory_iterator(".", e)) std::filesystem::remove_all(x.path(), e);
    }
    struct job {
        std::string path, filter, problem, log;
        std::vector<entry> entries;
        bool session = false, missing = false;
        int gives_up = -1;
        u64 reads = 0, delivered = 0, failures = 0;
    };
    std::vector<std::vector<job>> jobs(threads);
    for(int t = 0; t < threads; ++t) {
        int n = 1 + (int)r.below(3);
        for(int i = 0; i < n; ++i) {
            quiet q;
            job j;
            j.path = text("book-", t, "-", i);
            u64 size = r.chance(0.1) ? 0 : r.chance(0.3) ? 100 + r.below(200) : 1 + r.below(20);
            std::string bytes;
            for(u64 k = 0; k < size; ++k) {
                entry e;
                std::string m = make(r, e);
                if(!keep()) continue;
                bytes += m;
                if(e.update) j.entries.push_back(e);
            }
            if(r.chance(0.3)) bytes += std::string(1 + r.below(70), (char)r.below(256));     // cut off
            j.missing = r.chance(0.05);
            if(j.missing && r.chance(0.4)) mkdir(j.path.c_str(), 0700);         // not a file at all
            else if(!j.missing) std::ofstream(j.path, std::ios::binary) << bytes;
            j.session = r.chance(0.4);
            static const char *filters[] = {"ABC", "A", "ELEVENCHARS", "NONE"};
            j.filter = filters[r.below(4)];
            if(!j.session && r.chance(0.2)) j.gives_up = (int)r.below(std::max<u64>(1, j.entries.size()));
            jobs[t].push_back(std::move(j));
            // the same file again, or that of another thread
            if(r.chance(0.15)) jobs[r.below(threads)].push_back(jobs[t].back());
        }
    }
    start(opt);
    auto body = [&](int t) {
        for(auto &j : jobs[t]) {
            u64 before = disk_errors();
            std::string error;
            bool gave_up = false;
            std::size_t at = 0;
            auto wrong = [&](auto &&... x) { quiet q; if(j.problem.empty()) j.problem = text(j.path, ": ", x...); };
            std::vector<std::tuple<std::string, char, char, esl::simulation::time_point, esl::economics::markets::quote, std::uint32_t, esl::economics::markets::order_book::limit_order::side_t>> got;
            try {
                disk_faults w(0, p_open, p_read);
                if(j.session) got = esl::data::parse_main_session(j.path, j.filter);
                else esl::data::read_openbook(j.path, [&](const std::string &symbol, char status, char reason, esl::simulation::time_point time, const esl::economics::markets::quote &limit, const std::uint32_t &quantity, esl::economics::markets::order_book::limit_order::side_t side) {
                    disk_faults none(0, 0, 0);
                    if(gave_up) return wrong("an event after the caller gave up");
                    if(at >= j.entries.size()) return wrong("more events than the file has");
                    { quiet q; std::string d = differs(j.entries[at], symbol, status, reason, time, limit, quantity, side == esl::economics::markets::order_book::limit_order::buy); if(!d.empty()) wrong("event ", at, ": ", d); }
                    ++at;
                    if((int)at - 1 == j.gives_up) { gave_up = true; throw caller_failed(); }
                });
            } catch(const caller_failed &) { error = "caller"; }
            catch(const std::exception &e) { error = e.what(); if(error.empty()) error = "?"; }
            bool disk = disk_errors() != before || threads > 1 && p_read + p_open > 0 && disk_errors();
            quiet q;
            ++j.reads;
            if(gave_up && error != "caller") wrong("the exception of the caller is ", error.empty() ? "lost" : "replaced");
            if(error.empty()) {
                if(j.missing) wrong("a file that does not exist is read without an error");
                if(j.session) {
                    std::vector<entry> e;
                    for(auto &x : j.entries) if(x.status == 'O' && (x.reason == 'O' || x.reason == 'C') && x.symbol == j.filter) e.push_back(x);
                    if(e.size() != got.size()) wrong("the session has ", got.size(), " events instead of ", e.size());
                    else for(std::size_t i = 0; i < e.size(); ++i) {
                        auto &[a, b, c, d, l, n, s] = got[i];
                        std::string x = differs(e[i], a, b, c, d, l, n, s == esl::economics::markets::order_book::limit_order::buy);
                        if(!x.empty()) wrong("event ", i, " of the session: ", x);
                    }
                    at = got.size();
                } else if(at != j.entries.size()) wrong("only ", at, " of ", j.entries.size(), " events were delivered, without an error");
            } else {
                ++j.failures;
                if(!gave_up && !j.missing && !disk) wrong("error `", error, "' although the file is readable");
            }
            j.delivered += at;
            j.log = text(j.path, " ", at, " of ", j.entries.size(), j.session ? " session" : "", error.empty() ? "" : " failed");
        }
    };
    std::vector<std::thread> v;
    for(int t = 0; t < threads; ++t) v.emplace_back(body, t);
    for(auto &t : v) t.join();
    stop();
    quiet q;
    u64 events = 0, errors = 0;
    for(auto &v : jobs) for(auto &j : v) {
        event(j.log);
        if(!j.problem.empty()) violated("reading", j.problem);
        events += j.delivered;
        errors += j.failures;
    }
    count("events_checked", events);
    count("errors_reported", errors);
    if(events > 5) nontrivial();
}
