// C11: log channels, written to by several threads; the sinks are stream
// buffers that are preempted in the middle of every write and may fail. Built
// twice: as released, and as harness logdebug the way a build for debugging is,
// where everything that is logged appears on the terminal as well.
#include "common.hpp"

#include <esl/data/log.hpp>

using namespace simrt;
#ifdef LOG_DEBUG
const char *harness::name = "logdebug";
constexpr bool terminal_copy = true;
#else
const char *harness::name = "log";
constexpr bool terminal_copy = false;
#endif
void harness::setup() {}

namespace {
    constexpr std::uint32_t site_sink = site_user;

    // one character at a time, every access visible to the scheduler
    struct sink : std::streambuf {
        std::vector<char> text;
        std::size_t used = 0;
        double p_fail = 0;
        std::uint64_t flushes = 0;
        sink() : text(1 << 16) {}
        void put(char c) {
            if(p_fail > 0 && fault(site_sink, p_fail)) { count("fault.sink"); throw harness::injected_error(); }
            if(used < text.size()) text[used] = c;
            ++used;
        }
        int overflow(int c) override { if(c != EOF) put((char)c); return c == EOF ? 0 : c; }
        std::streamsize xsputn(const char *s, std::streamsize n) override { for(std::streamsize i = 0; i < n; ++i) put(s[i]); return n; }
        int sync() override { ++flushes; return 0; }
        std::string str() const { return {text.data(), std::min(used, text.size())}; }
    };
    template<severity filter_>
    struct test_log : esl::data::log<filter_> {
        using esl::data::log<filter_>::buffer_;
        explicit test_log(sink &s) : esl::data::log<filter_>("simulated") { static_cast<std::ios &>(buffer_).rdbuf(&s); }
        std::string memory() const { return buffer_.str(); }
    };

    // several pieces, one value
    struct pieces { std::string a, b, c; };
    std::ostream &operator<<(std::ostream &o, const pieces &p) { return o << p.a << p.b << p.c; }
    struct thrower { std::string a; int how; };
    std::ostream &operator<<(std::ostream &o, const thrower &t) {
        if(t.how) o << t.a;
        throw harness::injected_error();
    }
    struct chatty { std::string a, b, inner; std::function<void(const std::string &)> l; };
    std::ostream &operator<<(std::ostream &o, const chatty &t) {
        o << t.a;
        t.l(t.inner);
        return o << t.b;
    }
    struct moving { std::string a; moving(const char *s) : a(s) {} moving(moving &&) = default; moving(const moving &) = default; };
    std::ostream &operator<<(std::ostream &o, const moving &t) { return o << t.a; }
    // an exception from operator<< is passed on and leaves the stream usable
    std::ostream &flush_state(std::ostream &o) { o.clear(); return o; }
    std::ostream &bar(std::ostream &o) { return o << "|bar|"; }
    esl::data::channel &two(esl::data::channel &c) { c << "!one"; c << "two!"; return c; }

    struct action { int kind; int id; int level; };
}

namespace {
template<severity filter_>
void run_with(std::uint64_t seed, simrt::options opt) {
    using namespace harness;
    rng r(mix(seed, 1));
    opt.p_thread = 0;
    int threads = 1 + (int)r.below(4), per = 1 + (int)r.below(r.chance(0.2) ? 10 : 5);
    bool failing = r.chance(0.3);
    std::vector<std::vector<action>> plan(threads);
    int id = 0;
    for(int t = 0; t < threads; ++t) for(int i = 0; i < per; ++i) {
        rng q(mix(seed, 100 + t * 30 + i));
        action a{(int)q.below(12), ++id, (int)q.below(4)};
        if(keep()) plan[t].push_back(a);
    }
    // what each thread adds to the two shared sinks, token by token
    std::vector<std::vector<std::string>> to_log(threads), to_other(threads), to_terminal(threads);
    std::vector<std::string> complaints(threads);
    start(opt);
    auto *log_sink = new sink, *other_sink = new sink;
    auto *other = new std::ostream(other_sink);
    auto *log = new test_log<filter_>(*log_sink);
    auto *terminal = new sink;
    std::uint64_t broken = terminal_copy ? mix(seed, 3) % 10 : 9;
    std::streambuf *actual = nullptr;
    if(terminal_copy) {
        actual = std::cout.rdbuf(terminal);
        std::cout.clear();
        if(broken == 0) std::cout.setstate(std::ios::badbit);       // closed
        if(broken == 1) terminal->p_fail = 0.1;
    }
    std::vector<sink *> own(threads);
    std::vector<std::ostream *> own_stream(threads);
    std::vector<std::string> own_expected(threads);
    std::vector<std::uint64_t> own_lost(threads);
    for(int t = 0; t < threads; ++t) {
        own[t] = new sink;
        own[t]->p_fail = failing ? 0.1 : 0;
        own_stream[t] = new std::ostream(own[t]);
        own_stream[t]->exceptions(std::ios::badbit);
    }
    auto body = [&](int t) {
        auto append = [&](std::vector<std::vector<std::string>> &to, std::initializer_list<std::string> l) { quiet q; for(auto &s : l) if(!s.empty()) to[t].push_back(s); };
        auto expect = [&](std::vector<std::vector<std::string>> &to, std::initializer_list<std::string> l) { append(to, l); append(to_terminal, l); };
        static const char *level_names[] = {"trace", "notice", "warning", "error"};
        for(auto &a : plan[t]) {
            std::string m = "<t" + std::to_string(t) + "#" + std::to_string(a.id) + ">";
            switch(a.kind) {
            case 0: {       // the usual way
                if(warning >= filter_) expect(to_log, {"(", "warning", ")", " ", m, std::to_string(a.id), "\n"});
                log->template get<warning>() << m << a.id << std::endl;
                break;
            }
            case 1: {       // with the position in the source
                static const char *files[] = {"/home/x/esl/simulation/model.cpp", "main.cpp", "/tmp/other/y.cpp", "esl/a.cpp"};
                static const char *shown[] = {"simulation/model.cpp", "main.cpp", "y.cpp", "a.cpp"};
                expect(to_log, {"(", "error", ", ", shown[a.level], "[", std::to_string(a.id), "]", ")", " ", m});
                log->template get<errorlog>("f", files[a.level], a.id) << m;
                break;
            }
            case 2: {       // below the filter of most logs
                if(trace >= filter_) expect(to_log, {"(", "trace", ", ", "g.cpp", "[", "3", "]", ")", " ", m, "\n"});
                log->template get<trace>("f", "g.cpp", 3) << m << std::endl;
                if(trace >= filter_) expect(to_log, {m, "\n"});
                log->get(trace) << m << esl::data::channel::endl;
                if(notice >= filter_) expect(to_log, {"(", "notice", ")", " ", m});
                log->template get<notice>() << m;
                break;
            }
            case 3: {       // severity known at run time
                if(a.level >= filter_) expect(to_log, {m, level_names[a.level], "\n"});
                log->get(severity(a.level)) << m << severity(a.level) << std::endl;
                break;
            }
            case 4: {
                expect(to_log, {m, "\n"});
                log->get(errorlog) << m << esl::data::channel::endl;
                break;
            }
            case 5: {       // a value that fails while it is formatted
                bool thrown = false;
                append(to_log, {a.level & 1 ? m : std::string()});
                expect(to_log, {"after" + m});
                auto c = log->get(errorlog);
                try { c << thrower{m, a.level & 1}; } catch(const injected_error &) { thrown = true; } catch(...) {}
                c << flush_state << ("after" + m);
                if(!thrown) { quiet q; complaints[t] = text("an exception while formatting ", m, " did not reach the caller"); }
                count("fault.formatting");
                break;
            }
            case 6: {       // a value that logs
                // it is formatted once for each stream it appears on
                std::string inner = "inner" + m, whole = "[" + m + inner + m + "]";
                if(terminal_copy && warning >= filter_) { append(to_log, {whole + inner}); append(to_terminal, {inner + "[" + m + inner + m + "]"}); }
                else if(warning >= filter_) append(to_log, {whole});
                else expect(to_log, {inner});
                log->get(warning) << chatty{"[" + m, m + "]", inner, [&](const std::string &s) { auto c = log->get(errorlog); c << s; }};
                break;
            }
            case 7: {       // several pieces
                expect(to_other, {"{" + m + "/" + m + "}"});
                esl::data::channel c(esl::data::notice, *other);
                c << pieces{"{" + m, "/", m + "}"};
                break;
            }
            case 8: {
                expect(to_other, {m, "|bar|", "!one", "two!", std::to_string(a.id)});
                esl::data::channel c(esl::data::trace, *other);
                c << moving(m.c_str()) << bar << two << a.id;
                break;
            }
            case 9: {
                expect(to_other, {m, "\n"});
                esl::data::channel c(esl::data::errorlog, *other);
                c << m << esl::data::channel::endl;
                break;
            }
            default: {      // a sink of its own that may fail
                esl::data::channel c(esl::data::errorlog, *own_stream[t]);
                for(int k = 0; k < 2; ++k) {
                    std::size_t before = own[t]->used;
                    try {
                        if(k) c << esl::data::channel::endl; else c << m;
                        if(own[t]->str().substr(std::min(before, own[t]->used)) != (k ? "\n" : m)) { quiet q; complaints[t] = text("the sink of thread ", t, " received '", own[t]->str().substr(before), "' for '", k ? "\n" : m, "'"); }
                        append(to_terminal, {k ? "\n" : m});
                    } catch(const std::exception &) {
                        ++own_lost[t];
                        own_stream[t]->clear();
                    }
                }
            }
            }
        }
    };
    std::vector<std::thread> others;
    for(int t = 1; t < threads; ++t) others.emplace_back(body, t);
    body(0);
    for(auto &t : others) t.join();
    stop();
    if(terminal_copy) {
        std::cout.rdbuf(actual);
        std::cout.clear();
    }
    quiet q;
    for(auto &c : complaints) if(!c.empty()) violated("own-sink", c);
    if(!failing) for(auto n : own_lost) if(n) violated("exception-without-fault", n);
    // the text has to be an interleaving of what the threads wrote
    auto check = [&](const char *what, const std::string &text_, const std::vector<std::vector<std::string>> &tokens) {
        event(text(what, ": ", text_));
        std::set<std::vector<std::size_t>> seen;
        std::size_t best = 0;
        std::function<bool(std::vector<std::size_t> &, std::size_t)> go = [&](std::vector<std::size_t> &at, std::size_t p) -> bool {
            best = std::max(best, p);
            if(!seen.insert(at).second) return false;
            bool end = true;
            for(std::size_t t = 0; t < tokens.size(); ++t) {
                if(at[t] == tokens[t].size()) continue;
                end = false;
                auto &k = tokens[t][at[t]];
                if(text_.compare(p, k.size(), k)) continue;
                ++at[t];
                if(go(at, p + k.size())) return true;
                --at[t];
            }
            return end && p == text_.size();
        };
        std::vector<std::size_t> at(tokens.size());
        if(!go(at, 0)) violated("log-text", "the ", what, " holds '", text_, "', which is not an interleaving of the values that were written (first difference at character ", best, ")");
        for(auto &t : tokens) count("tokens", t.size());
    };
    check("log", log_sink->str(), to_log);
    check("shared stream", other_sink->str(), to_other);
    if(terminal_copy && broken > 1) check("terminal", terminal->str(), to_terminal);
    std::size_t n = 0;
    for(auto &p : plan) n += p.size();
    if(n > 1) nontrivial();
}
}

void harness::run(std::uint64_t seed, simrt::options opt, int) {
    switch(mix(seed, 4) % 6) {
    case 0: return run_with<trace>(seed, opt);
    case 1: return run_with<warning>(seed, opt);
    case 2: return run_with<errorlog>(seed, opt);
    default: return run_with<notice>(seed, opt);
    }
}
