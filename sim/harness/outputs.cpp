// C12: recorded outputs, written to memory, to streams that fail and to files
// on a simulated faulty disk, by producers on several threads.
#include "common.hpp"

#include <esl/data/file.hpp>
#include <esl/data/output.hpp>
#include <esl/data/producer.hpp>
#include <esl/quantity.hpp>

#include <filesystem>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace simrt;
const char *harness::name = "outputs";
void harness::setup() {}

namespace {
    constexpr std::uint32_t site_sink = site_user;

    // Text that is not flushed is not durable: it is lost when the process ends.
    struct memory_sink : std::streambuf {
        std::string pending, durable;
        double p_fail = 0;
        bool throws = false;
        std::uint64_t failures = 0;
        bool refuse() {
            if(p_fail > 0 && fault(site_sink, p_fail)) {
                ++failures;
                count(throws ? "fault.sink_throws" : "fault.sink_refuses");
                if(throws) throw harness::injected_error();
                return true;
            }
            return false;
        }
        int overflow(int c) override { if(refuse()) return EOF; if(c != EOF) pending += (char)c; return c == EOF ? 0 : c; }
        std::streamsize xsputn(const char *s, std::streamsize n) override {
            if(refuse()) { pending.append(s, n / 2); return n / 2; }
            pending.append(s, n);
            return n;
        }
        int sync() override { durable += pending; pending.clear(); return 0; }
    };
    struct memory_stream { memory_sink sink; std::ostream out{&sink}; };

    std::string read_file(const std::string &name) {
        std::string s;
        int f = open(name.c_str(), O_RDONLY);
        if(f < 0) return s;
        char b[4096]; ssize_t n;
        while((n = read(f, b, sizeof b)) > 0) s.append(b, n);
        close(f);
        return s;
    }

    struct target {
        int kind = 0;                                   // 0 memory, 1 file
        std::shared_ptr<memory_stream> memory;
        std::shared_ptr<esl::data::stream> s;
        std::string path;
        std::string expected;                           // everything recorded since it was attached
        bool failed = false, exceptions = false;
        std::string where() const { return kind ? "file" : "stream"; }
        std::string durable() const { return kind ? read_file(path) : memory->sink.durable; }
    };
    template<class T> std::string shown(const T &t) { std::ostringstream o; o << t; return o.str(); }

    // the types an output can have here
    template<class... T> struct typed {
        std::shared_ptr<esl::data::output<T...>> o;
        std::vector<std::tuple<esl::simulation::time_point, T...>> expected;
    };
    std::uint64_t  make(std::uint64_t h, std::uint64_t *) { return h % 3 ? h % 1000 : h; }
    double         make(std::uint64_t h, double *) { return (double)(h % 4001) / 8 - 250; }
    std::string    make(std::uint64_t h, std::string *) { return "text-" + std::string(h % 40, 'x') + std::to_string(h % 97); }
    esl::quantity  make(std::uint64_t h, esl::quantity *) { return esl::quantity(h % 5000); }
}

void harness::run(std::uint64_t seed, simrt::options opt, int) {
    rng r(mix(seed, 1));
    opt.p_thread = 0;
    int threads = 1 + (int)r.below(3);
    int per = 2 + (int)r.below(r.chance(0.2) ? 12 : 6);
    bool disk = r.chance(0.5), sinks_fail = r.chance(0.5), errors = r.chance(0.6);
    double p_write = !errors ? 0 : 0.1, p_open = disk && r.chance(0.3) ? 0.3 : 0;
    std::string dir;
    {
        quiet q;
        dir = scratch_directory();
        mkdir(dir.c_str(), 0700);
        if(chdir(dir.c_str())) simrt::fail("harness:scratch", "no scratch directory");
        std::error_code e;
        for(auto &x : std::filesystem::directory_iterator(".", e)) std::filesystem::remove_all(x.path(), e);
    }
    std::vector<std::vector<bool>> wanted(threads);
    for(auto &w : wanted) for(int i = 0; i < per; ++i) w.push_back(keep());
    start(opt);
    std::vector<std::string> complaints(threads);
    std::vector<std::uint64_t> records(threads);
    std::vector<std::string> history(threads);
    auto body = [&](int t) {
        esl::data::producer producer;
        std::vector<std::shared_ptr<target>> targets[5];     // a stream can be attached to several outputs, or more than once
        std::vector<std::shared_ptr<target>> attached;
        for(auto &v : targets) v.reserve(16);
        attached.reserve(64);
        std::string names[5];
        for(int i = 0; i < 5; ++i) names[i] = "thread " + std::to_string(t) + " output " + std::to_string(i);
        typed<std::uint64_t> a{producer.create_output<std::uint64_t>(names[0]), {}};
        typed<double, std::uint64_t> b{producer.create_output<double, std::uint64_t>(names[1]), {}};
        typed<std::string> c{producer.create_output<std::string>(names[2]), {}};
        typed<esl::quantity, std::string, double> d{producer.create_output<esl::quantity, std::string, double>(names[3]), {}};
        // one that is not part of a producer, and buffered
        typed<std::uint64_t> e{std::make_shared<esl::data::output<std::uint64_t>>(names[4], true), {}};
        producer.outputs.insert({names[4], e.o});
        std::string problem;
        auto wrong = [&](auto &&... x) { quiet q; if(problem.empty()) problem = text("thread ", t, ": ", x...); };
        if(a.o->name != names[0] || a.o->buffered) wrong("a new output has the wrong name or is buffered");
        esl::simulation::time_point now = t;
        auto put = [&](int k, auto &out, std::uint64_t h) {
            typename std::decay_t<decltype(out.expected)>::value_type record;
            std::get<0>(record) = now;
            std::vector<std::string> each;
            std::apply([&](auto &, auto &... v) {
                std::uint64_t n = 0;
                ((v = make(mix(h, ++n), &v)), ...);
                if(!out.o->buffered) (each.push_back("(" + shown(now) + ", " + shown(v) + ")\n"), ...);
            }, record);
            out.expected.push_back(record);
            std::string lines;
            for(auto &l : each) {
                lines += l;
                for(auto &x : targets[k]) x->expected += l;
            }
            bool thrown = false;
            try {
                disk_faults w(disk ? p_write : 0, 0);
                std::apply([&](auto time, auto... v) { out.o->put(time, v...); }, record);
            } catch(const std::exception &) { thrown = true; }
            ++records[t];
            { quiet q; history[t] += text(k, "@", now, " ", lines, thrown ? "threw\n" : ""); }
            if(out.o->values != out.expected) wrong("the history of output ", k, " has ", out.o->values.size(), " values and differs from the ", out.expected.size(), " that were recorded");
            bool may_throw = false;
            for(auto &x : targets[k]) may_throw |= x->exceptions && !((std::ostream &)*x->s).good();
            if(thrown && !may_throw) wrong("recording threw although no sink reports errors by exceptions");
            for(auto &y : targets[k]) {
                auto &x = *y;
                std::string got;
                { quiet q; got = x.durable(); }
                bool good = ((std::ostream &)*x.s).good();
                // A sink that failed keeps a part of what was recorded up to then.
                // What follows the first failure of a sink is up to the stream library.
                if(thrown) { x.failed = true; continue; }      // an exception skips the remaining sinks
                if(x.failed) continue;
                if(!good) {
                    x.failed = true;
                    if(x.expected.compare(0, got.size(), got)) wrong("a failed ", x.where(), " of output ", k, " holds '", got, "', which is not a part of '", x.expected, "'");
                    continue;
                }
                if(got != x.expected) wrong("a ", x.where(), " of output ", k, " durably holds '", got, "' after recording '", x.expected, "'");
            }
        };
        for(int i = 0; i < per && problem.empty(); ++i) {
            rng q(mix(seed, 1000 + t * 100 + i));
            int what = (int)q.below(10), k = (int)q.below(5);
            now += q.below(3);
            if(!wanted[t][i]) continue;
            if(what < 3 || i == 0) {
                auto y = std::make_shared<target>();
                auto &x = *y;
                x.kind = disk && q.chance(0.6);
                bool good = true;
                bool again = !attached.empty() && q.chance(0.25);
                if(again) {
                    // the same stream once more, to this output or to another one
                    y = attached[q.below(attached.size())];
                    producer.add_output_stream(names[k], y->s);
                    targets[k].push_back(y);
                    { quiet q_; count("output.attached_again"); }
                    continue;
                }
                if(x.kind) {
                    std::string name = "t" + std::to_string(t) + "-" + std::to_string(i);
                    std::string prefix = q.chance(0.5) ? "" : q.chance(0.5) ? "d" + std::to_string(t) : "d" + std::to_string(t) + "/e" + std::to_string(i % 3);
                    x.path = prefix.empty() ? name : prefix + "/" + name;
                    if(q.chance(0.4)) {
                        // what an earlier run left behind
                        quiet q_;
                        std::error_code error;
                        if(!prefix.empty()) std::filesystem::create_directories(prefix, error);
                        std::ofstream(x.path) << "of an earlier run\n";
                        count("output.file_exists");
                    }
                    std::uint64_t before = disk_errors();
                    try {
                        disk_faults w(0, threads == 1 ? p_open : 0);
                        x.s = std::make_shared<esl::data::file>(name, prefix);
                    } catch(const std::exception &ex) {
                        good = false;
                        if(disk_errors() == before) wrong("a file was refused without a fault: ", ex.what());
                    }
                    if(good && !((std::ostream &)*x.s).good()) wrong("a file that could not be created was not reported");
                    struct stat st;
                    if(good && stat(x.path.c_str(), &st)) wrong("the file ", x.path, " was not created");
                } else {
                    x.memory = std::make_shared<memory_stream>();
                    if(sinks_fail && q.chance(0.5)) {
                        x.memory->sink.p_fail = 0.15;
                        if(q.chance(0.4)) { x.memory->sink.throws = q.chance(0.5); x.exceptions = true; x.memory->out.exceptions(std::ios::badbit); }
                        else x.memory->sink.throws = q.chance(0.3);
                    }
                    x.s = std::make_shared<esl::data::stream>(x.memory->out);
                }
                if(good) {
                    producer.add_output_stream(names[k], x.s);
                    targets[k].push_back(y);
                    attached.push_back(y);
                }
                bool refused = false;
                try { producer.add_output_stream("nobody", x.s); } catch(const std::invalid_argument &) { refused = true; }
                if(!refused) wrong("a stream was attached to an output that does not exist");
            } else {
                std::uint64_t h = q.next();
                switch(k) {
                case 0: put(0, a, h); break;
                case 1: put(1, b, h); break;
                case 2: put(2, c, h); break;
                case 3: put(3, d, h); break;
                default: put(4, e, h);
                }
            }
        }
        // the histories of all outputs are complete and none was mixed up
        if(a.o->values != a.expected || b.o->values != b.expected || c.o->values != c.expected || d.o->values != d.expected || e.o->values != e.expected) wrong("the history of an output changed afterwards");
        for(auto &y : attached) {
            auto &x = *y;
            std::string got;
            { quiet q; got = x.durable(); }
            if(!x.failed && got != x.expected) wrong("a ", x.where(), " holds '", got, "' at the end, recorded was '", x.expected, "'");
        }
        esl::data::output_base from_streams("several", std::vector<std::shared_ptr<esl::data::stream>, boost::pool_allocator<std::shared_ptr<esl::data::stream>>>());
        if(!from_streams.buffered) wrong("an output made from streams is not buffered like the others");
        quiet q;
        complaints[t] = problem;
    };
    std::vector<std::thread> others;
    for(int t = 1; t < threads; ++t) others.emplace_back(body, t);
    body(0);
    for(auto &t : others) t.join();
    stop();
    quiet q;
    std::uint64_t n = 0;
    for(auto x : records) n += x;
    for(auto &h : history) event(h);
    count("records", n);
    for(auto &c : complaints) if(!c.empty()) violated("output", c);
    if(n > 1) nontrivial();
}
