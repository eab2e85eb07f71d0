// The discrete event core: model, environment, communicator, agent collection
// and identities run for real, on simulated threads; scripted agents drive them
// and an independent reference model predicts who acts when, and which message
// is handled when by which handler.
//   C01 results do not depend on threads and schedule     C02 messages
//   C03 virtual time                                       C04 order of handlers
//   C13 life cycle of agents                               C14 identities
//   C16 failures reach the caller
#include "common.hpp"

#include <esl/agent.hpp>
#include <esl/exception.hpp>
#include <esl/computation/environment.hpp>
#include <esl/interaction/message.hpp>
#include <esl/law/property.hpp>
#include <esl/simulation/model.hpp>

#include <iostream>
#include <system_error>

using namespace simrt;
using esl::simulation::time_interval;
using esl::simulation::time_point;
const char *harness::name = "des";

namespace {
    typedef std::uint64_t u64;
    constexpr u64 code_base = u64(1) << 62;
    struct payload { u64 uid = 0; int sender = -1; int ttl = 0; u64 round = 0; u64 seq = 0; u64 due = 0; u64 sent_at = 0; };
    template<int n> struct msg : esl::interaction::message<msg<n>, code_base | n> { payload p; };
    constexpr int types = 4;
    u64 h3(u64 a, u64 b, u64 c = 0, u64 d = 0) { return mix(mix(mix(a, b), c), d); }

    struct handler_spec { int type; int priority; };
    // --- the script: pure functions, shared by the agents and the reference
    struct script {
        u64 seed = 0;
        u64 start = 0, end = 10, scale = 1;
        int agents = 1;
        std::vector<std::vector<handler_spec>> handlers;   // per agent
        std::vector<bool> in_order;
        std::vector<std::vector<bool>> slot;               // per agent: enabled send slots
        std::vector<bool> exists;
        std::vector<u64> born;              // u64(-1): during initialisation; otherwise by agent 0's act at that instant or later
        std::vector<u64> dies;              // removes itself when acting at or after, or is removed by agent 0
        bool warden = false;                // agent 0 removes the others
        bool polite = true;                 // nobody writes to agents that are about to leave
        std::vector<int> nested;            // parent agent, or -1
        double busy = 0.5; int max_ttl = 2; int burst = 1;
        int fail_agent = -1, fail_too = -1; u64 fail_time = 0; int fail_kind = 0;

        struct send { int type, to; u64 due; payload p; };
        // what an agent sends when it acts, resp. when one of its handlers runs
        void sends(std::vector<send> &out, u64 h, int self, u64 t, int ttl) const {
            if(ttl < 0) return;
            rng r(h);
            if(!r.chance(busy)) return;
            int s = (int)r.below(slot[self].size());
            if(!slot[self][s]) return;
            int n = 1 + (int)r.below(burst);
            for(int i = 0; i < n; ++i) {
                send x;
                x.to = (int)r.below(agents);
                x.type = (int)r.below(types);
                u64 c = r.below(20);
                x.due = c < 7 ? t : c < 9 ? (t > start + 2 ? t - 1 - r.below(2) : start) : c < 16 ? t + scale * (1 + r.below(4)) : c < 19 ? t + scale * (5 + r.below(10)) : end + r.below(3);
                if(polite && t >= dies[x.to]) continue;
                x.p.uid = h3(h, 77, i);
                x.p.sender = self; x.p.ttl = ttl - 1; x.p.due = x.due; x.p.sent_at = t;
                out.push_back(x);
            }
        }
        u64 handler_return(u64 uid, int handler, u64 t, u64 upper) const {
            rng r(h3(uid, handler, t, 5));
            u64 c = r.below(10);
            u64 v = c < 6 ? upper : c < 9 ? t + scale * (1 + r.below(6)) : t;
            if(c == 9 && r.chance(0.5)) v = t + 1;
            return v > upper && c == 6 ? UINT64_MAX : v;
        }
        u64 act_return(int self, u64 t, u64 a, u64 upper) const {
            rng r(h3(seed, self * 1000 + 3, t, a));
            u64 c = r.below(20);
            if(c < 2 && a < 2) return t;
            return c < 12 ? t + scale * (1 + r.below(5)) : c < 15 ? t + scale * (4 + r.below(10)) : c < 18 ? upper : c < 19 ? upper + 3 : UINT64_MAX;
        }
        // messages sent before the simulation starts
        void early(std::vector<send> &out, int self) const { if(mix(seed, 900 + self) % 4 == 0) sends(out, h3(seed, self, 31337), self, start, max_ttl); }
        bool leaves(int self, u64 t) const { return t >= dies[self]; }
    };

    struct entry { char kind; u64 t, upper, a, uid; int handler; int type; u64 due, round, seq; int sender; u64 random[2]; u64 order; };
    struct outcome {
        std::vector<std::vector<entry>> log;        // per agent
        std::vector<std::pair<u64, u64>> steps;     // lower -> returned
        std::vector<u64> times;                     // model.time after each step
        std::vector<std::vector<u64>> identities;   // in order of creation per agent, flattened
        std::map<std::pair<int, int>, std::pair<std::vector<u64>, std::vector<u64>>> children;      // parent's, own
        std::vector<u64> threads_per_round;
        std::string failure;
        u64 messages_sent = 0, threads_created = 0, model_threads = 0;
        u64 activations = 0, rounds = 0;
        std::vector<u64> activate_results, deactivate_results;
        std::vector<std::size_t> local_counts;
        std::vector<std::string> complaints;
    };
    struct world_state;

    struct actor : esl::agent {
        int index = -1;
        world_state *w = nullptr;
        u64 last_t = UINT64_MAX, a = 0;
        bool in_activation = false;
        u64 seq = 0;
        int made = 0;
        explicit actor(const esl::identity<actor> &i, int index, world_state *w);
        template<int n> void add(int handler, int priority);
        time_point on(const payload &p, int type, int handler, time_interval s, std::seed_seq &seed, u64 received);
        time_point act(time_interval s, std::seed_seq &seed) override;
        void enter(u64 t) {
            if(in_activation) return;
            in_activation = true;
            if(last_t != t) { last_t = t; a = 0; } else ++a;
        }
        void post(const std::vector<script::send> &v);
    };

    struct sim_environment : esl::computation::environment {
        u64 round = 0;
        std::function<void()> publish = [] {};
        size_t send_messages(esl::simulation::model &m) override {
            size_t r = environment::send_messages(m);
            publish();
            ++round;
            return r;
        }
    };
    struct sim_model : esl::simulation::model {
        world_state *w;
        sim_model(esl::computation::environment &e, const esl::simulation::parameter::parametrization &p, world_state *w) : model(e, p), w(w) {}
        void initialize() override;
        time_point step(time_interval s) override;
        void terminate() override;
        using model::step;
    };
    struct world_state {
        const script &s;
        outcome &o;
        sim_environment env;
        sim_model model;
        std::vector<std::shared_ptr<actor>> actors;
        std::vector<bool> visible;              // known to other agents than agent 0
        std::vector<bool> removed;
        std::vector<u64> removed_at;
        int initialized = 0, terminated = 0;
        u64 counter = 0;
        world_state(const script &s, outcome &o, u64 sample, unsigned threads)
        : s(s), o(o), model(env, esl::simulation::parameter::parametrization(sample, s.start, s.end, 0, threads), this), actors(s.agents), visible(s.agents), removed(s.agents), removed_at(s.agents) {
            env.publish = [this] { quiet q; for(std::size_t i = 0; i < actors.size(); ++i) if(actors[i]) visible[i] = true; };
            o.log.resize(s.agents); o.identities.resize(s.agents);
        }
        void create(int i) {
            if(!s.exists[i] || actors[i]) return;
            if(s.nested[i] >= 0 && actors[s.nested[i]]) actors[i] = model.agents.create<actor>(*static_cast<esl::entity<esl::agent> *>(actors[s.nested[i]].get()), i, this);
            else actors[i] = model.agents.create<actor>(model.world, i, this);
            quiet q;
            o.identities[i] = actors[i]->identifier.digits;
        }
        void look_up(u64 h) {
            int i = (int)(h % (s.agents + 1));
            bool known = i < s.agents && actors[i];
            esl::identity<esl::agent> who = known ? actors[i]->identifier : esl::identity<esl::agent>{h % 1000 + 100000, h % 7};
            std::size_t before = model.agents.local_agents_.size();
            std::shared_ptr<esl::agent> found;
            try { found = model.agents[who]; } catch(const std::bad_alloc &) { throw; } catch(const std::exception &) {}
            quiet q;
            count("agents_looked_up");
            // what changes in this very instant may or may not be found
            bool unsettled = known && (!visible[i] || (removed[i] && removed_at[i] == model.time));
            if(!unsettled && found != (known && !removed[i] ? actors[i] : nullptr)) harness::violated("population", "an agent that is ", known ? removed[i] ? "removed" : "part" : "no part", " of the simulation was ", found ? "" : "not ", "found");
            if(model.agents.local_agents_.size() != before) harness::violated("population", "looking for an agent changed the population");
        }
        void remove(int i) { model.agents.deactivate(actors[i]); quiet q; removed[i] = true; removed_at[i] = model.time; }
    };
    void sim_model::initialize() {
        ++w->initialized;
        for(int i = 0; i < w->s.agents; ++i) if(w->s.born[i] == UINT64_MAX) { w->create(i); w->visible[i] = w->actors[i] != nullptr; }
        for(int i = 0; i < w->s.agents; ++i) if(w->s.born[i] == UINT64_MAX && w->actors[i]) {
            std::vector<script::send> out;
            { quiet q; w->s.early(out, i); }
            w->actors[i]->post(out);
        }
    }
    void sim_model::terminate() { ++w->terminated; }
    time_point sim_model::step(time_interval s) {
        u64 r0 = w->env.round;
        auto r = model::step(s);
        quiet q;
        w->o.steps.push_back({s.lower, r});
        w->o.times.push_back(time);
        w->o.rounds += w->env.round - r0;
        return r;
    }

    actor::actor(const esl::identity<actor> &i, int index, world_state *w)
    : agent(esl::identity<esl::agent>(i.digits)), index(index), w(w) {
        auto &hs = w->s.handlers[index];
        for(int k = 0; k < (int)hs.size(); ++k) switch(hs[k].type) {
            case 0: add<0>(k, hs[k].priority); break;
            case 1: add<1>(k, hs[k].priority); break;
            case 2: add<2>(k, hs[k].priority); break;
            default: add<3>(k, hs[k].priority); break;
        }
        schedule = w->s.in_order[index] ? in_order : random;
    }
    template<int n> void actor::add(int handler, int priority) {
        register_callback<msg<n>>([this, handler](std::shared_ptr<msg<n>> m, time_interval s, std::seed_seq &seed) {
            if(!m) harness::violated("message-type", "a handler received no message");
            if(m->recipient != identifier) harness::violated("wrong-recipient", "agent ", index, " handles a message for ", m->recipient);
            if(m->sent != m->p.sent_at || m->p.sender < 0 || m->sender != w->actors[m->p.sender]->identifier) harness::violated("message-changed", "sender or time of sending of a message from agent ", m->p.sender, " changed");
            return on(m->p, n, handler, s, seed, m->received);
        }, (priority_t)priority, "test");
    }
    template<int n> void send(actor &a, const esl::identity<esl::agent> &to, const script::send &x, u64 round, u64 seq) {
        auto m = seq % 3 ? a.create_message<msg<n>>(to, x.due) : std::make_shared<msg<n>>();
        if(seq % 3 == 0) { m->recipient = to; m->received = x.due; a.send_message(m); }
        m->p = x.p;
        m->p.round = round; m->p.seq = seq;
        m->sender = a.identifier;
        m->sent = x.p.sent_at;
    }
    void actor::post(const std::vector<script::send> &v) {
        for(auto &x : v) {
            // agents that were created in this instant are known to their creator only
            if(!w->visible[x.to] && index != 0) continue;
            auto &to = w->actors[x.to];
            if(!to) continue;
            switch(x.type) {
                case 0: send<0>(*this, to->identifier, x, w->env.round, seq++); break;
                case 1: send<1>(*this, to->identifier, x, w->env.round, seq++); break;
                case 2: send<2>(*this, to->identifier, x, w->env.round, seq++); break;
                default: send<3>(*this, to->identifier, x, w->env.round, seq++); break;
            }
        }
    }
    std::vector<std::uint32_t> draw(std::seed_seq &seed) {
        std::vector<std::uint32_t> v(4);
        seed.generate(v.begin(), v.end());
        return v;
    }
    time_point actor::on(const payload &p, int type, int handler, time_interval s, std::seed_seq &seed, u64 received) {
        enter(s.lower);
        auto v = draw(seed);
        std::vector<script::send> out;
        {
            quiet q;
            w->o.log[index].push_back(entry{'h', s.lower, s.upper, a, p.uid, handler, type, p.due, p.round, p.seq, p.sender, {u64(v[0]) << 32 | v[1], u64(v[2]) << 32 | v[3]}, 0});
            if(received != p.due) harness::violated("message-changed", "the delivery time of a message changed from ", p.due, " to ", received);
            w->s.sends(out, h3(p.uid, handler, 9), index, s.lower, p.ttl);
        }
        if((w->s.fail_agent == index || w->s.fail_too == index) && s.lower >= w->s.fail_time) {
            if(w->s.fail_kind == 1) throw harness::injected_error();
            if(w->s.fail_kind == 6) throw 42;
            if(w->s.fail_kind == 4 && s.lower > 0) return s.lower % 3 ? s.lower - 1 : 0;
        }
        post(out);
        return w->s.handler_return(p.uid, handler, s.lower, s.upper);
    }
    time_point actor::act(time_interval s, std::seed_seq &seed) {
        enter(s.lower);
        in_activation = false;
        if(w->model.time != s.lower) harness::violated("model-time", "agent ", index, " acts at ", s.lower, " while the model time is ", w->model.time);
        auto v = draw(seed);
        std::vector<script::send> out;
        {
            quiet q;
            w->o.log[index].push_back(entry{'a', s.lower, s.upper, a, 0, -1, -1, 0, w->env.round, 0, -1, {u64(v[0]) << 32 | v[1], u64(v[2]) << 32 | v[3]}, 0});
            w->s.sends(out, h3(w->s.seed, index, s.lower, a), index, s.lower, w->s.max_ttl);
        }
        if((w->s.fail_agent == index || w->s.fail_too == index) && s.lower >= w->s.fail_time) {
            if(w->s.fail_kind == 0) throw harness::injected_error();
            if(w->s.fail_kind == 5) throw 42;
            if(w->s.fail_kind == 2 && s.lower > 0) return s.lower % 3 ? s.lower - 1 : 0;
            if(w->s.fail_kind == 3) create_message<msg<0>>(s.lower % 5 == 4 ? esl::identity<esl::agent>() : esl::identity<esl::agent>{987654, s.lower}, s.lower + s.lower % 3);
        }
        // changes of the population; with several worker threads one agent makes all of them
        if(index == 0) for(int i = 0; i < w->s.agents; ++i) if(w->s.born[i] != UINT64_MAX && w->s.born[i] <= s.lower) w->create(i);
        post(out);
        // identities of things that belong to this agent
        auto note = [&](const std::vector<u64> &parent, const std::vector<u64> &child) {
            quiet q;
            w->o.children[{index, made++}] = {parent, child};
        };
        u64 kind = mix(w->s.seed, index * 4096 + a) % 5;
        if(kind < 2) note(identifier.digits, entity<esl::agent>::create<esl::agent>().digits);
        else if(kind == 2) note(identifier.digits, identifier.create<esl::law::property>(static_cast<esl::agent &>(*this)).digits);
        else if(kind == 3) {
            // a thing with parts
            esl::law::property thing(entity<esl::agent>::create<esl::law::property>());
            note(identifier.digits, thing.identifier.digits);
            for(u64 k = 0; k < 2; ++k) note(thing.identifier.digits, thing.create<esl::law::property>().digits);
        } else {
            note(identifier.digits, entity<esl::agent>::create<esl::law::property>().digits);
            // one agent also creates things that belong to nobody
            if(index == 0) note(w->model.world.identifier.digits, w->model.world.create<esl::law::property>().digits);
        }
        // whoever changes the population also looks agents up
        if(index == 0 && h3(w->s.seed, 4096 + a, s.lower) % 2) for(u64 k = 0; k < 3; ++k) w->look_up(h3(w->s.seed, s.lower, a, k));
        if(!w->s.warden) { if(w->s.leaves(index, s.lower)) w->remove(index); }
        else if(index == 0) for(int i = 0; i < w->s.agents; ++i) if(w->actors[i] && !w->removed[i] && w->s.leaves(i, s.lower)) w->remove(i);
        return w->s.act_return(index, s.lower, a, s.upper);
    }

    // ------------------------------------------------------------ reference
    struct ref_message { u64 due; int type; payload p; };
    struct reference {
        const script &s;
        std::map<int, u64> wake;
        std::vector<bool> local, created, visible;
        std::vector<std::vector<ref_message>> inbox;
        std::vector<u64> last_t, acount;
        std::set<std::tuple<int, u64, u64>> acts;                              // agent, t, a
        std::map<std::tuple<int, u64, int>, std::pair<u64, u64>> handled;       // agent, uid, handler -> t, a
        std::vector<std::pair<u64, u64>> steps;
        std::vector<std::pair<int, ref_message>> early;
        u64 sent = 0, rounds = 0, latest_round_size = 0, now = 0;
        std::vector<u64> acting;
        bool runaway = false;
        explicit reference(const script &s) : s(s), local(s.agents), created(s.agents), visible(s.agents), inbox(s.agents), last_t(s.agents, UINT64_MAX), acount(s.agents) {}
        void create(int i) { if(s.exists[i] && !created[i]) created[i] = local[i] = true; }
        u64 next() const {
            u64 r = s.end;
            for(int i = 0; i < s.agents; ++i) if(local[i] && !wake.count(i)) return now;     // new
            for(auto &x : wake) if(local[x.first]) r = std::min(r, x.second);
            return r;
        }
        u64 step(u64 t, u64 upper) {
            this->now = t;
            for(u64 guard = 0;; ++guard) {
                if(guard > 5000) { runaway = true; return s.end; }
                std::vector<int> now;
                for(int i = 0; i < s.agents; ++i) if(local[i]) {
                    if(!wake.count(i)) wake[i] = t;
                    if(wake[i] <= t) now.push_back(i);
                }
                acting.push_back(now.size());
                std::vector<std::pair<int, ref_message>> flush = std::move(early);
                early.clear();
                std::vector<int> births, deaths;
                for(int i : now) {
                    if(handled.size() > 4000 || sent > 8000) { runaway = true; return s.end; }
                    if(last_t[i] == t) ++acount[i]; else { last_t[i] = t; acount[i] = 0; }
                    u64 a = acount[i], w = upper;
                    std::vector<script::send> out;
                    std::vector<ref_message> rest;
                    for(auto &m : inbox[i]) {
                        if(m.due > t) { rest.push_back(m); w = std::min(w, m.due); continue; }
                        for(int k = 0; k < (int)s.handlers[i].size(); ++k) if(s.handlers[i][k].type == m.type) {
                            handled[{i, m.p.uid, k}] = {t, a};
                            w = std::min(w, s.handler_return(m.p.uid, k, t, upper));
                            s.sends(out, h3(m.p.uid, k, 9), i, t, m.p.ttl);
                        }
                    }
                    inbox[i] = rest;
                    acts.insert({i, t, a});
                    std::size_t earlier = out.size();
                    std::vector<bool> before = created;
                    if(i == 0) for(int k = 0; k < s.agents; ++k) if(s.born[k] != UINT64_MAX && s.born[k] <= t) create(k);
                    s.sends(out, h3(s.seed, i, t, a), i, t, s.max_ttl);
                    wake[i] = std::min(w, s.act_return(i, t, a, upper));
                    for(std::size_t k = 0; k < out.size(); ++k) {
                        auto &x = out[k];
                        if(i != 0 ? (bool)visible[x.to] : k < earlier ? (bool)before[x.to] : (bool)created[x.to]) flush.push_back({x.to, ref_message{x.due, x.type, x.p}});
                    }
                    if(!s.warden) { if(s.leaves(i, t)) deaths.push_back(i); }
                    else if(i == 0) for(int k = 0; k < s.agents; ++k) if(local[k] && s.leaves(k, t)) deaths.push_back(k);
                }
                for(int i : deaths) { local[i] = false; wake.erase(i); }
                for(auto &f : flush) {
                    if(!local[f.first]) { unknown = true; return t; }
                    inbox[f.first].push_back(f.second);
                    ++sent;
                    if(wake.count(f.first)) wake[f.first] = std::min(wake[f.first], f.second.due);
                }
                visible = created;
                ++rounds;
                if(t < next()) break;
            }
            u64 r = next();
            steps.push_back({t, r});
            return r;
        }
        bool unknown = false;        // a message to an agent that is gone
    };

    // ------------------------------------------------------------ drivers
    struct driver { int kind; u64 seed, scale; };      // 0: environment.run, 1: environment.step, 2: model.step with windows
    u64 window(const driver &d, u64 lower, u64 end) {
        if(d.kind != 2) return end;
        rng r(mix(d.seed, lower));
        return std::min(end, lower + d.scale * (1 + r.below(r.chance(0.3) ? 20 : 6)));
    }
    void drive(const driver &d, world_state &w) {
        auto &m = w.model;
        if(d.kind == 0) { w.env.run(m); return; }
        m.initialize();
        for(u64 guard = 0; guard < 3000; ++guard) {
            if(d.kind == 1) {
                if(m.time >= m.end) return;
                u64 before = m.time;
                w.env.step(m);
                if(m.time <= before) harness::violated("time-stuck", "environment::step left the model time at ", before);
            } else {
                u64 lower = m.time;
                if(lower >= w.s.end) return;
                u64 next = m.step({lower, window(d, lower, w.s.end)});
                if(next <= lower) harness::violated("time-stuck", "step at ", lower, " returned ", next);
            }
        }
        harness::violated("no-end", "3000 steps without reaching the end");
    }
    void drive(const driver &d, reference &r) {
        for(int i = 0; i < r.s.agents; ++i) if(r.s.born[i] == UINT64_MAX) r.create(i);
        r.visible = r.created;
        for(int i = 0; i < r.s.agents; ++i) if(r.created[i]) {
            std::vector<script::send> out;
            r.s.early(out, i);
            for(auto &x : out) if(r.visible[x.to]) r.early.push_back({x.to, ref_message{x.due, x.type, x.p}});
        }
        u64 t = r.s.start;
        while(t < r.s.end && !r.runaway && !r.unknown) t = r.step(t, window(d, t, r.s.end));
    }
    std::string digits(const std::vector<u64> &d) {
        std::string s;
        for(auto x : d) s += (s.empty() ? "" : "-") + std::to_string(x);
        return s;
    }
    std::string show(const entry &e) {
        if(e.kind == 'a') return harness::text("act t=", e.t, "#", e.a);
        return harness::text("handle t=", e.t, "#", e.a, " message ", e.uid % 100000, " type ", e.type, " due ", e.due, " handler ", e.handler);
    }
    std::string first_lines(const outcome &o, std::size_t per = 60) {
        std::string s;
        for(std::size_t i = 0; i < o.log.size(); ++i) {
            s += harness::text("agent ", i, ":");
            std::size_t n = 0;
            for(auto &e : o.log[i]) { if(++n > per) { s += " ..."; break; } s += " " + show(e) + ";"; }
            s += "\n";
        }
        return s;
    }

    void check_reference(const script &s, const driver &d, const outcome &o, const reference &r, bool messages, bool times) {
        if(times) {
            for(int i = 0; i < s.agents; ++i) {
                u64 last = 0; std::set<std::pair<u64, u64>> mine;
                for(auto &e : o.log[i]) if(e.kind == 'a') {
                    if(e.t < last) harness::violated("time-backwards", "agent ", i, " acts at ", e.t, " after ", last);
                    last = e.t;
                    if(e.upper != window(d, e.t, s.end)) harness::violated("window", "agent ", i, " at ", e.t, " is told that the window ends at ", e.upper);
                    if(e.t < s.start || e.t >= s.end) harness::violated("outside-horizon", "agent ", i, " acts at ", e.t, " outside [", s.start, ",", s.end, ")");
                    if(!r.acts.count({i, e.t, e.a})) harness::violated("unexpected-activation", "agent ", i, " acts at ", e.t, " (activation ", e.a, " at this instant) without having asked for it or having a message due\n", first_lines(o));
                    if(!mine.insert({e.t, e.a}).second) harness::violated("acted-twice", "agent ", i, " at ", e.t);
                }
            }
            std::size_t n = 0;
            for(auto &l : o.log) for(auto &e : l) n += e.kind == 'a';
            if(n != r.acts.size()) for(auto &x : r.acts) {
                bool found = false;
                for(auto &e : o.log[std::get<0>(x)]) if(e.kind == 'a' && e.t == std::get<1>(x) && e.a == std::get<2>(x)) found = true;
                if(!found) harness::violated("missed-activation", "agent ", std::get<0>(x), " does not act at ", std::get<1>(x), " (activation ", std::get<2>(x), ")\n", first_lines(o));
            }
            for(std::size_t i = 0; i < std::min(o.steps.size(), r.steps.size()); ++i) {
                if(o.steps[i] != r.steps[i]) harness::violated("next-event", "the step at ", o.steps[i].first, " returned ", o.steps[i].second, ", expected the step at ", r.steps[i].first, " to return ", r.steps[i].second);
                if(o.times[i] != o.steps[i].second) harness::violated("model-time", "after the step at ", o.steps[i].first, " the model time is ", o.times[i], ", the next event is at ", o.steps[i].second);
            }
            if(o.steps.size() != r.steps.size()) harness::violated("number-of-steps", o.steps.size(), " instead of ", r.steps.size());
        }
        if(messages) {
            std::size_t n = 0;
            for(int i = 0; i < s.agents; ++i) {
                std::set<std::pair<u64, int>> seen;
                for(auto &e : o.log[i]) if(e.kind == 'h') {
                    ++n;
                    if(!seen.insert({e.uid, e.handler}).second) harness::violated("message-duplicated", "agent ", i, " ", show(e), "\n", first_lines(o));
                    if(e.t < e.due) harness::violated("message-early", "agent ", i, " ", show(e), "\n", first_lines(o));
                    auto x = r.handled.find({i, e.uid, e.handler});
                    if(x == r.handled.end()) harness::violated("message-unexpected", "agent ", i, " ", show(e), "\n", first_lines(o));
                    if(x->second.first != e.t) harness::violated("message-late", "agent ", i, " ", show(e), ", expected at ", x->second.first, "\n", first_lines(o));
                }
            }
            if(n != r.handled.size()) for(auto &x : r.handled) {
                bool found = false;
                for(auto &e : o.log[std::get<0>(x.first)]) if(e.kind == 'h' && e.uid == std::get<1>(x.first) && e.handler == std::get<2>(x.first)) found = true;
                if(!found) harness::violated("message-lost", "agent ", std::get<0>(x.first), " never handles message ", std::get<1>(x.first) % 100000, " with handler ", std::get<2>(x.first), ", expected at ", x.second.first, "\n", first_lines(o));
            }
            if(o.messages_sent != r.sent) harness::violated("message-count", "the model counted ", o.messages_sent, " messages, ", r.sent, " were sent");
        }
        (void)d;
    }

    void check_order(const script &s, const outcome &o) {
        double surprise = 0; bool all_forward = true, all_backward = true;
        for(int i = 0; i < s.agents; ++i) {
            auto &l = o.log[i];
            auto &hs = s.handlers[i];
            auto top = [&](int type) { int p = -1000; for(auto &h : hs) if(h.type == type) p = std::max(p, h.priority); return p; };
            for(std::size_t b = 0; b < l.size();) {
                std::size_t e = b;
                while(e < l.size() && l[e].kind == 'h') ++e;
                if(e == l.size()) break;        // the activation failed
                // [b, e) are the handlers of the activation that ends with act e
                std::set<u64> finished;
                for(std::size_t k = b; k < e; ++k) {
                    if(k + 1 == e) break;
                    auto &x = l[k], &y = l[k + 1];
                    if(x.t != y.t || x.a != y.a) harness::violated("handlers-after-act", "agent ", i, ": ", show(y));
                    if(x.uid == y.uid) {
                        if(hs[x.handler].priority < hs[y.handler].priority) harness::violated("handler-priority", "agent ", i, ": handler with priority ", hs[x.handler].priority, " ran before one with ", hs[y.handler].priority, " for the same message\n", first_lines(o));
                    } else {
                        finished.insert(x.uid);
                        if(finished.count(y.uid)) harness::violated("message-interleaved", "agent ", i, ": the handlers of one message are not run together\n", first_lines(o));
                        if(top(x.type) < top(y.type)) harness::violated("message-priority", "agent ", i, ": a message with priority ", top(x.type), " was handled before one with ", top(y.type), "\n", first_lines(o));
                    }
                }
                if(l[e].t != l[b].t) harness::violated("act-before-messages", "agent ", i);
                // order inside groups of equal priority
                std::vector<const entry *> group;
                auto close = [&] {
                    if(s.in_order[i]) {
                        for(std::size_t x = 0; x < group.size(); ++x) for(std::size_t y = x + 1; y < group.size(); ++y) {
                            const entry &p = *group[x], &q = *group[y];
                            bool wrong = q.due < p.due
                                || (q.due == p.due && (q.round < p.round || (q.round == p.round && q.sender == p.sender && q.seq < p.seq)));
                            if(wrong) harness::violated("in-order", "agent ", i, " with in-order scheduling: ", show(p), " (round ", p.round, ") before ", show(q), " (round ", q.round, ")\n", first_lines(o));
                        }
                    } else if(group.size() >= 2) {
                        bool fw = true, bw = true;
                        for(std::size_t x = 0; x + 1 < group.size(); ++x) {
                            const entry &p = *group[x], &q = *group[x + 1];
                            auto key = [](const entry &z) { return std::make_tuple(z.due, z.round, z.sender, z.seq); };
                            if(key(p) < key(q)) bw = false; else fw = false;
                        }
                        surprise += std::lgamma(double(group.size()) + 1);
                        all_forward &= fw; all_backward &= bw;
                    }
                    group.clear();
                };
                for(std::size_t k = b; k < e; ++k) {
                    if(k > b && l[k].uid == l[k - 1].uid) continue;
                    if(!group.empty() && top(group.back()->type) != top(l[k].type)) close();
                    group.push_back(&l[k]);
                }
                close();
                b = e + 1;
            }
        }
        if(surprise > 30) {
            count("order.random_groups_checked");
            if(all_forward || all_backward) harness::violated("random-order", "random scheduling always handles messages in the order ", all_forward ? "of" : "opposite to", " their arrival");
        }
    }
    void compare(const outcome &a, const outcome &b, const char *what, bool structure_only = false) {
        for(std::size_t i = 0; i < a.log.size(); ++i) {
            for(std::size_t k = 0; k < std::min(a.log[i].size(), b.log[i].size()); ++k) {
                auto &x = a.log[i][k], &y = b.log[i][k];
                if(x.kind != y.kind || x.t != y.t || x.a != y.a || x.uid != y.uid || x.handler != y.handler || x.upper != y.upper)
                    harness::violated("result-differs", what, ": agent ", i, " event ", k, ": ", show(x), " / ", show(y));
                if(!structure_only && (x.random[0] != y.random[0] || x.random[1] != y.random[1]))
                    harness::violated("random-stream-differs", what, ": agent ", i, " ", show(x));
            }
            if(a.log[i].size() != b.log[i].size()) harness::violated("result-differs", what, ": agent ", i, " has ", a.log[i].size(), " / ", b.log[i].size(), " events");
        }
        if(a.steps != b.steps) harness::violated("result-differs", what, ": the sequence of steps");
        if(a.messages_sent != b.messages_sent) harness::violated("result-differs", what, ": ", a.messages_sent, " / ", b.messages_sent, " messages");
        if(a.identities != b.identities || a.children != b.children) harness::violated("identity-differs", what);
    }
    void check_identities(const outcome &o, const script &s) {
        std::set<std::vector<u64>> all;
        auto add = [&](const std::vector<u64> &d, const std::string &who) {
            if(d.empty()) harness::violated("identity-empty", who);
            if(!all.insert(d).second) harness::violated("identity-duplicated", who);
        };
        for(int i = 0; i < s.agents; ++i) if(!o.identities[i].empty()) {
            add(o.identities[i], harness::text("agent ", i));
            if(s.nested[i] >= 0 && s.exists[s.nested[i]] && s.born[s.nested[i]] == UINT64_MAX) {
                auto &p = o.identities[s.nested[i]];
                if(o.identities[i].size() != p.size() + 1 || !std::equal(p.begin(), p.end(), o.identities[i].begin()))
                    harness::violated("identity-prefix", "the identity of agent ", i, " does not extend the one of its parent agent ", s.nested[i]);
            }
        }
        for(auto &c : o.children) {
            auto &[p, d] = c.second;
            add(d, harness::text("child ", c.first.second, " of agent ", c.first.first));
            if(d.size() != p.size() + 1 || !std::equal(p.begin(), p.end(), d.begin()))
                harness::violated("identity-prefix", "child ", c.first.second, " of agent ", c.first.first);
        }
    }

    // one parent with a large number of children, created in either way
    void many_children(u64 n, u64 seed) {
        rng r(seed);
        sim_environment e;
        esl::simulation::model m(e, esl::simulation::parameter::parametrization(0, 0, 1));
        esl::agent parent(esl::identity<esl::agent>{r.below(5), r.below(5)});
        esl::entity<esl::agent> &p = parent;
        std::set<std::vector<u64>> seen;
        for(u64 i = 0; i < n; ++i) {
            auto d = r.chance(0.5) ? p.create<esl::agent>().digits : r.chance(0.5) ? p.create<esl::law::property>().digits : m.agents.create_identifier<esl::agent>(p).digits;
            if(d.size() != 3 || d[0] != parent.identifier.digits[0] || d[1] != parent.identifier.digits[1]) harness::violated("identity-prefix", "child ", i, " of many");
            if(!seen.insert(d).second) harness::violated("identity-duplicated", "child ", i, " of many");
        }
        count("identity.many_children", n);
    }

    // one agent tells another n things at once, at many instants: the order in
    // which an agent that asked for random order handles them favours nothing
    struct listener : esl::agent {
        std::vector<std::vector<int>> *orders;
        explicit listener(const esl::identity<listener> &i, std::vector<std::vector<int>> *orders) : agent(esl::identity<esl::agent>(i.digits)), orders(orders) {
            schedule = random;
            register_callback<msg<0>>([this](std::shared_ptr<msg<0>> m, time_interval s, std::seed_seq &) { quiet q; (*this->orders)[s.lower].push_back((int)m->p.seq); return s.upper; }, 0, "listen");
        }
        time_point act(time_interval s, std::seed_seq &) override { return s.upper; }
    };
    struct teller : esl::agent {
        esl::identity<esl::agent> to;
        int n;
        explicit teller(const esl::identity<teller> &i, esl::identity<esl::agent> to, int n) : agent(esl::identity<esl::agent>(i.digits)), to(to), n(n) {}
        time_point act(time_interval s, std::seed_seq &) override {
            for(int i = 0; i < n; ++i) {
                auto m = create_message<msg<0>>(to, s.lower + 1);
                m->p.seq = i;
                m->sender = identifier;
            }
            return s.lower + 1;
        }
    };
    void shuffles(int n, u64 groups, u64 sample, unsigned threads) {
        std::vector<std::vector<int>> orders(groups + 2);
        {
            sim_environment e;
            esl::simulation::model m(e, esl::simulation::parameter::parametrization(sample, 0, groups + 1, 0, threads));
            auto l = m.agents.create<listener>(m.world, &orders);
            m.agents.create<teller>(m.world, l->identifier, n);
            for(u64 t = 0; t < m.end;) t = m.step({t, m.end});
        }
        quiet q;
        std::set<std::vector<int>> seen;
        std::vector<std::vector<u64>> at(n, std::vector<u64>(n));
        for(u64 t = 1; t <= groups; ++t) {
            auto sorted = orders[t];
            std::sort(sorted.begin(), sorted.end());
            for(int i = 0; i < n; ++i) if((int)sorted.size() != n || sorted[i] != i) harness::violated("message-lost", "of ", n, " messages ", sorted.size(), " are handled");
            seen.insert(orders[t]);
            for(int i = 0; i < n; ++i) ++at[i][orders[t][i]];
        }
        for(int i = 0; i < n; ++i) for(int k = 0; k < n; ++k) {
            if(at[i][k] == groups && groups * std::log(n) > 32) harness::violated("random-order", "with random scheduling message ", k, " of ", n, " is always handled as number ", i);
            if(at[i][k] == 0 && groups > 36u * n) harness::violated("random-order", "with random scheduling message ", k, " of ", n, " is never handled as number ", i, " in ", groups, " instants");
        }
        u64 all = 1;
        for(int i = 2; i <= n && all < 1000000; ++i) all *= i;
        if(groups > 36 * all && seen.size() < all) harness::violated("random-order", "only ", seen.size(), " of the ", all, " orders of ", n, " messages ever occur in ", groups, " instants");
        count("order.groups_told", groups);
        event(harness::text(n, " ", groups, " ", seen.size()));
    }

    outcome simulate(const script &s, const driver &d, u64 sample, unsigned threads, bool expect_failure, double p_memory = 0) {
        outcome o;
        world_state w(s, o, sample, threads);
        unsigned before = active() ? threads_created() : 0;
        o.model_threads = w.model.threads;
        try {
            alloc_faults window(p_memory, true);
            drive(d, w);
        } catch(const harness::injected_error &) { o.failure = "agent"; }
        catch(const std::bad_alloc &) { o.failure = "memory"; }
        catch(const std::system_error &) { o.failure = "thread"; }
        catch(const std::logic_error &) { o.failure = "logic"; }
        catch(const esl::exception &e) { o.failure = "esl"; }
        catch(int) { o.failure = "int"; }
        o.threads_created = (active() ? threads_created() : 0) - before;
        o.messages_sent = w.model.messages_sent;
        if(!o.failure.empty() && !expect_failure) harness::violated("unexpected-exception", "the run ended with an exception (", o.failure, ")");
        if(d.kind == 0 && o.failure.empty() && (w.initialized != 1 || w.terminated != 1)) harness::violated("initialize-terminate", "called ", w.initialized, " and ", w.terminated, " times");
        // the population as the model sees it
        quiet q;
        for(int i = 0; i < s.agents; ++i) if(w.actors[i]) {
            bool there = w.model.agents.local_agents_.count(w.actors[i]->identifier);
            bool global = w.model.agents.global_agents_.count(w.actors[i]->identifier);
            if(there != global) harness::violated("population", "agent ", i);
            o.local_counts.push_back(there);
        } else o.local_counts.push_back(2);
        for(auto &l : o.log) for(auto &e : l) o.activations += e.kind == 'a';
        return o;
    }
}

void harness::setup() {}

void harness::run(u64 seed, simrt::options opt, int tier) {
    rng r(mix(seed, 1));
    if(is("C04") && mix(seed, 11) % 12 == 0) {
        static const int sizes[] = {2, 3, 4, 5, 6, 9, 14, 25};
        int n = sizes[r.below(8)];
        u64 groups = n == 2 ? 80 : n == 3 ? 220 : n == 4 && r.chance(0.3) ? 900 : n < 7 ? 37 * n : 40;
        if(!is("C16")) opt.p_thread = 0;
        opt.max_steps = 30'000'000;
        start(opt);
        shuffles(n, groups, r.next(), 1 + (unsigned)r.below(3));
        stop();
        nontrivial();
        return;
    }
    script s;
    // C16: 0..3, 6..8 failure of an agent, 4 recipients that left, 5 failing threads, 9 memory runs out
    u64 k = 0;
    {
        s.seed = mix(seed, 2);
        s.start = r.chance(0.5) ? 0 : r.below(20);
        if(r.chance(0.15)) { static const int bits[] = {8, 15, 16, 31, 32, 33, 40, 53, 62}; s.start += ((u64)1 << bits[r.below(9)]) - r.below(20); }
        if(r.chance(0.2)) { static const int bits[] = {1, 8, 16, 20, 31, 32, 33, 48}; s.scale = (u64)1 << bits[r.below(8)]; }
        s.end = s.start + s.scale * (1 + r.below(r.chance(0.2) ? 60 : 20));
        s.agents = 1 + (int)r.below(r.chance(0.15) ? 14 : 6);
        bool crowd = r.chance(0.03), nobody = r.chance(0.005);
        if(crowd) s.agents = 20 + (int)r.below(25);
        s.busy = 0.1 + 0.6 * r.unit();
        s.max_ttl = (int)r.below(4);
        s.burst = 1 + (int)r.below(r.chance(0.3) ? 6 : 2);
        if(s.busy * s.burst > 1.2) s.max_ttl = std::min(s.max_ttl, 1);
        if(crowd) { s.busy = std::min(s.busy, 0.25); s.max_ttl = std::min(s.max_ttl, 1); s.end = std::min(s.end, s.start + s.scale * 8); }
        bool random_schedules = r.chance(0.5);
        if(is("C16")) k = r.below(10);
        bool deaths_births = (is("C13") && r.chance(0.85)) || k == 4 || (k == 9 && r.chance(0.3)) || ((is("C01") || is("C14")) && r.chance(0.3));
        for(int i = 0; i < s.agents; ++i) {
            rng q(mix(seed, 500 + i));
            s.exists.push_back(!nobody && (i == 0 || keep()));
            std::vector<handler_spec> hs;
            int n = (int)q.below(7);
            if(is("C04")) n += 3;
            bool same = q.chance(0.1);
            for(int k = 0; k < n; ++k) {
                static const int pr[] = {0, 0, 0, 1, -1, 5, 10, 127, -128, 64, -7};
                handler_spec h{same ? 0 : (int)q.below(types), pr[q.below(11)]};
                if(keep()) hs.push_back(h);
            }
            s.handlers.push_back(hs);
            s.in_order.push_back(random_schedules ? q.chance(0.5) : q.chance(is("C04") ? 0.5 : 0.2));
            std::vector<bool> slots;
            for(int k = 0; k < 6; ++k) slots.push_back(keep());
            s.slot.push_back(slots);
            s.nested.push_back(i > 0 && q.chance(0.25) ? (int)q.below(i) : -1);
            s.born.push_back(deaths_births && i > 0 && q.chance(0.4) ? s.start + q.below(s.end - s.start) : UINT64_MAX);
            s.dies.push_back(deaths_births && q.chance(0.3) ? s.start + q.below(s.end - s.start + 1) : UINT64_MAX);
        }
    }
    driver d{(int)r.below(3), mix(seed, 3), s.scale};
    static const unsigned tc[] = {1, 2, 2, 3, 3, 4, 5, 8, 17, 40};
    unsigned threads = tc[r.below(r.chance(0.1) ? 10 : 8)];
    u64 sample = r.chance(0.3) ? r.next() >> r.below(64) : r.below(20);
    bool failing = is("C16");
    double p_memory = 0;
    s.polite = k == 4 ? r.chance(0.1) : r.chance(0.9);
    s.warden = r.chance(0.5) || threads > 1;
    if(is("C01") && threads == 1) s.warden = true;
    // only agent 0 creates agents while others act in parallel
    if(s.warden) for(int i = 0; i < s.agents; ++i) if(s.born[i] != UINT64_MAX && s.nested[i] > 0) s.nested[i] = -1;
    if(is("C01") && threads == 1) threads = 2;
    if(failing) {
        if(k == 4) s.warden = s.warden || threads > 1;
        else if(k == 9) p_memory = std::array<double, 4>{0.0003, 0.001, 0.004, 0.03}[r.below(4)];
        else if(k != 5) { s.fail_agent = (int)r.below(s.agents); s.fail_time = s.start + r.below(s.end - s.start); s.fail_kind = (int)(k < 4 ? k : k - 2); if(r.chance(0.5)) s.fail_too = (int)r.below(s.agents); }
        else opt.p_thread = 0.15;
        if(k == 5 && threads == 1) threads = 3;
    }
    if(!is("C16")) opt.p_thread = 0;
    opt.max_steps = 30'000'000;

    reference ref(s);
    {
        quiet q;
        drive(d, ref);
        if(ref.runaway || ref.handled.size() > (is("C13") || seed % 16 == 0 ? 3000u : 500u) || ref.acts.size() > (is("C13") || seed % 16 == 0 ? 2000u : 300u)) { count("workload.rejected"); return; }
        count("reference.activations", ref.acts.size());
        count("reference.handled", ref.handled.size());
    }
    outcome first, second;
    bool compare_runs = is("C01") || is("C14") || failing;
    if(compare_runs) first = simulate(s, d, sample, 1, failing || ref.unknown);
    start(opt);
    second = simulate(s, d, sample, threads, failing || ref.unknown, p_memory);
    stop();
    quiet q;
    for(int i = 0; i < s.agents; ++i) for(auto &e : second.log[i]) event(text("agent ", i, " ", show(e)));
    for(auto &x : second.steps) event(text("step ", x.first, " -> ", x.second));
    count("driver", 1);
    count(d.kind == 0 ? "driver.run" : d.kind == 1 ? "driver.environment_step" : "driver.windows");
    count("activations", second.activations);
    count("messages", second.messages_sent);
    count("rounds", second.rounds);
    count(text("threads.", threads).c_str());
    model_time(s.end - s.start);
    if(second.activations > 2) nontrivial();

    if(failing) {
        if(s.fail_agent >= 0) {
            if(first.failure != second.failure) violated("failure-differs", "with one thread the run ends with '", first.failure, "', with ", threads, " threads with '", second.failure, "'");
            bool reached = false;
            for(int a : {s.fail_agent, s.fail_too}) if(a >= 0) for(auto &e : second.log[a]) {
                if(s.fail_kind == 0) reached |= e.kind == 'a' && e.t >= s.fail_time;
                if(s.fail_kind == 1) reached |= e.kind == 'h' && e.t >= s.fail_time;
                if(s.fail_kind == 2) reached |= e.kind == 'a' && e.t >= s.fail_time && e.t > 0;
                if(s.fail_kind == 4) reached |= e.kind == 'h' && e.t >= s.fail_time && e.t > 0;
                if(s.fail_kind == 6) reached |= e.kind == 'h' && e.t >= s.fail_time;
                if(s.fail_kind == 3 || s.fail_kind == 5) reached |= e.kind == 'a' && e.t >= s.fail_time;
            }
            if(reached && second.failure.empty()) violated("failure-swallowed", "an exception of agent ", s.fail_agent, " did not reach the caller");
            if(reached && s.fail_kind == 3 && second.failure != "esl") violated("unknown-recipient", "a message to an agent that never existed ended with '", second.failure, "'");
            if(reached && s.fail_kind < 2 && second.failure != "agent") violated("failure-changed", second.failure);
            if(reached && (s.fail_kind == 2 || s.fail_kind == 4) && second.failure != "logic") violated("wake-up-in-the-past", "ended with '", second.failure, "'");
            if(reached && s.fail_kind >= 5 && second.failure != "int") violated("failure-changed", second.failure);
            if(!reached && !second.failure.empty()) violated("unexpected-exception", second.failure);
            if(reached) count("fault.agent_failure");
        } else if(k == 4) {
            if(ref.unknown && second.failure != "esl") violated("unknown-recipient", "a message to a removed agent ended with '", second.failure, "'");
            if(!ref.unknown && !second.failure.empty()) violated("unexpected-exception", second.failure);
            if(ref.unknown) count("fault.unknown_recipient");
        } else if(k == 9) {
            if(second.failure != "" && second.failure != "memory" && !(ref.unknown && second.failure == "esl")) violated("unexpected-exception", second.failure);
            if(ref.unknown && second.failure.empty()) violated("unknown-recipient", "a message to a removed agent is ignored");
            if(second.failure == "memory") count("fault.memory_failure_surfaced");
            if(second.failure.empty()) { if(!ref.unknown) check_reference(s, d, second, ref, true, true); compare(first, second, "one thread / several threads"); }
        } else {
            if(second.failure != "" && second.failure != "thread") violated("unexpected-exception", second.failure);
            if(second.failure == "thread") count("fault.thread_failure_surfaced");
            // nothing was skipped silently
            if(second.failure.empty()) { if(!ref.unknown) check_reference(s, d, second, ref, true, true); compare(first, second, "one thread / several threads"); }
        }
        return;
    }
    if(ref.unknown) {
        // a message for an agent that is gone has to be reported
        if(second.failure != "esl") violated("unknown-recipient", "a message to a removed agent ended with '", second.failure, "'");
        count("fault.unknown_recipient");
        return;
    }
    if(is("C02")) check_reference(s, d, second, ref, true, false);
    if(is("C03")) check_reference(s, d, second, ref, false, true);
    if(is("C13")) {
        check_reference(s, d, second, ref, true, true);
        for(int i = 0; i < s.agents; ++i) {
            int expected = !ref.created[i] ? 2 : ref.local[i] ? 1 : 0;
            if((int)second.local_counts[i] != expected) violated("population", "agent ", i, " is ", second.local_counts[i], " expected ", expected);
        }
        for(auto b : s.born) if(b != UINT64_MAX) count("births");
        for(auto b : s.dies) if(b != UINT64_MAX) count("deaths");
    }
    if(is("C04")) check_order(s, second);
    if(is("C14") && r.chance(0.06)) many_children(r.chance(0.3) ? 66000 + r.below(4000) : r.below(1500), mix(seed, 9));
    if(is("C14")) { check_identities(second, s); check_identities(first, s); compare(first, second, "one thread / several threads"); }
    if(is("C01")) {
        compare(first, second, "one thread / several threads");
        if(second.model_threads != threads) violated("thread-count", threads, " threads were asked for, the model uses ", second.model_threads);
        bool parallel = false;
        for(auto n : ref.acting) parallel |= n > 1;
        if(parallel && threads > 1 && second.threads_created == 0) violated("thread-count", threads, " threads were asked for, none was started");
        if(r.chance(0.05)) for(u64 n : {(u64)0, (u64)255, (u64)256, (u64)257, (u64)65536, 1 + r.below(100000)}) {
            sim_environment e;
            esl::simulation::model m(e, esl::simulation::parameter::parametrization(0, 0, 1, 0, n));
            if(m.threads != std::max<u64>(1, n)) violated("thread-count", n, " threads were asked for, the model uses ", m.threads);
        }
        // distinct streams
        std::map<std::pair<u64, u64>, std::string> streams;
        for(int i = 0; i < s.agents; ++i) {
            for(auto &e : second.log[i]) if(e.kind == 'a') {
                std::string who = text("agent ", i, " (", digits(second.identities[i]), ") at ", e.t, "#", e.a);
                auto k = std::make_pair(e.random[0], e.random[1]);
                if(streams.count(k)) violated("random-stream-shared", who, " and ", streams[k], " draw the same random numbers");
                streams[k] = who;
            }
        }
        if(r.chance(0.3)) {
            outcome other = simulate(s, d, r.chance(0.5) ? sample ^ (u64)1 << r.below(64) : sample + 1 + r.below(1000), 1, false);
            for(int i = 0; i < s.agents; ++i) for(auto &e : other.log[i]) if(e.kind == 'a') {
                auto k = std::make_pair(e.random[0], e.random[1]);
                if(streams.count(k)) violated("random-stream-shared", "two samples draw the same random numbers: agent ", i, " at ", e.t, " and ", streams[k]);
            }
            count("samples_compared");
        }
    }
    (void)tier;
}
