// Transfers of property between agents (C07): owners of fungible and
// infungible property and of cash run for real inside the simulation loop, on
// simulated threads. Every agent decides from its own inventory what it sends
// where and when; a ledger of all transfers predicts every inventory.
#include "common.hpp"

#include <esl/agent.hpp>
#include <esl/exception.hpp>
#include <esl/computation/environment.hpp>
#include <esl/economics/accounting/inventory.hpp>
#include <esl/economics/cash.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/owner.hpp>
#include <esl/interaction/transfer.hpp>
#include <esl/simulation/model.hpp>

#include <array>
#include <iostream>

using namespace simrt;
using esl::quantity;
using esl::simulation::time_interval;
using esl::simulation::time_point;
using esl::law::property;
using esl::economics::accounting::inventory_filter;
using esl::economics::accounting::insufficent_inventory;
const char *harness::name = "estate";

namespace {
    typedef std::uint64_t u64;
    struct grain : property, esl::economics::fungible { using property::property; };
    struct deed : property, esl::economics::infungible { using property::property; };
    typedef esl::law::owner<property> base_owner;

    constexpr int grains = 3, deeds = 4, currencies_ = 2, kinds = grains + deeds + currencies_;
    bool infungible(int k) { return k >= grains && k < grains + deeds; }
    struct world_state;

    struct effect { int agent; bool out; u64 due; int kind; u64 amount; };
    struct snapshot { u64 t; std::vector<u64> inventory, view; };
    struct plan {
        u64 seed = 0, start = 0, end = 10;
        int agents = 2;
        std::vector<int> type;                      // 0 everything, 1 plain, 2 grain and cash
        std::vector<bool> exists;
        std::vector<int> parent, manager;           // created by that agent; who sends its first kind of property
        std::vector<std::vector<bool>> slot;
        std::vector<std::vector<u64>> endowment;
        double busy = 0.5;
        u64 wide = 0;                               // added to amounts, to what a double can not tell apart
        bool shared = false;                        // both parties get the same message object
        int fraud = -1; u64 fraud_time = 0; int fraud_kind = 0;
    };
    struct party {
        int index = -1;
        world_state *w = nullptr;
        u64 activations = 0, last = UINT64_MAX, repeated = 0;
        std::vector<std::array<u64, 3>> reserved;           // kind, amount, until
        std::map<int, u64> claimed;                         // from the agents it manages
        virtual ~party() = default;
        virtual base_owner &self() = 0;
        virtual void view(std::vector<u64> &) = 0;
        time_point decide(time_interval s);
    };
    struct sim_model : esl::simulation::model { using esl::simulation::model::model; };
    struct world_state {
        const plan &p;
        esl::computation::environment env;
        sim_model model;
        std::vector<std::shared_ptr<property>> things;
        std::vector<std::shared_ptr<property>> twins;       // other objects with the same identity
        std::vector<party *> parties;
        std::vector<std::shared_ptr<esl::agent>> agents;
        std::vector<std::vector<effect>> effects;           // by sender
        std::vector<std::vector<snapshot>> seen;            // by agent
        std::vector<u64> frauds;
        world_state(const plan &p, u64 sample, unsigned threads)
        : p(p), model(env, esl::simulation::parameter::parametrization(sample, p.start, p.end, 0, threads))
        , parties(p.agents), agents(p.agents), effects(p.agents), seen(p.agents) {}
    };
    int kind_of(world_state &w, const property &x) {
        for(int k = 0; k < kinds; ++k) if(w.things[k]->identifier.digits == x.identifier.digits) return k;
        return x.identifier.digits[0] == 77 ? kinds : -1;
    }
    void record(party &x, u64 t) {
        auto &w = *x.w;
        auto &o = x.self();
        snapshot shot{t, std::vector<u64>(kinds, 0), std::vector<u64>(kinds + 1, UINT64_MAX)};
        for(auto &[k, v] : o.inventory) {
            int i = kind_of(w, *k);
            if(i == kinds) continue;            // the forged deed
            if(i < 0) harness::violated("unknown-property", "agent ", x.index, " owns something that was never created");
            shot.inventory[i] += v.amount;
        }
        x.view(shot.view);
        quiet q;
        w.seen[x.index].push_back(shot);
    }

    time_point party::decide(time_interval s) {
        auto &p = w->p;
        record(*this, s.lower);
        if(last != s.lower) { last = s.lower; repeated = 0; } else ++repeated;
        rng r(mix(mix(p.seed, index * 7919 + 13), s.lower * 64 + repeated));
        auto &own = w->seen[index].back().inventory;
        u64 next = r.chance(0.7) ? s.lower + 1 + r.below(4) : s.upper;
        if(next > s.upper) next = s.upper;
        if(repeated > 0 || !p.exists[index]) return next;

        auto available = [&](int k) -> u64 {
            if(k == 0 && p.manager[index] >= 0) return 0;
            u64 a = own[k];
            for(auto &x : reserved) if((int)x[0] == k && x[2] >= s.lower) a -= std::min(a, x[1]);
            return a;
        };
        auto post = [&](int from, int to, u64 out, u64 in, const inventory_filter<property> &f, const std::vector<std::pair<int, u64>> &items) {
            auto a = esl::reinterpret_identity_cast<base_owner>(w->agents[from]->identifier), b = esl::reinterpret_identity_cast<base_owner>(w->agents[to]->identifier);
            auto m = self().create_message<esl::interaction::transfer>(w->agents[from]->identifier, out, self().identifier, w->agents[from]->identifier, a, b, f);
            m->sent = s.lower;
            if(p.shared && out == in) {     // the same object for both parties
                m->recipient = w->agents[from]->identifier;
                auto n = std::make_shared<esl::interaction::transfer>(*m);
                n->recipient = w->agents[to]->identifier;
                n->received = in;
                self().send_message(n);
            } else {
                auto n = self().create_message<esl::interaction::transfer>(w->agents[to]->identifier, in, self().identifier, w->agents[to]->identifier, a, b, f);
                n->sent = s.lower;
            }
            if(r.chance(0.1)) {             // somebody else hears about it
                int third = (int)r.below(p.agents);
                if(third != from && third != to && w->agents[third]) self().create_message<esl::interaction::transfer>(w->agents[third]->identifier, out, self().identifier, w->agents[third]->identifier, a, b, f);
            }
            quiet q;
            if(from != to) for(auto &[k, v] : items) {
                w->effects[index].push_back({from, true, std::max(out, s.lower), k, v});
                w->effects[index].push_back({to, false, std::max(in, s.lower), k, v});
            }
        };
        if(p.fraud == index && s.lower >= p.fraud_time) {
            int k = (int)r.below(kinds);
            int to = (int)r.below(p.agents);
            if(to == index || !w->agents[to]) return next;
            if(p.fraud_kind == 1) k = (int)r.below(grains);
            if(p.fraud_kind == 2) k = grains + (int)r.below(deeds);
            inventory_filter<property> f;
            if(r.chance(0.4)) for(int j = 0; j < kinds; ++j)        // among property that it does own
                if(j != k && !infungible(j) && r.chance(0.4)) f.insert(w->twins[j], quantity(r.below(available(j) / 2 + 1)));
            u64 amount = infungible(k) ? 1 : (p.wide ? ~u64(0) - 200 : 1000000000) + r.below(100);
            if(p.fraud_kind == 2) {             // a deed in more than one piece
                f.insert(w->twins[k], quantity(2 + r.below(3)));
                post(index, to, s.lower, s.lower, f, {});
                quiet q;
                w->frauds.push_back(s.lower);
                return next;
            }
            if(infungible(k) && own[k]) return next;
            // the deed may arrive in the meantime: another one that nobody has
            if(infungible(k)) f.insert(std::make_shared<deed>(esl::identity<property>{77, 77}), quantity(1));
            else f.insert(w->twins[k], quantity(amount));
            post(index, to, s.lower, s.lower, f, {});
            quiet q;
            w->frauds.push_back(s.lower);
            return next;
        }
        if(!r.chance(p.busy)) return next;
        for(int i = 0; i < p.agents; ++i) if(p.manager[i] == index && r.chance(0.4)) {
            u64 rest = p.endowment[i][0] - claimed[i];
            u64 v = r.chance(0.2) ? rest : r.below(1 + rest / 2);
            int to = (int)r.below(p.agents);
            u64 out = s.lower + r.below(3), in = r.chance(0.5) ? out : s.lower + r.below(4);
            bool enabled = p.slot[index][r.below(p.slot[index].size())];
            if(!enabled) continue;
            claimed[i] += v;
            inventory_filter<property> f;
            f.insert(w->twins[0], quantity(v));
            post(i, to, out, in, f, {{0, v}});
            simrt::count("transfers.by_others");
        }
        int n = 1 + (int)r.below(3);
        for(int i = 0; i < n; ++i) {
            std::vector<std::pair<int, u64>> items;
            inventory_filter<property> f;
            int to = r.chance(0.1) ? index : (int)r.below(p.agents);
            u64 out = r.chance(0.6) ? s.lower : r.chance(0.2) && s.lower > 0 ? s.lower - 1 : s.lower + 1 + r.below(3);
            u64 in = r.chance(0.6) ? out : r.chance(0.2) && s.lower > 0 ? s.lower - 1 : s.lower + r.below(5);
            for(int k = 0; k < kinds; ++k) {
                if(!r.chance(0.4)) continue;
                u64 a = available(k);
                u64 v = infungible(k) ? !r.chance(0.15) : r.chance(0.15) ? 0 : r.chance(0.2) ? a : 1 + r.below(std::max<u64>(a, 1));
                if(p.wide && !infungible(k) && a > 8 && r.chance(0.4)) v = a - r.below(4);
                u64 pick = r.next();
                if(v > a) continue;
                items.push_back({k, v});
                // sometimes in two parts
                u64 part = v > 1 && pick % 5 == 0 ? 1 + (pick >> 8) % (v - 1) : v;
                f.insert(pick % 2 ? w->twins[k] : w->things[k], quantity(part));
                if(part < v) f.insert(pick & 64 ? w->twins[k] : w->things[k], quantity(v - part));
            }
            // a deed can not arrive before it leaves
            for(auto &[k, v] : items) if(infungible(k)) in = std::max(in, out);
            bool enabled = p.slot[index][r.below(p.slot[index].size())];
            if(!enabled || !w->agents[to] || items.empty()) continue;
            {
                quiet q;
                for(auto &[k, v] : items) reserved.push_back({(u64)k, v, std::max({out, in, s.lower})});
                simrt::count("transfers");
                if(to == index) simrt::count("transfers.to_self");
            }
            post(index, to, out, in, f, items);
        }
        return next;
    }
}

namespace {
    // kinds of agents
    struct landlord : virtual esl::law::owner<grain>, virtual esl::law::owner<deed>, virtual esl::law::owner<esl::economics::cash>, esl::identifiable_as<landlord>, party {
        explicit landlord(const esl::identity<landlord> &i)
        : agent(esl::identity<esl::agent>(i.digits)), esl::law::owner<property>(esl::identity<base_owner>(i.digits)), esl::law::owner<grain>(esl::identity<base_owner>(i.digits))
        , esl::law::owner<deed>(esl::identity<base_owner>(i.digits)), esl::law::owner<esl::economics::cash>(esl::identity<base_owner>(i.digits)) {}
        base_owner &self() override { return *this; }
        void view(std::vector<u64> &v) override {
            std::fill(v.begin(), v.end(), 0);
            for(auto &[k, q] : owner<grain>::properties.items) v[kind_of(*w, *k)] += q.amount;
            for(auto &[k, q] : owner<esl::economics::cash>::properties.items) v[kind_of(*w, *k)] += q.amount;
            for(auto &k : owner<deed>::properties.items) v[kind_of(*w, *k)] += 1;     // one more entry for the forged deed
        }
        time_point act(time_interval s, std::seed_seq &) override { return decide(s); }
    };
    struct hermit : esl::law::owner<property>, esl::identifiable_as<hermit>, party {
        explicit hermit(const esl::identity<hermit> &i) : agent(esl::identity<esl::agent>(i.digits)), esl::law::owner<property>(esl::identity<base_owner>(i.digits)) {}
        base_owner &self() override { return *this; }
        void view(std::vector<u64> &) override {}
        time_point act(time_interval s, std::seed_seq &) override { return decide(s); }
    };
    struct merchant : virtual esl::law::owner<grain>, virtual esl::law::owner<esl::economics::cash>, esl::identifiable_as<merchant>, party {
        explicit merchant(const esl::identity<merchant> &i)
        : agent(esl::identity<esl::agent>(i.digits)), esl::law::owner<property>(esl::identity<base_owner>(i.digits)), esl::law::owner<grain>(esl::identity<base_owner>(i.digits))
        , esl::law::owner<esl::economics::cash>(esl::identity<base_owner>(i.digits)) {}
        base_owner &self() override { return *this; }
        void view(std::vector<u64> &v) override {
            for(int k = 0; k < kinds; ++k) if(!infungible(k)) v[k] = 0;
            for(auto &[k, q] : owner<grain>::properties.items) v[kind_of(*w, *k)] += q.amount;
            for(auto &[k, q] : owner<esl::economics::cash>::properties.items) v[kind_of(*w, *k)] += q.amount;
        }
        time_point act(time_interval s, std::seed_seq &) override { return decide(s); }
    };
    template<class A> A *make(world_state &w, int i) {
        std::shared_ptr<A> a;
        if(w.p.parent[i] >= 0) a = w.model.agents.create<A>(*static_cast<esl::entity<esl::agent> *>(w.agents[w.p.parent[i]].get()));
        else a = w.model.create<A>();
        a->index = i; a->w = &w;
        w.agents[i] = a;
        w.parties[i] = a.get();
        return a.get();
    }
    template<class T, class O> void endow(world_state &w, O &o, int k, u64 v) {
        auto t = std::dynamic_pointer_cast<T>(w.things[k]);
        u64 first = v / 3;      // in two parts
        if(first) o.esl::law::template owner<T>::take(t, quantity(first));
        o.esl::law::template owner<T>::take(std::dynamic_pointer_cast<T>(w.twins[k]), quantity(v - first));
    }

    // operations on inventories against a plain map
    void algebra(rng &r) {
        std::vector<std::shared_ptr<property>> t;
        for(u64 k = 0; k < 4; ++k) t.push_back(std::make_shared<grain>(esl::identity<property>{5, k}));
        esl::law::property_map<quantity> m;
        inventory_filter<grain> f;
        std::map<u64, u64> rm, rf;
        auto get = [&](auto &x, u64 k) { u64 s = 0; for(auto &[a, b] : x) if(a->identifier.digits[1] == k) s += b.amount; return s; };
        u64 wide = r.chance(0.3) ? u64(1) << 56 : 0;
        for(int n = 0; n < 30; ++n) {
            u64 op = r.below(7), k = r.below(4), v = r.below(6) + wide * r.below(2);
            inventory_filter<grain> g;
            std::map<u64, u64> rg;
            for(int i = 0; i < 3; ++i) if(r.chance(0.6)) { u64 kk = r.below(4), vv = r.below(4) + wide * r.below(2); g.insert(std::static_pointer_cast<grain>(t[kk]), quantity(vv)); rg[kk] += vv; }
            bool expected = true, done = true;
            auto covered = [&](std::map<u64, u64> &x) { for(auto &[a, b] : rg) if(x[a] < b) return false; return true; };
            try {
                if(op == 0) { rf[k] += v; f.insert(std::static_pointer_cast<grain>(t[k]), quantity(v)); }
                if(op == 1) { expected = rf[k] >= v; if(expected) rf[k] -= v; f.erase(std::static_pointer_cast<grain>(t[k]), quantity(v)); }
                if(op == 2) { for(auto &[a, b] : rg) rm[a] += b; g.insert_into(m); }
                if(op == 3) { expected = covered(rm); if(expected) for(auto &[a, b] : rg) rm[a] -= b; g.erase_from(m); }
                if(op == 5) { rm[k] += 2; auto &q = m.emplace(t[k], quantity(0)).first->second; ++q; q++; }
                if(op == 6 && rm[k] >= 2) { rm[k] -= 2; auto &q = m.find(t[k])->second; --q; q--; }
                if(op == 4) { expected = covered(rf); if(expected) for(auto &[a, b] : rg) rf[a] -= b; f.erase(g); }
            } catch(const insufficent_inventory &) { done = false; }
            if(done != expected) harness::violated("withdrawal", "operation ", op, expected ? " was refused although there is enough" : " was accepted although there is not enough");
            for(u64 j = 0; j < 4; ++j) {
                if(get(m, j) != rm[j]) harness::violated("inventory-amount", "after operation ", op, done ? "" : " (refused)", " the inventory holds ", get(m, j), " of property ", j, " instead of ", rm[j]);
                if(get(f.items, j) != rf[j]) harness::violated("inventory-amount", "after operation ", op, done ? "" : " (refused)", " the filter holds ", get(f.items, j), " of property ", j, " instead of ", rf[j]);
            }
        }
        simrt::count("algebra.operations", 30);
    }
}

void harness::setup() {}

void harness::run(u64 seed, simrt::options opt, int tier) {
    (void)tier;
    rng r(mix(seed, 1));
    plan p;
    p.seed = mix(seed, 2);
    p.start = r.chance(0.5) ? 0 : r.below(10);
    if(r.chance(0.2)) p.start += u64(1) << (20 + r.below(43));
    p.end = p.start + 2 + r.below(14);
    p.agents = 2 + (int)r.below(5);
    p.busy = 0.2 + 0.8 * r.unit();
    p.shared = r.chance(0.3);
    p.wide = r.chance(0.25) ? u64(1) << (31 + r.below(31)) : 0;
    for(int i = 0; i < p.agents; ++i) {
        rng q(mix(seed, 100 + i));
        p.type.push_back((int)q.below(3));
        p.exists.push_back(keep());
        p.parent.push_back(i && q.chance(0.3) ? (int)q.below(i) : -1);
        p.manager.push_back(q.chance(0.3) ? (int)q.below(p.agents) : -1);
        if(p.manager[i] == i) p.manager[i] = -1;
        std::vector<bool> slots;
        for(int k = 0; k < 5; ++k) slots.push_back(keep());
        p.slot.push_back(slots);
        std::vector<u64> e;
        for(int k = 0; k < kinds; ++k) e.push_back(infungible(k) ? 0 : !q.chance(0.6) ? 0 : p.wide ? p.wide + q.below(30) : q.below(30));
        p.endowment.push_back(e);
    }
    for(int k = grains; k < grains + deeds; ++k) p.endowment[r.below(p.agents)][k] = 1;
    if(r.chance(0.2)) { p.fraud = (int)r.below(p.agents); p.fraud_time = p.start + r.below(p.end - p.start); p.fraud_kind = (int)r.below(3); }
    static const unsigned tc[] = {1, 1, 2, 2, 3, 4, 7};
    unsigned threads = tc[r.below(7)];
    opt.p_thread = 0;
    opt.max_steps = 60'000'000;

    auto w = std::make_unique<world_state>(p, 0, threads);
    for(int k = 0; k < kinds; ++k) for(auto *v : {&w->things, &w->twins}) {
        if(k < grains) v->push_back(std::make_shared<grain>(esl::identity<esl::law::property>{1, (u64)k}));
        else if(k < grains + deeds) v->push_back(std::make_shared<deed>(esl::identity<esl::law::property>{2, (u64)k}));
        else v->push_back(std::make_shared<esl::economics::cash>(k == grains + deeds ? esl::economics::currencies::USD : esl::economics::currencies::EUR));
    }
    for(int i = 0; i < p.agents; ++i) {
        landlord *l = nullptr; merchant *m = nullptr; hermit *h = nullptr;
        if(p.type[i] == 0) l = make<landlord>(*w, i); else if(p.type[i] == 1) h = make<hermit>(*w, i); else m = make<merchant>(*w, i);
        for(int k = 0; k < kinds; ++k) {
            u64 v = p.endowment[i][k];
            if(!v) continue;
            if(k < grains && l) endow<grain>(*w, *l, k, v);
            else if(k < grains && m) endow<grain>(*w, *m, k, v);
            else if(k >= grains + deeds && l) endow<esl::economics::cash>(*w, *l, k, v);
            else if(k >= grains + deeds && m) endow<esl::economics::cash>(*w, *m, k, v);
            else {
                w->parties[i]->self().inventory.insert({w->things[k], quantity(v)});
                if(l) l->esl::law::owner<deed>::properties.insert(std::dynamic_pointer_cast<deed>(w->things[k]));
            }
        }
        record(*w->parties[i], p.start);        // the endowment itself
        for(int k = 0; k < kinds; ++k) if(w->seen[i].back().inventory[k] != p.endowment[i][k])
            violated("endowment", "agent ", i, " took ", p.endowment[i][k], " of property ", k, " and owns ", w->seen[i].back().inventory[k]);
        w->seen[i].pop_back();
    }
    bool refused = false, failed = false;
    std::string what;
    u64 last = p.start;
    start(opt);
    try {
        for(u64 t = p.start; t < p.end; ) { last = t; t = w->model.step({t, p.end}); }
        last = p.end;
    } catch(const insufficent_inventory &e) { refused = true; what = e.what(); }
    catch(const esl::economics::accounting::duplicate_infungible &e) { (p.fraud_kind == 2 && !w->frauds.empty() ? refused : failed) = true; what = e.what(); }
    catch(const std::exception &e) { failed = true; what = e.what(); }
    stop();
    quiet q;
    if(failed) violated("unexpected-exception", what);
    for(int i = 0; i < p.agents; ++i) for(auto &s : w->seen[i]) { std::string l = text("agent ", i, " at ", s.t, ":"); for(auto v : s.inventory) l += text(" ", v); event(l); }
    model_time(last - p.start);
    if(!w->frauds.empty()) {
        count("fault.overdraft", w->frauds.size());
        if(!refused) violated("overdraft-accepted", "agent ", p.fraud, " sent property it does not own at ", w->frauds[0], " and no failure was reported");
    } else if(refused) violated("withdrawal-refused", "at ", last, ": ", what);
    // the ledger; in the instant of a failure not all transfers are processed
    u64 upto = refused ? last : p.end;
    std::size_t n = 0, checked = 0;
    for(int i = 0; i < p.agents; ++i) for(auto &e : w->effects[i]) n += e.due < upto;
    for(int i = 0; i < p.agents; ++i) {
        auto &s = w->seen[i];
        for(std::size_t k = 0; k < s.size(); ++k) {
            if(s[k].t >= upto || (k + 1 < s.size() && s[k + 1].t == s[k].t)) continue;   // the last activation of the instant counts
            std::vector<u64> expected = p.endowment[i];
            for(auto &by : w->effects) for(auto &e : by) if(e.agent == i && e.due <= s[k].t) expected[e.kind] += e.out ? -e.amount : e.amount;
            for(int j = 0; j < kinds; ++j) if(s[k].inventory[j] != expected[j])
                violated("ledger", "at ", s[k].t, " agent ", i, " owns ", s[k].inventory[j], " of property ", j, " instead of ", expected[j]);
            ++checked;
        }
    }
    for(int i = 0; i < p.agents; ++i) for(auto &s : w->seen[i]) {
        if(s.t >= upto) continue;
        for(int k = 0; k < kinds; ++k) {
            if(s.view[k] != UINT64_MAX && s.view[k] != s.inventory[k]) violated("views-differ", "at ", s.t, " agent ", i, " owns ", s.inventory[k], " of property ", k, ", its typed view says ", s.view[k]);
            if(infungible(k) && s.inventory[k] > 1) violated("infungible-duplicated", "at ", s.t, " agent ", i, " owns property ", k, " ", s.inventory[k], " times");
        }
    }
    // nothing is created or destroyed: what the agents own at the end and what is still due
    if(!refused) {
        std::vector<u64> total(kinds, 0), first(kinds, 0);
        for(int i = 0; i < p.agents; ++i) {
            for(int k = 0; k < kinds; ++k) first[k] += p.endowment[i][k];
            for(auto &[k, v] : w->parties[i]->self().inventory) if(kind_of(*w, *k) < kinds) total[kind_of(*w, *k)] += v.amount;
            for(auto &e : w->effects[i]) if(e.due >= p.end) total[e.kind] += e.out ? -e.amount : e.amount;
        }
        for(int k = 0; k < kinds; ++k) if(total[k] != first[k]) violated("conservation", "there were ", first[k], " units of property ", k, ", at the end there are ", total[k]);
    }
    count("snapshots_checked", checked);
    count(text("threads.", threads).c_str());
    if(n > 1) nontrivial();
    if(r.chance(0.3)) algebra(r);
}
