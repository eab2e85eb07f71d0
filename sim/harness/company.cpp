// Companies, their shareholders and bondholders (C15): the real classes run in
// the simulation loop on simulated threads. Scripted dividend policies, share
// registers that change, and market makers that send quotes.
#include "common.hpp"

#include <esl/agent.hpp>
#include <esl/exception.hpp>
#include <esl/computation/environment.hpp>
#include <esl/economics/company.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/finance/bondholder.hpp>
#include <esl/economics/finance/dividend.hpp>
#include <esl/economics/finance/shareholder.hpp>
#include <esl/economics/markets/walras/quote_message.hpp>
#include <esl/simulation/model.hpp>

using namespace simrt;
using esl::simulation::time_interval;
using esl::simulation::time_point;
using namespace esl::economics;
using namespace esl::economics::finance;
const char *harness::name = "company";

namespace {
    typedef std::uint64_t u64;
    typedef std::map<share_class, std::uint64_t> holding;
    constexpr int things = 4;

    struct policy { u64 announce, ex, pay, tag; bool operator==(const policy &o) const { return std::tie(announce, ex, pay, tag) == std::tie(o.announce, o.ex, o.pay, o.tag); } };
    struct plan {
        u64 seed = 0, start = 1, end = 20;
        int companies = 1, holders = 2, bonds = 1, markets = 1;
        std::vector<std::vector<policy>> policies;              // per company, in time
        std::vector<std::vector<std::vector<u64>>> registers;   // company, epoch -> shareholders (index)
        std::vector<bool> quoting;
        bool extra_wakes = false;
        u64 pace = 1;                                           // all times are multiples of this
        std::vector<u64> windows;                               // ends of the steps of the simulation
        u64 slot(u64 t) const { return (t - start) / pace; }
        int parties() const { return holders + companies; }     // companies own shares, too
    };
    struct announcement { int company; u64 t, tag, ex; bool genuine; };
    struct record_seen { int holder; u64 t; holding shares; };
    struct world_state {
        const plan &p;
        esl::computation::environment env;
        esl::simulation::model model;
        std::vector<std::shared_ptr<esl::law::property>> things_, twins;
        std::vector<std::shared_ptr<esl::agent>> companies, holders, bondholders;
        std::vector<std::vector<std::pair<u64, u64>>> acts;         // company: time, tag of the policy or 0
        std::vector<std::vector<announcement>> received;            // holder
        std::vector<std::vector<record_seen>> records;              // company
        std::vector<std::vector<std::array<u64, 4>>> sent;          // market: time, thing, value, currency
        std::vector<std::vector<std::pair<u64, std::map<int, std::pair<u64, int>>>>> prices;     // holder, then bondholder: time -> thing -> value, currency
        world_state(const plan &p, unsigned threads)
        : p(p), model(env, esl::simulation::parameter::parametrization(0, p.start, p.end, 0, threads))
        , companies(p.companies), holders(p.holders), bondholders(p.bonds), acts(p.companies), received(p.parties()), records(p.companies), sent(p.markets), prices(p.holders + p.bonds + p.companies) {}
        const std::shared_ptr<esl::agent> &party(int h) const { return h < p.holders ? holders[h] : companies[h - p.holders]; }
    };
    // what holder h owns of company c at time t
    holding shares_of(const plan &p, int h, int c, u64 t) {
        holding s;
        rng r(mix(mix(p.seed, 31 + h * 64 + c), p.slot(t) / 4));
        if(r.chance(0.25)) return s;
        int classes = 1 + (int)r.below(2);
        for(int k = 0; k < classes; ++k) s[share_class((std::uint8_t)k)] = r.below(100);
        return s;
    }
    policy upcoming(const plan &p, int c, u64 t) {
        for(auto &x : p.policies[c]) if(x.pay >= t) return x;
        return {0, 0, 0, 0};
    }
    const std::vector<u64> &registered(const plan &p, int c, u64 t) { return p.registers[c][(p.slot(t) / 5) % p.registers[c].size()]; }
    iso_4217 currency_of(u64 k) { return k ? currencies::EUR : currencies::USD; }

    iso_4217 denomination(u64 tag, int k) { return currency_of((tag + k) % 3 == 0); }
    std::map<share_class, std::tuple<std::uint64_t, price>> dividends(u64 tag) {
        std::map<share_class, std::tuple<std::uint64_t, price>> d;
        for(int k = 0; k < 1 + (int)(tag % 3); ++k) d.emplace(share_class((std::uint8_t)k), std::make_tuple(tag + 1000 * k, price((std::int64_t)(mix(tag, k) >> 2), denomination(tag, k))));
        return d;
    }
    template<class A> void listen(A &a, int h, world_state *w) {
        std::function<time_point(std::shared_ptr<dividend_announcement_message>, time_interval, std::seed_seq &)> f = [&a, h, w](std::shared_ptr<dividend_announcement_message> m, time_interval s, std::seed_seq &) {
            for(int c = 0; c < w->p.companies; ++c) {
                esl::identity<company> id(w->companies[c]->identifier.digits);
                auto x = shares_of(w->p, h, c, s.lower);
                if(x.empty()) a.shares.erase(id); else a.shares[id] = x;
            }
            quiet q;
            announcement n{-1, s.lower, 0, m->policy.ex_dividend_date, m->recipient == a.identifier};
            for(int c = 0; c < w->p.companies; ++c) if(w->companies[c]->identifier == m->sender) n.company = c;
            if(!m->policy.dividend_per_share.empty()) n.tag = std::get<0>(m->policy.dividend_per_share.begin()->second);
            if(n.company >= 0) {
                policy z{m->policy.announcement_date, m->policy.ex_dividend_date, m->policy.payable_date, n.tag};
                for(auto &x : w->p.policies[n.company]) if(x.tag == n.tag && !(x == z)) n.genuine = false;
                auto d = dividends(n.tag);
                bool same = d.size() == m->policy.dividend_per_share.size();
                int k = 0;
                for(auto &[c, v] : m->policy.dividend_per_share) { same = same && d.count(c) && std::get<0>(d[c]) == std::get<0>(v) && std::get<1>(d[c]).value == std::get<1>(v).value && std::get<1>(v).valuation == denomination(n.tag, k); ++k; }
                n.genuine = n.genuine && same;
            }
            w->received[h].push_back(n);
            return s.upper;
        };
        a.template register_callback<dividend_announcement_message>(f, 10, "holdings change first");
    }
    template<class M> int thing_of(world_state &w, const M &k) {
        for(int i = 0; i < things; ++i) if(w.things_[i]->identifier.digits == k->identifier.digits) return i;
        harness::violated("unknown-property", "a price for something that was never quoted");
    }
    template<class M> void note_prices(world_state &w, int index, u64 t, M &m) {
        std::map<int, std::pair<u64, int>> v;
        for(auto &[k, p] : m) {
            int i = thing_of(w, k);
            if(v.count(i)) harness::violated("price-duplicated", "two prices for one thing");
            v[i] = {(u64)p.value, p.valuation == currencies::USD ? 0 : 1};
        }
        quiet q;
        w.prices[index].push_back({t, v});
    }
    struct firm : company {
        int index; world_state *w;
        firm(const esl::identity<firm> &i, int index, world_state *w)
        : agent(esl::identity<esl::agent>(i.digits)), company(esl::identity<company>(i.digits), esl::law::jurisdiction(esl::geography::countries::US, currencies::USD)), index(index), w(w) {
            std::function<time_point(std::shared_ptr<dividend_record>, time_interval, std::seed_seq &)> f = [this](std::shared_ptr<dividend_record> m, time_interval s, std::seed_seq &) {
                quiet q;
                record_seen r{-1, s.lower, m->shares_on_record};
                for(int h = 0; h < this->w->p.parties(); ++h) if(this->w->party(h)->identifier == m->sender) r.holder = h;
                this->w->records[this->index].push_back(r);
                return s.upper;
            };
            register_callback<dividend_record>(f, 0, "record");
            listen(*this, w->p.holders + index, w);
        }
        std::optional<dividend_policy> upcoming_dividend(time_interval s, std::seed_seq &) override {
            auto x = upcoming(w->p, index, s.lower);
            if(!x.tag) return {};
            return dividend_policy(x.announce, x.ex, {s.lower, s.upper}, x.pay, currencies::USD, dividends(x.tag));
        }
        time_point act(time_interval s, std::seed_seq &seed) override {
            note_prices(*w, w->p.holders + w->p.bonds + index, s.lower, prices);
            shareholders.clear();
            for(auto h : registered(w->p, index, s.lower)) shareholders[esl::identity<shareholder>(w->party((int)h)->identifier.digits)] = shares_of(w->p, (int)h, index, s.lower);
            {
                quiet q;
                w->acts[index].push_back({s.lower, upcoming(w->p, index, s.lower).tag});
            }
            auto next = company::act(s, seed);
            // the next policy has to be looked at some time after this one is over
            auto x = upcoming(w->p, index, s.lower);
            if(x.tag && s.lower >= x.pay) next = std::min<time_point>(next, s.lower + 1);
            if(w->p.extra_wakes && mix(w->p.seed, s.lower * 16 + index) % 3 == 0) next = std::min<time_point>(next, s.lower + (1 + mix(w->p.seed, s.lower) % 2) * w->p.pace);
            return next;
        }
    };
    struct investor : shareholder {
        int index; world_state *w;
        investor(const esl::identity<investor> &i, int index, world_state *w)
        : agent(esl::identity<esl::agent>(i.digits)), shareholder(esl::identity<shareholder>(i.digits)), index(index), w(w) {
            listen(*this, index, w);
        }
        time_point act(time_interval s, std::seed_seq &) override { note_prices(*w, index, s.lower, prices); return s.upper; }
    };
    struct lender : bondholder {
        int index; world_state *w;
        lender(const esl::identity<lender> &i, int index, world_state *w)
        : agent(esl::identity<esl::agent>(i.digits)), bondholder(esl::identity<bondholder>(i.digits)), index(index), w(w) {}
        time_point act(time_interval s, std::seed_seq &) override { note_prices(*w, w->p.holders + index, s.lower, bond_prices); return s.upper; }
    };
    struct market : esl::agent {
        int index; world_state *w;
        market(const esl::identity<market> &i, int index, world_state *w) : agent(esl::identity<esl::agent>(i.digits)), index(index), w(w) {}
        time_point act(time_interval s, std::seed_seq &) override {
            rng r(mix(mix(w->p.seed, 999 + index), s.lower));
            if(w->p.quoting[index] && r.chance(0.8)) {
                // every market quotes things of its own
                u64 due = s.lower + (r.chance(0.5) ? 0 : w->p.pace);
                esl::law::property_map<markets::quote> q;
                std::vector<std::array<u64, 4>> list;
                for(int k = index; k < things; k += w->p.markets) if(r.chance(0.7)) {
                    u64 v = 1 + r.below(r.chance(0.8) ? 1000 : u64(1) << 62), cur = r.below(10) == 0;
                    q.emplace(r.chance(0.5) ? w->things_[k] : w->twins[k], markets::quote(price((std::int64_t)v, currency_of(cur))));
                    list.push_back({due, (u64)k, v, cur});
                }
                auto post = [&](const esl::identity<esl::agent> &to) {
                    auto m = create_message<markets::walras::quote_message>(to, due, identifier, to, q);
                    m->sent = s.lower; m->received = due;
                };
                for(auto &h : w->holders) post(h->identifier);
                for(auto &h : w->bondholders) post(h->identifier);
                for(auto &h : w->companies) post(h->identifier);
                quiet qq;
                for(auto &x : list) w->sent[index].push_back(x);
                return std::min<time_point>(s.upper, s.lower + 2 * w->p.pace);      // never two quotes for the same instant
            }
            return std::min<time_point>(s.upper, s.lower + (2 + r.below(3)) * w->p.pace);
        }
    };
}

void harness::setup() {}

void harness::run(u64 seed, simrt::options opt, int tier) {
    (void)tier;
    rng r(mix(seed, 1));
    plan p;
    p.seed = mix(seed, 2);
    p.start = r.below(3);
    if(r.chance(0.3)) p.start = 0;
    if(r.chance(0.3)) p.pace = u64(1) << (1 + r.below(50));
    if(r.chance(0.2)) p.start += u64(1) << (20 + r.below(40));
    u64 length = 5 + r.below(25);
    p.end = p.start + length * p.pace;
    if(r.chance(0.5)) for(u64 t = 1 + r.below(6); t < length; t += 1 + r.below(12)) p.windows.push_back(p.start + t * p.pace);
    p.windows.push_back(p.end);
    p.companies = 1 + (int)r.below(3);
    p.holders = 1 + (int)r.below(4);
    p.bonds = (int)r.below(3);
    p.markets = 1 + (int)r.below(2);
    p.extra_wakes = r.chance(0.4);
    for(int c = 0; c < p.companies; ++c) {
        rng q(mix(seed, 200 + c));
        std::vector<policy> v;
        u64 t = q.below(4), tag = 1, paid = 0;      // in units of the pace
        int n = (int)q.below(4);
        for(int k = 0; k < n; ++k) {
            policy x;
            x.announce = t;
            x.ex = t + q.below(q.chance(0.8) ? 5 : 60);
            x.pay = std::max<u64>(t + q.below(7), k ? paid + 1 : 0);
            x.tag = 100 * (c + 1) + tag++;
            // sometimes the next one is announced before this one is over
            t = (q.chance(0.3) ? x.announce : x.pay) + 1 + q.below(6);
            paid = x.pay;
            for(auto d : {&x.announce, &x.ex, &x.pay}) *d = p.start + *d * p.pace;
            if(keep()) v.push_back(x);
        }
        p.policies.push_back(v);
        std::vector<std::vector<u64>> e;
        for(int k = 0; k < 4; ++k) {
            std::vector<u64> s;
            for(int h = 0; h < p.parties(); ++h) if(q.chance(h < p.holders ? 0.7 : 0.3)) s.push_back(h);
            e.push_back(s);
        }
        p.registers.push_back(e);
    }
    for(int m = 0; m < p.markets; ++m) p.quoting.push_back(keep());
    static const unsigned tc[] = {1, 1, 2, 2, 3, 4};
    unsigned threads = tc[r.below(6)];
    opt.p_thread = 0;
    opt.max_steps = 60'000'000;

    auto w = std::make_unique<world_state>(p, threads);
    for(u64 k = 0; k < things; ++k) for(auto *v : {&w->things_, &w->twins}) v->push_back(std::make_shared<esl::law::property>(esl::identity<esl::law::property>{3, k}));
    for(int i = 0; i < p.companies; ++i) w->companies[i] = w->model.create<firm>(w->model.world, i, w.get());
    for(int i = 0; i < p.holders; ++i) w->holders[i] = w->model.create<investor>(w->model.world, i, w.get());
    for(int i = 0; i < p.bonds; ++i) w->bondholders[i] = w->model.create<lender>(w->model.world, i, w.get());
    for(int i = 0; i < p.markets; ++i) w->model.create<market>(w->model.world, i, w.get());
    std::string what;
    start(opt);
    try {
        u64 t = p.start;
        for(u64 e : p.windows) while(t < e) t = w->model.step({t, e});
    } catch(const std::exception &e) { what = e.what(); if(what.empty()) what = "?"; }
    stop();
    quiet q;
    if(!what.empty()) violated("unexpected-exception", what);
    model_time(p.end - p.start);

    u64 announced = 0, answered = 0;
    std::vector<std::multiset<std::pair<u64, u64>>> expected(p.parties());      // time, tag
    for(int c = 0; c < p.companies; ++c) {
        std::set<u64> done;
        auto &a = w->acts[c];
        for(std::size_t k = 0; k < a.size(); ++k) {
            event(text("company ", c, " acts at ", a[k].first, " policy ", a[k].second));
            if(!a[k].second) continue;
            policy x = upcoming(p, c, a[k].first);
            u64 wake = a[k].first < x.announce ? x.announce : a[k].first < x.pay ? x.pay : UINT64_MAX;
            // an activation due to a message may come in between
            if(wake < p.end && (k + 1 == a.size() || a[k + 1].first > wake))
                violated("date-missed", "company ", c, " acted at ", a[k].first, " knowing of the date ", wake, " and acts next at ", k + 1 == a.size() ? u64(0) : a[k + 1].first);
            if(a[k].first >= x.announce && done.insert(x.tag).second) for(auto h : registered(p, c, a[k].first)) { expected[h].insert({a[k].first, x.tag}); ++announced; }
        }
    }
    for(int h = 0; h < p.parties(); ++h) {
        std::multiset<std::pair<u64, u64>> seen;
        for(auto &a : w->received[h]) {
            event(text("holder ", h, " at ", a.t, " hears of ", a.tag));
            if(a.company < 0 || !a.genuine) violated("announcement-content", "holder ", h, " at ", a.t, " receives an announcement that differs from the policy");
            seen.insert({a.t, a.tag});
        }
        for(auto &e : expected[h]) if(!seen.count(e)) violated("announcement-missed", "holder ", h, " never heard of policy ", e.second, " announced at ", e.first);
        for(auto &e : seen) if(seen.count(e) != expected[h].count(e)) violated("announcement-unexpected", "holder ", h, " heard of policy ", e.second, " at ", e.first, ", ", seen.count(e), " times, expected ", expected[h].count(e));
        // the answers
        for(auto &a : w->received[h]) {
            auto s = shares_of(p, h, a.company, a.t);
            if(s.empty() || a.t > a.ex) continue;
            bool found = false;
            for(auto &x : w->records[a.company]) found |= x.holder == h && x.t == a.t && x.shares == s;
            if(!found) violated("record-missed", "holder ", h, " of company ", a.company, " did not submit its shares after the announcement at ", a.t);
            ++answered;
        }
    }
    for(int c = 0; c < p.companies; ++c) for(auto &x : w->records[c]) {
        if(x.holder < 0) violated("record-sender", "company ", c);
        if(x.shares != shares_of(p, x.holder, c, x.t)) violated("record-content", "holder ", x.holder, " submits shares of company ", c, " it does not have at ", x.t);
        bool open = false;
        for(auto &a : w->received[x.holder]) open |= a.company == c && a.t <= x.t && x.t <= a.ex;
        if(!open) violated("record-unexpected", "holder ", x.holder, " submits a record to company ", c, " at ", x.t, " without a dividend that is still due");
    }
    // everybody knows the last price of everything
    std::size_t checked = 0;
    for(std::size_t i = 0; i < w->prices.size(); ++i) {
        auto &v = w->prices[i];
        for(std::size_t k = 0; k < v.size(); ++k) {
            if(k + 1 < v.size() && v[k + 1].first == v[k].first) continue;
            std::map<int, std::pair<u64, int>> e;
            std::map<int, u64> at;
            for(auto &m : w->sent) for(auto &x : m) if(x[0] <= v[k].first && (!at.count((int)x[1]) || at[(int)x[1]] <= x[0])) { at[(int)x[1]] = x[0]; e[(int)x[1]] = {x[2], (int)x[3]}; }
            if(e != v[k].second) {
                std::string d;
                for(auto &[a, b] : e) d += text(" ", a, ":", b.first, b.second ? "E" : "U");
                d += " but knows";
                for(auto &[a, b] : v[k].second) d += text(" ", a, ":", b.first, b.second ? "E" : "U");
                violated("price-stale", "at ", v[k].first, (int)i < p.holders ? " shareholder " : (int)i < p.holders + p.bonds ? " bondholder " : " company ", (int)i < p.holders ? i : (int)i < p.holders + p.bonds ? i - p.holders : i - p.holders - p.bonds, " was last quoted", d);
            }
            ++checked;
        }
    }
    count("announcements", announced);
    count("records_answered", answered);
    count("price_snapshots_checked", checked);
    if(announced + checked > 2) nontrivial();
}
