// The Walrasian market (C17): the real price setter and owners of property
// trade in the simulation loop on simulated threads. The numerical solver is
// a stub that answers with multipliers decided by the seed, or finds nothing.
#include "common.hpp"

#include <esl/agent.hpp>
#include <esl/exception.hpp>
#include <esl/computation/environment.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/finance/securities_lending_contract.hpp>
#include <esl/economics/markets/walras/price_setter.hpp>
#include <esl/economics/markets/walras/quote_message.hpp>
#include <esl/economics/owner.hpp>
#include <esl/interaction/transfer.hpp>
#include <esl/simulation/model.hpp>

using namespace simrt;
using esl::identity;
using esl::quantity;
using esl::simulation::time_interval;
using esl::simulation::time_point;
using namespace esl::economics;
using namespace esl::economics::markets;
const char *harness::name = "walras";

namespace {
    typedef std::uint64_t u64;
    typedef std::int64_t i64;
    enum { site_unsolved = site_user, site_slow, site_twice, site_silent, site_partial, site_unstamped };

    struct plan {
        u64 seed = 0, start = 0, end = 10;
        int goods = 1, traders = 2;
        bool shorts = false, drift = true, residual = false;
        double unsolved = 0, slow = 0, twice = 0, silent = 0, partial = 0, unstamped = 0;
        u64 scale = 10;                 // of the amounts demanded
        bool dead = false;              // somebody in the list of participants never answers
        bool mixed = false;             // some own what they also owe
        std::vector<u64> price, lot;
        std::vector<int> currency;
        std::vector<u64> join, leave;   // when traders become participants, and cease to be
        u64 window = 0;                 // length of the windows the simulation is run in
    };
    const esl::economics::iso_4217 *currency_of[] = {&currencies::USD, &currencies::EUR, &currencies::JPY};
    struct trader;
    struct order_seen { int trader; std::map<int, double> units; };
    struct clearing {
        u64 t = 0;
        bool solved = false;
        std::vector<u64> before;                // prices
        std::map<int, double> multiplier;
        std::map<int, std::map<int, double>> orders;    // trader, good: units
        std::map<int, std::pair<std::vector<u64>, std::vector<u64>>> owned;   // as stated in the order: long, short
    };
    struct flow { bool given; int trader; u64 t; std::map<int, i64> goods, lent; i64 cash[3] = {}; };
    struct world_state {
        const plan &p;
        esl::computation::environment env;
        esl::simulation::model model;
        std::vector<std::shared_ptr<esl::law::property>> goods, lent;
        std::shared_ptr<cash> money[3] = {std::make_shared<cash>(currencies::USD), std::make_shared<cash>(currencies::EUR), std::make_shared<cash>(currencies::JPY)};
        std::shared_ptr<walras::price_setter> market;
        std::vector<std::shared_ptr<trader>> traders;
        std::vector<clearing> clearings;
        std::vector<flow> flows;
        std::vector<std::vector<std::tuple<u64, u64, std::vector<u64>>>> quotes;      // trader: time, date, prices
        std::set<std::pair<u64, int>> ordered;    // orders that arrive in time: date, trader
        u64 instant = 0, rounds = 0;
        u64 now = 0;
        u64 faults[6] = {};
        world_state(const plan &p, unsigned threads)
        : p(p), model(env, esl::simulation::parameter::parametrization(0, p.start, p.end, 0, threads)), quotes(p.traders) {}
        int good(const identity<esl::law::property> &k) const {
            for(int i = 0; i < p.goods; ++i) if(goods[i]->identifier.digits == k.digits) return i;
            return -1;
        }
        std::vector<u64> prices() const {
            std::vector<u64> r;
            for(int j = 0; j < p.goods; ++j) {
                auto i = market->traded_properties.find(goods[j]);
                if(i == market->traded_properties.end()) harness::violated("good-lost", "good ", j, " is not traded any more");
                r.push_back((u64)std::get<price>(i->second.type).value);
            }
            return r;
        }
    };
    world_state *W = nullptr;
    bool hit(u64 site, double p) {
        if(!fault((std::uint32_t)site, p)) return false;
        quiet q;
        ++W->faults[site - site_user];
        return true;
    }

    struct order : walras::differentiable_order_message {
        std::map<identity<esl::law::property>, double> units;
        int trader;
        order(const identity<esl::agent> &from, const identity<esl::agent> &to, int trader, std::map<identity<esl::law::property>, double> units)
        : differentiable_order_message(from, to), units(std::move(units)), trader(trader) {}
        std::map<identity<esl::law::property>, esl::variable> excess_demand(const std::map<identity<esl::law::property>, std::tuple<quote, esl::variable>> &quotes) const override {
            std::map<identity<esl::law::property>, esl::variable> r;
            for(auto &[k, u] : units) {
                auto &[q, s] = quotes.find(k)->second;
                // worth a fixed amount of money: u units at the prices that clear the market
                quiet guard;
                auto &c = W->clearings;
                double m = !c.empty() && c.back().t == sent ? c.back().multiplier[W->good(k)] : s;
                r.emplace(k, u * double(q) * m);
            }
            return r;
        }
    };

    // demands of all traders at a date add up to almost nothing, as they do at the prices a solver found
    double wanted(const plan &p, u64 t, int trader, int good, const std::vector<bool> &present) {
        rng r(mix(mix(p.seed, 77 + good), t));
        std::vector<double> d(p.traders);
        double sum = 0;
        int last = -1;
        for(int i = 0; i < p.traders; ++i) {
            i64 v = r.range(-(i64)p.scale, (i64)p.scale);
            if(r.chance(0.2)) v = 0;
            if(!present[i]) continue;
            d[i] = (double)v + (r.chance(0.5) ? 0.5 : 0.25);
            sum += d[i];
            last = i;
        }
        if(last >= 0) d[last] -= sum;
        if(last >= 0 && p.residual) d[last] += (double)r.range(-3, 3);
        return d[trader];
    }

    struct trader : esl::law::owner<esl::law::property> {
        int index;
        std::vector<u64> initial;
        trader(const identity<trader> &i, int index)
        : agent(identity<esl::agent>(i.digits)), esl::law::owner<esl::law::property>(identity<esl::law::owner<esl::law::property>>(i.digits)), index(index) {
            std::function<time_point(std::shared_ptr<walras::quote_message>, time_interval, std::seed_seq &)> f = [this](std::shared_ptr<walras::quote_message> m, time_interval s, std::seed_seq &) {
                quiet q;
                std::vector<u64> v(W->p.goods, 0);
                for(auto &[k, x] : m->proposed) {
                    int j = W->good(k->identifier);
                    if(j < 0) harness::violated("quote-of-nothing", "trader ", this->index, " at ", s.lower);
                    v[j] = (u64)std::get<price>(x.type).value;
                }
                if(m->proposed.size() != (std::size_t)W->p.goods) harness::violated("quote-incomplete", "trader ", this->index, " at ", s.lower, " is quoted ", m->proposed.size(), " of ", W->p.goods, " prices");
                W->quotes[this->index].emplace_back(s.lower, m->received, v);
                return s.upper;
            };
            register_callback<walras::quote_message>(f, 0, "quote");
            // before the properties move
            std::function<time_point(std::shared_ptr<esl::interaction::transfer>, time_interval, std::seed_seq &)> g = [this](std::shared_ptr<esl::interaction::transfer> m, time_interval s, std::seed_seq &) {
                quiet q;
                flow x;
                x.trader = this->index;
                x.t = s.lower;
                x.given = m->transferor.digits == identifier.digits;
                if(m->sender != (x.given ? identifier : W->market->identifier)) harness::violated("transfer-sender", "trader ", this->index);
                if((x.given ? m->transferee.digits : m->transferor.digits) != W->market->identifier.digits || (!x.given && m->transferee.digits != identifier.digits)) harness::violated("transfer-parties", "trader ", this->index, " at ", s.lower, " takes part in a transfer between others");
                for(auto &[k, v] : m->transferred.items) {
                    int j = W->good(k->identifier);
                    if(j >= 0) { x.goods[j] += (i64)v.amount; continue; }
                    bool found = false;
                    for(int l = 0; l < W->p.goods; ++l) if(W->lent[l]->identifier.digits == k->identifier.digits) { x.lent[l] += (i64)v.amount; found = true; }
                    if(found) continue;
                    for(int l = 0; l < 3; ++l) if(k->identifier.digits == W->money[l]->identifier.digits) { x.cash[l] += (i64)v.amount; found = true; }
                    if(!found) harness::violated("transfer-unknown", "trader ", this->index, " at ", s.lower, " trades something the market does not trade");
                }
                W->flows.push_back(x);
                return s.upper;
            };
            register_callback<esl::interaction::transfer>(g, -10, "flow");
        }
        std::pair<u64, u64> position(int j) const {
            auto a = inventory.find(W->goods[j]), b = inventory.find(W->lent[j]);
            return {a == inventory.end() ? 0 : a->second.amount, b == inventory.end() ? 0 : b->second.amount};
        }
        time_point act(time_interval s, std::seed_seq &) override {
            for(auto &[k, m] : inbox) {
                if(m->type != walras::quote_message::code || m->received != s.lower) continue;
                auto &p = W->p;
                std::vector<bool> present(p.traders);
                {
                    rng r(mix(mix(p.seed, 55), s.lower));
                    for(int i = 0; i < p.traders; ++i) present[i] = r.chance(0.85);
                    if(r.chance(0.1)) std::fill(present.begin(), present.end(), false);
                }
                if(!present[index]) continue;
                if(hit(site_silent, p.silent)) continue;
                std::map<identity<esl::law::property>, double> units;
                for(int j = 0; j < p.goods; ++j) {
                    if(hit(site_partial, p.partial)) continue;
                    double u = wanted(p, s.lower, index, j, present);
                    if(!p.shorts && u < 0) u = -std::min(-u, (double)position(j).first);
                    units.emplace(W->goods[j]->identifier, u);
                }
                bool slow = hit(site_slow, p.slow), unstamped = s.lower > 0 && hit(site_unstamped, p.unstamped);
                int copies = 1 + hit(site_twice, p.twice);
                for(int c = 0; c < copies; ++c) {
                    auto o = create_message<order>(W->market->identifier, s.lower + (slow ? 1 : 0), identifier, W->market->identifier, index, units);
                    o->sent = unstamped ? 0 : s.lower;
                    o->received = s.lower + (slow ? 1 : 0);
                    for(int j = 0; j < p.goods; ++j) {
                        auto [l, n] = position(j);
                        if(l || n || mix(p.seed, j) % 2) o->supply.emplace(W->goods[j]->identifier, std::make_tuple(quantity(l), quantity(n)));
                    }
                }
                quiet q;
                if(!slow && !unstamped) W->ordered.insert({s.lower, index});
            }
            return s.upper;
        }
    };
    struct mute : esl::law::owner<esl::law::property> {
        mute(const identity<mute> &i) : agent(identity<esl::agent>(i.digits)), esl::law::owner<esl::law::property>(identity<esl::law::owner<esl::law::property>>(i.digits)) {}
        time_point act(time_interval s, std::seed_seq &) override { return s.upper; }
    };
    struct setter : walras::price_setter {
        setter(const identity<setter> &i, esl::law::property_map<quote> traded)
        : agent(identity<esl::agent>(i.digits)), walras::price_setter(identity<walras::price_setter>(i.digits), std::move(traded)) {}
        time_point act(time_interval s, std::seed_seq &seed) override {
            {
                quiet q;
                W->now = s.lower;
                for(int i = 0; i < W->p.traders; ++i) {
                    identity<esl::law::owner<esl::law::property>> k(W->traders[i]->identifier.digits);
                    if(W->p.join[i] <= s.lower && s.lower < W->p.leave[i]) participants.insert(k);
                    else participants.erase(k);
                }
                if(W->instant != s.lower) { W->instant = s.lower; W->rounds = 0; }
                if(++W->rounds > 100) harness::violated("instant-never-ends", "the market is activated for the ", W->rounds, "th time at ", s.lower);
            }
            return walras::price_setter::act(s, seed);
        }
    };
}

// ---- the numerical solver
namespace esl::economics::markets::tatonnement {
    excess_demand_model::excess_demand_model(law::property_map<quote> initial) : quotes(std::move(initial)) {}
    excess_demand_model::~excess_demand_model() = default;
    std::optional<std::map<identity<law::property>, double>> excess_demand_model::compute_clearing_quotes(std::size_t) {
        quiet q;
        auto &p = W->p;
        clearing c;
        c.t = W->now;
        c.before.resize(p.goods);
        for(auto &[k, v] : quotes) c.before[W->good(k->identifier)] = (u64)std::get<price>(v.type).value;
        for(auto &f : excess_demand_functions_) {
            auto o = std::dynamic_pointer_cast<order>(f);
            if(!o) harness::violated("order-unknown", "at ", c.t);
            if(o->received > c.t) harness::violated("order-early", "an order of trader ", o->trader, " that arrives at ", o->received, " is used at ", c.t);
            if(o->sent != c.t) harness::violated("order-stale", "an order of trader ", o->trader, " sent at ", o->sent, " is used at ", c.t);
            if(c.orders.count(o->trader)) harness::violated("order-twice", "two orders of trader ", o->trader, " are used at ", c.t);
            auto &u = c.orders[o->trader];
            for(auto &[k, v] : o->units) u[W->good(k)] = v;
            std::vector<u64> l(p.goods), n(p.goods);
            for(auto &[k, v] : o->supply) { l[W->good(k)] = std::get<0>(v).amount; n[W->good(k)] = std::get<1>(v).amount; }
            c.owned[o->trader] = {l, n};
        }
        c.solved = !hit(site_unsolved, p.unsolved);
        std::map<identity<law::property>, double> r;
        rng x(mix(mix(p.seed, 1234), c.t * 64 + W->clearings.size()));
        for(int j = 0; j < p.goods; ++j) {
            static const double m[] = {1.0, 0.5, 2.0, 1.25, 0.75, 1.1, 0.9, 1.0 / 11, 3.7};
            double v = p.drift ? m[x.below(9)] : 1.0;
            if(c.before[j] > 1'000'000 && v > 1) v = 0.5;
            c.multiplier[j] = v;
            r.emplace(W->goods[j]->identifier, v);
        }
        W->clearings.push_back(c);
        if(!c.solved) return {};
        return r;
    }
}

void harness::setup() {}

void harness::run(u64 seed, simrt::options opt, int tier) {
    (void)tier;
    rng r(mix(seed, 1));
    plan p;
    p.seed = mix(seed, 2);
    p.start = r.chance(0.7) ? 0 : r.below(4);
    rng r2(mix(seed, 3));
    if(r2.chance(0.15)) p.start += r2.below(1ull << (1 + r2.below(60)));
    if(r2.chance(0.3)) p.window = 1 + r2.below(6);
    p.mixed = r2.chance(0.2);
    p.end = p.start + 2 + r.below(14);
    p.goods = 1 + (int)r.below(4);
    p.traders = 1 + (int)r.below(5);
    p.shorts = r.chance(0.5);
    p.drift = r.chance(0.8);
    p.residual = r.chance(0.2);
    static const u64 scales[] = {3, 10, 100, 5000, 20'000};
    p.scale = scales[r.below(4)];
    u64 top = 20000;
    if(r2.chance(0.1)) p.scale = scales[4];
    else if(r2.chance(0.1)) top = r2.chance(0.5) ? 1'000'000'000'000ull : 100'000'000'000'000ull;
    bool currencies_differ = r2.chance(0.3), joining = r2.chance(0.25);
    for(int i = 0; i < p.traders; ++i) {
        p.join.push_back(joining && r2.chance(0.4) ? p.start + r2.below(p.end - p.start) : 0);
        p.leave.push_back(joining && r2.chance(0.3) ? p.join.back() + 1 + r2.below(10) : ~0ull);
        if(p.join.back() == 0 && p.leave.back() != ~0ull) p.leave.back() += p.start;
    }
    if(r.chance(0.4)) p.unsolved = 0.3;
    if(r.chance(0.3)) p.slow = 0.3;
    if(r2.chance(0.2)) p.unstamped = 0.2;
    if(r.chance(0.3)) p.twice = 0.3;
    if(r.chance(0.4)) p.silent = 0.25;
    if(r.chance(0.4)) p.partial = 0.25;
    p.dead = r.chance(0.2);
    for(int j = 0; j < p.goods; ++j) {
        p.price.push_back(r.chance(0.2) ? 1 + r.below(3) : 1 + r.below(top));
        p.lot.push_back(r.chance(0.7) ? 1 : 1 + r.below(10));
        p.currency.push_back(currencies_differ ? (int)r2.below(3) : 0);
    }
    static const unsigned tc[] = {1, 1, 2, 2, 3, 4};
    unsigned threads = tc[r.below(6)];
    opt.p_thread = 0;
    opt.max_steps = 60'000'000;

    auto w = std::make_unique<world_state>(p, threads);
    W = w.get();
    esl::law::property_map<quote> traded;
    for(int j = 0; j < p.goods; ++j) {
        w->goods.push_back(std::make_shared<esl::law::property>(identity<esl::law::property>{3, (u64)j}));
        traded.insert({w->goods[j], quote(price((i64)p.price[j], *currency_of[p.currency[j]]), p.lot[j])});
    }
    w->market = w->model.create<setter>(w->model.world, traded);
    for(int j = 0; j < p.goods; ++j) w->lent.push_back(std::make_shared<finance::securities_lending_contract>(w->market->identifier, w->market->identifier, w->goods[j]->identifier, quantity(1)));
    std::vector<std::vector<std::pair<u64, u64>>> start_position(p.traders);
    constexpr u64 wealth = 4'000'000'000'000'000'000ull;
    for(int i = 0; i < p.traders; ++i) {
        w->traders.push_back(w->model.create<trader>(w->model.world, i));
        auto &t = *w->traders.back();
        if(p.join[i] == 0) w->market->participants.insert(identity<esl::law::owner<esl::law::property>>(t.identifier.digits));
        for(auto &m : w->money) t.inventory.insert({m, quantity(wealth)});
        for(int j = 0; j < p.goods; ++j) {
            u64 l = r.chance(0.7) ? r.below(2 * p.scale) : 0;
            if(l) t.inventory.insert({w->goods[j], quantity(l)});
            u64 n = p.mixed && p.shorts && r2.chance(0.4) ? r2.below(p.scale) : 0;
            if(n) t.inventory.insert({w->lent[j], quantity(n)});
            start_position[i].push_back({l, n});
        }
    }
    if(p.dead) {
        auto m = w->model.create<mute>(w->model.world);
        w->market->participants.insert(identity<esl::law::owner<esl::law::property>>(m->identifier.digits));
    }
    std::string what;
    std::vector<std::vector<u64>> price_after;      // per step
    start(opt);
    try {
        for(u64 t = p.start, upper = p.end; t < p.end; ) {
            if(p.window) upper = std::min(p.end, t + p.window);
            while(t < upper) t = w->model.step({t, upper});
        }
    } catch(const std::exception &e) { what = e.what(); if(what.empty()) what = "?"; }
    stop();
    quiet q;
    if(!what.empty()) violated("unexpected-exception", what);
    model_time(p.end - p.start);

    // ---- the clearings, one after the other
    std::vector<u64> known = p.price;
    std::vector<std::vector<std::pair<u64, u64>>> position = start_position;
    std::vector<std::array<i64, 3>> money(p.traders, {(i64)wealth, (i64)wealth, (i64)wealth});
    std::map<u64, std::vector<std::vector<u64>>> after;     // date: prices after each of its clearings
    u64 trades = 0, unsolved = 0;
    for(std::size_t k = 0; k < w->clearings.size(); ++k) {
        auto &c = w->clearings[k];
        event(text("cleared at ", c.t, " with ", c.orders.size(), " orders", c.solved ? "" : ", not solved"));
        if(c.before != known) violated("price-changed", "at ", c.t, " the prices are not those of the last clearing");
        if(k && w->clearings[k - 1].t == c.t) violated("cleared-twice", "at ", c.t);
        if(c.solved) for(int j = 0; j < p.goods; ++j) {
            u64 v = (u64)(i64)((double)known[j] * c.multiplier[j]);
            known[j] = v ? v : 1;
        } else ++unsolved;
        after[c.t].push_back(known);
        // what moved
        std::map<int, std::array<std::vector<i64>, 2>> moved;       // trader: goods, lent
        std::map<int, std::array<i64, 3>> paid;
        for(int i = 0; i < p.traders; ++i) paid[i] = {};
        for(int i = 0; i < p.traders; ++i) moved[i] = {std::vector<i64>(p.goods), std::vector<i64>(p.goods)};
        for(auto &f : w->flows) if(f.t == c.t) {
            i64 s = f.given ? -1 : 1;
            for(auto &[j, v] : f.goods) moved[f.trader][0][j] += s * v;
            for(auto &[j, v] : f.lent) moved[f.trader][1][j] += s * v;
            for(int l = 0; l < 3; ++l) paid[f.trader][l] -= s * f.cash[l];
        }
        std::vector<double> total(p.goods), error(p.goods);
        std::vector<i64> allotted(p.goods);
        std::vector<int> count_(p.goods);
        for(auto &[i, o] : c.orders) for(auto &[j, u] : o) { error[j] += std::trunc(u); ++count_[j]; }
        for(int i = 0; i < p.traders; ++i) {
            auto o = c.orders.find(i);
            std::array<i64, 3> low{}, high{};
            for(int j = 0; j < p.goods; ++j) {
                i64 g = moved[i][0][j], l = moved[i][1][j], net = g - l;
                double u = 0;
                bool asked = c.solved && o != c.orders.end() && o->second.count(j);
                if(asked) u = o->second.at(j);
                if(!asked && (g || l)) violated("trade-unasked", "trader ", i, " trades good ", j, " at ", c.t, " without an order that was cleared");
                allotted[j] += net;
                if(asked) {
                    double bound = 2 + std::ceil(std::fabs(error[j]) / count_[j]);
                    if(std::fabs((double)net - u) > bound) violated("allotment", "trader ", i, " demands ", u, " of good ", j, " at ", c.t, " and is allotted ", net);
                    auto [a, b] = position[i][j];
                    // what was sold comes out of what is owned first, what is bought covers what is lent first
                    i64 covered = net > 0 ? std::min<i64>(net, b) : 0, bought = net > 0 ? net - covered : 0;
                    i64 sold = net < 0 ? std::min<i64>(-net, a) : 0, borrowed = net < 0 ? -net - sold : 0;
                    u64 want_long = a + bought - sold, want_short = b - covered + borrowed;
                    if(a + g != want_long || b + l != want_short) violated("position", "trader ", i, " has ", a, " and owes ", b, " of good ", j, ", trades ", net, " at ", c.t, " and then has ", (i64)a + g, " and owes ", (i64)b + l);
                    position[i][j] = {want_long, want_short};
                    auto value = [&](i64 n, u64 price) { return (i64)((u64)n * price / p.lot[j]); };
                    i64 x = value(bought, known[j]) - value(sold, known[j]) - value(borrowed, known[j]);
                    i64 y = value(covered, std::min(known[j], c.before[j])), z = value(covered, std::max(known[j], c.before[j]));
                    low[p.currency[j]] += x + y;
                    high[p.currency[j]] += x + z;
                    if(net) ++trades;
                }
            }
            for(int l = 0; l < 3; ++l) {
                if(paid[i][l] < low[l] || paid[i][l] > high[l]) violated("payment", "trader ", i, " pays ", paid[i][l], " ", std::string(currency_of[l]->code.data(), 3), " at ", c.t, " for trades worth ", low[l], low[l] == high[l] ? std::string() : text(" to ", high[l]));
                money[i][l] -= paid[i][l];
            }
        }
        for(int j = 0; j < p.goods; ++j) if(allotted[j]) violated("not-cleared", "at ", c.t, " the traders together are allotted ", allotted[j], " of good ", j);
    }
    for(auto &f : w->flows) if(!after.count(f.t)) violated("transfer-unexpected", "trader ", f.trader, " at ", f.t);
    if(w->prices() != known) violated("price-final", "the prices are not those of the last clearing");
    std::set<std::pair<u64, int>> used;
    for(auto &c : w->clearings) for(auto &[i, o] : c.orders) used.insert({c.t, i});
    for(auto &[t, i] : w->ordered) if(!used.count({t, i})) violated("order-ignored", "the order of trader ", i, " at ", t, " is not part of the clearing");
    for(int i = 0; i < p.traders; ++i) {
        auto &t = *w->traders[i];
        for(int l = 0; l < 3; ++l) {
            auto c = t.inventory.find(w->money[l]);
            i64 has = c == t.inventory.end() ? 0 : (i64)c->second.amount;
            if(has != money[i][l]) violated("money", "trader ", i, " has ", has, " instead of ", money[i][l]);
        }
        for(int j = 0; j < p.goods; ++j) if(t.position(j) != position[i][j]) violated("inventory", "trader ", i, " good ", j);
    }
    // ---- quotes: one per market date, with the prices of the last clearing
    for(int i = 0; i < p.traders; ++i) {
        std::set<u64> dates;
        for(auto &[t, d, v] : w->quotes[i]) {
            if(t != d) violated("quote-late", "trader ", i, " is told at ", t, " of the market at ", d);
            if(!dates.insert(t).second) violated("quote-repeated", "trader ", i, " at ", t);
            auto a = after.lower_bound(t);
            std::vector<u64> e = p.price;
            if(a != after.begin()) e = std::prev(a)->second.back();
            if(v != e) violated("quote-price", "trader ", i, " at ", t, " is quoted other prices than those of the last clearing");
        }
        // a new participant is quoted prices from the next date on at the latest
        u64 from = p.join[i] ? p.join[i] + (p.join[i] > p.start) : p.start, to = std::min(p.end, p.leave[i]);
        for(u64 t : dates) if(t < p.join[i] || t > p.leave[i]) violated("quote-unasked", "trader ", i, " is quoted prices at ", t, " and takes part from ", p.join[i], " to ", p.leave[i]);
        for(u64 t = from; t < to; ++t) if(!dates.count(t)) violated("quote-missed", "trader ", i, " is not quoted prices at ", t);
    }
    // ---- recorded prices and clearings agree
    auto &out = w->market->output_clearing_prices_->values;
    std::size_t k = 0;
    for(auto &c : w->clearings) {
        if(k == out.size()) violated("price-unrecorded", "of the clearing at ", c.t);
        auto &[t, v] = out[k++];
        auto e = after[c.t].back();
        std::multiset<u64> a(e.begin(), e.end()), b;
        for(auto &x : v) b.insert((u64)x.value);
        if(t != c.t || a != b) violated("price-recorded", "of the clearing at ", c.t);
    }
    if(k != out.size()) violated("price-recorded", "without a clearing");
    count("clearings", w->clearings.size());
    count("clearings_unsolved", unsolved);
    count("trades", trades);
    count("quotes_checked", w->quotes[0].size());
    static const char *names[] = {"fault.no_solution", "fault.order_delayed", "fault.order_duplicated", "fault.participant_silent", "fault.order_without_a_good", "fault.order_unstamped"};
    for(int k = 0; k < 6; ++k) if(w->faults[k]) count(names[k], w->faults[k]);
    if(trades) nontrivial();
}
