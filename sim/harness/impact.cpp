// The impact function market (C19): the real market and participants in the
// simulation loop on simulated threads. What the participants order, which of
// their orders are late, doubled or missing, and how prices react is decided
// by the seed.
#include "common.hpp"

#include <esl/agent.hpp>
#include <esl/exception.hpp>
#include <esl/computation/environment.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/markets/impact_function/market.hpp>
#include <esl/economics/markets/impact_function/order.hpp>
#include <esl/economics/markets/impact_function/quote.hpp>
#include <esl/economics/owner.hpp>
#include <esl/simulation/model.hpp>

#include <cmath>
#include <deque>

using namespace simrt;
using esl::identity;
using esl::simulation::time_interval;
using esl::simulation::time_point;
using namespace esl::economics;
using namespace esl::economics::markets;
const char *harness::name = "impact";

namespace {
    typedef std::uint64_t u64;
    typedef std::int64_t i64;
    typedef impact_function::order_message order;
    enum { site_slow = site_user, site_twice, site_silent, site_unasked, site_throw, site_unstamped };
    const esl::economics::iso_4217 *currency_of[] = {&currencies::USD, &currencies::EUR, &currencies::JPY};

    struct plan {
        u64 seed = 0, start = 0, end = 10, window = 0;
        int goods = 1, traders = 2;
        double slow = 0, twice = 0, silent = 0, unasked = 0, failing = 0, unstamped = 0;
        u64 scale = 10;
        bool dead = false;
        double strength = 0.1, exponent = 1;
        std::vector<i64> price;
        std::vector<u64> lot, join, leave;
        std::vector<int> currency;
    };
    double impact(const plan &p, double v) { return v < 0 ? -p.strength * std::pow(-v, p.exponent) : p.strength * std::pow(v, p.exponent); }

    struct trader;
    struct activation { u64 t; std::vector<i64> before, after; std::map<int, std::map<int, i64>> orders; };     // orders in time: trader, good: net amount
    struct world_state {
        const plan &p;
        esl::computation::environment env;
        esl::simulation::model model;
        std::vector<std::shared_ptr<esl::law::property>> goods;
        std::shared_ptr<esl::law::property> stranger;
        std::shared_ptr<impact_function::market> market;
        std::vector<std::shared_ptr<trader>> traders;
        std::vector<activation> activations;
        std::vector<std::vector<std::tuple<u64, u64, std::vector<i64>>>> quotes;
        u64 instant = 0, rounds = 0, late = 0, doubled = 0;
        std::set<u64> thrown;
        u64 faults[6] = {};
        world_state(const plan &p, unsigned threads)
        : p(p), model(env, esl::simulation::parameter::parametrization(0, p.start, p.end, 0, threads)), quotes(p.traders) {}
        int good(const identity<esl::law::property> &k) const {
            for(int i = 0; i < p.goods; ++i) if(goods[i]->identifier.digits == k.digits) return i;
            return -1;
        }
        std::vector<i64> prices() const {
            std::vector<i64> r;
            for(int j = 0; j < p.goods; ++j) {
                auto i = market->traded_properties.find(goods[j]);
                if(i == market->traded_properties.end()) harness::violated("good-lost", "good ", j, " is not traded any more");
                r.push_back(std::get<price>(i->second.type).value);
            }
            if(market->traded_properties.size() != (std::size_t)p.goods) harness::violated("good-invented", market->traded_properties.size(), " goods are traded instead of ", p.goods);
            return r;
        }
    };
    world_state *W = nullptr;
    bool hit(u64 site, double p) {
        if(!fault((std::uint32_t)site, p)) return false;
        quiet q;
        ++W->faults[site - site_user];
        return true;
    }

    struct trader : esl::law::owner<esl::law::property> {
        int index;
        std::deque<std::pair<u64, std::map<int, i64>>> pending;      // orders in time that the market has not seen yet
        trader(const identity<trader> &i, int index)
        : agent(identity<esl::agent>(i.digits)), esl::law::owner<esl::law::property>(identity<esl::law::owner<esl::law::property>>(i.digits)), index(index) {
            std::function<time_point(std::shared_ptr<impact_function::quote_message>, time_interval, std::seed_seq &)> f = [this](std::shared_ptr<impact_function::quote_message> m, time_interval s, std::seed_seq &) {
                quiet q;
                std::vector<i64> v(W->p.goods, 0);
                for(auto &[k, x] : m->proposed) {
                    int j = W->good(k->identifier);
                    if(j < 0) harness::violated("quote-of-nothing", "trader ", this->index, " at ", s.lower);
                    auto &y = std::get<price>(x.type);
                    if(x.lot != W->p.lot[j] || !(y.valuation == *currency_of[W->p.currency[j]])) harness::violated("quote-unit", "good ", j, " at ", s.lower);
                    v[j] = y.value;
                }
                if(m->sender != W->market->identifier) harness::violated("quote-sender", "trader ", this->index, " at ", s.lower);
                if(m->proposed.size() != (std::size_t)W->p.goods) harness::violated("quote-incomplete", "trader ", this->index, " at ", s.lower, " is quoted ", m->proposed.size(), " of ", W->p.goods, " prices");
                W->quotes[this->index].emplace_back(s.lower, m->received, v);
                return s.upper;
            };
            register_callback<impact_function::quote_message>(f, 0, "quote");
        }
        time_point act(time_interval s, std::seed_seq &) override {
            auto &p = W->p;
            bool quoted = false;
            for(auto &[k, m] : inbox) quoted |= m->type == impact_function::quote_message::code && m->received == s.lower;
            rng r(mix(mix(p.seed, 100 + index), s.lower));
            bool unasked = !quoted && p.join[index] <= s.lower && s.lower < p.leave[index] && hit(site_unasked, p.unasked);
            if((!quoted && !unasked) || hit(site_silent, p.silent)) return next(s, r);
            std::map<int, std::pair<u64, order::side_t>> volumes;
            for(int j = 0; j < p.goods; ++j) if(r.chance(0.8))
                volumes[j] = {r.chance(0.1) ? 0 : r.below(p.scale), r.chance(0.5) ? order::buy : order::sell};
            bool slow = hit(site_slow, p.slow), unstamped = s.lower > 0 && hit(site_unstamped, p.unstamped);
            int copies = 1 + hit(site_twice, p.twice);
            bool strange = r.chance(0.05);
            {
                quiet q;
                if(slow || unstamped) ++W->late;
                else {
                    auto &o = pending.emplace_back(s.lower, std::map<int, i64>()).second;
                    for(auto &[j, v] : volumes) o[j] = v.second == order::buy ? (i64)v.first : -(i64)v.first;
                }
                if(copies > 1) ++W->doubled;
            }
            if(r.chance(0.05)) create_message<impact_function::quote_message>(W->market->identifier, s.lower, identifier, W->market->identifier);     // not an order
            for(int c = 0; c < copies; ++c) {
                auto o = create_message<order>(W->market->identifier, s.lower + (slow ? 1 : 0), identifier, W->market->identifier);
                o->sent = unstamped ? r.below(s.lower) : s.lower;
                for(auto &[j, v] : volumes) o->volumes.emplace(W->goods[j], std::make_pair(v.first, v.second));
                if(strange) o->volumes.emplace(W->stranger, std::make_pair(u64(5), order::buy));
            }
            return next(s, r);
        }
        // wakes up by itself now and then
        time_point next(time_interval s, rng &r) const { return W->p.unasked > 0 && r.chance(0.3) ? std::min<time_point>(s.upper, s.lower + 1 + r.below(3)) : s.upper; }
    };
    struct mute : esl::law::owner<esl::law::property> {
        mute(const identity<mute> &i) : agent(identity<esl::agent>(i.digits)), esl::law::owner<esl::law::property>(identity<esl::law::owner<esl::law::property>>(i.digits)) {}
        time_point act(time_interval s, std::seed_seq &) override { return s.upper; }
    };
    struct watched_market : impact_function::market {
        watched_market(const identity<watched_market> &i, esl::law::property_map<quote> traded)
        : agent(identity<esl::agent>(i.digits)), impact_function::market(identity<impact_function::market>(i.digits), std::move(traded)) {}
        time_point act(time_interval s, std::seed_seq &seed) override {
            {
                quiet q;
                for(int i = 0; i < W->p.traders; ++i) {
                    identity<esl::law::owner<esl::law::property>> k(W->traders[i]->identifier.digits);
                    if(W->p.join[i] <= s.lower && s.lower < W->p.leave[i]) participants.insert(k);
                    else participants.erase(k);
                }
                if(W->instant != s.lower) { W->instant = s.lower; W->rounds = 0; }
                if(++W->rounds > 100) harness::violated("instant-never-ends", "the market is activated for the ", W->rounds, "th time at ", s.lower);
                W->activations.push_back({s.lower, W->prices(), {}, {}});
                // the orders that arrived, in the order in which they were sent
                for(auto &x : W->traders) {
                    bool arrived = false;
                    for(auto &[k, m] : inbox) arrived |= k <= s.lower && m->type == order::code && m->sender == x->identifier && m->sent == s.lower;
                    if(arrived) {
                        if(x->pending.empty()) harness::violated("order-repeated", "trader ", x->index, " at ", s.lower);
                        W->activations.back().orders[x->index] = x->pending.front().second;
                        x->pending.pop_front();
                    }
                    if(!x->pending.empty() && x->pending.front().first < s.lower) harness::violated("order-lost", "trader ", x->index, " at ", s.lower);
                }
            }
            auto r = impact_function::market::act(s, seed);
            quiet q;
            W->activations.back().after = W->prices();
            return r;
        }
    };
}

void harness::setup() {}

void harness::run(u64 seed, simrt::options opt, int) {
    rng r(mix(seed, 1));
    plan p;
    p.seed = mix(seed, 2);
    p.start = r.chance(0.6) ? 0 : r.below(4);
    if(r.chance(0.15)) p.start += r.below(1ull << (1 + r.below(60)));
    p.end = p.start + 2 + r.below(14);
    if(r.chance(0.3)) p.window = 1 + r.below(6);
    p.goods = 1 + (int)r.below(4);
    p.traders = 1 + (int)r.below(6);
    static const u64 scales[] = {3, 10, 1000, 1'000'000, 1ull << 40};
    p.scale = scales[r.below(5)];
    if(r.chance(0.3)) p.slow = 0.3;
    if(r.chance(0.3)) p.twice = 0.3;
    if(r.chance(0.5)) p.silent = r.chance(0.3) ? 0.9 : 0.25;
    if(r.chance(0.3)) p.unasked = 0.3;
    if(r.chance(0.1)) p.failing = 0.05;
    if(r.chance(0.3)) p.unstamped = 0.2;
    p.dead = r.chance(0.2);
    static const double exponents[] = {1, 0.5, 0.3, 1};
    p.exponent = exponents[r.below(4)];
    bool large = r.chance(0.15), small = r.chance(0.3);
    for(int j = 0; j < p.goods; ++j) {
        p.price.push_back(large ? (i64)(1ull << (20 + r.below(25))) + (i64)r.below(1000) : (i64)(10'000 + r.below(1'000'000)));
        p.lot.push_back(r.chance(0.7) ? 1 : 1 + r.below(10));
        p.currency.push_back(r.chance(0.7) ? 0 : (int)r.below(3));
    }
    // the most that prices can move in a clearing is a fraction of the lowest price, or of that of some good
    double most = std::pow((double)p.scale * p.traders, p.exponent), low = 1e300;
    if(small) for(auto &x : p.price) if(r.chance(0.5)) x = 3 + (i64)r.below(300);
    for(int j = 0; j < p.goods; ++j) if(low > 1e299 || !small || r.chance(0.3)) low = std::min(low, (double)p.price[j] / currency_of[p.currency[j]]->denominator / (double)p.lot[j]);
    p.strength = low / most * (0.001 + 0.02 * (double)r.below(3));
    bool joining = r.chance(0.25);
    for(int i = 0; i < p.traders; ++i) {
        p.join.push_back(joining && r.chance(0.4) ? p.start + r.below(p.end - p.start) : 0);
        p.leave.push_back(joining && r.chance(0.3) ? std::max(p.join.back(), p.start) + 1 + r.below(10) : ~0ull);
    }
    static const unsigned tc[] = {1, 1, 2, 2, 3, 4};
    unsigned threads = tc[r.below(6)];
    opt.p_thread = 0;
    opt.max_steps = 60'000'000;

    auto w = std::make_unique<world_state>(p, threads);
    W = w.get();
    esl::law::property_map<quote> traded;
    for(int j = 0; j < p.goods; ++j) {
        w->goods.push_back(std::make_shared<esl::law::property>(identity<esl::law::property>{3, (u64)j}));
        traded.insert({w->goods[j], quote(price(p.price[j], *currency_of[p.currency[j]]), p.lot[j])});
    }
    w->stranger = std::make_shared<esl::law::property>(identity<esl::law::property>{4});
    w->market = w->model.create<watched_market>(w->model.world, traded);
    w->market->impact_function = [](double v) {
        if(hit(site_throw, W->p.failing)) { quiet q; W->thrown.insert(W->instant); throw harness::injected_error(); }
        return impact(W->p, v);
    };
    for(int i = 0; i < p.traders; ++i) {
        w->traders.push_back(w->model.create<trader>(w->model.world, i));
        if(p.join[i] == 0) w->market->participants.insert(identity<esl::law::owner<esl::law::property>>(w->traders.back()->identifier.digits));
    }
    if(p.dead) {
        auto m = w->model.create<mute>(w->model.world);
        w->market->participants.insert(identity<esl::law::owner<esl::law::property>>(m->identifier.digits));
    }
    std::string what;
    bool failed = false;
    start(opt);
    try {
        for(u64 t = p.start, upper = p.end; t < p.end; ) {
            if(p.window) upper = std::min(p.end, t + p.window);
            while(t < upper) t = w->model.step({t, upper});
        }
    } catch(const injected_error &) { failed = true; }
    catch(const std::exception &e) { what = e.what(); if(what.empty()) what = "?"; }
    stop();
    quiet q;
    if(!what.empty()) violated("unexpected-exception", what);
    if(failed != !w->thrown.empty()) violated("exception-lost", failed ? "an exception that was not thrown" : "the impact function threw and the run went on");
    // what happened before the failure still counts
    u64 end = failed ? *w->thrown.begin() : p.end;
    model_time(p.end - p.start);

    // ---- prices, one activation after the other
    std::vector<i64> known = p.price;
    std::map<u64, std::vector<std::vector<i64>>> after;          // the prices after each clearing of a date
    std::vector<std::pair<u64, std::vector<i64>>> recorded;
    for(auto &a : w->activations) {
        if(a.t >= end) break;
        if(a.before != known) violated("price-changed", "at ", a.t, " the prices are not those of the last activation");
        if(a.orders.empty()) {
            if(a.after != a.before) violated("price-unasked", "the prices change at ", a.t, " without an order");
            continue;
        }
        std::string s;
        for(int j = 0; j < p.goods; ++j) {
            double net = 0;
            for(auto &[i, v] : a.orders) if(v.count(j)) net += (double)v.at(j);
            double e = (double)known[j] + impact(p, net) * currency_of[p.currency[j]]->denominator * (double)p.lot[j];
            if(e > 0 && std::fabs((double)a.after[j] - e) > 1.01 + 1e-9 * e) violated("price", "good ", j, " at ", a.t, " goes from ", known[j], " to ", a.after[j], " instead of ", e, " for a net demand of ", net);
            if(a.after[j] == 0) violated("price-zero", "good ", j, " at ", a.t);
            s += text(" ", a.after[j]);
        }
        event(text("at ", a.t, " ", a.orders.size(), " orders, prices", s));
        known = a.after;
        after[a.t].push_back(known);
        recorded.emplace_back(a.t, known);
    }
    u64 clearings = recorded.size();
    auto &out = w->market->output_clearing_prices_->values;
    std::size_t k = 0;
    for(auto &[t, v] : recorded) {
        if(k >= out.size()) violated("price-unrecorded", "of ", t);
        auto &[d, l] = out[k++];
        std::multiset<i64> a(v.begin(), v.end()), b;
        for(auto &x : l) b.insert(x.value);
        if(d != t || a != b) violated("price-recorded", "of ", t);
    }
    if(k != out.size() && !(failed && std::get<0>(out[k]) >= end)) violated("price-recorded", "without a clearing");
    // ---- quotes: one per date, with the latest prices
    u64 quotes = 0;
    for(int i = 0; i < p.traders; ++i) {
        std::set<u64> dates;
        for(auto &[t, d, v] : w->quotes[i]) {
            if(t >= end) continue;
            if(t != d) violated("quote-late", "trader ", i, " is told at ", t, " of the market at ", d);
            if(!dates.insert(t).second) violated("quote-repeated", "trader ", i, " at ", t);
            auto a = after.lower_bound(t);
            bool ok = a == after.begin() ? v == p.price : std::find(std::prev(a)->second.begin(), std::prev(a)->second.end(), v) != std::prev(a)->second.end();
            if(!ok) violated("quote-price", "trader ", i, " at ", t, " is quoted other prices than the latest");
            ++quotes;
        }
        u64 from = p.join[i] ? p.join[i] + (p.join[i] > p.start) : p.start, to = std::min(end, p.leave[i]);
        for(u64 t : dates) if(t < p.join[i] || t > p.leave[i]) violated("quote-unasked", "trader ", i, " is quoted prices at ", t, " and takes part from ", p.join[i], " to ", p.leave[i]);
        for(u64 t = from; t < to; ++t) if(!dates.count(t)) violated("quote-missed", "trader ", i, " is not quoted prices at ", t);
    }
    count("clearings", clearings);
    count("quotes_checked", quotes);
    static const char *names[] = {"fault.order_delayed", "fault.order_duplicated", "fault.participant_silent", "fault.order_unsolicited", "fault.impact_function_throws", "fault.order_unstamped"};
    for(int k = 0; k < 6; ++k) if(w->faults[k]) count(names[k], w->faults[k]);
    if(clearings) nontrivial();
}
