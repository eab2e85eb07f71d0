// The exchange and its order books (C08: tree book, C09: the exchange itself,
// C10: static book): real books behind a real exchange, traders that send
// orders and cancellations through a network that delays, loses and
// duplicates them. Every operation on a book is compared with a small
// price-time matching reference.
#include "common.hpp"

#include <esl/agent.hpp>
#include <esl/exception.hpp>
#include <esl/computation/environment.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/interaction/communication.hpp>
#include <esl/economics/markets/centralized_exchange.hpp>
#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>
#include <esl/economics/markets/order_book/matching_engine.hpp>
#include <esl/economics/markets/order_book/static_order_book.hpp>
#include <esl/simulation/model.hpp>
#include <iostream>

using namespace simrt;
using esl::simulation::time_point;
using namespace esl::economics;
using namespace esl::economics::markets;
namespace ob = esl::economics::markets::order_book;
using ob::limit_order;
using ob::execution_report;
using ob::basic_book;
const char *harness::name = "exchange";

namespace {
    typedef std::uint64_t u64;
    typedef std::int64_t i64;
    typedef esl::identity<esl::agent> agent_id;

    enum kind { k_order, k_cancel, k_guess, k_stream, k_unstream, k_snapshot, k_logon, k_logout, k_rogue };
    struct action { u64 t; int k, symbol, side, life; i64 price; std::uint32_t quantity; u64 delay, pick; int copies; bool broker; };
    struct market_plan {
        bool tree; i64 low, high; std::uint32_t lot, capacity;
        bool euro = false;
        i64 unit = 1;                                   // all prices are multiples of this
        quote make(i64 p, std::uint32_t l = 0) const { return quote(price(p * unit, euro ? currencies::EUR : currencies::USD), l ? l : lot); }
    };
    struct plan {
        u64 seed = 0, start = 0, end = 20;
        int traders = 2;
        std::vector<market_plan> markets;
        std::vector<std::vector<action>> actions;       // trader, in time
        std::vector<u64> latency;                       // trader
        std::vector<bool> in_order;                     // trader: handles messages in the order they arrive
        bool exchange_in_order = true;
        bool model = true;                              // is there a latency model
        double react = 0;
        u64 pace = 1;
    };

    // -------------------------------------------------- what a book has to do
    struct expectation { int state, side; u64 quantity, id; bool fresh; i64 price; agent_id owner; };
    struct reference_book {
        struct resting { u64 id; int side; i64 price; u64 quantity; agent_id owner; };
        market_plan m;
        std::vector<resting> live;                      // in order of arrival
        std::set<u64> used;
        // the next order of that side to trade
        int best(int side) const {
            int b = -1;
            for(int i = 0; i < (int)live.size(); ++i) if(live[i].side == side && (b < 0 || (side == 0 ? live[i].price > live[b].price : live[i].price < live[b].price))) b = i;
            return b;
        }
        bool valid(const limit_order &o, i64 price) const {
            if(m.tree) return true;
            return price >= m.low * m.unit && price <= m.high * m.unit && o.quantity > 0 && o.limit.lot == m.lot;
        }
        // throws length_error when the order can not be kept
        std::vector<expectation> insert(const limit_order &o, i64 price) {
            std::vector<expectation> r;
            auto crosses = [&](const resting &x) { return o.side == limit_order::buy ? price >= x.price : price <= x.price; };
            u64 left = o.quantity;
            if(!valid(o, price)) { r.push_back({execution_report::invalid, o.side, o.quantity, basic_book::direct_order, false, price, o.owner}); return r; }
            if(o.lifetime == limit_order::lifetime_t::fill_or_kill) {
                u64 available = 0;
                for(auto &x : live) if(x.side != (int)o.side && crosses(x)) available += x.quantity;
                if(available < o.quantity) { r.push_back({execution_report::cancel, o.side, o.quantity, basic_book::direct_order, false, price, o.owner}); return r; }
            }
            while(left) {
                int b = best(1 - (int)o.side);
                if(b < 0 || !crosses(live[b])) break;
                u64 q = std::min(left, live[b].quantity);
                r.push_back({execution_report::match, o.side, q, basic_book::direct_order, false, live[b].price, o.owner});
                r.push_back({execution_report::match, live[b].side, q, live[b].id, false, live[b].price, live[b].owner});
                left -= q;
                if(!(live[b].quantity -= q)) live.erase(live.begin() + b);
            }
            if(!left) return r;
            if(o.lifetime != limit_order::lifetime_t::good_until_cancelled) r.push_back({execution_report::cancel, o.side, left, basic_book::direct_order, false, price, o.owner});
            else r.push_back({execution_report::placement, o.side, left, 0, true, price, o.owner});
            return r;
        }
        std::vector<expectation> cancel(u64 id) {
            std::vector<expectation> r;
            for(std::size_t i = 0; i < live.size(); ++i) if(live[i].id == id) {
                r.push_back({execution_report::cancel, live[i].side, live[i].quantity, id, false, live[i].price, live[i].owner});
                live.erase(live.begin() + i);
                break;
            }
            return r;
        }
    };

    struct world_state;
    struct operation {
        bool cancel;
        limit_order order; u64 id;
        std::vector<execution_report> reports;
        std::optional<i64> bid[2], ask[2];              // before, after
    };
    i64 price_of(const quote &q) { return (i64)std::get<price>(q.type).value; }
    std::optional<i64> price_of(const std::optional<quote> &q) { if(!q) return {}; return price_of(*q); }
    std::string show(const execution_report &r) {
        static const char *n[] = {"invalid", "cancel", "match", "placement"};
        return harness::text(n[(int)r.state & 3], r.side == limit_order::buy ? " buy " : " sell ", r.quantity, "@", price_of(r.limit), " id ", (i64)r.identifier);
    }
    std::string show(const expectation &r) {
        static const char *n[] = {"invalid", "cancel", "match", "placement"};
        return harness::text(n[r.state], r.side == 0 ? " buy " : " sell ", r.quantity, "@", r.price, " id ", r.fresh ? std::string("new") : std::to_string((i64)r.id));
    }
    template<class T> std::string show(const std::vector<T> &v) { std::string s; for(auto &x : v) s += "[" + show(x) + "] "; return s; }
    std::string show(const std::optional<i64> &x) { return x ? std::to_string(*x) : std::string("none"); }

    // passes everything on to the real book and checks what it does
    struct watched_book : basic_book {
        std::shared_ptr<basic_book> inner;
        reference_book ref;
        int index;
        std::vector<operation> log;
        u64 trades = 0, full = 0, cancelled = 0, stale = 0;
        watched_book(std::shared_ptr<basic_book> inner, market_plan m, int index) : inner(inner), index(index) { ref.m = m; }
        std::string kind() const { return ref.m.tree ? "tree-" : "static-"; }
        std::optional<quote> bid() const override { return inner->bid(); }
        std::optional<quote> ask() const override { return inner->ask(); }
        std::vector<order_identifier> orders() const override { return inner->orders(); }
        void display(u64 levels) const override { inner->display(levels); }

        void compare(operation &op, std::vector<expectation> expected, const std::string &what) {
            op.reports = inner->reports;
            reports.insert(reports.end(), inner->reports.begin(), inner->reports.end());
            inner->reports.clear();
            op.bid[1] = price_of(inner->bid()); op.ask[1] = price_of(inner->ask());
            auto listed = inner->orders();
            quiet q;
            event(harness::text("book ", index, " ", what, ": ", show(op.reports)));
            auto bad = [&](const char *c, const std::string &d) { harness::violated(kind() + c, "book ", index, ", operation ", log.size(), ", ", what, ": ", d); };
            if(op.reports.size() != expected.size()) bad("reports", harness::text("reports ", show(op.reports), "instead of ", show(expected)));
            for(std::size_t i = 0; i < expected.size(); ++i) {
                auto &r = op.reports[i]; auto &e = expected[i];
                bool ok = r.state == e.state && r.side == e.side && r.quantity == e.quantity && price_of(r.limit) == e.price && r.owner == e.owner;
                if(r.state != execution_report::invalid) ok = ok && r.limit.lot == ref.m.lot;
                ok = ok && std::get<price>(r.limit.type).valuation == (ref.m.euro ? currencies::EUR : currencies::USD);
                if(e.fresh) {
                    if(ok && (r.identifier == direct_order || !ref.used.insert(r.identifier).second)) bad("identifier", harness::text("the identifier ", r.identifier, " was used before"));
                    ref.live.push_back({r.identifier, e.side, e.price, e.quantity, e.owner});
                } else ok = ok && r.identifier == e.id;
                if(!ok) bad("reports", harness::text("reports ", show(op.reports), "instead of ", show(expected)));
                if(e.state == execution_report::match) ++trades;
                if(e.state == execution_report::cancel && op.cancel) ++cancelled;
            }
            int b = ref.best(0), a = ref.best(1);
            auto eb = b < 0 ? std::optional<i64>() : std::optional<i64>(ref.live[b].price), ea = a < 0 ? std::optional<i64>() : std::optional<i64>(ref.live[a].price);
            if(op.bid[1] != eb) bad("best-bid", harness::text("the best bid is ", show(op.bid[1]), " instead of ", show(eb)));
            if(op.ask[1] != ea) bad("best-ask", harness::text("the best ask is ", show(op.ask[1]), " instead of ", show(ea)));
            if(ea && eb && *eb >= *ea) bad("crossed", "bid and ask cross");
            std::multiset<u64> l(listed.begin(), listed.end()), e;
            for(auto &x : ref.live) e.insert(x.id);
            if(l != e) bad("orders", harness::text("lists ", l.size(), " orders, ", e.size(), " are open"));
            log.push_back(op);
        }
        void insert(const limit_order &o) override {
            operation op{false, o, 0, {}, {price_of(inner->bid()), {}}, {price_of(inner->ask()), {}}};
            auto what = harness::text("order ", o.side == limit_order::buy ? "buy " : "sell ", o.quantity, "@", price_of(o.limit), " lot ", o.limit.lot, " lifetime ", (int)o.lifetime);
            bool failed = false;
            try { inner->insert(o); } catch(const std::length_error &) { failed = true; }
            auto e = ref.insert(o, price_of(o.limit));
            bool room = ref.m.tree || ref.live.size() < ref.m.capacity, placed = !e.empty() && e.back().fresh;
            if(placed && !room) {
                if(!failed) harness::violated(kind() + "capacity", "an order was placed in a full book");
                e.pop_back();
                ++full;
            } else if(failed) harness::violated(kind() + "capacity", "book ", index, ", ", what, ": no room for an order, ", ref.live.size(), " of ", ref.m.capacity, " are open");
            compare(op, e, what);
        }
        void cancel(order_identifier id) override {
            operation op{true, limit_order(), id, {}, {price_of(inner->bid()), {}}, {price_of(inner->ask()), {}}};
            inner->cancel(id);
            auto e = ref.cancel(id);
            if(e.empty()) ++stale;
            compare(op, e, harness::text("cancel ", (i64)id));
        }
    };

    // -------------------------------------------------------------- the agents
    struct heard_report { u64 t, sent; execution_report r; int symbol; agent_id owner; bool by_exchange = true; };
    struct heard_data { u64 t, sent; int symbol; std::vector<std::pair<i64, u64>> trades; std::optional<i64> bid, ask; };
    struct processed { u64 t; int k; int symbol; limit_order order; u64 id; agent_id sender; std::vector<u64> supply; };
    struct trader; struct venue;
    struct world_state {
        const plan &p;
        esl::computation::environment env;
        esl::simulation::model model;
        std::vector<ticker> symbols;
        std::vector<std::shared_ptr<watched_book>> books;
        std::vector<std::shared_ptr<trader>> traders;
        std::shared_ptr<venue> exchange;
        std::vector<processed> log;                     // by the exchange
        std::vector<std::vector<heard_report>> reports; // by trader
        std::vector<std::vector<heard_data>> data;
        std::vector<u64> lost, duplicated;
        world_state(const plan &p, unsigned threads)
        : p(p), model(env, esl::simulation::parameter::parametrization(0, p.start, p.end, 0, threads)), reports(p.traders), data(p.traders), lost(p.traders), duplicated(p.traders) {}
        int symbol(const ticker &t) const { for(std::size_t i = 0; i < symbols.size(); ++i) if(symbols[i] == t) return (int)i; return -1; }
        u64 latency(const agent_id &i) const;
    };
    struct network : esl::interaction::communication::latency_model {
        world_state *w;
        explicit network(world_state *w) : w(w) {}
        esl::simulation::time_duration sample(const agent_id &, const agent_id &to, std::seed_seq &) override { return w->latency(to); }
    };
    struct venue : centralized_exchange {
        world_state *w;
        venue(const esl::identity<venue> &i, const std::vector<ticker> &t, world_state *w)
        : agent(esl::identity<esl::agent>(i.digits)), centralized_exchange(esl::identity<centralized_exchange>(i.digits), t), w(w) {
            schedule = w->p.exchange_in_order ? in_order : random;
            watch<new_order_single_message>(k_order, [](auto &m, processed &x) { x.order = m.order_details; }, [](auto &m) { return m.order_details.symbol; });
            watch<cancel_order_message>(k_cancel, [](auto &m, processed &x) { x.id = m.order; }, [](auto &m) { return m.symbol; });
            watch<logon_message>(k_logon, [this](auto &m, processed &x) { for(auto &s : this->w->symbols) { auto i = m.supply.find(s); x.supply.push_back(i == m.supply.end() ? 0 : i->second); } }, [](auto &) { return ticker(); });
            watch<logout_message>(k_logout, [](auto &, processed &) {}, [](auto &) { return ticker(); });
            std::function<time_point(std::shared_ptr<market_data_request_message>, esl::simulation::time_interval, std::seed_seq &)> f = [this](std::shared_ptr<market_data_request_message> m, esl::simulation::time_interval s, std::seed_seq &) {
                quiet q;
                for(auto &i : m->instruments) this->w->log.push_back({s.lower, m->type == market_data_request_message::stream ? k_stream : m->type == market_data_request_message::cancel ? k_unstream : k_snapshot, this->w->symbol(i), limit_order(), 0, m->sender, {}});
                return s.upper;
            };
            register_callback<market_data_request_message>(f, 10, "watch");
        }
        template<class M, class F, class S> void watch(int k, F fill, S symbol) {
            std::function<time_point(std::shared_ptr<M>, esl::simulation::time_interval, std::seed_seq &)> f = [this, k, fill, symbol](std::shared_ptr<M> m, esl::simulation::time_interval s, std::seed_seq &) {
                quiet q;
                processed x{s.lower, k, w->symbol(symbol(*m)), limit_order(), 0, m->sender, {}};
                fill(*m, x);
                w->log.push_back(x);
                return s.upper;
            };
            register_callback<M>(f, 10, "watch");
        }
        time_point act(esl::simulation::time_interval s, std::seed_seq &) override { return s.upper; }
    };
    struct trader : esl::agent {
        int index; world_state *w;
        std::size_t next = 0;
        std::vector<std::pair<int, u64>> placed;        // symbol, identifier
        rng r;
        u64 reactions = 0;
        trader(const esl::identity<trader> &i, int index, world_state *w)
        : agent(esl::identity<esl::agent>(i.digits)), index(index), w(w), r(mix(w->p.seed, 700 + index)) {
            schedule = w->p.in_order[index] ? in_order : random;
            std::function<time_point(std::shared_ptr<execution_report_message>, esl::simulation::time_interval, std::seed_seq &)> f = [this](std::shared_ptr<execution_report_message> m, esl::simulation::time_interval s, std::seed_seq &) {
                int symbol = this->w->symbol(m->order.symbol);
                {
                    quiet q;
                    this->w->reports[this->index].push_back({s.lower, m->sent, m->report, symbol, m->order.owner, m->sender == to()});
                }
                if(m->report.state == execution_report::placement) {
                    placed.push_back({symbol, m->report.identifier});
                    if(reactions < 40 && r.chance(this->w->p.react)) { ++reactions; cancel(s.lower, symbol, m->report.identifier, r.below(3) * this->w->p.pace); }
                }
                return s.upper;
            };
            register_callback<execution_report_message>(f, 0, "reports");
            std::function<time_point(std::shared_ptr<market_data_message>, esl::simulation::time_interval, std::seed_seq &)> d = [this](std::shared_ptr<market_data_message> m, esl::simulation::time_interval s, std::seed_seq &) {
                quiet q;
                heard_data h{s.lower, m->sent, this->w->symbol(m->symbol), {}, {}, {}};
                for(auto &[a, b] : m->trades) h.trades.push_back({price_of(a), b});
                if(m->bid.size() > 1 || m->ask.size() > 1) harness::violated("market-data", "more than one best price");
                if(m->sender != to()) harness::violated("market-data", "not sent by the exchange");
                if(!m->bid.empty()) h.bid = price_of(m->bid[0].first);
                if(!m->ask.empty()) h.ask = price_of(m->ask[0].first);
                this->w->data[this->index].push_back(h);
                return s.upper;
            };
            register_callback<market_data_message>(d, 0, "market data");
        }
        agent_id to() const { return agent_id(w->exchange->identifier.digits); }
        template<class M> std::shared_ptr<M> post(u64 now, u64 delay) {
            auto m = create_message<M>(to(), now + delay);
            m->sender = identifier; m->sent = now;
            return m;
        }
        void cancel(u64 now, int symbol, u64 id, u64 delay) {
            auto m = post<cancel_order_message>(now, delay);
            m->symbol = w->symbols[symbol]; m->order = id;
        }
        void perform(const action &a, u64 now) {
            switch(a.k) {
            case k_order: case k_rogue: {
                auto m = post<new_order_single_message>(now, a.delay);
                agent_id owner = a.broker ? w->traders[a.pick % w->traders.size()]->identifier : identifier;
                auto &mk = w->p.markets[a.symbol];
                ticker t = a.k == k_rogue ? ticker({9, 9}, {9, 9}) : w->symbols[a.symbol];
                std::uint32_t lot = mk.lot;
                if(!mk.tree && a.pick % 40 == 0) lot = mk.lot == 100 ? 200 : 100;
                m->order_details = limit_order(t, owner, a.side ? limit_order::sell : limit_order::buy, mk.make(a.price, lot), a.quantity, (limit_order::lifetime_t)a.life);
                break;
            }
            case k_cancel:
                if(!placed.empty()) {
                    // mostly recent ones
                    std::size_t i = placed.size() - 1 - (a.pick % 3 ? (a.pick >> 8) % std::min<std::size_t>(placed.size(), 6) : (a.pick >> 8) % placed.size());
                    cancel(now, placed[i].first, placed[i].second, a.delay);
                }
                break;
            case k_guess: {
                u64 id = a.pick % 5 == 0 ? basic_book::direct_order : a.pick % 5 == 1 ? (a.pick >> 8) : (a.pick >> 8) % 64;
                cancel(now, a.symbol, id, a.delay);
                break;
            }
            case k_stream: case k_unstream: case k_snapshot: {
                auto m = post<market_data_request_message>(now, a.delay);
                for(std::size_t i = 0; i < w->symbols.size(); ++i) if((int)i == a.symbol || (a.pick >> i & 1)) m->instruments.push_back(w->symbols[i]);
                m->type = a.k == k_stream ? market_data_request_message::stream : a.k == k_unstream ? market_data_request_message::cancel : market_data_request_message::snapshot;
                m->depth = 1;
                break;
            }
            case k_logon: {
                auto m = post<logon_message>(now, a.delay);
                for(std::size_t i = 0; i < w->symbols.size(); ++i) if(a.pick >> i & 1) m->supply[w->symbols[i]] = (a.pick >> 8) % (a.pick >> 60 ? 1000 : u64(1) << 52) + i;
                break;
            }
            case k_logout: post<logout_message>(now, a.delay); break;
            }
        }
        time_point act(esl::simulation::time_interval s, std::seed_seq &) override {
            auto &v = w->p.actions[index];
            while(next < v.size() && v[next].t <= s.lower) {
                for(int c = 0; c < v[next].copies; ++c) perform(v[next], s.lower);
                if(v[next].copies == 0) ++w->lost[index];
                if(v[next].copies > 1) ++w->duplicated[index];
                ++next;
            }
            return next < v.size() ? std::min<time_point>(s.upper, v[next].t) : s.upper;
        }
    };
    std::shared_ptr<basic_book> make_book(const market_plan &m) {
        if(m.tree) return std::make_shared<ob::binary_tree_order_book>();
        return std::make_shared<ob::static_order_book>(m.make(m.low), m.make(m.high), m.capacity);
    }
    u64 world_state::latency(const agent_id &i) const {
        if(!p.model) return 0;
        for(auto &t : traders) if(t->identifier == i) return p.latency[t->index];
        return 0;
    }
}

void harness::setup() {
    // warnings about refused orders are not of interest
    static std::ofstream null("/dev/null");
    std::clog.rdbuf(null.rdbuf()); std::cout.rdbuf(null.rdbuf()); std::cerr.rdbuf(null.rdbuf());
}

void harness::run(u64 seed, simrt::options opt, int tier) {
    (void)tier;
    rng r(mix(seed, 1));
    plan p;
    p.seed = mix(seed, 2);
    p.start = r.below(3);
    u64 pace = r.chance(0.7) ? 1 : u64(1) << (1 + r.below(34));     // all times are multiples of this
    if(r.chance(0.2)) p.start += (u64(1) << (20 + r.below(40))) / pace;
    p.end = p.start + 4 + r.below(30);
    p.traders = 1 + (int)r.below(r.chance(0.1) ? 12 : 5);
    int symbols = 1 + (int)r.below(r.chance(0.1) ? 7 : 3);
    for(int i = 0; i < symbols; ++i) {
        market_plan m;
        m.tree = is("C08") ? true : is("C10") ? false : r.chance(0.5);
        m.lot = r.chance(0.15) ? 1000 : 100;
        m.low = 1 + (i64)r.below(r.chance(0.5) ? 3 : 1000);
        m.high = m.low + 1 + (i64)r.below(r.chance(0.6) ? 12 : m.lot == 100 ? 600 : 60);
        if(r.chance(0.15)) { i64 down = (i64)r.below(m.high + 5); m.low -= down; m.high -= down; }      // prices may be negative
        else if(r.chance(0.2)) { i64 up = i64(1) << (20 + r.below(m.tree ? 35 : 22)); m.low += up; m.high += up; }
        if(m.tree && m.low < 1'000'000 && r.chance(0.2)) m.unit = i64(1) << (4 + r.below(32));
        m.euro = i % 2;
        m.capacity = r.chance(0.4) ? 1 + (std::uint32_t)r.below(12) : 2000;
        p.markets.push_back(m);
    }
    p.model = r.chance(0.8);
    p.exchange_in_order = r.chance(0.5);
    p.react = r.chance(0.5) ? 0 : r.unit() * 0.5;
    bool rogue = is("C09") && r.chance(0.08);
    bool market_data = is("C09") || r.chance(0.2);
    // the mix of orders differs from run to run
    double cancels = r.unit() * 0.5, guesses = r.chance(0.5) ? 0 : 0.05, immediate = r.chance(0.3) ? 0 : r.unit() * 0.4, invalid = r.chance(0.5) ? 0.03 : 0, lost = r.chance(0.5) ? 0 : 0.1, twice = r.chance(0.5) ? 0 : 0.1, broker = r.chance(0.6) ? 0 : 0.2;
    u64 big = r.chance(0.5) ? 5 : r.chance(0.7) ? 500 : u64(1) << 32;
    int burst = 1 + (int)r.below(r.chance(0.3) ? 25 : 4);
    bool trending = r.chance(0.3);
    for(int t = 0; t < p.traders; ++t) {
        p.latency.push_back(r.below(4));
        p.in_order.push_back(r.chance(0.6));
        std::vector<action> v;
        u64 now = p.start;
        std::vector<int> bias;
        for(int i = 0; i < symbols; ++i) bias.push_back((int)r.below(3));
        bool snapshots = r.chance(0.2);     // this one never subscribes to a stream
        while(now < p.end && v.size() < 400) {
            int n = 1 + (int)r.below(burst);
            for(int k = 0; k < n; ++k) {
                action a{};
                a.t = now;
                a.symbol = (int)r.below(symbols);
                auto &m = p.markets[a.symbol];
                a.pick = r.next();
                a.delay = r.below(r.chance(0.7) ? 1 : 4);
                a.k = r.chance(cancels) ? k_cancel : r.chance(guesses) ? k_guess : k_order;
                if(market_data && r.chance(0.12)) {
                    double u = r.unit();
                    a.k = u < 0.4 ? (snapshots ? k_snapshot : k_stream) : u < 0.6 ? k_unstream : u < 0.85 ? k_logon : k_logout;
                    if(snapshots && a.k == k_unstream) a.k = k_snapshot;
                }
                a.side = bias[a.symbol] == 0 ? 0 : bias[a.symbol] == 1 ? 1 : (int)r.below(2);
                if(r.chance(0.25)) a.side = 1 - a.side;
                i64 span = m.high - m.low;
                a.price = m.low + (i64)r.below(span + 1);
                if(trending) a.price = m.low + std::min<i64>(span, (i64)(span * (now - p.start) / (p.end - p.start)) + (i64)r.below(3));
                if(r.chance(0.1)) a.price = r.chance(0.5) ? m.low : m.high;
                a.quantity = (std::uint32_t)std::min<u64>(UINT32_MAX, 1 + r.below(big));
                if(!m.tree && r.chance(invalid)) { if(r.chance(0.5)) a.price = r.chance(0.5) ? m.high + 1 + (i64)r.below(3) : m.low - 1; else a.quantity = 0; }
                a.life = r.chance(immediate) ? 1 + (int)r.below(2) : 0;
                a.copies = r.chance(lost) ? 0 : r.chance(twice) ? 2 : 1;
                a.broker = r.chance(broker);
                if(rogue && now + 2 > p.end / 2 && r.chance(0.05)) a.k = k_rogue;
                if(keep()) v.push_back(a);
            }
            now += r.below(4) == 0 ? 0 : 1 + r.below(3);
        }
        for(auto &a : v) { a.t *= pace; a.delay *= pace; }
        p.latency.back() *= pace;
        p.actions.push_back(v);
    }
    p.start *= pace; p.end *= pace; p.pace = pace;
    static const unsigned tc[] = {1, 1, 2, 2, 3, 4};
    unsigned threads = tc[r.below(6)];
    opt.p_thread = 0;
    opt.max_steps = 60'000'000;

    auto w = std::make_unique<world_state>(p, threads);
    for(u64 i = 0; i < (u64)symbols; ++i) w->symbols.push_back(ticker({3, i / 2}, {4, i % 2}));
    w->exchange = w->model.create<venue>(w->model.world, w->symbols, w.get());
    if(p.model) w->exchange->communication_model = std::make_shared<network>(w.get());
    for(int i = 0; i < symbols; ++i) {
        auto &m = p.markets[i];
        w->books.push_back(std::make_shared<watched_book>(make_book(m), m, i));
        w->exchange->books.emplace(w->symbols[i], w->books.back());
    }
    typedef std::decay_t<decltype(*w->exchange->output_orders)> recording;
    bool recorded = r.chance(0.5);
    if(recorded) w->exchange->output_orders = std::make_unique<recording>("orders", true);
    for(int i = 0; i < p.traders; ++i) w->traders.push_back(w->model.create<trader>(w->model.world, i, w.get()));
    std::string what;
    u64 reached = p.end;
    start(opt);
    try {
        for(u64 t = p.start; t < p.end; ) { reached = t; t = w->model.step({t, p.end}); reached = t; }
    } catch(const std::exception &e) { what = e.what(); if(what.empty()) what = "?"; }
    stop();
    quiet q;
    model_time(reached - p.start);
    bool refused = false;
    for(auto &x : w->log) refused |= (x.k == k_order || x.k == k_rogue) && x.symbol < 0;
    if(!what.empty() && !(refused && what.find("nvalid ticker") != std::string::npos)) violated("unexpected-exception", what);
    if(refused && what.empty()) violated("unknown-symbol", "an order for a symbol that is not traded was not refused");

    // ------------------------------------- every message changes its book once
    std::vector<std::size_t> done(symbols);
    std::vector<std::string> records;           // of the orders
    auto show_event = [&](const execution_report &e) { return text((int)e.state, e.side == limit_order::buy ? " buy " : " sell ", e.quantity, "@", price_of(e.limit)); };
    std::vector<std::vector<heard_report>> expected(p.traders);
    std::map<std::pair<int, int>, std::vector<heard_data>> feed;        // trader, symbol
    std::set<std::pair<int, int>> streams, snapshot;
    std::vector<std::map<int, std::array<u64, 3>>> positions(symbols);
    auto who = [&](const agent_id &i) { for(auto &t : w->traders) if(t->identifier == i) return t->index; return -1; };
    for(auto &x : w->log) {
        int s = who(x.sender);
        if(s < 0) violated("sender", "a message of nobody");
        switch(x.k) {
        case k_stream: streams.insert({s, x.symbol}); snapshot.erase({s, x.symbol}); break;
        case k_snapshot: snapshot.insert({s, x.symbol}); streams.erase({s, x.symbol}); break;
        case k_unstream: streams.erase({s, x.symbol}); snapshot.erase({s, x.symbol}); break;
        case k_logon: for(int i = 0; i < symbols; ++i) positions[i][s] = {x.supply[i], 0, 0}; break;
        case k_logout: for(int i = 0; i < symbols; ++i) { positions[i].erase(s); streams.erase({s, i}); } break;
        case k_order: case k_cancel: {
            if(x.symbol < 0) break;
            auto &b = *w->books[x.symbol];
            auto k = done[x.symbol]++;
            if(k >= b.log.size()) { if(!what.empty()) break; violated("operation-lost", "message ", k, " for book ", x.symbol, " at ", x.t, " did not reach the book"); }
            auto &o = b.log[k];
            bool same = o.cancel == (x.k == k_cancel) && (o.cancel ? o.id == x.id : o.order.side == x.order.side && o.order.owner == x.order.owner && o.order.quantity == x.order.quantity && o.order.lifetime == x.order.lifetime && price_of(o.order.limit) == price_of(x.order.limit));
            if(!same) violated("operation-order", "operation ", k, " of book ", x.symbol, " is not the message that was handled in its place");
            std::vector<std::pair<i64, u64>> trades;
            for(auto &rep : o.reports) if(rep.state != execution_report::invalid && rep.owner == x.sender)
                records.push_back(text("at ", x.t, " symbol ", x.symbol, " trader ", s, ": ", show_event(rep)));
            for(auto &rep : o.reports) {
                int h = who(rep.owner);
                u64 t = x.t + w->latency(rep.owner);
                expected[h].push_back({t, x.t, rep, x.symbol, o.cancel ? rep.owner : x.order.owner});
                if(rep.state == execution_report::match) {
                    if(rep.identifier == basic_book::direct_order) trades.push_back({price_of(rep.limit), rep.quantity});
                    auto i = positions[x.symbol].find(h);
                    if(i != positions[x.symbol].end()) i->second[rep.side == limit_order::buy ? 1 : 2] += rep.quantity;
                }
            }
            if(!o.reports.empty() && (!trades.empty() || o.bid[0] != o.bid[1] || o.ask[0] != o.ask[1]))
                for(auto &[h, symbol] : streams) if(symbol == x.symbol) feed[{h, symbol}].push_back({x.t + (p.model ? p.latency[h] : 0), x.t, symbol, trades, o.bid[1], o.ask[1]});
            break;
        }
        }
    }
    for(int i = 0; i < symbols; ++i) if(done[i] < w->books[i]->log.size()) violated("operation-duplicated", "book ", i, " was changed ", w->books[i]->log.size(), " times, ", done[i], " messages were handled");

    u64 checked = 0, published = 0;
    bool complete = what.empty();       // otherwise messages of the last instant may not have been sent
    for(int h = 0; h < p.traders; ++h) {
        // ---------------------------------------------------------- reports
        std::vector<heard_report> e;
        for(auto &x : expected[h]) if(complete ? x.t < p.end : x.t < reached && x.sent < reached) e.push_back(x);
        auto seen = w->reports[h];
        if(p.in_order[h]) std::stable_sort(e.begin(), e.end(), [](auto &a, auto &b) { return a.t < b.t; });
        else {
            // messages of one instant are handled in any order
            auto key = [](const heard_report &a) { return std::make_tuple(a.t, a.sent, a.symbol, (int)a.r.state, (int)a.r.side, a.r.identifier, a.r.quantity, price_of(a.r.limit), a.r.owner, a.owner); };
            for(auto *v : {&e, &seen}) std::sort(v->begin(), v->end(), [&](auto &a, auto &b) { return key(a) < key(b); });
        }
        if(!complete) seen.erase(std::remove_if(seen.begin(), seen.end(), [&](auto &x) { return x.t >= reached; }), seen.end());
        for(std::size_t i = 0; i < std::max(e.size(), seen.size()); ++i) {
            if(i >= seen.size()) violated("report-lost", "trader ", h, " was not told: ", show(e[i].r), " sent at ", e[i].sent, " due at ", e[i].t);
            if(i >= e.size()) violated("report-unexpected", "trader ", h, " was told at ", seen[i].t, ": ", show(seen[i].r));
            auto &a = e[i]; auto &b = seen[i];
            bool ok = a.t == b.t && a.sent == b.sent && a.symbol == b.symbol && a.r.state == b.r.state && a.r.side == b.r.side && a.r.quantity == b.r.quantity && a.r.identifier == b.r.identifier && price_of(a.r.limit) == price_of(b.r.limit) && a.r.owner == b.r.owner && a.owner == b.owner && b.by_exchange;
            if(!ok) violated("report", "trader ", h, " was told at ", b.t, ", sent at ", b.sent, ", symbol ", b.symbol, ": ", show(b.r), " instead of, at ", a.t, ", sent at ", a.sent, ", symbol ", a.symbol, ": ", show(a.r));
            ++checked;
        }
        // ------------------------------------------------------ market data
        for(int s = 0; s < symbols; ++s) {
            std::vector<heard_data> e, seen;
            for(auto &x : feed[{h, s}]) if(complete ? x.t < p.end : x.t < reached && x.sent < reached) e.push_back(x);
            bool other = false;     // replies to snapshot requests are not specified
            for(auto &a : p.actions[h]) other |= a.k == k_snapshot;
            if(other) continue;
            for(auto &x : w->data[h]) if(x.symbol == s && (complete || x.t < reached)) seen.push_back(x);
            // all the trades, once
            auto trades = [&](const std::vector<heard_data> &v) { std::vector<std::array<i64, 4>> t; for(auto &x : v) for(auto &[a, b] : x.trades) t.push_back({(i64)x.t, (i64)x.sent, a, (i64)b}); if(!p.in_order[h]) std::sort(t.begin(), t.end()); return t; };
            auto te = trades(e), ts = trades(seen);
            if(te != ts) {
                std::size_t i = 0;
                while(i < te.size() && i < ts.size() && te[i] == ts[i]) ++i;
                violated("market-data-trades", "trader ", h, " symbol ", s, ": ", ts.size(), " trades were published, ", te.size(), " took place, the first difference is ", i < ts.size() ? text(ts[i][3], "@", ts[i][2], " at ", ts[i][1]) : std::string("none"), " instead of ", i < te.size() ? text(te[i][3], "@", te[i][2], " at ", te[i][1]) : std::string("none"));
            }
            // all the best prices, in order
            auto prices = [&](const std::vector<heard_data> &v) {
                std::vector<std::string> t;
                for(auto &x : v) { auto d = text("bid ", show(x.bid), " ask ", show(x.ask), " sent at ", x.sent, " received at ", x.t); if(t.empty() || t.back() != d) t.push_back(d); }
                if(!p.in_order[h]) { std::sort(t.begin(), t.end()); t.erase(std::unique(t.begin(), t.end()), t.end()); }
                return t;
            };
            auto pe = prices(e), ps = prices(seen);
            for(std::size_t i = 0; i < std::max(pe.size(), ps.size()); ++i) if(i >= pe.size() || i >= ps.size() || pe[i] != ps[i])
                violated("market-data-prices", "trader ", h, " symbol ", s, " hears ", i < ps.size() ? ps[i] : std::string("nothing"), " instead of ", i < pe.size() ? pe[i] : std::string("nothing"));
            published += pe.size();
        }
    }
    // ------------------------------------------------------------- the record
    if(recorded && complete) {
        std::vector<std::string> found;
        for(auto &[t, v] : w->exchange->output_orders->values) {
            auto &[symbol, limit, owner, side, quantity, state] = v;
            found.push_back(text("at ", t, " symbol ", w->symbol(symbol), " trader ", who(owner), ": ", (int)state, side == limit_order::buy ? " buy " : " sell ", quantity, "@", price_of(limit)));
        }
        for(std::size_t i = 0; i < std::max(found.size(), records.size()); ++i) if(i >= found.size() || i >= records.size() || found[i] != records[i])
            violated("record", "the record of orders says ", i < found.size() ? found[i] : std::string("nothing"), " instead of ", i < records.size() ? records[i] : std::string("nothing"));
        count("records_checked", records.size());
    }
    // ---------------------------------------------------------------- positions
    if(complete) for(int s = 0; s < symbols; ++s) {
        std::map<int, std::array<u64, 3>> found;
        auto i = w->exchange->positions.find(w->symbols[s]);
        if(i != w->exchange->positions.end()) for(auto &[a, b] : i->second) {
            found[who(a)] = {b.supply, b.bought, b.sold};
            if(b.liquidity_provided() != std::min<u64>(b.bought, b.sold) || b.liquidity_provided() + b.liquidity_taken() != std::max<u64>(b.bought, b.sold))
                violated("positions", "bought ", b.bought, " and sold ", b.sold, ", liquidity provided ", b.liquidity_provided(), ", taken ", b.liquidity_taken());
        }
        auto show = [](const std::map<int, std::array<u64, 3>> &m) { std::string d; for(auto &[a, b] : m) d += text(" ", a, ":", b[0], "+", b[1], "-", b[2]); return d; };
        if(found != positions[s]) violated("positions", "symbol ", s, " positions are", show(found), " instead of", show(positions[s]));
    }
    // ------- a matching engine that is fed the same orders makes the same trades
    if(complete) {
        int next = 0;
        std::vector<market_plan> order;     // markets in the order in which their books are needed
        std::set<int> known;
        for(auto &x : w->log) if(x.k == k_order && x.symbol >= 0 && known.insert(x.symbol).second) order.push_back(p.markets[x.symbol]);
        ob::matching_engine engine([&]() -> std::shared_ptr<basic_book> {
            if(next >= (int)order.size()) violated("engine-books", "a matching engine made more books than there are symbols");
            return make_book(order[next++]);
        });
        known.clear();
        for(auto &x : w->log) if(x.symbol >= 0 && (x.k == k_order || x.k == k_cancel)) {
            try {
                if(x.k == k_order) { engine.insert(x.order); known.insert(x.symbol); }
                else if(known.count(x.symbol) || x.id % 2) engine.cancel(w->symbols[x.symbol], x.id);
            } catch(const std::length_error &) {}
        }
        for(int i = 0; i < symbols; ++i) {
            auto b = engine.books.find(w->symbols[i]);
            std::vector<execution_report> all;
            for(auto &o : w->books[i]->log) all.insert(all.end(), o.reports.begin(), o.reports.end());
            if(b == engine.books.end()) { if(known.count(i)) violated("engine-books", "a matching engine has no book for a symbol"); continue; }
            auto &r = b->second->reports;
            bool same = all.size() == r.size();
            for(std::size_t k = 0; same && k < r.size(); ++k) same = show(all[k]) == show(r[k]) && all[k].owner == r[k].owner;
            if(!same) violated("engine-reports", "symbol ", i, ": a matching engine reports ", r.size(), " events, the exchange ", all.size(), " or other ones");
        }
    }
    u64 trades = 0, operations = 0;
    for(auto &b : w->books) {
        trades += b->trades; operations += b->log.size();
        count("orders_traded", b->trades / 2);
        count("cancellations", b->cancelled);
        count("fault.cancel_after_the_order_is_gone", b->stale);
        count("fault.book_full", b->full);
    }
    for(int i = 0; i < p.traders; ++i) { count("fault.message_lost", w->lost[i]); count("fault.message_duplicated", w->duplicated[i]); }
    count("book_operations", operations);
    count("reports_checked", checked);
    count("prices_published", published);
    if(operations > 3 && (trades > 0)) nontrivial();
}
