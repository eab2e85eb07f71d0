// Several simulations in one process (C20): each is a small economy with
// talking agents, an exchange, a Walrasian and an impact function market,
// companies with shareholders, owners and recorded outputs, run for real on
// worker threads of its own. They run alone, one after another, and at the
// same time on simulated threads, some of them failing; every one has to do
// exactly the same in all cases.
#include "common.hpp"

#include <esl/agent.hpp>
#include <esl/exception.hpp>
#include <esl/computation/environment.hpp>
#include <esl/data/producer.hpp>
#include <esl/economics/company.hpp>
#include <esl/economics/currencies.hpp>
#include <esl/economics/finance/bondholder.hpp>
#include <esl/economics/finance/dividend.hpp>
#include <esl/economics/finance/shareholder.hpp>
#include <esl/economics/markets/centralized_exchange.hpp>
#include <esl/economics/markets/impact_function/market.hpp>
#include <esl/economics/markets/impact_function/order.hpp>
#include <esl/economics/markets/impact_function/quote.hpp>
#include <esl/economics/markets/order_book/binary_tree_order_book.hpp>
#include <esl/economics/markets/order_book/static_order_book.hpp>
#include <esl/economics/markets/walras/price_setter.hpp>
#include <esl/economics/markets/walras/quote_message.hpp>
#include <esl/economics/owner.hpp>
#include <esl/interaction/transfer.hpp>
#include <esl/simulation/model.hpp>

#include <array>
#include <cmath>
#include <iostream>

using namespace simrt;
using esl::identity;
using esl::quantity;
using esl::simulation::time_interval;
using esl::simulation::time_point;
using esl::law::property;
using namespace esl::economics;
using namespace esl::economics::markets;
using namespace esl::economics::finance;
namespace ob = esl::economics::markets::order_book;
using harness::text;
const char *harness::name = "together";

namespace {
    typedef std::uint64_t u64;
    typedef std::int64_t i64;
    typedef esl::law::owner<property> base_owner;
    struct spec {
        u64 seed = 0, start = 1, end = 10, sample = 0, fail = 0, fail_impact = 0;
        double p_memory = 0;
        unsigned threads = 1;
        int drive = 0, talkers = 0, owners = 0, brokers = 0, bidders = 0, takers = 0, firms = 0, holders = 0;
        bool tree = false;
        bool operator<(const spec &o) const { return seed < o.seed; }
    };
    typedef std::vector<std::string> history;
    struct economy;

    struct diary {
        economy *w = nullptr;
        int index = 0;
        history notes;
        template<class... A> void note(const A &... a) { quiet q; notes.push_back(text(a...)); }
        std::array<std::uint32_t, 4> draw(std::seed_seq &s) { std::array<std::uint32_t, 4> v; s.generate(v.begin(), v.end()); return v; }
        template<class I> std::string rep(const I &i) { quiet q; return i.representation(); }
        std::string shown(const std::array<std::uint32_t, 4> &v) { quiet q; return text(v[0], ' ', v[1], ' ', v[2], ' ', v[3]); }
    };
    struct shout : esl::interaction::message<shout, (u64(1) << 61) | 2> { using message_t = esl::interaction::message<shout, (u64(1) << 61) | 2>; using message_t::message_t; u64 n = 0; };
    struct word : esl::interaction::message<word, (u64(1) << 61) | 1> { using message_t = esl::interaction::message<word, (u64(1) << 61) | 1>; using message_t::message_t; u64 n = 0; };

    struct talker;
    struct economy {
        const spec &p;
        esl::computation::environment env;
        esl::simulation::model model;
        std::vector<std::shared_ptr<esl::agent>> agents;
        std::vector<diary *> diaries;
        std::vector<std::shared_ptr<talker>> talkers;
        std::vector<std::shared_ptr<base_owner>> owners;
        std::vector<std::shared_ptr<property>> things;
        std::vector<ticker> symbols;
        std::shared_ptr<centralized_exchange> exchange;
        std::shared_ptr<walras::price_setter> setter;
        std::shared_ptr<impact_function::market> impact;
        std::vector<std::shared_ptr<esl::agent>> firms, holders;
        economy(const spec &p) : p(p), model(env, esl::simulation::parameter::parametrization(p.sample, p.start, p.end, 0, p.threads)) { build(); }
        template<class T> std::shared_ptr<T> add(int index) {
            auto a = model.create<T>(model.world, index, this);
            agents.push_back(a);
            diaries.push_back(a.get());
            return a;
        }
        void build();
        std::string what;
        u64 t = 0;
        bool over = false;
        double p_memory = 0;            // allocations that fail while it advances
        u64 impacts = 0;
        void advance();                 // a time step, a window or the whole simulation
        history run() { while(!over) advance(); return result(); }
        history result();
    };

    // ------------------------------------------------ agents that talk
    struct talker : esl::agent, diary {
        std::shared_ptr<esl::data::output<u64, std::string>> said;
        u64 acts = 0;
        talker(const identity<talker> &i, int index, economy *w) : agent(identity<esl::agent>(i.digits)) {
            this->w = w; this->index = index;
            schedule = mix(w->p.seed, 50 + index) % 2 ? in_order : random;
            said = create_output<u64, std::string>("said");
            std::function<time_point(std::shared_ptr<word>, time_interval, std::seed_seq &)> f = [this](std::shared_ptr<word> m, time_interval s, std::seed_seq &seed) {
                note("hears ", m->n, " at ", s.lower, " of ", rep(m->sender), " random ", shown(draw(seed)));
                return m->n % 3 ? s.upper : std::min<time_point>(s.upper, s.lower + 1 + m->n % 4);
            };
            auto m = mix(w->p.seed, 70 + index);
            register_callback<word>(f, priority_t(m % 4), "word");
            if(m / 4 % 2) register_callback<word>([this](std::shared_ptr<word> m, time_interval s, std::seed_seq &) { note("again ", m->n, " at ", s.lower); return s.upper; }, priority_t(m / 8 % 6), "word again");
            register_callback<shout>([this](std::shared_ptr<shout> m, time_interval s, std::seed_seq &) { note("hears shout ", m->n, " at ", s.lower); return s.upper; }, priority_t(m / 64 % 4), "shout");
        }
        time_point act(time_interval s, std::seed_seq &seed) override;
    };
    time_point talker::act(time_interval s, std::seed_seq &seed) {
        auto v = draw(seed);
        note("acts at ", s.lower, " until ", s.upper, " random ", shown(v));
        if(s.lower >= w->p.fail && index == 0) throw harness::injected_error();
        if(v[0] % 5 == 0) { auto made = entity<esl::agent>::create<property>(); note("makes ", rep(made)); }
        ++acts;
        said->put(s.lower, u64(v[1]), text("act ", acts));
        for(u64 k = v[2] % 3; k; --k) {
            auto &to = w->talkers[(v[2] / 7 + k) % w->talkers.size()];
            if(v[0] / 5 % 2 == k % 2) {
                auto m = create_message<shout>(to->identifier, s.lower + v[3] % 4, identifier, to->identifier);
                m->sent = s.lower;
                m->n = v[1] % 1000 * 10 + k;
                continue;
            }
            auto m = create_message<word>(to->identifier, s.lower + v[3] % 4, identifier, to->identifier);
            m->sent = s.lower;
            m->n = v[1] % 1000 * 10 + k;
        }
        return v[1] % 2 ? s.upper : std::min<time_point>(s.upper, s.lower + 1 + v[1] % 5);
    }

    // ------------------------------------------------ owners that give things away
    struct giver : base_owner, diary {
        giver(const identity<giver> &i, int index, economy *w) : agent(identity<esl::agent>(i.digits)), base_owner(identity<base_owner>(i.digits)) { this->w = w; this->index = index; }
        time_point act(time_interval s, std::seed_seq &seed) override {
            auto v = draw(seed);
            std::string l;
            for(auto &x : w->things) {
                auto i = inventory.find(x);
                l += text(' ', i == inventory.end() ? 0 : i->second.amount);
            }
            note("owns at ", s.lower, l);
            int to = (int)(v[0] % w->owners.size());
            if(to != index) for(std::size_t k = 0; k < w->things.size(); ++k) {
                auto i = inventory.find(w->things[k]);
                if(i == inventory.end() || (v[1] >> k & 1)) continue;
                accounting::inventory_filter<property> f;
                f.insert(w->things[k], quantity(1 + v[2] % i->second.amount));
                base_owner &other = *w->owners[to];
                for(base_owner *x : {static_cast<base_owner *>(this), &other}) {
                    auto m = create_message<esl::interaction::transfer>(x->identifier, s.lower, identifier, x->identifier, identity<base_owner>(identifier.digits), identity<base_owner>(other.identifier.digits), f);
                    m->sent = s.lower;
                }
                break;
            }
            return std::min<time_point>(s.upper, s.lower + 1 + v[3] % 3);
        }
    };

    // ------------------------------------------------ an exchange
    i64 price_of(const quote &q) { return std::get<price>(q.type).value; }
    struct venue : centralized_exchange, diary {
        venue(const identity<venue> &i, int index, economy *w) : agent(identity<esl::agent>(i.digits)), centralized_exchange(identity<centralized_exchange>(i.digits), w->symbols) { this->w = w; this->index = index; schedule = random; }
        time_point act(time_interval s, std::seed_seq &) override {
            for(auto &x : w->symbols) {
                auto &b = *books.find(x)->second;
                auto bid = b.bid(), ask = b.ask();
                note("at ", s.lower, " bid ", bid ? price_of(*bid) : -1, " ask ", ask ? price_of(*ask) : -1);
            }
            return s.upper;
        }
    };
    struct broker : esl::agent, diary {
        std::vector<std::pair<ticker, u64>> placed;
        bool known = false;
        broker(const identity<broker> &i, int index, economy *w) : agent(identity<esl::agent>(i.digits)) {
            this->w = w; this->index = index;
            std::function<time_point(std::shared_ptr<execution_report_message>, time_interval, std::seed_seq &)> f = [this](std::shared_ptr<execution_report_message> m, time_interval s, std::seed_seq &) {
                auto &r = m->report;
                note("report at ", s.lower, ": ", (int)r.state, ' ', (int)r.side, ' ', r.quantity, '@', price_of(r.limit), " id ", r.identifier);
                if(r.state == ob::execution_report::placement) placed.push_back({m->order.symbol, r.identifier});
                return s.upper;
            };
            register_callback<execution_report_message>(f, 0, "reports");
            std::function<time_point(std::shared_ptr<market_data_message>, time_interval, std::seed_seq &)> d = [this](std::shared_ptr<market_data_message> m, time_interval s, std::seed_seq &) {
                std::string l;
                for(auto &[a, b] : m->trades) l += text(' ', b, '@', price_of(a));
                note("data at ", s.lower, ':', l, " bid ", m->bid.empty() ? -1 : price_of(m->bid[0].first), " ask ", m->ask.empty() ? -1 : price_of(m->ask[0].first));
                return s.upper;
            };
            register_callback<market_data_message>(d, 0, "market data");
        }
        template<class M> std::shared_ptr<M> post(u64 now) {
            identity<esl::agent> to(w->exchange->identifier.digits);
            auto m = create_message<M>(to, now);
            m->sender = identifier; m->sent = now;
            return m;
        }
        time_point act(time_interval s, std::seed_seq &seed) override {
            auto v = draw(seed);
            if(!known) {
                known = true;
                auto m = post<market_data_request_message>(s.lower);
                m->instruments = w->symbols;
                m->type = market_data_request_message::stream;
                m->depth = 1;
                post<logon_message>(s.lower)->supply[w->symbols[0]] = 1000;
            }
            for(u64 k = 0; k < v[0] % 3; ++k) {
                auto &t = w->symbols[(v[1] >> k) % w->symbols.size()];
                auto m = post<new_order_single_message>(s.lower);
                m->order_details = ob::limit_order(t, identifier, (v[2] >> k) % 2 ? ob::limit_order::sell : ob::limit_order::buy, quote(price(10 + (v[3] >> k) % 9, currencies::USD), 100), 1 + (v[1] >> k) % 20);
            }
            if(!placed.empty() && v[1] % 4 == 0) {
                auto &[t, id] = placed[v[2] % placed.size()];
                auto m = post<cancel_order_message>(s.lower);
                m->symbol = t; m->order = id;
            }
            return std::min<time_point>(s.upper, s.lower + 1 + v[3] % 2);
        }
    };

    // ------------------------------------------------ a Walrasian market
    struct demand : walras::differentiable_order_message {
        std::map<identity<property>, double> units;
        demand(const identity<esl::agent> &from, const identity<esl::agent> &to, std::map<identity<property>, double> units) : differentiable_order_message(from, to), units(std::move(units)) {}
        std::map<identity<property>, esl::variable> excess_demand(const std::map<identity<property>, std::tuple<quote, esl::variable>> &quotes) const override {
            std::map<identity<property>, esl::variable> r;
            for(auto &[k, u] : units) {
                auto &[q, s] = quotes.find(k)->second;
                r.emplace(k, u * double(q) * s);
            }
            return r;
        }
    };
    struct bidder : base_owner, diary {
        bidder(const identity<bidder> &i, int index, economy *w) : agent(identity<esl::agent>(i.digits)), base_owner(identity<base_owner>(i.digits)) {
            this->w = w; this->index = index;
            std::function<time_point(std::shared_ptr<walras::quote_message>, time_interval, std::seed_seq &)> f = [this](std::shared_ptr<walras::quote_message> m, time_interval s, std::seed_seq &) {
                {
                    quiet q;
                    std::map<std::string, i64> l;
                    for(auto &[k, x] : m->proposed) l[k->identifier.representation()] = price_of(x);
                    for(auto &[k, x] : l) note("quote at ", s.lower, " of ", k, ' ', x);
                }
                // one of a pair wants what the other one sells
                std::map<identity<property>, double> units;
                for(auto &x : this->w->things) {
                    double u = (double)(mix(mix(this->w->p.seed, this->index / 2), s.lower * 16 + x->identifier.digits.back()) % 20);
                    if(this->index / 2 * 2 + 1 < this->w->p.bidders) units.emplace(x->identifier, this->index % 2 ? u : -u);
                }
                if(units.empty()) return s.upper;
                auto o = create_message<demand>(this->w->setter->identifier, s.lower, identifier, this->w->setter->identifier, units);
                o->sent = s.lower;
                o->received = s.lower;
                for(auto &x : this->w->things) {
                    auto a = inventory.find(x);
                    o->supply.emplace(x->identifier, std::make_tuple(a == inventory.end() ? quantity(0) : a->second, quantity(0)));
                }
                return s.upper;
            };
            register_callback<walras::quote_message>(f, 0, "quote");
        }
        time_point act(time_interval s, std::seed_seq &) override {
            quiet q;
            std::map<std::string, u64> l;
            for(auto &[k, x] : inventory) l[k->identifier.representation()] += x.amount;
            for(auto &[k, x] : l) note("has at ", s.lower, ' ', x, " of ", k);
            return s.upper;
        }
    };
    struct setter : walras::price_setter, diary {
        setter(const identity<setter> &i, esl::law::property_map<quote> traded) : agent(identity<esl::agent>(i.digits)), walras::price_setter(identity<walras::price_setter>(i.digits), std::move(traded)) {}
    };

    // ------------------------------------------------ an impact function market
    struct taker : base_owner, diary {
        taker(const identity<taker> &i, int index, economy *w) : agent(identity<esl::agent>(i.digits)), base_owner(identity<base_owner>(i.digits)) { this->w = w; this->index = index; }
        time_point act(time_interval s, std::seed_seq &seed) override {
            auto v = draw(seed);
            for(auto &[k, m] : inbox) {
                if(m->type != impact_function::quote_message::code || m->received != s.lower) continue;
                {
                    quiet q;
                    std::map<std::string, i64> l;
                    for(auto &[x, y] : std::dynamic_pointer_cast<impact_function::quote_message>(m)->proposed) l[x->identifier.representation()] = price_of(y);
                    for(auto &[x, y] : l) note("impact quote at ", s.lower, " of ", x, ' ', y);
                }
                auto o = create_message<impact_function::order_message>(w->impact->identifier, s.lower, identifier, w->impact->identifier);
                o->sent = s.lower;
                for(auto &x : w->things) o->volumes.emplace(x, std::make_pair(v[1] % 50, v[2] >> (x->identifier.digits.back() % 8) & 1 ? impact_function::order_message::buy : impact_function::order_message::sell));
            }
            return s.upper;
        }
    };

    // ------------------------------------------------ companies and shareholders
    struct firm : company, diary {
        firm(const identity<firm> &i, int index, economy *w)
        : agent(identity<esl::agent>(i.digits)), company(identity<company>(i.digits), esl::law::jurisdiction(esl::geography::countries::US, currencies::USD)) {
            this->w = w; this->index = index;
            std::function<time_point(std::shared_ptr<dividend_record>, time_interval, std::seed_seq &)> f = [this](std::shared_ptr<dividend_record> m, time_interval s, std::seed_seq &) {
                u64 n = 0;
                for(auto &[k, v] : m->shares_on_record) n += v;
                note("record at ", s.lower, " of ", rep(m->sender), ' ', n);
                return s.upper;
            };
            register_callback<dividend_record>(f, 0, "record");
        }
        std::optional<dividend_policy> upcoming_dividend(time_interval s, std::seed_seq &) override {
            for(u64 t = w->p.start + 1 + index; t < w->p.end; t += 5) if(t + 3 >= s.lower)
                return dividend_policy(t, t + 2, {s.lower, s.upper}, t + 3, currencies::USD, {{share_class(), std::make_tuple(u64(7), price((i64)t, currencies::USD))}});
            return {};
        }
        time_point act(time_interval s, std::seed_seq &seed) override {
            for(auto &h : w->holders) shareholders[identity<shareholder>(h->identifier.digits)] = {{share_class(), 5}};
            auto next = company::act(s, seed);
            note("firm at ", s.lower, " until ", next);
            return std::min<time_point>(next, s.lower + 4);
        }
    };
    struct holder : shareholder, diary {
        holder(const identity<holder> &i, int index, economy *w) : agent(identity<esl::agent>(i.digits)), shareholder(identity<shareholder>(i.digits)) {
            this->w = w; this->index = index;
            std::function<time_point(std::shared_ptr<dividend_announcement_message>, time_interval, std::seed_seq &)> f = [this](std::shared_ptr<dividend_announcement_message> m, time_interval s, std::seed_seq &) {
                note("dividend at ", s.lower, " of ", rep(m->sender), ' ', m->policy.announcement_date, ' ', m->policy.payable_date);
                for(auto &x : this->w->firms) shares[identity<company>(x->identifier.digits)] = {{share_class(), 10 + s.lower}};
                return s.upper;
            };
            register_callback<dividend_announcement_message>(f, 10, "before the record");
        }
        time_point act(time_interval s, std::seed_seq &) override { note("holder at ", s.lower); return s.upper; }
    };

    void economy::build() {
        rng r(mix(p.seed, 5));
        for(u64 j = 0, n = 1 + r.below(4); j < n; ++j) things.push_back(std::make_shared<property>(identity<property>{3, j}));
        for(int i = 0; i < p.talkers; ++i) talkers.push_back(add<talker>(i));
        for(int i = 0; i < p.owners; ++i) {
            owners.push_back(add<giver>(i));
            for(auto &x : things) if(r.chance(0.7)) owners.back()->inventory.insert({x, quantity(1 + r.below(1000))});
        }
        if(p.brokers) {
            for(u64 i = 0; i < 2; ++i) symbols.push_back(ticker({3, i}, {4, i}));
            exchange = add<venue>(0);
            for(auto &x : symbols) {
                if(p.tree) exchange->books.emplace(x, std::make_shared<ob::binary_tree_order_book>());
                else exchange->books.emplace(x, std::make_shared<ob::static_order_book>(quote(price(1, currencies::USD), 100), quote(price(40, currencies::USD), 100), 400));
            }
            for(int i = 0; i < p.brokers; ++i) add<broker>(i);
        }
        esl::law::property_map<quote> traded;
        for(auto &x : things) traded.insert({x, quote(price(10'000 + (i64)r.below(100'000), currencies::USD))});
        if(p.bidders) {
            auto s = model.create<::setter>(model.world, traded);
            setter = s;
            for(int i = 0; i < p.bidders; ++i) {
                auto b = add<bidder>(i);
                for(auto &x : things) b->inventory.insert({x, quantity(1'000'000)});
                b->inventory.insert({std::make_shared<cash>(currencies::USD), quantity(1'000'000'000'000ull)});
                s->participants.insert(identity<base_owner>(b->identifier.digits));
            }
        }
        if(p.takers) {
            impact = model.create<impact_function::market>(model.world, traded);
            double strength = 0.1 + r.unit();
            impact->impact_function = [this, strength](double v) {
                if(p.fail_impact && ++impacts >= p.fail_impact) throw harness::injected_error();
                return strength * v;
            };
            for(int i = 0; i < p.takers; ++i) impact->participants.insert(identity<base_owner>(add<taker>(i)->identifier.digits));
        }
        for(int i = 0; i < p.firms; ++i) { auto f = add<firm>(i); firms.push_back(f); }
        for(int i = 0; i < p.holders; ++i) { auto h = add<holder>(i); holders.push_back(h); }
    }

    void economy::advance() {
        try {
            alloc_faults window(p_memory, true);
            if(!t) t = p.start;
            if(p.drive == 0) { env.run(model); over = true; }
            else {
                u64 upper = p.drive == 2 ? std::min(p.end, t + 3) : p.end;
                if(p.drive == 1) t = model.step({t, upper});
                else while(t < upper) t = model.step({t, upper});
                over = t >= p.end;
            }
            return;
        } catch(const harness::injected_error &) { quiet q; what = "injected"; }
        catch(const std::bad_alloc &) { quiet q; what = "memory"; }
        catch(const std::exception &e) { quiet q; what = text("exception ", e.what()); }
        over = true;
    }
    history economy::result() {
        history h;
        quiet q;
        h.push_back("ends with: " + what);
        if(what.empty()) h.push_back(text("messages ", model.messages_sent, " time ", model.time, " threads ", model.threads, " agents ", model.agents.local_agents_.size()));
        // after a failure other agents may have been interrupted at any point of the instant
        if(what.empty()) for(std::size_t i = 0; i < diaries.size(); ++i) for(auto &x : diaries[i]->notes) h.push_back(text(agents[i]->identifier.representation(), ' ', x));
        if(what.empty()) for(auto &x : talkers) for(auto &[t, a, b] : x->said->values) h.push_back(text("said ", t, ' ', a, ' ', b));
        if(setter && what.empty()) for(auto &[t, l] : setter->output_clearing_prices_->values) { std::multiset<i64> v; for(auto &x : l) v.insert(x.value); std::string s = text("walras ", t); for(auto x : v) s += text(' ', x); h.push_back(s); }
        if(impact && what.empty()) for(auto &[t, l] : impact->output_clearing_prices_->values) { std::multiset<i64> v; for(auto &x : l) v.insert(x.value); std::string s = text("impact ", t); for(auto x : v) s += text(' ', x); h.push_back(s); }
        return h;
    }
    history alone(const spec &p, double p_memory = 0) {
        auto w = std::make_unique<economy>(p);
        w->p_memory = p_memory;
        return w->run();
    }
    struct quiet_buffer : std::streambuf {
        int overflow(int c) override { return c == EOF ? 0 : c; }
        std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
    };
}

// ---- stands in for the numerical solver: depends on the prices and orders only
namespace esl::economics::markets::tatonnement {
    excess_demand_model::excess_demand_model(law::property_map<quote> initial) : quotes(std::move(initial)) {}
    excess_demand_model::~excess_demand_model() = default;
    std::optional<std::map<identity<law::property>, double>> excess_demand_model::compute_clearing_quotes(std::size_t) {
        std::map<identity<law::property>, double> r;
        u64 h = excess_demand_functions_.size();
        for(auto &[k, v] : quotes) {
            static const double m[] = {1.0, 1.25, 0.75, 1.1, 0.9};
            r.emplace(k->identifier, m[mix(h, (u64)std::get<price>(v.type).value) % 5]);
        }
        return r;
    }
}

void harness::setup() {
    static quiet_buffer nothing;
    std::clog.rdbuf(&nothing); std::cout.rdbuf(&nothing); std::cerr.rdbuf(&nothing);
}

void harness::run(u64 seed, simrt::options opt, int) {
    rng r(mix(seed, 1));
    std::vector<spec> specs;
    int n = 2 + (int)r.below(2);
    bool similar = r.chance(0.5), failing = r.chance(0.3), memory = r.chance(0.25);
    for(int i = 0; i < n; ++i) {
        spec s;
        s.seed = mix(seed, 10 + i);
        s.start = r.chance(0.5) ? 0 : 1 + r.below(5);
        s.end = s.start + 2 + r.below(r.chance(0.1) ? 12 : 4);
        s.sample = r.below(3);
        s.threads = r.chance(0.75) ? 1 : 2 + (unsigned)r.below(2);
        s.drive = (int)r.below(3);
        s.tree = r.chance(0.5);
        // a few of the parts an economy can have
        for(int k = 0; k < 2; ++k) switch(r.below(6)) {
        case 0: s.talkers = 1 + (int)r.below(3); break;
        case 1: s.owners = 2 + (int)r.below(2); break;
        case 2: s.brokers = 1 + (int)r.below(2); break;
        case 3: s.bidders = 2 + 2 * (int)r.below(2); break;
        case 4: s.takers = 1 + (int)r.below(2); break;
        case 5: s.firms = 1 + (int)r.below(2); s.holders = 1 + (int)r.below(2); break;
        }
        if(similar && i) {      // the same kind of model with other data or another sample
            spec t = specs[0];
            if(r.chance(0.5)) t.seed = s.seed;
            if(r.chance(0.5)) t.sample = s.sample;
            if(r.chance(0.5)) t.threads = s.threads;
            s = t;
        }
        s.fail = 0;
        if(failing && r.chance(0.4)) s.talkers = std::max(s.talkers, 1);
        else s.fail = ~0ull;
        if(!s.fail) s.fail = s.start + r.below(s.end - s.start);
        if(failing && r.chance(0.4)) { s.fail_impact = 1 + r.below(6); s.takers = std::max(s.takers, 1); }
        s.p_memory = memory && r.chance(0.6) ? std::array<double, 3>{0.00003, 0.0002, 0.003}[r.below(3)] : 0;
        if(i < 2 || keep()) specs.push_back(s);
    }
    n = (int)specs.size();
    opt.p_thread = 0;
    opt.max_steps = 120'000'000;
    std::vector<history> first(n), again(n);
    u64 span = 0;
    start(opt);
    // one after another
    for(int i = 0; i < n; ++i) first[i] = alone(specs[i]);
    // at the same time, on threads of their own or all driven by one
    bool one = r.chance(0.35);
    if(one) {
        std::vector<std::unique_ptr<economy>> worlds(n);
        std::vector<int> left;
        left.reserve(n);
        for(int i = 0; i < n; ++i) { worlds[i] = std::make_unique<economy>(specs[i]); worlds[i]->p_memory = specs[i].p_memory; left.push_back(i); }
        while(!left.empty()) {
            u64 k = r.below(left.size());
            worlds[left[k]]->advance();
            if(worlds[left[k]]->over) left.erase(left.begin() + k);
        }
        for(int i = 0; i < n; ++i) { history h = worlds[i]->result(); quiet q; again[i] = std::move(h); }
    } else {
        std::vector<std::thread> threads;
        threads.reserve(n);
        for(int i = 0; i < n; ++i) threads.emplace_back([&, i]() { history h = alone(specs[i], specs[i].p_memory); quiet q; again[i] = std::move(h); });
        for(auto &t : threads) t.join();
    }
    stop();
    quiet q;
    u64 lines = 0, failures = 0, memories = 0;
    for(int i = 0; i < n; ++i) {
        auto &a = first[i], &b = again[i];
        if(a[0] != "ends with: " && a[0] != "ends with: injected") violated("unexpected-exception", "simulation ", i, ' ', a[0]);
        if(specs[i].p_memory > 0 && b[0] == "ends with: memory") { ++memories; continue; }
        failures += a[0] != "ends with: ";
        for(std::size_t k = 0; k < std::max(a.size(), b.size()); ++k)
            if(k >= a.size() || k >= b.size() || a[k] != b[k]) violated("simulation-differs", "simulation ", i, " of ", n, ", entry ", k, ": alone '", k < a.size() ? a[k] : "(nothing)", "', among others '", k < b.size() ? b[k] : "(nothing)", "'");
        lines += a.size();
        for(auto &x : a) event(x);
        span += specs[i].end - specs[i].start;
    }
    model_time(span);
    count("simulations_run", 2 * n);
    count("history_entries_compared", lines);
    count(one ? "one_thread" : "own_threads");
    if(memories) count("fault.simulation_out_of_memory", memories);
    if(failures) count("fault.simulation_fails", failures);
    if(lines > 10) nontrivial();
}
