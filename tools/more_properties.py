prop('C11', 'Log statements from any thread arrive complete, once, and never block for good',
     'Every value written to a log or channel at or above its severity filter appears in the sink exactly once, unbroken, and in the order its thread wrote it, whatever other threads write to the same or other channels; values below the filter never appear, and a statement that names its source carries level, file and line. '
     'No use of a channel (line-end manipulators, values that log while they are formatted, values or sinks that throw) ever blocks or corrupts the channel for later statements, and an exception reaches the thread that wrote the value. '
     'Concurrent logging involves no unsynchronised access to memory.',
     ['schedules', 'fault_sequences', 'programs'], 'every interleaving of 1..4 logging threads, preempted inside the sink at every character; throwing values and sinks',
     'No test logs from two threads or uses the channel\'s own line end; torn lines and self-deadlocks need schedules and particular manipulators.',
     ['esl/data/channel.hpp', 'esl/data/channel.cpp', 'esl/data/log.hpp', 'esl/data/null_ostream.hpp'],
     [('one lock for all channels, held per value', 'esl/data/channel.hpp: operator<<'), ('filter by severity', 'esl/data/log.hpp: get'), ('source position', 'esl/data/log.hpp: apply_formatting')],
     [('mutex_', 'serialises writes of all channels', 'esl/data/channel.hpp')])
prop('C12', 'Recorded outputs lose nothing, whatever the sinks do',
     'Every value an agent records is kept in the output\'s history with its time, in the order recorded, and an unbuffered output has passed it to every attached healthy sink exactly once, complete and durably (flushed), before the recording call returns, so nothing acknowledged is lost when the process dies at any later point; a buffered output writes nothing to its sinks. '
     'A sink that fails (short or interrupted write, full disk, I/O error, refused characters) affects neither the history nor the other sinks. '
     'A file holds what was recorded in it, and nothing that was left under its name before; a stream that is attached more than once, or to several outputs, gets everything as often. '
     'A file that can not be created and an unknown output name are reported as errors.',
     ['fault_sequences', 'crash_points', 'histories', 'schedules'], 'every sequence of recordings and attachments of memory and file sinks, every point of death between writes, disk faults at every system call, outputs on several threads',
     'No test covers outputs with sinks; partial writes, failing disks and process death can not be arranged in unit tests.',
     ['esl/data/output.hpp', 'esl/data/output_base.hpp', 'esl/data/output_base.cpp', 'esl/data/producer.hpp', 'esl/data/file.cpp', 'esl/data/stream.hpp'],
     [('history first, then each sink, with a flush', 'esl/data/output.hpp: put; esl/data/output_base.hpp: write'), ('files are created and checked', 'esl/data/file.cpp'), ('outputs by name', 'esl/data/producer.hpp')],
     [('values', 'history', 'esl/data/output.hpp'), ('streams', 'attached sinks', 'esl/data/output_base.hpp')])
prop('C07', 'Property transfers conserve what is owned',
     'A transfer takes effect once, at the instant it is delivered to each party: what the sender no longer owns the recipient owns, for every property and for items of several kinds in one transfer, and everybody else\'s holdings are untouched. No property is created, destroyed or duplicated by any sequence of transfers, including transfers to oneself, of nothing, arriving late or in the same instant. '
     'The typed views of an agent always agree with its inventory. A transfer or withdrawal of more than is owned is refused with an error that reaches the caller, and a refused withdrawal changes nothing.',
     ['histories', 'programs', 'schedules'], 'every population of owners (generic and typed), every sequence of transfers with different delivery times for the parties, 1..4 worker threads, overdrafts',
     'The owner test is not part of the build and moves one item once; lost or duplicated property needs sequences of transfers in flight and unusual items.',
     ['esl/economics/owner.hpp', 'esl/economics/accounting/inventory.hpp', 'esl/law/property_collection.hpp', 'esl/interaction/transfer.hpp'],
     [('transfer handlers of generic and typed owners', 'esl/economics/owner.hpp'), ('additions and withdrawals', 'esl/economics/accounting/inventory.hpp: insert_into, erase_from, insert, erase'), ('property is looked up by identity', 'esl/law/property_collection.hpp')],
     [('inventory', 'what an agent owns', 'esl/economics/owner.hpp'), ('properties', 'typed view of the inventory', 'esl/economics/owner.hpp')])
prop('C15', 'Companies and investors meet their dates and know the latest prices',
     'A company announces every dividend policy exactly once, to each shareholder registered at that moment, with the dates and amounts of the policy, at its first activation on or after the announcement date; it wakes up by itself at the announcement date and at the payable date and the simulation always moves on. '
     'A shareholder that hears of a dividend before the ex-dividend date submits a record with exactly the shares it holds at that moment, and never one for a dividend that is over. '
     'The price of everything a shareholder or bondholder knows is the one that was quoted to it last, amount and currency, whatever order quotes, markets and activations came in.',
     ['histories', 'programs', 'schedules'], 'every set of dividend policies (overlapping, same-day dates), shareholder registers that change over time, companies that hold shares of others, dividends in several currencies, quotes in the same instant and later, 1..4 worker threads, extra activations',
     'No test runs a company, shareholder or bondholder in a simulation; stuck clocks, repeated announcements and stale prices appear only over a sequence of dates.',
     ['esl/economics/company.cpp', 'esl/economics/finance/shareholder.cpp', 'esl/economics/finance/bondholder.cpp', 'esl/economics/finance/dividend.hpp'],
     [('dates and announcements', 'esl/economics/company.cpp: act'), ('shareholders of all classes, once', 'esl/economics/company.cpp: unique_shareholders'), ('records and prices', 'esl/economics/finance/shareholder.cpp: constructor, submit_dividend_record'), ('bond prices', 'esl/economics/finance/bondholder.cpp')],
     [('last_announced_', 'the policy that was announced last', 'esl/economics/company.hpp'), ('ex_dividend_dates', 'open dividends', 'esl/economics/finance/shareholder.hpp'), ('prices', 'latest quotes', 'esl/economics/finance/shareholder.hpp'), ('bond_prices', 'latest quotes', 'esl/economics/finance/bondholder.hpp')])
prop('C08', 'The order book matches by price, then time, and loses or invents nothing',
     'Whatever sequence of orders and cancellations reaches a dynamically allocated order book, in whatever order the network delivers them: an order trades against the best price of the other side first and at one price against the oldest order first, at the price of the resting order and never beyond its own limit; the taker and the resting order are each reported every execution once, with the same quantity, so what is bought is what is sold and no order executes more than its quantity. '
     'A remainder is placed under an identifier never used before, or cancelled for immediate-or-cancel orders; a fill-or-kill order executes completely or not at all. Cancelling an open order removes and reports exactly what is left of it; cancelling anything else changes and reports nothing. '
     'The best bid and ask and the list of open orders always describe exactly the open orders, and the book is never crossed. A matching engine that receives the same orders for several symbols makes the same reports.',
     ['histories', 'fault_sequences', 'schedules'], 'every sequence of orders and cancellations from several traders with delayed, lost and duplicated messages, cancellations that cross executions, stale and invented identifiers',
     'The order book test does not even compile in this tree, and samples four orders; priority, identifiers and stale cancellations need long histories.',
     ['esl/economics/markets/order_book/binary_tree_order_book.hpp', 'esl/economics/markets/order_book/basic_book.hpp', 'esl/economics/markets/order_book/matching_engine.hpp'],
     [('matching', 'binary_tree_order_book.hpp: insert'), ('cancellation', 'binary_tree_order_book.hpp: cancel'), ('one book per symbol', 'matching_engine.hpp: insert, cancel')],
     [('orders_bid, orders_ask', 'open orders by price and time', 'binary_tree_order_book.hpp'), ('limit_orders_', 'open orders by identifier', 'binary_tree_order_book.hpp')])
prop('C10', 'The preallocated order book behaves like any order book until it is full',
     'A statically allocated order book treats every sequence of orders and cancellations exactly as a price-time order book does (priority, execution at the resting price, complete and single reports, unique identifiers, immediate-or-cancel and fill-or-kill), for every price of its range including the lowest and the highest, and whatever is reused of its memory: '
     'a cancellation refers to the order that received the identifier and to no later one, and one of an order that is gone changes nothing. Orders outside the range, without a quantity or with another lot size are reported as invalid and leave the book unchanged. '
     'As many orders as the book has capacity for can be open at any time; one more is refused with an error, after which the book still works.',
     ['histories', 'fault_sequences', 'schedules'], 'every sequence of orders and cancellations with ranges of 2 to 600 prices, lots of 100 and 1000, capacities of 1 to 2000 orders, exhausted pools, stale and invented identifiers',
     'The order book test does not even compile in this tree; stale identifiers, drained price levels and exhausted pools arise only in long histories.',
     ['esl/economics/markets/order_book/static_order_book.hpp', 'esl/computation/block_pool.hpp'],
     [('matching', 'static_order_book.hpp: insert, match_at_level'), ('cancellation', 'static_order_book.hpp: cancel'), ('prices are levels', 'static_order_book.hpp: encode, span'), ('memory and identifiers', 'block_pool.hpp: emplace, erase')],
     [('limits_', 'queues by price level', 'static_order_book.hpp'), ('best_bid_, best_ask_', 'best levels', 'static_order_book.hpp'), ('blocks', 'orders', 'block_pool.hpp')])
prop('C09', 'The exchange applies, reports and publishes everything exactly once',
     'Every order and cancellation that reaches an exchange changes the book of its symbol once, in the order in which the messages are handled; an order for a symbol that is not traded is an error for the modeller. '
     'For every event in a book (placement, execution, cancellation, rejection) the owner of the order concerned receives exactly one report, with the details of that event, sent at the instant of the event and delivered after the latency of its recipient; nobody receives anything else. '
     'Every subscriber of a market data stream receives every trade of its instruments once, and the new best bid and ask after each trade and each change, in order, from the instant of the subscription until it is cancelled or the participant logs out. '
     'The position of each participant that is logged on is its declared supply and what it bought and sold since. If orders are recorded, the record holds exactly what happened to the orders of each sender when they arrived, at that time, invalid orders excepted.',
     ['histories', 'fault_sequences', 'schedules'], 'every sequence of orders, cancellations, subscriptions, logons and logouts of up to 12 traders on up to 7 symbols with either kind of book, message delays, losses and duplicates, latencies per recipient, 1..4 worker threads',
     'The exchange test only constructs messages; misdirected, late or doubled reports need several participants and interleaved messages.',
     ['esl/economics/markets/centralized_exchange.hpp', 'esl/economics/markets/market_data_request_message.hpp', 'esl/economics/markets/logout_message.hpp', 'esl/interaction/communication.hpp'],
     [('orders, reports and market data', 'centralized_exchange.hpp: insert_order, send_reports'), ('cancellation handler', 'centralized_exchange.hpp: constructor'), ('subscriptions', 'centralized_exchange.hpp: market data request handler'), ('sessions', 'centralized_exchange.hpp: logon_participant, logout_participant')],
     [('books', 'order books by symbol', 'centralized_exchange.hpp'), ('positions', 'supply, bought and sold', 'centralized_exchange.hpp'), ('market_data_subscriptions', 'streams', 'centralized_exchange.hpp')])
prop('C17', 'A Walrasian market clears every round completely and moves what was traded',
     'At every market date each participant is quoted the current price of everything that is traded exactly once, and the market goes on to the next date whether or not anybody answers. '
     'Every order that arrives in time is part of exactly one clearing, at the prices and demands of that date; orders of an earlier date are never executed. '
     'In a clearing every participant is allotted what it demands at the new prices up to rounding, nobody without an order is allotted anything, and what is allotted adds up to nothing for every property. '
     'The transfers that follow move exactly that: sales come out of what is owned before anything is borrowed, purchases return what was borrowed first, and every participant pays or receives the value of its trades at the quoted price, in the currency of the quote, neither more nor less, however many properties it buys and sells at once. '
     'If no clearing prices are found nothing is traded and the prices stay. Every clearing is recorded with its prices.',
     ['histories', 'fault_sequences', 'schedules'], 'every sequence of dates with 1 to 4 properties, lots of 1 to 10, several currencies, 1 to 5 participants (some join late or leave) that buy, sell, borrow and return, may own what they owe, orders that are late, doubled, missing or without some of the properties, solvers that find nothing, 1..4 worker threads',
     'The market test needs a library that is not available, looks at the prices of one round only and never at what is transferred; wrong set-offs need participants that buy and sell several things over several rounds.',
     ['esl/economics/markets/walras/price_setter.cpp', 'esl/economics/markets/walras/price_setter.hpp', 'esl/economics/markets/walras/differentiable_order_message.hpp', 'esl/economics/owner.hpp'],
     [('rounds of quotes and orders', 'price_setter.cpp: act'), ('allotment', 'price_setter.cpp: compute_transfers'), ('settlement and netting', 'price_setter.cpp: clear_market'), ('new quotes', 'price_setter.cpp: apply_results')],
     [('traded_properties', 'current quotes', 'price_setter.hpp'), ('next_market_date', 'the date quotes were sent for', 'price_setter.hpp')])
prop('C18', 'Recorded market data is read exactly once, in order, or reported unreadable',
     'Reading a file of recorded order book events hands every event of it (full and delta updates) to the caller exactly once and in the order of the file, with the symbol, status, reason, time, price, quantity and side that are recorded, and passes over messages of any other kind and an incomplete message at the end. '
     'The main session of a symbol consists of exactly its orders and cancellations while trading was open. '
     'When a file can not be opened or not be read to its end, the caller receives an error, and what it was handed before is the beginning of the recording: never an event twice, never one that is not in the file, and never silence. '
     'An exception of the caller ends the reading and reaches it. Files read by several threads do not affect each other.',
     ['inputs', 'fault_sequences', 'schedules'], 'every file of 0 to 300 messages of any kind with any prices (0 to 7 decimals), times of day and quantities, with and without an incomplete end; reads that are short, interrupted, fail or meet an early end at any point, files that can not be opened or positioned, 1 to 3 threads',
     'No test reads a recording, and disks that fail in the middle of a file can not be arranged in unit tests.',
     ['esl/data/format/openbook.hpp'],
     [('messages are read and decoded', 'esl/data/format/openbook.hpp: read_openbook'), ('the session of one symbol', 'esl/data/format/openbook.hpp: parse_main_session')],
     [('buffer', 'the message being decoded', 'esl/data/format/openbook.hpp')])
prop('C19', 'Impact function market prices move once with the net of the orders that arrived',
     'At every market date each participant is quoted the latest price of everything that is traded exactly once, and the market goes on to the next date whether or not anybody answers. '
     'Every order takes part in exactly one movement of prices, in the instant in which it arrives: an order that is still under way, one that was sent at an earlier date or a repeated one moves nothing, and neither does an order for what is not traded, or a message that is no order. '
     'A movement changes the price of each property by the impact function of the net amount ordered (purchases less sales, over all participants), up to rounding and never to zero; prices of properties without orders stay. '
     'Each movement, even by nothing, is recorded with all its prices at its date, in order. An exception of the impact function reaches the caller of the simulation.',
     ['histories', 'fault_sequences', 'schedules'], 'every sequence of dates with 1 to 4 properties, lots of 1 to 10, several currencies, 1 to 6 participants (some join late or leave, some order without being asked), amounts up to 2^40, orders that are late, doubled, missing or stamped with another date, impact functions that throw, start dates up to 2^60, 1..4 worker threads',
     'No test runs this market; the price after a date depends on which orders of which participants arrived by then.',
     ['esl/economics/markets/impact_function/market.cpp', 'esl/economics/markets/impact_function/market.hpp', 'esl/economics/markets/impact_function/order.hpp', 'esl/economics/markets/impact_function/quote.hpp'],
     [('rounds of quotes and orders', 'impact_function/market.cpp: act'), ('net orders and impact', 'impact_function/market.cpp: clear_market')],
     [('traded_properties', 'current quotes', 'impact_function/market.hpp'), ('next_market_date', 'the date quotes were sent for', 'impact_function/market.hpp')])
prop('C20', 'Simulations in the same process do not affect each other',
     'A simulation does exactly the same (which agents act when, in which order they receive which messages, the random numbers they draw, prices, trades, transfers, recorded outputs) '
     'whether it runs alone, after other simulations, alternating with them in one thread, or at the same time in other threads of the process, '
     'and whether or not another simulation fails with an exception before or meanwhile. Simulations of a process share no data without synchronisation, and each of them ends.',
     ['schedules', 'histories', 'fault_sequences'], 'every combination of 2 to 3 models with talking agents, owners that transfer property, exchanges with either order book, Walrasian and impact function markets, companies with shareholders, with 1 to 3 worker threads each, driven as a whole, in steps or in windows, some ended by an exception of an agent or of an impact function, or because memory runs out; one after another, in turns, or concurrently under every schedule',
     'Tests run one simulation per process; what a simulation leaves in static or thread-local state shows only in the next one, and only for particular combinations or schedules.',
     ['esl/simulation/model.cpp', 'esl/computation/environment.cpp', 'esl/interaction/communicator.cpp', 'esl/computation/thread_pool.hpp', 'esl/data/channel.hpp', 'esl/data/log.hpp', 'esl/simulation/identity.hpp', 'esl/economics/markets/centralized_exchange.cpp', 'esl/economics/markets/walras/price_setter.cpp', 'esl/economics/markets/impact_function/market.cpp'],
     [('messages are delivered within a model', 'esl/computation/environment.cpp: send_messages'), ('random numbers depend on sample, time and agent', 'esl/simulation/model.cpp: step'), ('one lock for what all simulations share', 'esl/data/channel.hpp: mutex_')],
     [('agents', 'agents of one model', 'esl/simulation/model.hpp'), ('mutex_', 'shared by the logs of all simulations', 'esl/data/channel.hpp')])
