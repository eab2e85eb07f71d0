From f7b9564258bba6f333317f34534a6d666fa0c5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 01/63] fix: thread_pool with zero threads requested has no
 queues

---
 esl/computation/thread_pool.hpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/esl/computation/thread_pool.hpp b/esl/computation/thread_pool.hpp
index c0a4540..434d2a2 100644
--- a/esl/computation/thread_pool.hpp
+++ b/esl/computation/thread_pool.hpp
@@ -55,6 +55,20 @@ namespace esl::computation {
         ///
         std::atomic<unsigned int> index_ = 0;
 
+        ///
+        /// \brief  The number of worker threads used when 'threads' are
+        ///         requested: when none are, there is one for each core
+        ///
+        static unsigned int workers(unsigned int threads)
+        {
+            if (0 < threads) {
+                return threads;
+            }
+            threads = std::thread::hardware_concurrency();
+            // hardware_concurrency is not guaranteed to work well on any OS
+            return 0 < threads ? threads : 1;
+        }
+
     public:
         ///
         /// \brief  The workload per thread
@@ -64,16 +78,9 @@ namespace esl::computation {
         const unsigned int threads;
 
         explicit thread_pool(unsigned int threads = std::thread::hardware_concurrency())
-        : queues_(threads)
-        , threads(threads)
+        : queues_(workers(threads))
+        , threads(workers(threads))
         {
-            if (0 >= threads) {
-                threads = std::thread::hardware_concurrency();
-                // hardware_concurrency is not guaranteed to work well on any OS
-                if (0 >= threads) {
-                    threads = 1;
-                }
-            }
 
             auto worker_ = [this](auto i) {
                 while (true) {
@@ -92,7 +99,7 @@ namespace esl::computation {
                 }
             };
 
-            for (unsigned int i = 0; i < threads; ++i) {
+            for (unsigned int i = 0; i < this->threads; ++i) {
                 threads_.emplace_back(worker_, i);
             }
         }
-- 
2.43.0


From ef57e8fec338d84128f1c415c636d3bcac9fc0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 02/63] fix: thread_pool terminates the process when a worker
 thread cannot be started

---
 esl/computation/thread_pool.hpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/esl/computation/thread_pool.hpp b/esl/computation/thread_pool.hpp
index 434d2a2..70a1beb 100644
--- a/esl/computation/thread_pool.hpp
+++ b/esl/computation/thread_pool.hpp
@@ -69,6 +69,19 @@ namespace esl::computation {
             return 0 < threads ? threads : 1;
         }
 
+        ///
+        /// \brief  Closes all queues and joins the worker threads
+        ///
+        void close()
+        {
+            for(auto &queue: queues_) {
+                queue.close();
+            }
+            for(auto &thread: threads_) {
+                thread.join();
+            }
+        }
+
     public:
         ///
         /// \brief  The workload per thread
@@ -99,8 +112,15 @@ namespace esl::computation {
                 }
             };
 
-            for (unsigned int i = 0; i < this->threads; ++i) {
-                threads_.emplace_back(worker_, i);
+            try {
+                for (unsigned int i = 0; i < this->threads; ++i) {
+                    threads_.emplace_back(worker_, i);
+                }
+            } catch(...) {
+                // the destructor does not run, the threads that did start
+                // have to end before the exception leaves
+                close();
+                throw;
             }
         }
 
@@ -109,12 +129,7 @@ namespace esl::computation {
         ///
         ~thread_pool()
         {
-            for(auto &queue: queues_) {
-                queue.close();
-            }
-            for(auto &thread: threads_) {
-                thread.join();
-            }
+            close();
         }
 
         ///
-- 
2.43.0


From 2997b560e2873371d5e93907b97368e086197ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 03/63] fix: environment.cpp does not compile (invalid
 functional cast)

---
 esl/computation/environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 1e3f381..6be27b1 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -233,7 +233,7 @@ namespace esl::computation {
                 std::cout << "\rrun " << step_.lower << "/" << step_.upper << " [";
                 auto progress_ = double(step_.upper - step_.lower) / (step_.upper - simulation_time_start);
                 for(auto i = 0; i < width_; ++i) {
-                    if(i < unsigned int((1.-progress_) * width_)) {
+                    if(i < static_cast<unsigned int>((1.-progress_) * width_)) {
                         std::cout << '|';
                     } else {
                         std::cout << ' ';
-- 
2.43.0


From afc7adcf129a2e5e6ad65975b6d92f2bfe162434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 04/63] fix: activating or deactivating agents modifies the
 queue while iterating over it

---
 esl/computation/environment.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 6be27b1..1c76330 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -59,11 +59,9 @@ namespace esl::computation {
     ///
     size_t environment::activate()
     {
-        size_t result_ = 0;
-        for(const auto &a: activated_) {
-            activate_agent(a);
-            ++result_;
-        }
+        // agents are already local, there is nothing more to do than to report
+        // them. activate_agent() would add them to the queue again
+        size_t result_ = activated_.size();
         activated_.clear();
         return result_;
     }
@@ -73,11 +71,9 @@ namespace esl::computation {
     ///
     size_t environment::deactivate()
     {
-        size_t result_ = 0;
-        for(const auto &a: deactivated_) {
-            deactivate_agent(a);
-            ++result_;
-        }
+        // as in activate(), deactivate_agent() would add to the queue again
+        size_t result_ = deactivated_.size();
+        deactivated_.clear();
         return result_;
     }
 
-- 
2.43.0


From e51f0bad7722006af9ce9b89c0a7db3e1d7b9f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 05/63] fix: the threads argument of parametrization is ignored

---
 esl/simulation/parameter/parametrization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/simulation/parameter/parametrization.hpp b/esl/simulation/parameter/parametrization.hpp
index 15658cc..c416354 100644
--- a/esl/simulation/parameter/parametrization.hpp
+++ b/esl/simulation/parameter/parametrization.hpp
@@ -61,7 +61,7 @@ namespace esl::simulation::parameter {
             values["start"]     = std::make_shared<constant<time_point>>(start);
             values["end"]       = std::make_shared<constant<time_point>>(end);
             values["verbosity"] = std::make_shared<constant<std::uint64_t>>(verbosity);
-            values["threads"]   = std::make_shared<constant<std::uint64_t>>(verbosity);
+            values["threads"]   = std::make_shared<constant<std::uint64_t>>(threads);
         }
 
         ///
-- 
2.43.0


From 9759e0ee0ecd8508a10f6d024411a15df2e82d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 06/63] fix: a message that is due in the past blocks the
 simulation forever

---
 esl/simulation/model.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index e3f7484..76edecd 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -198,10 +198,10 @@ namespace esl::simulation {
                     auto [ww, _] = wake_up_times.emplace(i, step.lower);
                     w=ww;
                 }
-                // this comparison is strict equality, because an agent
-                // returning a time_point before the current time form act() is
-                // a logical error
-                if(w->second == step.lower){
+                // an agent returning a time_point before the current time from
+                // act() is a logical error, but a message can be due in the
+                // past, and has to be processed as soon as possible
+                if(w->second <= step.lower){
                     //std::cout << "active " << i << a->describe() << std::endl;
                     acting_agents_.push_back(a);
                 }
-- 
2.43.0


From 94eabf9cb842a8be9dc03765404a222cf50d875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 07/63] fix: an agent that acts before a pending message is due
 is not woken up for it

---
 esl/interaction/communicator.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/esl/interaction/communicator.cpp b/esl/interaction/communicator.cpp
index e1fef9d..7f1d3ba 100644
--- a/esl/interaction/communicator.cpp
+++ b/esl/interaction/communicator.cpp
@@ -94,9 +94,13 @@ namespace esl::interaction {
                      , std::less<>
                      , boost::fast_pool_allocator<std::pair<const priority_t, message_t>>
                      > priority_;
+        auto first_event_ = step.upper;
+
         for(const auto &[k, m]: inbox) {
-            // message will be received in the future
+            // message will be received in the future, and the agent needs to
+            // wake up for the first one
             if(k > step.lower) {
+                first_event_ = std::min(first_event_, k);
                 break;
             }
 
@@ -114,8 +118,6 @@ namespace esl::interaction {
             priority_.insert(std::make_pair(highest_priority, m));
         }
 
-        auto first_event_ = step.upper;
-
         for(auto i = priority_.rbegin(); i != priority_.rend(); ++i) {
             std::vector<message_t> equal_;
             for(auto upper_ = i;
-- 
2.43.0


From 012799af57d4511ee68dfd44aa53cb050aaed345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 08/63] fix: the wake-up time of a deactivated agent blocks the
 simulation forever

---
 esl/simulation/model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 76edecd..9343730 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -71,6 +71,10 @@ namespace esl::simulation {
         //for(auto &[i, a] : agents.local_agents_) {
         //    auto iterator_ = wake_up_times.find(i);
         for(const auto &[i, t] : wake_up_times) {
+            // agents that were deactivated do not act anymore
+            if(agents.local_agents_.end() == agents.local_agents_.find(i)) {
+                continue;
+            }
             if(result_ > t) {
                 blockers_ = {i};  //.clear();
                 result_   = std::min(result_, t);
-- 
2.43.0


From 08a0f76ce434b049328e8173626ca98ce9c3df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 09/63] fix: an exception from an agent on a worker thread
 terminates the process

---
 esl/simulation/model.cpp | 47 +++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 9343730..5d496d3 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -26,6 +26,8 @@
 
 #include <chrono>
 using std::chrono::high_resolution_clock;
+#include <exception>
+#include <functional>
 #include <numeric>
 
 #include <esl/agent.hpp>
@@ -220,25 +222,44 @@ namespace esl::simulation {
                 }
             }else{
                 std::vector<std::thread> threads_;
-                auto iterator_ = acting_agents_.begin();
-                for(const auto& tasks_: quantity(acting_agents_.size()) / threads){
-                    std::vector<std::shared_ptr<agent>> task_split_;
-                    for(auto i = quantity(0); i < tasks_; ++i){
-                        task_split_.push_back(*iterator_);
-                        std::advance(iterator_, 1);
-                    }
+                // exceptions do not leave a thread, they are collected here
+                // and the first one, in order of the agents, is rethrown below
+                const auto splits_ = quantity(acting_agents_.size()) / threads;
+                std::vector<std::exception_ptr> exceptions_(splits_.size() + 1);
+                try {
+                    auto iterator_ = acting_agents_.begin();
+                    for(const auto& tasks_: splits_){
+                        std::vector<std::shared_ptr<agent>> task_split_;
+                        for(auto i = quantity(0); i < tasks_; ++i){
+                            task_split_.push_back(*iterator_);
+                            std::advance(iterator_, 1);
+                        }
 
-                    threads_.emplace_back([&](std::vector<std::shared_ptr<agent>> ts)
-                        {
-                            for(const auto& a: ts){
-                                job_(a);
-                            }
-                        }, task_split_);
+                        threads_.emplace_back([&](std::vector<std::shared_ptr<agent>> ts, std::exception_ptr &exception)
+                            {
+                                try {
+                                    for(const auto& a: ts){
+                                        job_(a);
+                                    }
+                                } catch(...) {
+                                    exception = std::current_exception();
+                                }
+                            }, task_split_, std::ref(exceptions_[threads_.size()]));
+                    }
+                } catch(...) {
+                    // could not start a thread, those that did are still joined
+                    exceptions_.back() = std::current_exception();
                 }
 
                 for(auto &t: threads_){
                     t.join();
                 }
+
+                for(const auto &e: exceptions_){
+                    if(e){
+                        std::rethrow_exception(e);
+                    }
+                }
             }
 
             auto messages_sent_ = environment_.send_messages(*this);
-- 
2.43.0


From 99283f5d650fef10aa2f3e2a41dcc3988135ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 10/63] fix: the model time is never updated, environment::step
 repeats the first instant

---
 esl/simulation/model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 5d496d3..d925210 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -100,6 +100,7 @@ namespace esl::simulation {
         }
 
         auto timer_start_ = high_resolution_clock::now();
+        time = step.lower;
         environment_.before_step();
 
         //std::cout << "wake_up_times " << wake_up_times << std::endl;
@@ -273,6 +274,7 @@ namespace esl::simulation {
             ++rounds_;
         } while(step.lower >= first_event_);
 
+        time = first_event_;
         environment_.after_step(*this);
         auto total_ = high_resolution_clock::now() - timer_start_;
         //LOG(notice) << "step " << step << " took " << (double(total_.count()) / 1e+9) <<  " seconds" << std::endl;
-- 
2.43.0


From 6317dfc0140a1ac432fd1539c01d505f7f361241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 11/63] fix: in_order scheduling processes messages of equal
 priority last-in first-out

---
 esl/interaction/communicator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esl/interaction/communicator.cpp b/esl/interaction/communicator.cpp
index 7f1d3ba..044f6af 100644
--- a/esl/interaction/communicator.cpp
+++ b/esl/interaction/communicator.cpp
@@ -130,6 +130,9 @@ namespace esl::interaction {
             if(random == schedule) {
                 std::minstd_rand g(seed);
                 std::shuffle(equal_.begin(), equal_.end(), g);
+            } else {
+                // priority_ is iterated in reverse, restore the inbox order
+                std::reverse(equal_.begin(), equal_.end());
             }
 
             for(const auto &m : equal_) {
-- 
2.43.0


From 32e913108a6b1f00d684d63787d8885d0479ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 12/63] fix: identities [a, b] and [b, a] have the same hash
 and share their random stream

---
 esl/simulation/identity.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/esl/simulation/identity.hpp b/esl/simulation/identity.hpp
index 7e50ad5..bb68a8b 100644
--- a/esl/simulation/identity.hpp
+++ b/esl/simulation/identity.hpp
@@ -476,8 +476,15 @@ namespace std {
                 return 0;
             }
 
-            std::size_t seed_ = identifier.digits.back();
-            for(auto i = identifier.digits.rbegin() + 1;
+            if(1 == identifier.digits.size()) {
+                return identifier.digits.back();
+            }
+
+            // combining starts from zero: boost::hash_combine adds the seed
+            // and the value before mixing, so that starting from a digit
+            // would give [a, b] and [b, a] the same hash
+            std::size_t seed_ = 0;
+            for(auto i = identifier.digits.rbegin();
                 i != identifier.digits.rend();
                 ++i) {
                 boost::hash_combine(seed_, *i);
-- 
2.43.0


From aadf69b8da4c09a639f09cb845f2ae6c8387c584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 13/63] fix: data::file with the default (empty) prefix always
 throws

---
 esl/data/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/data/file.cpp b/esl/data/file.cpp
index 061d5f7..0db2617 100644
--- a/esl/data/file.cpp
+++ b/esl/data/file.cpp
@@ -9,7 +9,7 @@ namespace esl::data {
 
     file::file(const std::filesystem::path &name, const std::filesystem::path &prefix)
     : stream(file_)
-    , file_((std::filesystem::create_directories(prefix), prefix / name ))
+    , file_((prefix.empty() || std::filesystem::create_directories(prefix), prefix / name ))
     {
         if(!file_.good()){
             std::stringstream message_;
-- 
2.43.0


From e82fe67b55cbc342608ee152fbc6a5b58156c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 14/63] fix: writing channel::endl to a log channel deadlocks

---
 esl/data/channel.cpp |  2 +-
 esl/data/channel.hpp | 15 +++++++--------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/esl/data/channel.cpp b/esl/data/channel.cpp
index d5fdcde..a359625 100644
--- a/esl/data/channel.cpp
+++ b/esl/data/channel.cpp
@@ -29,5 +29,5 @@
 
 namespace esl::data
 {
-    std::mutex channel::mutex_;
+    std::recursive_mutex channel::mutex_;
 }
\ No newline at end of file
diff --git a/esl/data/channel.hpp b/esl/data/channel.hpp
index da4da6d..3681634 100644
--- a/esl/data/channel.hpp
+++ b/esl/data/channel.hpp
@@ -56,7 +56,9 @@ namespace esl::data {
         ///
         ///
         ///
-        static std::mutex mutex_;
+        // recursive: manipulators such as endl, and values that write to the
+        // log while they are being formatted, use the channel themselves
+        static std::recursive_mutex mutex_;
 
         ///
         /// \brief  The name of the surrounding function
@@ -102,7 +104,7 @@ namespace esl::data {
         template<typename output_t>
         channel &operator << (output_t &&value)
         {
-            std::lock_guard<std::mutex> lock_(mutex_);
+            std::lock_guard<std::recursive_mutex> lock_(mutex_);
             std::vector<std::ostream *> os = {&stream};
 #if !(defined(ESL_RELEASE) && ESL_RELEASE > 0)
             os.push_back(&std::cout);
@@ -121,7 +123,7 @@ namespace esl::data {
         /// \return
         channel &operator<<(manipulator function)
         {
-            std::lock_guard<std::mutex> lock_(mutex_);
+            std::lock_guard<std::recursive_mutex> lock_(mutex_);
             return function(*this);
         }
 
@@ -131,11 +133,8 @@ namespace esl::data {
         /// \return
         static channel &endl(channel &stream)
         {
-            std::lock_guard<std::mutex> lock_(mutex_);
+            std::lock_guard<std::recursive_mutex> lock_(mutex_);
             stream << std::endl;
-#if !(defined(ESL_RELEASE) && ESL_RELEASE > 0)
-            std::cout << std::endl;
-#endif
             return stream;
         }
 
@@ -145,7 +144,7 @@ namespace esl::data {
 
         channel &operator << (line_end_t manipulator)
         {
-            std::lock_guard<std::mutex> lock_(mutex_);
+            std::lock_guard<std::recursive_mutex> lock_(mutex_);
             manipulator(stream);
 #if !(defined(ESL_RELEASE) && ESL_RELEASE > 0)
             manipulator(std::cout);
-- 
2.43.0


From acfda007c79aac826369f7d4ee1f361520dd6d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 15/63] fix: output_base constructed from streams leaves
 buffered uninitialised

---
 esl/data/output_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esl/data/output_base.cpp b/esl/data/output_base.cpp
index 33c4a93..5b6453a 100644
--- a/esl/data/output_base.cpp
+++ b/esl/data/output_base.cpp
@@ -47,6 +47,7 @@ namespace esl::data {
         , std::vector<std::shared_ptr<stream>, boost::pool_allocator<std::shared_ptr<stream> >> streams)
     : name(name)
     , streams(streams)
+    , buffered(true)
     {
         
     }
-- 
2.43.0


From 8857e3f6505c9ab35d16a362d2b02a70c2bfae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 16/63] fix: refused withdrawals from an inventory change
 nothing, withdrawing none of a missing item is allowed

---
 esl/economics/accounting/inventory.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/esl/economics/accounting/inventory.hpp b/esl/economics/accounting/inventory.hpp
index c14331e..36f0f2f 100644
--- a/esl/economics/accounting/inventory.hpp
+++ b/esl/economics/accounting/inventory.hpp
@@ -205,8 +205,11 @@ namespace esl::economics::accounting {
         {
             auto iterator_ = items.find(item);
 
-            if(items.end() == iterator_ && q.amount > 0) {
-                throw insufficent_inventory(quantity(0), q, item->identifier, boost::core::demangle(typeid(property_t_).name()));
+            if(items.end() == iterator_) {
+                if(q.amount > 0) {
+                    throw insufficent_inventory(quantity(0), q, item->identifier, boost::core::demangle(typeid(property_t_).name()));
+                }
+                return;
             }
 
             if(iterator_->second < q) {
@@ -218,6 +221,14 @@ namespace esl::economics::accounting {
 
         void erase(const inventory_by_fungibility<property_t_, true> &removed)
         {
+            // check everything first, so that a withdrawal that is refused
+            // changes nothing
+            for(const auto &[k, v]: removed.items) {
+                auto i = items.find(k);
+                if(items.end() == i ? v.amount > 0 : i->second < v) {
+                    throw insufficent_inventory(items.end() == i ? quantity(0) : i->second, v, k->identifier, boost::core::demangle(typeid(property_t_).name()));
+                }
+            }
             for(const auto &[k, v]: removed.items) {
                 erase(k, v);
             }
@@ -239,6 +250,14 @@ namespace esl::economics::accounting {
 
         void erase_from(law::property_map<quantity> &m) const
         {
+            // check everything first, so that a withdrawal that is refused
+            // changes nothing
+            for(const auto &[k, v] : items) {
+                auto i = m.find(k);
+                if(m.end() == i ? v.amount > 0 : i->second < v) {
+                    throw insufficent_inventory(m.end() == i ? quantity(0) : i->second, v, k->identifier, boost::core::demangle(typeid(property_t_).name()));
+                }
+            }
             for(auto [k, v] : items) {
                 if(v == 0){
                     continue;
-- 
2.43.0


From 9b1064361ce5fd23ea264b58caf795fc60da05ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 17/63] fix: taking property adds to what is owned already

---
 esl/economics/owner.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index 1307ace..616f3df 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -252,8 +252,13 @@ namespace esl::law {
         void take(std::shared_ptr<property_t_> property, quantity amount)
         {
             this->properties.insert(property, amount);
-            esl::law::owner<esl::law::property>::inventory.insert(
-                std::make_pair(property, amount));
+            auto &inventory_ = esl::law::owner<esl::law::property>::inventory;
+            auto iterator_ = inventory_.find(property);
+            if(inventory_.end() == iterator_) {
+                inventory_.insert(std::make_pair(property, amount));
+            } else {
+                iterator_->second += amount;
+            }
         }
 
 
-- 
2.43.0


From 4852c1054761da456bd29c75fe9b67d7c49fc10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 18/63] fix: a transfer to oneself leaves the typed view of the
 inventory as it is

---
 esl/economics/owner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index 616f3df..c053be3 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -195,6 +195,10 @@ namespace esl::law {
                                             simulation::time_interval ti,
                                             std::seed_seq &seed) {
                 (void)seed;
+                if(msg->transferor == msg->transferee) {
+                    return ti.upper;
+                }
+
                 if((*this).identifier == msg->transferor) {
                     // this process is duplicated several times for every
                     // inherited owner<p>, as we are reliant on dynamic type
-- 
2.43.0


From bab24744e92f5411bf6937b8fe2c495ca0d805b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:40 +0000
Subject: [PATCH 19/63] fix: a company next wakes up for the payable date of
 its dividend

---
 esl/economics/company.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 6206c0f..550cd46 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -177,7 +177,7 @@ namespace esl::economics {
             }
         } else {
             next_event_ = std::min<simulation::time_point>(
-                policy_.announcement_date, next_event_);
+                policy_.payable_date, next_event_);
         }
         return next_event_;
     }
-- 
2.43.0


From c5944d4b9f34fdc365d4ad2f48afacffd0241136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:40 +0000
Subject: [PATCH 20/63] fix: shareholders and bondholders keep the price that
 was quoted last

---
 esl/economics/finance/bondholder.cpp  | 3 +--
 esl/economics/finance/shareholder.cpp | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/esl/economics/finance/bondholder.cpp b/esl/economics/finance/bondholder.cpp
index c33f311..cd675dc 100644
--- a/esl/economics/finance/bondholder.cpp
+++ b/esl/economics/finance/bondholder.cpp
@@ -45,8 +45,7 @@ namespace esl::economics::finance {
                 (void) seed;
                 for(auto &[k, v] : m->proposed){
                     assert(std::holds_alternative<price>(v.type));
-                    auto p = std::make_pair(k, std::get<price>(v.type));
-                    this->bond_prices.insert(std::move(p));
+                    this->bond_prices.insert_or_assign(k, std::get<price>(v.type));
                 }
                 return step.upper;
             };
diff --git a/esl/economics/finance/shareholder.cpp b/esl/economics/finance/shareholder.cpp
index 89168ad..9934225 100644
--- a/esl/economics/finance/shareholder.cpp
+++ b/esl/economics/finance/shareholder.cpp
@@ -73,7 +73,7 @@ namespace esl::economics::finance {
                     if(prices.end() == i){
                         prices.emplace(k, std::get<price>(v.type));
                     }else{
-                        i->second.value = std::get<price>(v.type).value;
+                        i->second = std::get<price>(v.type);
                     }
                 }
                 return step.upper;
-- 
2.43.0


From aa69515bd20f251aca488778047d3f55946906e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 21/63] fix: the block pool knows which of its blocks are in
 use

---
 esl/computation/block_pool.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/esl/computation/block_pool.hpp b/esl/computation/block_pool.hpp
index f792404..6086fbb 100644
--- a/esl/computation/block_pool.hpp
+++ b/esl/computation/block_pool.hpp
@@ -27,7 +27,9 @@
 #ifndef ESL_BLOCK_POOL_HPP
 #define ESL_BLOCK_POOL_HPP
 
+#include <cassert>
 #include <cstdint>
+#include <limits>
 #include <utility>
 #include <stdexcept>
 #include <vector>
@@ -57,10 +59,15 @@ namespace esl::computation::block_pool {
         ///
         typedef std::uint64_t index_t;
 
+        ///
+        /// \brief  Index value of blocks that are not in use
+        ///
+        static constexpr index_t unused = (std::numeric_limits<index_t>::max)();
+
         ///
         /// \brief  The index associated with this block
         ///
-        index_t index = 0;
+        index_t index = unused;
 
         ///
         /// \brief  A pointer to the next free block
@@ -245,10 +252,20 @@ namespace esl::computation::block_pool {
                 
             }
             highest_ = std::max(highest_, assigned_ + 1);
+            i->index = assigned_;
 
             return {assigned_, i};
         }
 
+        ///
+        /// \brief  Whether there is an element with index i in the pool
+        ///
+        [[nodiscard]] bool contains(index i) const
+        {
+            return block<element_t_>::unused != i
+                && blocks[i % capacity()].index == i;
+        }
+
         ///
         /// \brief  Erase element at index i (i must be valid)
         ///
@@ -261,7 +278,7 @@ namespace esl::computation::block_pool {
         {
             block<element_t_> *removed_ = &blocks[i % capacity()];
             
-            if(removed_->index != i) {
+            if(!contains(i)) {
                 return 0;
                 //throw esl::exception("trying to delete stale order");
             }
@@ -280,8 +297,9 @@ namespace esl::computation::block_pool {
 
             // ->next points to the next *free* element, so we need to add 
             // the cleared element to the start of the list of free elements
-            removed_->next = end_;
-            end_           = removed_;
+            removed_->next  = end_;
+            removed_->index = block<element_t_>::unused;
+            end_            = removed_;
 
             if(size_ == 0){
 #if DEBUG
-- 
2.43.0


From d1eaa836071dd8cc70579614eabcf1adfc221f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 22/63] fix: cancelling an order that is gone leaves the static
 order book as it is

---
 esl/economics/markets/order_book/static_order_book.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index be02149..b659157 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -589,6 +589,11 @@ namespace esl::economics::markets::order_book {
             /// \param order
             void cancel(basic_book::order_identifier order) override
             {
+                // the order was matched fully/cancelled before, or never existed
+                if(!pool_.contains(order)) {
+                    return;
+                }
+
                 record &order_ = pool_[order];
 
                 auto side_ = limit_order::side_t::buy;
-- 
2.43.0


From ab1a37afae47da127b171cfaf3bd770209097e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 23/63] fix: the static order book keeps track of the best bid
 and ask

---
 .../markets/order_book/static_order_book.hpp  | 60 ++++++++++++-------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index b659157..366ec6b 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -237,8 +237,8 @@ namespace esl::economics::markets::order_book {
                 //  we make sure to set this explicitly
                 limits_.resize(span_, std::make_pair(nullptr, nullptr));
 
-                best_bid_ = &limits_.front();
-                best_ask_ = &limits_.back();
+                best_bid_ = nullptr;
+                best_ask_ = nullptr;
 
                 encode = [&](const mathematics::interval<quote> &limits, const auto &q, auto &l) -> bool {
                     return default_encode(limits, q, l);
@@ -302,7 +302,7 @@ namespace esl::economics::markets::order_book {
             /// \return
             [[nodiscard]] std::optional<quote> bid() const override
             {
-                if(!best_bid_->first){
+                if(!best_bid_){
                     return {};
                 }
                 std::ptrdiff_t limit_ = best_bid_ - &limits_[0];
@@ -315,7 +315,7 @@ namespace esl::economics::markets::order_book {
             /// \return
             [[nodiscard]] std::optional<quote> ask() const override
             {
-                if(!best_ask_->first){
+                if(!best_ask_){
                     return {};
                 }
 
@@ -323,6 +323,30 @@ namespace esl::economics::markets::order_book {
                 return decode(valid_limits, limit_);
             }
 
+        private:
+            ///
+            /// \brief  Increases the best ask, until we find an order, or
+            ///         exhaust the order book
+            ///
+            void next_best_ask()
+            {
+                while(best_ask_ && !best_ask_->first) {
+                    best_ask_ = (best_ask_ == &limits_.back() ? nullptr : best_ask_ + 1);
+                }
+            }
+
+            ///
+            /// \brief  Decreases the best bid, until we find an order, or
+            ///         exhaust the order book
+            ///
+            void next_best_bid()
+            {
+                while(best_bid_ && !best_bid_->first) {
+                    best_bid_ = (best_bid_ == &limits_.front() ? nullptr : best_bid_ - 1);
+                }
+            }
+
+        public:
             ///
             /// \brief  Matches an order, partially or fully, agains resting
             ///         orders at a given level in the book
@@ -405,21 +429,9 @@ namespace esl::economics::markets::order_book {
                         // if the aggressor was a buy order, it took away
                         // the best ask
                         if(order.side == limit_order::buy){
-                            // increase the best ask, until we find an order, or exhaust the order book
-                            // TODO: worst_ask_
-                            for(++best_ask_; best_ask_ <= &limits_.back(); ++best_ask_){
-                                if(best_ask_->first || best_ask_ == &limits_.back()){
-                                    break;
-                                }
-                            }
+                            next_best_ask();
                         }else{
-                            // decrease the best bid, until we find an order, or exhaust the order book
-                            // TODO: worst_bid_
-                            for(--best_bid_; best_bid_ >= &limits_[0]; --best_bid_){
-                                if(best_bid_->first || best_bid_ == &limits_[0]){
-                                    break;
-                                }
-                            }
+                            next_best_bid();
                         }
                     }
                     break;
@@ -575,9 +587,9 @@ namespace esl::economics::markets::order_book {
 
                 // because we are inserting, the best bid and ask can strictly improve
                 if(limit_order::buy == order.side){
-                    best_bid_ = std::max(best_bid_,  limit_level_);
+                    best_bid_ = best_bid_ ? std::max(best_bid_,  limit_level_) : limit_level_;
                 }else if(order.side == limit_order::sell){
-                    best_ask_ = std::min(best_ask_,  limit_level_);
+                    best_ask_ = best_ask_ ? std::min(best_ask_,  limit_level_) : limit_level_;
                 }
             }
 
@@ -675,6 +687,10 @@ namespace esl::economics::markets::order_book {
                 order_.limit    = quote();
                 order_.owner    = identity<agent>();
                 order_.quantity = 0;
+
+                // if this was the last order at the best price, find the next
+                next_best_bid();
+                next_best_ask();
             }
 
             ///
@@ -690,7 +706,7 @@ namespace esl::economics::markets::order_book {
 
                 std::uint64_t displayed_ = 0;
                 std::vector<std::pair<std::uint32_t, double>> ask_displayed_;
-                for(auto i = best_ask_; i <= &limits_[limits_.size() - 1] && displayed_ < levels; ++i) {
+                for(auto i = best_ask_; i && i <= &limits_[limits_.size() - 1] && displayed_ < levels; ++i) {
                     if(!i->first) {
                         continue;
                     }
@@ -720,7 +736,7 @@ namespace esl::economics::markets::order_book {
                 //std::cout << "------------------------------------------------" << std::endl;
 
                 displayed_ = 0;
-                for(auto i = best_bid_; i >= &limits_[0] && displayed_ < levels; --i) {
+                for(auto i = best_bid_; i && i >= &limits_[0] && displayed_ < levels; --i) {
                     if(!i->first) {
                         continue;
                     }
-- 
2.43.0


From cc8c96e05d56222fddfcb639e46ae72061a2e2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 24/63] fix: orders in the static order book trade at the limit
 they were placed at

---
 .../markets/order_book/static_order_book.hpp  | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 366ec6b..c5bb172 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -147,9 +147,9 @@ namespace esl::economics::markets::order_book {
             /// \return
             size_t span(size_t lot, size_t ticks) const
             {
-                return static_cast<size_t>(
+                return static_cast<size_t>(round(
                     (double(valid_limits.upper) - double(valid_limits.lower)) * lot
-                    * ticks + 1);
+                    * ticks)) + 1;
             }
 
         public:
@@ -241,7 +241,15 @@ namespace esl::economics::markets::order_book {
                 best_ask_ = nullptr;
 
                 encode = [&](const mathematics::interval<quote> &limits, const auto &q, auto &l) -> bool {
-                    return default_encode(limits, q, l);
+                    if(!limits.contains(q)){
+                        return false;
+                    }
+                    // the first level is the minimum, the last the maximum
+                    l = static_cast<limit>(
+                        round((double(q) - double(limits.lower))
+                            / (double(limits.upper) - double(limits.lower))
+                            * (limits_.size() - 1)));
+                    return true;
                 };
 
                 decode = [&](const mathematics::interval<quote> &limits, const auto &l) -> quote {
@@ -305,8 +313,7 @@ namespace esl::economics::markets::order_book {
                 if(!best_bid_){
                     return {};
                 }
-                std::ptrdiff_t limit_ = best_bid_ - &limits_[0];
-                return decode(valid_limits, limit_);
+                return best_bid_->first->data.limit;
             }
 
             ///
@@ -319,8 +326,7 @@ namespace esl::economics::markets::order_book {
                     return {};
                 }
 
-                std::ptrdiff_t limit_ = best_ask_ - &limits_[0];
-                return decode(valid_limits, limit_);
+                return best_ask_->first->data.limit;
             }
 
         private:
@@ -384,7 +390,7 @@ namespace esl::economics::markets::order_book {
 
                     }
 
-                    auto quote_ = decode(valid_limits, level - &limits_[0]);
+                    auto quote_ = ao->data.limit;
                     // execution report for liquidity taker
                     reports.emplace_back(execution_report
                                              ( execution_report::match
-- 
2.43.0


From 5fe11ea7f1b25bb62a4a2e817613c88fcad876fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 25/63] fix: a fill-or-kill order in the static order book is
 filled or killed

---
 .../markets/order_book/static_order_book.hpp  | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index c5bb172..0322f18 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -352,6 +352,29 @@ namespace esl::economics::markets::order_book {
                 }
             }
 
+            ///
+            /// \brief  The quantity that can be matched at the limit or better
+            ///
+            [[nodiscard]] std::uint64_t available(const limit_order &order, const limit_type *level) const
+            {
+                std::uint64_t result_ = 0;
+                auto add_ = [&](const limit_type *l) {
+                    for(auto o = l->first; o && result_ < order.quantity; o = o->data.successor) {
+                        result_ += o->data.quantity;
+                    }
+                };
+                if(order.side == limit_order::buy) {
+                    for(const limit_type *l = best_ask_; l && l <= level && result_ < order.quantity; ++l) {
+                        add_(l);
+                    }
+                }else {
+                    for(const limit_type *l = best_bid_; l && l >= level && result_ < order.quantity; --l) {
+                        add_(l);
+                    }
+                }
+                return result_;
+            }
+
         public:
             ///
             /// \brief  Matches an order, partially or fully, agains resting
@@ -500,6 +523,20 @@ namespace esl::economics::markets::order_book {
 
                 limit_type *limit_level_ = &limits_[limit_index_];
 
+                if(order.lifetime == limit_order::lifetime_t::fill_or_kill
+                    && available(order, limit_level_) < order.quantity) {
+                    // nothing is executed if not everything can be
+                    reports.emplace_back(execution_report
+                                             ( execution_report::cancel
+                                             , order.side
+                                             , order.quantity
+                                             , basic_book::direct_order
+                                             , order.limit
+                                             , order.owner
+                                             ));
+                    return;
+                }
+
                 if(order.side == limit_order::buy && ask().has_value() && order.limit >= ask().value()) {
                     // direct execution: buyer aggressor
                     for(auto al = best_ask_; al <= limit_level_ && 0 < remainder_; ++al){
-- 
2.43.0


From 4eccae00f1f0025e4739717c14dc0e552613ef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 26/63] fix: a cancelled order is not listed in the order book
 any more

---
 esl/economics/markets/order_book/binary_tree_order_book.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index b85441a..f6f47a5 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -269,6 +269,7 @@ namespace esl::economics::markets::order_book {
                                 , i->second.second.owner
                                 });
                             orders_bid.erase(i);
+                            limit_orders_.erase(o);
                             break;
                         }
                     }
@@ -287,6 +288,7 @@ namespace esl::economics::markets::order_book {
                                 , o->second
                                 , i->second.second.owner});
                             orders_ask.erase(i);
+                            limit_orders_.erase(o);
                             break;
                         }
                     }
-- 
2.43.0


From 73c40b3b0d46e6db4a1b5f568f689c6567994dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 27/63] fix: the order book does not keep immediate-or-cancel
 and fill-or-kill orders

---
 .../order_book/binary_tree_order_book.hpp     | 47 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index f6f47a5..49d9f41 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -104,12 +104,51 @@ namespace esl::economics::markets::order_book {
             return quote(orders_ask.begin()->first);
         }
 
+    private:
+        ///
+        /// \brief  Whether all of the order can be matched right now
+        ///
+        [[nodiscard]] bool fillable(const limit_order &order) const
+        {
+            std::uint64_t available_ = 0;
+            if(limit_order::buy == order.side){
+                for(auto i = orders_ask.begin(); i != orders_ask.end() && order.limit >= i->first; ++i){
+                    available_ += i->second.second.quantity;
+                }
+            }else{
+                for(auto i = orders_bid.begin(); i != orders_bid.end() && order.limit <= i->first; ++i){
+                    available_ += i->second.second.quantity;
+                }
+            }
+            return available_ >= order.quantity;
+        }
+
+        ///
+        /// \brief  Reports that a quantity will not be placed in the book
+        ///
+        void cancel_unplaced(const limit_order &order, std::uint32_t quantity)
+        {
+            reports.emplace_back(execution_report {
+                execution_report::cancel,
+                order.side,
+                quantity,
+                direct_order,
+                order.limit,
+                order.owner});
+        }
+
+    public:
         ///
         /// \brief
         ///
         /// \param order
         void insert(const limit_order &order) override
         {
+            if(limit_order::lifetime_t::fill_or_kill == order.lifetime && !fillable(order)){
+                cancel_unplaced(order, order.quantity);
+                return;
+            }
+
             if(limit_order::side_t::buy == order.side){
                 auto remainder_ = order.quantity;
 
@@ -160,7 +199,9 @@ namespace esl::economics::markets::order_book {
                     orders_ask.erase(it);
                 }
 
-                if(remainder_ > 0) {
+                if(remainder_ > 0 && order.lifetime != limit_order::lifetime_t::good_until_cancelled) {
+                    cancel_unplaced(order, remainder_);
+                }else if(remainder_ > 0) {
                     // place remainder
                     limit_order placed_ = order;
                     placed_.quantity    = remainder_;
@@ -226,7 +267,9 @@ namespace esl::economics::markets::order_book {
                     orders_bid.erase(it);
                 }
 
-                if(remainder_ > 0) {
+                if(remainder_ > 0 && order.lifetime != limit_order::lifetime_t::good_until_cancelled) {
+                    cancel_unplaced(order, remainder_);
+                }else if(remainder_ > 0) {
                     limit_order placed_ = order;
                     placed_.quantity    = remainder_;
                     auto pair_          = std::make_pair(next_, placed_);
-- 
2.43.0


From 766eca3368537aedf2da3cf808c2d8676c136f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 28/63] fix: the exchange records the supply of participants
 that log on

---
 esl/economics/markets/centralized_exchange.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index cce9d96..5d64f65 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -224,14 +224,12 @@ namespace esl::economics::markets {
         {
             (void) s;
             for(const auto &t: traded_properties){
-                boost::container::flat_map<identity<agent>, position_report> individual_positions_;
                 position_report position_;
 
                 if(m->supply.find(t) != m->supply.end()){
                     position_.supply = m->supply.find(t)->second;
                 }
-                individual_positions_.emplace(m->sender, position_);
-                positions.emplace(t, individual_positions_);
+                positions[t].insert_or_assign(m->sender, position_);
             }
             return ti.upper;
         }
-- 
2.43.0


From 548a0ecae98eb074d52ac7e736c95b10c7b6c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 29/63] fix: logging out of the exchange cancels data
 subscriptions

---
 esl/economics/markets/centralized_exchange.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 5d64f65..e20cb95 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -271,6 +271,9 @@ namespace esl::economics::markets {
                     positions.erase(positions_);
                 }
             }
+            for(auto &[t, subscriptions_]: market_data_subscriptions){
+                subscriptions_.erase(m->sender);
+            }
             return ti.upper;
         }
 
-- 
2.43.0


From 9edeb3c7c6348c8b2155389915b19d30ee5403ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 30/63] fix: market data streams are delivered, and cancelled,
 whoever subscribed before

---
 esl/economics/markets/centralized_exchange.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index e20cb95..96ce59a 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -491,14 +491,8 @@ namespace esl::economics::markets {
                             if(market_data_subscriptions.end() == instrument_) {
                                 continue;
                             }
-                            auto subscription_ = market_data_subscriptions[i].find(m->sender);
-                            market_data_subscriptions[i].erase(subscription_);
+                            market_data_subscriptions[i].erase(m->sender);
                         }else if(market_data_request_message::stream == m->type) {
-                            auto instrument_ = market_data_subscriptions.find(i);
-                            if(market_data_subscriptions.end() == instrument_) {
-                                continue;
-                            }
-                        
                             auto subscription_ = market_data_subscriptions[i].find(m->sender);
 
                               centralized_exchange::data_subscription s;
-- 
2.43.0


From 9e45d792d028ae0eb84d8c6eaef0610f1e9e8a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 31/63] fix: the exchange reports cancellations when they
 happen, to the owner of the order

---
 .../markets/centralized_exchange.hpp          | 38 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 96ce59a..5220fcc 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -306,6 +306,28 @@ namespace esl::economics::markets {
 
             b.insert(m->order_details);
 
+            send_reports(m, b, ask_, bid_, ti, seed);
+            return ti.upper;
+        }
+
+        ///
+        /// \brief  Sends the reports that an order generated to the owners of
+        ///         the orders involved, and market data to the subscribers
+        ///
+        /// \param m        the order
+        /// \param b        the book that contains the reports
+        /// \param ask_     the best ask before the order
+        /// \param bid_     the best bid before the order
+        /// \param ti
+        /// \param seed
+        void send_reports( const std::shared_ptr<new_order_single_message> &m
+                         , order_book::basic_book &b
+                         , const std::optional<quote> &ask_
+                         , const std::optional<quote> &bid_
+                         , simulation::time_interval ti
+                         , std::seed_seq &seed
+                         )
+        {
             market_data data_;
 
             for(const auto & r: b.reports){
@@ -419,7 +441,6 @@ namespace esl::economics::markets {
                 }
             }
             b.reports.clear();
-            return ti.upper;
         }
 
         ///
@@ -538,7 +559,22 @@ namespace esl::economics::markets {
                                       , simulation::time_interval step
                                       , std::seed_seq &s) 
                                     { 
+                                        auto i = books.find(m->symbol);
+                                        if(books.end() == i) {
+                                            return step.upper;
+                                        }
+                                        order_book::basic_book &b = *(i->second);
+                                        const auto ask_ = b.ask();
+                                        const auto bid_ = b.bid();
+
                                         cancel(m->symbol, m->order); 
+
+                                        // the reports specify the order that was cancelled
+                                        auto order_ = std::make_shared<new_order_single_message>(m->sender, m->recipient, m->sent, m->received);
+                                        for(const auto &r: b.reports) {
+                                            order_->order_details = limit_order(m->symbol, r.owner, r.side, r.limit, r.quantity);
+                                        }
+                                        send_reports(order_, b, ask_, bid_, step, s);
                                         return step.upper;
                                     }
                                  , "cancel existing order");
-- 
2.43.0


From 68653d835746a8774a485e8d4e1e7d6b17a33f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 32/63] fix: the exchange tracks what participants bought and
 sold

---
 .../markets/centralized_exchange.hpp          | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 5220fcc..e054625 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -277,6 +277,23 @@ namespace esl::economics::markets {
             return ti.upper;
         }
 
+        ///
+        /// \brief  Updates the position of a participant that is logged on
+        ///
+        void record_trade(const ticker &symbol, const execution_report &r)
+        {
+            auto positions_ = positions.find(symbol);
+            if(positions.end() == positions_) {
+                return;
+            }
+            auto individual_ = positions_->second.find(r.owner);
+            if(positions_->second.end() == individual_) {
+                return;
+            }
+            (limit_order::buy == r.side ? individual_->second.bought
+                                        : individual_->second.sold) += r.quantity;
+        }
+
         ///
         /// \brief  Handles a single order, and sends the reports that it generates.
         ///
@@ -384,6 +401,10 @@ namespace esl::economics::markets {
                                         ));
                 }
 
+                if(r.state == execution_report::state_t::match) {
+                    record_trade(m->order_details.symbol, r);
+                }
+
                 // notify the participants involved in the trade
                 {
                     simulation::time_point arrival_ = ti.lower;
-- 
2.43.0


From 2b6edec886b6dc4c6ad3196b8fcdd018c52e663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 33/63] fix: execution reports take the latency of their
 recipient

---
 esl/economics/markets/centralized_exchange.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index e054625..f25abb8 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -409,7 +409,7 @@ namespace esl::economics::markets {
                 {
                     simulation::time_point arrival_ = ti.lower;
                     if(communication_model) {
-                        arrival_ += communication_model->sample(identifier, m->sender, seed);
+                        arrival_ += communication_model->sample(identifier, r.owner, seed);
                     }
                     auto response_ = this->template create_message<execution_report_message>(r.owner, arrival_);
                     response_->sender = (*this);
-- 
2.43.0


From 6a6d70dae104ee22ee8a50d68a676b94b86d9b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 34/63] fix: trades are published once in the market data feed

---
 esl/economics/markets/centralized_exchange.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index f25abb8..1901712 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -425,7 +425,7 @@ namespace esl::economics::markets {
                 auto trade_ = (r.state == execution_report::state_t::match);
                 // or if the bed bid or ask improved
                 auto best_bid_ask_ = (ask_ != b.ask() || bid_ != b.bid());
-                if((trade_ && r.owner == m->sender) || best_bid_ask_){
+                if((trade_ && r.identifier == basic_book::direct_order) || best_bid_ask_){
                     for(auto &[subscriber_, details_]: market_data_subscriptions[m->order_details.symbol]) {
 
                         if(details_.start + details_.periodicity > ti.lower) {
@@ -448,7 +448,7 @@ namespace esl::economics::markets {
                         market_data_->sent   = ti.lower;
                         market_data_->symbol = m->order_details.symbol;
 
-                        if(trade_) {
+                        if(trade_ && r.identifier == basic_book::direct_order) {
                             market_data_->trades.push_back({r.limit, r.quantity});
                         }
                         
-- 
2.43.0


From 66928504c18f8f27c6c2a156cb5411aa5f78df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 35/63] fix: the static order book rejects orders with an
 unacceptable lot size

---
 esl/economics/markets/order_book/static_order_book.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 0322f18..b9f4eff 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -476,9 +476,11 @@ namespace esl::economics::markets::order_book {
             /// \return
             void insert(const limit_order &order) override
             {
-                if(!valid_limits.contains(order.limit) || 0 >= order.quantity || order.limit.lot != valid_limits.lower.lot ){
+                // quotes for different lot sizes can not be compared
+                const bool comparable_ = order.limit.lot == valid_limits.lower.lot;
+                if(!comparable_ || !valid_limits.contains(order.limit) || 0 >= order.quantity){
 
-                    if(!valid_limits.contains(order.limit)){
+                    if(comparable_ && !valid_limits.contains(order.limit)){
                         LOG(warning) << "Order invalid because it is outside the accepted range: " << this->valid_limits << std::endl;
                     }
 
-- 
2.43.0


From 593e9a4e5f16f6b9e5eeaa922efcb570a5335b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 36/63] fix: agents created in an instant act in that instant

---
 esl/computation/environment.cpp |  3 ++-
 esl/simulation/model.cpp        | 17 ++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 1c76330..f7f8e8e 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -148,7 +148,8 @@ namespace esl::computation {
                 // now that the recipient has a new message, make sure that they wake up on time to do something with it
                 auto recipient_iterator_ = simulation.wake_up_times.find(m->recipient);
                 if(simulation.wake_up_times.end() == recipient_iterator_){
-                    simulation.wake_up_times[m->recipient] = m->received;
+                    // the agent is new: it acts as soon as possible
+                    simulation.wake_up_times[m->recipient] = std::min(simulation.time, m->received);
                 }else{
                     (*recipient_iterator_).second = std::min((*recipient_iterator_).second, m->received);
                 }
diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index d925210..437fb2f 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -85,6 +85,13 @@ namespace esl::simulation {
             }
         }
         //}
+        // agents that were created in this instant did not have a chance to act
+        for(const auto &[i, a] : agents.local_agents_) {
+            (void)a;
+            if(wake_up_times.end() == wake_up_times.find(i)) {
+                result_ = std::min(result_, time);
+            }
+        }
         // 
         //LOG(trace) << "blockers at t=" << result_ << ": " << blockers_ << std::endl;
         return result_;
@@ -159,8 +166,6 @@ namespace esl::simulation {
 
                     //std::cout << a->identifier << " wakes up next at " << first_event_ << std::endl;
                     wake_up_times[a->identifier] = wake_up_;
-
-                    first_event_   = determine_next_event();
                 }
 
                 //} catch(const std::runtime_error &e) {
@@ -263,12 +268,10 @@ namespace esl::simulation {
                 }
             }
 
-            auto messages_sent_ = environment_.send_messages(*this);
-            if(0 < messages_sent_){
-                first_event_   = determine_next_event();
-            }
+            messages_sent += environment_.send_messages(*this);
 
-            messages_sent += messages_sent_;
+            // all agents acted, and no agent can be created or deactivated now
+            first_event_   = determine_next_event();
 
             ++round_;
             ++rounds_;
-- 
2.43.0


From 6bd3366f608422c54ccbca48297bcea8ca2691dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 37/63] fix: the last messages of deactivated agents are
 delivered

---
 esl/computation/environment.cpp     | 18 ++++++++++++++----
 esl/simulation/agent_collection.cpp |  4 +++-
 esl/simulation/agent_collection.hpp |  7 +++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index f7f8e8e..3515b87 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -131,10 +131,7 @@ namespace esl::computation {
     {
         size_t messages_ = 0;
 
-        // agent locality refers to memory locality. In the multi-threaded
-        // setting, we are still able to observe all agents from one thread
-        for(auto &[i, a] :simulation.agents.local_agents_){
-            (void)i;
+        auto send_ = [&](const std::shared_ptr<agent> &a){
             for(const auto &m :a->outbox){
                 auto iterator_ = simulation.agents.local_agents_.find(m->recipient);
                 if(simulation.agents.local_agents_.end() == iterator_) {
@@ -160,7 +157,20 @@ namespace esl::computation {
             a->outbox.clear();          // clear the outbox, so that messages are only sent once
             a->outbox.shrink_to_fit();  // this is aggressively releasing the capacity, so that periods after intense
                                         // messaging do not use too much memory
+        };
+
+        // agent locality refers to memory locality. In the multi-threaded
+        // setting, we are still able to observe all agents from one thread
+        for(auto &[i, a] :simulation.agents.local_agents_){
+            (void)i;
+            send_(a);
+        }
+
+        // what agents sent before they were deactivated is still delivered
+        for(const auto &a: simulation.agents.departed_agents_){
+            send_(a);
         }
+        simulation.agents.departed_agents_.clear();
         return messages_;
     }
 
diff --git a/esl/simulation/agent_collection.cpp b/esl/simulation/agent_collection.cpp
index a3b0085..9434cc5 100644
--- a/esl/simulation/agent_collection.cpp
+++ b/esl/simulation/agent_collection.cpp
@@ -47,7 +47,9 @@ namespace esl::simulation {
     void agent_collection::deactivate(std::shared_ptr<agent> a)
     {
         global_agents_.erase(a->identifier);
-        local_agents_.erase(a->identifier);
+        if(0 < local_agents_.erase(a->identifier)) {
+            departed_agents_.push_back(a);
+        }
         environment_.get().deactivate_agent(a->identifier);
     }
 
diff --git a/esl/simulation/agent_collection.hpp b/esl/simulation/agent_collection.hpp
index 93cd027..6d7aa7b 100644
--- a/esl/simulation/agent_collection.hpp
+++ b/esl/simulation/agent_collection.hpp
@@ -28,6 +28,7 @@
 #include <memory>
 #include <unordered_map>
 #include <unordered_set>
+#include <vector>
 
 #include <boost/container/flat_set.hpp>
 #include <boost/container/flat_map.hpp>
@@ -63,6 +64,12 @@ namespace esl::simulation {
 
         boost::container::flat_map<identity<agent>, std::shared_ptr<agent>> local_agents_;
 
+        ///
+        /// \brief  Agents that were deactivated, whose last messages have not
+        ///         been sent yet.
+        ///
+        std::vector<std::shared_ptr<agent>> departed_agents_;
+
         explicit agent_collection(std::reference_wrapper<computation::environment> environment_);
 
         template<typename agent_derived_t_, typename entity_type_>
-- 
2.43.0


From f1579677594d329e9575cdaefa782f74d38c11b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 38/63] fix: a Walrasian market without orders does not stop
 time

---
 esl/economics/markets/walras/price_setter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index 2a49d43..402fdd7 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -138,7 +138,9 @@ namespace esl::economics::markets::walras {
                 (void)k;
                 quotes_.push_back(v);
             }
-            wake_up_ = step.lower;
+            // orders that arrive in this instant activate the market again, and
+            // if there are none, the market continues at the next date
+            wake_up_ = step.lower + 1;
         }
 
         law::property_map<quote> quote_map_;
-- 
2.43.0


From b16e141bcf3402ca9f084fe7a16485d0e3b946c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 39/63] fix: buyers of several properties in a Walrasian market
 receive all of them

---
 esl/economics/markets/walras/price_setter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index 402fdd7..6e8eeb6 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -447,9 +447,8 @@ namespace esl::economics::markets::walras {
 
                     if(uint64_t(v) > 0){
                         //LOG(trace) << p << " purchased additional " << v << std::endl;
-                        accounting::inventory_filter<law::property> purchased_;
-                        purchased_.insert(property_, quantity(uint64_t(v)));
-                        send_.emplace(p, purchased_);
+                        auto s = send_.emplace(p, accounting::inventory_filter<law::property>()).first;
+                        s->second.insert(property_, quantity(uint64_t(v)));
 
                         // they should send cash for the purchase
                         auto r = receive_.emplace(p, accounting::inventory_filter<law::property>()).first;
-- 
2.43.0


From 4b9dd644f43e98226fa1c103a6a37ecd5392d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 40/63] fix: netting in a Walrasian market removes what was set
 off from both sides

---
 esl/economics/markets/walras/price_setter.cpp | 30 +++++++------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index 6e8eeb6..ec171e9 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -494,33 +494,25 @@ namespace esl::economics::markets::walras {
                 continue;
             }
 
-            for(auto &[k, v] : i_r.items) {
-                if(0 == v.amount){
-                    //i_r.items.erase(k);
-                    continue;
-                }
-
-                auto property_ = offset_->second.items.find(k);
+            for(auto k = i_r.items.begin(); k != i_r.items.end(); ) {
+                auto property_ = offset_->second.items.find(k->first);
                 if(offset_->second.items.end() == property_) {
+                    ++k;
                     continue;
                 }
                 // receiving more than sending
-                if(v > property_->second) {
-                    auto diff_ = v - property_->second;
-                    v          = diff_;
+                if(k->second > property_->second) {
+                    k->second = k->second - property_->second;
                     offset_->second.items.erase(property_);
-                } else if(v < property_->second) {  // sending more than recv
-                    auto diff_        = property_->second - v;
-                    property_->second = diff_;
-                    //i_r.items.erase(k);
-                } else {  // sending and rececing same amount
-                    //i_r.items.erase(k);
+                    ++k;
+                } else if(k->second < property_->second) {  // sending more than recv
+                    property_->second = property_->second - k->second;
+                    k = i_r.items.erase(k);
+                } else {  // sending and receiving same amount
                     offset_->second.items.erase(property_);
+                    k = i_r.items.erase(k);
                 }
             }
-            if(i_r.items.empty()){
-                receive_.erase(p);
-            }
         }
 
 
-- 
2.43.0


From fc95564f481d741888e3386dab2f280ea49bcf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 41/63] fix: payments in a Walrasian market are exact

---
 esl/economics/markets/walras/price_setter.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index ec171e9..45a4ad6 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -403,6 +403,16 @@ namespace esl::economics::markets::walras {
 
         auto usd_ = std::make_shared<cash>(currencies::USD);
 
+        // the value of a number of units in cash, computed in integers so that
+        // both sides of a trade exchange the same amount
+        auto value_ = [&](std::uint64_t units, const quote &q) {
+            const auto &price_ = std::get<price>(q.type);
+            if(price_.valuation == usd_->denomination) {
+                return quantity(units * std::uint64_t(price_.value) / q.lot);
+            }
+            return usd_->amount(units * double(price_) / q.lot);
+        };
+
         for(const auto &[property_, data_] : traded_properties) {
             // if no agents expressed interest, transfers_ might be empty
             if(transfers_.end() == transfers_.find(*property_)) {
@@ -439,7 +449,7 @@ namespace esl::economics::markets::walras {
                         //
                         auto s = receive_.emplace(p, accounting::inventory_filter<law::property>()).first;
                         auto o = old_quotes_.find(property_);
-                        auto collateral_ = usd_->amount(cancel_ * double(std::get<price>(o->second.type)) / o->second.lot);
+                        auto collateral_ = value_(cancel_, o->second);
 
                         s->second.insert(usd_, collateral_);
                         v -= cancel_;
@@ -452,7 +462,7 @@ namespace esl::economics::markets::walras {
 
                         // they should send cash for the purchase
                         auto r = receive_.emplace(p, accounting::inventory_filter<law::property>()).first;
-                        r->second.insert(usd_, usd_->amount(v * double(std::get<price>(data_.type)) / data_.lot));
+                        r->second.insert(usd_, value_(uint64_t(v), data_));
                     }
                 }else{  // v < 0 so participant wants to sell/short
 
@@ -465,7 +475,7 @@ namespace esl::economics::markets::walras {
                         r->second.insert(property_, quantity(cancel_));
 
                         auto s = send_.emplace(p, accounting::inventory_filter<law::property>()).first;
-                        auto proceeds_ = usd_->amount(cancel_ * double(std::get<price>(data_.type)) / data_.lot);
+                        auto proceeds_ = value_(cancel_, data_);
                         s->second.insert(usd_, proceeds_);
                         v += cancel_;
                     }
@@ -478,7 +488,7 @@ namespace esl::economics::markets::walras {
                         auto short_contract_ = std::make_shared<securities_lending_contract>(identifier, p, property_->identifier, quantity(1));
                         auto s = send_.emplace( p, accounting::inventory_filter<law::property>()).first;
 
-                        auto sale_ = usd_->amount(amount_to_extend * double(std::get<price>(data_.type)) / data_.lot);
+                        auto sale_ = value_(amount_to_extend, data_);
 
                         s->second.insert(usd_, sale_);
                         s->second.insert(short_contract_, quantity(amount_to_extend));
-- 
2.43.0


From 7e45e9e47552d71604d7b4c08472c29423156e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 42/63] fix: a Walrasian market records no volume if nothing is
 demanded

---
 esl/economics/markets/walras/price_setter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index 45a4ad6..d65a823 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -394,7 +394,9 @@ namespace esl::economics::markets::walras {
 
         ////////////////////////////////////////////////////////////////////////
         auto transfers_ = compute_transfers(traded_properties, volumes_, orders_);
-        output_volumes_->put(step.lower, { std::uint64_t(volumes_.begin()->second )} );
+        if(!volumes_.empty()) {  // orders can be without demand for any property
+            output_volumes_->put(step.lower, { std::uint64_t(volumes_.begin()->second )} );
+        }
 
 
         //  send_: we, the market maker, send items to participant
-- 
2.43.0


From 37a2d2791205c44b87113b5cb34f569041dd9f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 43/63] fix: the OpenBook reader can be included and compiles

---
 esl/data/format/openbook.hpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/esl/data/format/openbook.hpp b/esl/data/format/openbook.hpp
index 72ed269..609443f 100644
--- a/esl/data/format/openbook.hpp
+++ b/esl/data/format/openbook.hpp
@@ -28,11 +28,35 @@
 #ifndef ESL_OPENBOOK_HPP
 #define ESL_OPENBOOK_HPP
 
+#include <array>
+#include <cmath>
+#include <cstdint>
+#include <fstream>
+#include <functional>
+#include <iostream>
+#include <string>
+#include <tuple>
+#include <utility>
+#include <vector>
+
 #include <boost/algorithm/string.hpp>
+#include <boost/endian/conversion.hpp>
+
+#include <esl/economics/currencies.hpp>
+#include <esl/economics/markets/order_book/order.hpp>
+#include <esl/economics/markets/quote.hpp>
+#include <esl/economics/price.hpp>
+#include <esl/simulation/time.hpp>
 
 
 
 namespace esl::data {
+    using economics::price;
+    using economics::currencies::USD;
+    using economics::markets::quote;
+    using economics::markets::order_book::limit_order;
+    using simulation::time_point;
+
     namespace detail {
     /// 
     /// \brief  Utility function, not for general use. 
@@ -45,7 +69,7 @@ namespace esl::data {
     template<typename binary_t_, typename buffer_t_ = char>
     binary_t_ &convert_endian_aware(buffer_t_ *intrusive)
     {
-        if constexpr(std::endian::native == std::endian::little) {
+        if constexpr(boost::endian::order::native == boost::endian::order::little) {
             buffer_t_ *s = intrusive;
             buffer_t_ *e = intrusive + sizeof(binary_t_) - 1;
 
@@ -62,7 +86,7 @@ namespace esl::data {
     /// \brief VERSION 1.2b for files created 2017-04-20 and after
     ///
     // template<unsigned int major_version = 1, unsigned int minor_version = 2>
-    void read_openbook(
+    inline void read_openbook(
         const std::string &filename,
         std::function<void(const std::string &, char, char, time_point,
                            const quote &, const std::uint32_t &,
@@ -321,8 +345,8 @@ namespace esl::data {
     ///
     ///
     ///
-    std::vector<std::tuple<std::string, char, char, time_point, quote,
-                           std::uint32_t, limit_order::side_t>>
+    inline std::vector<std::tuple<std::string, char, char, time_point, quote,
+                                  std::uint32_t, limit_order::side_t>>
     parse_main_session(const std::string &filename,
                        const std::string &filter_symbol)
     {
-- 
2.43.0


From 211b1b9a17e0d99ab51177621814e3f3db26c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 44/63] fix: the OpenBook reader reports files that can not be
 read

---
 esl/data/format/openbook.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/esl/data/format/openbook.hpp b/esl/data/format/openbook.hpp
index 609443f..015e2fd 100644
--- a/esl/data/format/openbook.hpp
+++ b/esl/data/format/openbook.hpp
@@ -46,6 +46,7 @@
 #include <esl/economics/markets/order_book/order.hpp>
 #include <esl/economics/markets/quote.hpp>
 #include <esl/economics/price.hpp>
+#include <esl/exception.hpp>
 #include <esl/simulation/time.hpp>
 
 
@@ -94,12 +95,16 @@ namespace esl::data {
             callback)
     {
         std::ifstream input(filename, std::ios::binary);
-        std::streampos fsize = input.tellg();
+        const std::streamoff opened_ = input.tellg();
 
         input.seekg(0, std::ios::end);
-        fsize = input.tellg() - fsize;
+        const std::streamoff fsize = std::streamoff(input.tellg()) - opened_;
         input.seekg(0, std::ios::beg);
 
+        if(!input || opened_ < 0 || fsize < 0) {
+            throw esl::exception("could not open OpenBook file " + filename);
+        }
+
         // accept partial files, but warn user
         if(0 != (fsize % 71)) {
             std::cerr
@@ -130,7 +135,9 @@ namespace esl::data {
         std::array<char, 71> buffer; // stores the current message being read
 
         for(size_t i = 0; i < events; ++i) {
-            input.read(&buffer[0], buffer.size());
+            if(!input.read(&buffer[0], buffer.size())) {
+                throw esl::exception("could not read OpenBook file " + filename);
+            }
 
             // +0
             // auto &MsgSeqNum = detail::convert_endian_aware<std::uint32_t>(&buffer[0]);
-- 
2.43.0


From 8e03f177a10a5e4afffbd49946f3a2483fb89501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 45/63] fix: OpenBook times after 1:11 am do not wrap around

---
 esl/data/format/openbook.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/data/format/openbook.hpp b/esl/data/format/openbook.hpp
index 015e2fd..f52175a 100644
--- a/esl/data/format/openbook.hpp
+++ b/esl/data/format/openbook.hpp
@@ -323,7 +323,7 @@ namespace esl::data {
             //    << char('0' + PriceScaleCode) << "," << ChgQty << "," << Side
             //    << std::endl;
 
-            time_point time_ = SourceTime * 1000 + SourceTimeMicroSecs;
+            time_point time_ = time_point(SourceTime) * 1000 + SourceTimeMicroSecs;
 
             auto denom_ = std::pow<std::uint64_t>(10, PriceScaleCode);
             auto quote_ =
-- 
2.43.0


From b66ef0c2f3dac32ff4eae942a01449cb87c914b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 46/63] fix: OpenBook prices with less than two decimals

---
 esl/data/format/openbook.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/esl/data/format/openbook.hpp b/esl/data/format/openbook.hpp
index f52175a..210acb6 100644
--- a/esl/data/format/openbook.hpp
+++ b/esl/data/format/openbook.hpp
@@ -326,8 +326,11 @@ namespace esl::data {
             time_point time_ = time_point(SourceTime) * 1000 + SourceTimeMicroSecs;
 
             auto denom_ = std::pow<std::uint64_t>(10, PriceScaleCode);
-            auto quote_ =
-                quote(price(PriceNumerator, USD), denom_ / USD.denominator);
+            // the price is in units of 1/denom_ and that of the quote in cents,
+            // the lot size makes up for additional digits
+            auto quote_ = (denom_ >= USD.denominator)
+                ? quote(price(PriceNumerator, USD), denom_ / USD.denominator)
+                : quote(price(PriceNumerator * (USD.denominator / std::uint64_t(denom_)), USD));
 
             callback(Symbol, TradingStatus, ReasonCode, time_, quote_, ChgQty,
                      (Side == 'B' ? limit_order::side_t::buy
-- 
2.43.0


From f63c8503bb1505980bd41a62099360fc03ce97c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:29 +0000
Subject: [PATCH 47/63] fix: handlers that ask for a time outside the step do
 not end the process

---
 esl/interaction/communicator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esl/interaction/communicator.cpp b/esl/interaction/communicator.cpp
index 044f6af..a684047 100644
--- a/esl/interaction/communicator.cpp
+++ b/esl/interaction/communicator.cpp
@@ -64,7 +64,8 @@ namespace esl::interaction {
             //auto before_handler_ = high_resolution_clock::now();
 
             auto next_event_ = std::get<1>(*i).function(message, step, seed);
-            assert(step.lower <= next_event_ && next_event_ <= step.upper);
+            // as for agent::act, times after the step are possible, and the
+            // model reports times before it
             first_event_ = std::min(first_event_, next_event_);
 
             //timings_callback_[std::get<1>(*i).description] += double((high_resolution_clock::now() - before_handler_).count());
-- 
2.43.0


From 1c53d03aff6990ee0a7649dcfc86cf895cf4e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 48/63] fix: a message to nobody is reported by the model and
 does not end the process

---
 esl/interaction/communicator.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/esl/interaction/communicator.hpp b/esl/interaction/communicator.hpp
index 3a0cc2a..3576ad4 100644
--- a/esl/interaction/communicator.hpp
+++ b/esl/interaction/communicator.hpp
@@ -193,7 +193,6 @@ namespace esl::interaction {
                        constructor_arguments_... arguments)
         {
             auto result_       = std::make_shared<message_type_>(arguments...);
-            assert(0 < recipient.digits.size());
             result_->recipient = recipient;
             result_->received  = delivery;
 
-- 
2.43.0


From 67427ab12f7514ca8207545e9c3a9d5b334c10d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 49/63] fix: random streams depend on all bits of agent, time
 and sample

---
 esl/simulation/model.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 437fb2f..0592ef1 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -134,10 +134,13 @@ namespace esl::simulation {
                 // auto agent_start_ = high_resolution_clock::now();
                 // auto agent_act_ = high_resolution_clock::now();
                 // The seed is deterministic in the following variables:
+                // (a seed sequence uses the lower 32 bits of every element)
+                const auto hash_ = std::uint64_t(std::hash<identity<agent>>()(a->identifier));
                 std::seed_seq seed_ {
-                    std::uint64_t(std::hash<identity<agent>>()(a->identifier)),
-                    std::uint64_t(step.lower), std::uint64_t(round_),
-                    sample};
+                    hash_, hash_ >> 32,
+                    std::uint64_t(step.lower), std::uint64_t(step.lower) >> 32,
+                    std::uint64_t(round_),
+                    sample, sample >> 32};
 
                 // try {
 
-- 
2.43.0


From 5a227d7d202571e3000607e26a6f4b3a905643b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 50/63] fix: transfers of no or several units of infungible
 property do not end the process

---
 esl/economics/owner.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index c053be3..43ea3e5 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -129,8 +129,12 @@ namespace esl::law {
                             p,
                         const quantity &q)
             {
-                assert(q == quantity(1));
-                (void)q;
+                if(q == quantity(0)) {
+                    return;
+                }
+                if(q > quantity(1)) {
+                    throw economics::accounting::duplicate_infungible(q);
+                }
                 properties.insert(p);
             }
 
@@ -140,8 +144,15 @@ namespace esl::law {
                            p,
                        const quantity &q)
             {
-                assert(q == quantity(1));
-                (void)q;
+                if(q == quantity(0)) {
+                    return;
+                }
+                quantity owned_(properties.items.count(p));
+                if(owned_ < q) {
+                    throw economics::accounting::insufficent_inventory(
+                        owned_, q, p->identifier,
+                        boost::core::demangle(typeid(property_t_).name()));
+                }
                 properties.erase(p);
             }
         };
-- 
2.43.0


From 918162160a61cdf4a6d2a7678dcc99262ba996b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 51/63] fix: decrementing a quantity decrements it

---
 esl/quantity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/quantity.hpp b/esl/quantity.hpp
index 6db2e96..b293e1b 100644
--- a/esl/quantity.hpp
+++ b/esl/quantity.hpp
@@ -322,7 +322,7 @@ namespace esl {
 
         quantity& operator -- ()
         {
-            ++amount;
+            --amount;
             return *this;
         }
 
-- 
2.43.0


From c71ea47f46d9f95de7808ce7a19602ce9c9b152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 52/63] fix: dividend policies with announcement date zero are
 announced

---
 esl/economics/company.cpp | 2 +-
 esl/economics/company.hpp | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 550cd46..bcaa0bc 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -94,7 +94,7 @@ namespace esl::economics {
     , shareholder(i)
     , identifiable_as<company>()
     , balance_sheet(*this)
-    , last_announced_(0)
+    , last_announced_()
     , last_payment_(0)
     {}
 
diff --git a/esl/economics/company.hpp b/esl/economics/company.hpp
index d179887..aac79b9 100644
--- a/esl/economics/company.hpp
+++ b/esl/economics/company.hpp
@@ -28,6 +28,7 @@
 #include <iostream>
 #include <map>
 #include <numeric>
+#include <optional>
 #include <vector>
 
 #include <boost/serialization/serialization.hpp>
@@ -98,7 +99,10 @@ namespace esl::economics {
         compute_dividend_per_share(const price &unappropriated_profit);
 
     protected:
-        simulation::time_point last_announced_;
+        ///
+        /// \brief  The announcement date of the last policy announced, if any
+        ///
+        std::optional<simulation::time_point> last_announced_;
 
         simulation::time_point last_payment_;
 
-- 
2.43.0


From e690383c784e0db2f1aff0d6de2bf809315a1547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 53/63] fix: shareholders answer announcements of dividends
 with dates after the step

---
 esl/economics/finance/shareholder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/shareholder.cpp b/esl/economics/finance/shareholder.cpp
index 9934225..9ff9e82 100644
--- a/esl/economics/finance/shareholder.cpp
+++ b/esl/economics/finance/shareholder.cpp
@@ -89,7 +89,7 @@ namespace esl::economics::finance {
         for(auto i = ex_dividend_dates.begin(); i != ex_dividend_dates.end();
             ++i) {
             const auto &[s, c] = *i;
-            if(interval.lower <= s && interval.upper >= s) {  // reply ASAP
+            if(interval.lower <= s) {  // reply ASAP
                 if(shares.find(c) != shares.end()) {
                     auto record_ = this->create_message<dividend_record>(
                         c, 0, this->identifier, c, shares[c]);
-- 
2.43.0


From c3be894ee2932ef00e67bdb97c6ce50c354b1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:14 +0000
Subject: [PATCH 54/63] fix: a Walrasian market pays in the currency of the
 quote

---
 esl/economics/markets/walras/price_setter.cpp | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index d65a823..a06457b 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -403,16 +403,15 @@ namespace esl::economics::markets::walras {
         //  receive_: we, the market maker, receive items from participant
         map<identity<agent>, accounting::inventory_filter<law::property>> send_, receive_;
 
-        auto usd_ = std::make_shared<cash>(currencies::USD);
+        // cash in the currency of the quote
+        auto cash_ = [](const quote &q) {
+            return std::make_shared<cash>(std::get<price>(q.type).valuation);
+        };
 
         // the value of a number of units in cash, computed in integers so that
         // both sides of a trade exchange the same amount
-        auto value_ = [&](std::uint64_t units, const quote &q) {
-            const auto &price_ = std::get<price>(q.type);
-            if(price_.valuation == usd_->denomination) {
-                return quantity(units * std::uint64_t(price_.value) / q.lot);
-            }
-            return usd_->amount(units * double(price_) / q.lot);
+        auto value_ = [](std::uint64_t units, const quote &q) {
+            return quantity(units * std::uint64_t(std::get<price>(q.type).value) / q.lot);
         };
 
         for(const auto &[property_, data_] : traded_properties) {
@@ -453,7 +452,7 @@ namespace esl::economics::markets::walras {
                         auto o = old_quotes_.find(property_);
                         auto collateral_ = value_(cancel_, o->second);
 
-                        s->second.insert(usd_, collateral_);
+                        s->second.insert(cash_(o->second), collateral_);
                         v -= cancel_;
                     }
 
@@ -464,7 +463,7 @@ namespace esl::economics::markets::walras {
 
                         // they should send cash for the purchase
                         auto r = receive_.emplace(p, accounting::inventory_filter<law::property>()).first;
-                        r->second.insert(usd_, value_(uint64_t(v), data_));
+                        r->second.insert(cash_(data_), value_(uint64_t(v), data_));
                     }
                 }else{  // v < 0 so participant wants to sell/short
 
@@ -478,7 +477,7 @@ namespace esl::economics::markets::walras {
 
                         auto s = send_.emplace(p, accounting::inventory_filter<law::property>()).first;
                         auto proceeds_ = value_(cancel_, data_);
-                        s->second.insert(usd_, proceeds_);
+                        s->second.insert(cash_(data_), proceeds_);
                         v += cancel_;
                     }
 
@@ -492,7 +491,7 @@ namespace esl::economics::markets::walras {
 
                         auto sale_ = value_(amount_to_extend, data_);
 
-                        s->second.insert(usd_, sale_);
+                        s->second.insert(cash_(data_), sale_);
                         s->second.insert(short_contract_, quantity(amount_to_extend));
                     }
                 }
-- 
2.43.0


From 316e461dc2c36d6c2572d54a6348bef1743d8130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:14 +0000
Subject: [PATCH 55/63] fix: participants of a Walrasian market may own what
 they also owe

---
 esl/economics/markets/walras/price_setter.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index a06457b..25f1ed3 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -436,8 +436,6 @@ namespace esl::economics::markets::walras {
 
                 if(v > 0) {  // send properties to this agent, or receive shorts
                     if(short_ > 0) {  // there was a short position
-                        assert(long_ == 0);
-
                         uint64_t cancel_ = std::min(uint64_t(v), short_);
                         //LOG(trace) << "cancel the short position of " << p <<" by " << cancel_ << std::endl;
 
-- 
2.43.0


From fc927c583f1e8ba9c5c51118d9b4125c16bbc148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:15 +0000
Subject: [PATCH 56/63] fix: log statements below the filter do not appear on
 the terminal

---
 esl/data/channel.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/esl/data/channel.hpp b/esl/data/channel.hpp
index 3681634..03d5732 100644
--- a/esl/data/channel.hpp
+++ b/esl/data/channel.hpp
@@ -33,6 +33,7 @@
 #include <thread>
 #include <mutex>
 
+#include <esl/data/null_ostream.hpp>
 #include <esl/data/severity.hpp>
 
 
@@ -75,6 +76,15 @@ namespace esl::data {
         ///
         const unsigned int line;
 
+        ///
+        /// \brief  Whether the severity is below the filter of the log, in
+        ///         which case the values do not appear anywhere
+        ///
+        bool discards() const noexcept
+        {
+            return nullptr != dynamic_cast<const null_ostream *>(&stream);
+        }
+
     public:
 
         ///
@@ -107,7 +117,9 @@ namespace esl::data {
             std::lock_guard<std::recursive_mutex> lock_(mutex_);
             std::vector<std::ostream *> os = {&stream};
 #if !(defined(ESL_RELEASE) && ESL_RELEASE > 0)
-            os.push_back(&std::cout);
+            if(!discards()) {
+                os.push_back(&std::cout);
+            }
 #endif
             for(auto o : os) {
                 (*o) << std::forward<output_t>(value);
@@ -147,7 +159,9 @@ namespace esl::data {
             std::lock_guard<std::recursive_mutex> lock_(mutex_);
             manipulator(stream);
 #if !(defined(ESL_RELEASE) && ESL_RELEASE > 0)
-            manipulator(std::cout);
+            if(!discards()) {
+                manipulator(std::cout);
+            }
 #endif
             return *this;
         }
-- 
2.43.0


From b1091c9d1f9256b37fa8996245386cbc6ee30e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 57/63] fix: an impact function market confuses amounts and
 sides of orders

---
 esl/economics/markets/impact_function/market.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/economics/markets/impact_function/market.cpp b/esl/economics/markets/impact_function/market.cpp
index b5e9559..93c2ec8 100644
--- a/esl/economics/markets/impact_function/market.cpp
+++ b/esl/economics/markets/impact_function/market.cpp
@@ -163,10 +163,10 @@ namespace esl::economics::markets::impact_function {
                 volumes_.emplace(p, 0.);
 
 
-                if(order_message::buy == i.first ){
-                    volumes_[p] += double(i.second);
-                }else if(order_message::sell == i.first ){
-                    volumes_[p] -= double(i.second);
+                if(order_message::buy == i.second ){
+                    volumes_[p] += double(i.first);
+                }else if(order_message::sell == i.second ){
+                    volumes_[p] -= double(i.first);
                 }
             }
         }
-- 
2.43.0


From 74d0a80b3f2ba014feb928d948b22295fbe994ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:12 +0000
Subject: [PATCH 58/63] fix: orders in an impact function market change the
 prices

---
 esl/economics/markets/impact_function/market.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/impact_function/market.cpp b/esl/economics/markets/impact_function/market.cpp
index 93c2ec8..177cf7a 100644
--- a/esl/economics/markets/impact_function/market.cpp
+++ b/esl/economics/markets/impact_function/market.cpp
@@ -106,6 +106,17 @@ namespace esl::economics::markets::impact_function {
 
 
                 auto scalars_ = clear_market(orders_, step);
+                for(auto &[k, v]: traded_properties) {
+                    auto scalar_ = scalars_.find(k->identifier);
+                    if(scalars_.end() == scalar_) {
+                        continue;
+                    }
+                    auto &price_ = std::get<price>(v.type);
+                    price_.value = std::llround(double(price_.value) * scalar_->second);
+                    if(0 == price_.value) {
+                        price_.value = 1;
+                    }
+                }
 //                LOG(notice) << "clearing market took " << (double((std::chrono::high_resolution_clock::now()-before_).count()) / 1e+6) <<  " milliseconds" << std::endl;
 
                 std::vector<price> prices_;
@@ -160,9 +171,11 @@ namespace esl::economics::markets::impact_function {
 
         for(const auto &[a, m]: orders){
             for(const auto &[p, i]: m->volumes){
+                if(traded_properties.end() == traded_properties.find(p)) {
+                    continue;
+                }
                 volumes_.emplace(p, 0.);
 
-
                 if(order_message::buy == i.second ){
                     volumes_[p] += double(i.first);
                 }else if(order_message::sell == i.second ){
-- 
2.43.0


From ebb60bd75af1bbd404bdc8e68d81c4fd2959f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:31 +0000
Subject: [PATCH 59/63] fix: an impact function market quotes prices once for
 every date

---
 .../markets/impact_function/market.cpp        | 26 ++++++++++---------
 .../markets/impact_function/market.hpp        |  5 ++++
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/esl/economics/markets/impact_function/market.cpp b/esl/economics/markets/impact_function/market.cpp
index 177cf7a..6307edc 100644
--- a/esl/economics/markets/impact_function/market.cpp
+++ b/esl/economics/markets/impact_function/market.cpp
@@ -49,6 +49,7 @@ namespace esl::economics::markets::impact_function {
     , esl::economics::market(i)
     , state(sending_quotes)
     , traded_properties(traded_properties)
+    , next_market_date(0)
     {
         output_clearing_prices_ = create_output<std::vector<price>>("clearing_prices");
         output_volumes_ = create_output<std::vector<uint64_t>>("volumes");
@@ -71,13 +72,16 @@ namespace esl::economics::markets::impact_function {
     simulation::time_point market::act(simulation::time_interval step, std::seed_seq &seed)
     {
         (void)seed;
-        simulation::time_point next_ = step.upper;
+        // orders that arrive in this instant activate the market again, and if
+        // there are none, the market continues at the next date
+        simulation::time_point next_ = step.lower + 1;
+        // the date the quotes are for: the next one once this one is cleared
+        simulation::time_point date_ = step.lower;
         std::vector<quote> quotes_;
 
         if(state == sending_quotes){
             // send out initial quotes and wait for orders,
             // scheduled in the same time step
-            next_ = step.lower;
             for(const auto &[k, v]: traded_properties) {
                 (void)k;
                 quotes_.push_back(v);
@@ -93,8 +97,7 @@ namespace esl::economics::markets::impact_function {
                     auto order_ = std::dynamic_pointer_cast<esl::economics::markets::impact_function::order_message>(message_);
 
                     if(message_->sent < step.lower) {
-                        next_ = step.lower;
-                        break;
+                        continue;   // stale
                     }
                     orders_.emplace(order_->sender, order_);
                 }
@@ -130,16 +133,12 @@ namespace esl::economics::markets::impact_function {
 //                LOG(notice) << "quotes: " << quotes_ << std::endl;
 
                 output_clearing_prices_->put(step.lower, prices_);
-
-
+                date_ = step.lower + 1;
             }else{  // restore previous prices
                 for(const auto &[k, v]: traded_properties){
                     (void)k;
                     quotes_.push_back(v);
                 }
-                if(step.lower > 1){
-                    next_ = step.lower;
-                }
             }
         }
 
@@ -153,9 +152,12 @@ namespace esl::economics::markets::impact_function {
         }
 //        LOG(trace) << describe() << " " << identifier << " time " << step.lower <<  " clearing prices " << quote_map_ << std::endl;
 
-        for(const auto &p : participants) {
-            auto m = this->template create_message<impact_function::quote_message>(
-                p, step.lower + 1, identifier, p, quote_map_);
+        if(state == sending_quotes || next_market_date < date_) {
+            for(const auto &p : participants) {
+                auto m = this->template create_message<impact_function::quote_message>(
+                    p, date_, identifier, p, quote_map_);
+            }
+            next_market_date = date_;
         }
         state = clearing_market;
         return next_;
diff --git a/esl/economics/markets/impact_function/market.hpp b/esl/economics/markets/impact_function/market.hpp
index 2c390c5..893b436 100644
--- a/esl/economics/markets/impact_function/market.hpp
+++ b/esl/economics/markets/impact_function/market.hpp
@@ -64,6 +64,11 @@ namespace esl::economics::markets::impact_function {
 
         law::property_map<quote> traded_properties;
 
+        ///
+        /// \brief  The last date that quotes were sent for
+        ///
+        simulation::time_point next_market_date;
+
         ///
         /// \details
         /// \param i
-- 
2.43.0


From ecfda6d1328d7a4361e54d8b280a738ac7213911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:52 +0000
Subject: [PATCH 60/63] fix: a stale or early order makes a Walrasian market
 ignore or use the wrong orders

---
 esl/economics/markets/walras/price_setter.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/esl/economics/markets/walras/price_setter.cpp b/esl/economics/markets/walras/price_setter.cpp
index 25f1ed3..02070ee 100644
--- a/esl/economics/markets/walras/price_setter.cpp
+++ b/esl/economics/markets/walras/price_setter.cpp
@@ -105,12 +105,14 @@ namespace esl::economics::markets::walras {
         simulation::time_point wake_up_ = step.upper;
         std::unordered_map<identity<agent>, std::shared_ptr<differentiable_order_message>> orders_;
         for(const auto &[k, message_]: inbox) {
-            (void)k;
+            if(step.lower < k) {
+                break;      // these orders have yet to arrive
+            }
             if(walras::differentiable_order_message::code == message_->type) {
                 auto order_ = std::dynamic_pointer_cast<walras::differentiable_order_message>(message_);
                 if(message_->sent < step.lower) {
-                    LOG(trace) << (this->describe()) << "blocking because I received stale orders" << std::endl;
-                    break;
+                    LOG(trace) << (this->describe()) << "skipping a stale order" << std::endl;
+                    continue;
                 }
                 orders_.emplace(order_->sender, order_);
             }
-- 
2.43.0


From 79630b4b5c10d6c0478446372b340be2e3ffe3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:52 +0000
Subject: [PATCH 61/63] fix: an impact function market uses orders before they
 arrive

---
 esl/economics/markets/impact_function/market.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/impact_function/market.cpp b/esl/economics/markets/impact_function/market.cpp
index 6307edc..0fcb39e 100644
--- a/esl/economics/markets/impact_function/market.cpp
+++ b/esl/economics/markets/impact_function/market.cpp
@@ -92,7 +92,9 @@ namespace esl::economics::markets::impact_function {
                 std::shared_ptr<esl::economics::markets::impact_function::order_message>>
                 orders_;
             for(const auto &[k, message_]: inbox) {
-                (void)k;
+                if(step.lower < k) {
+                    break;      // these orders have yet to arrive
+                }
                 if(esl::economics::markets::impact_function::order_message::code == message_->type) {
                     auto order_ = std::dynamic_pointer_cast<esl::economics::markets::impact_function::order_message>(message_);
 
-- 
2.43.0


From 3de2d71cc12ca0e25d4ef38c05c8d896f443190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:40 +0000
Subject: [PATCH 62/63] fix: identity's move constructor and assignment take
 the digits over, so that no failing allocation ends the process in a noexcept
 function

---
 esl/simulation/identity.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/esl/simulation/identity.hpp b/esl/simulation/identity.hpp
index bb68a8b..423c3c8 100644
--- a/esl/simulation/identity.hpp
+++ b/esl/simulation/identity.hpp
@@ -33,6 +33,7 @@
 #include <sstream>
 #include <string>
 #include <type_traits>
+#include <utility>
 #include <vector>
 // using std::lexicographical_compare_3way;
 
@@ -104,7 +105,7 @@ namespace esl {
         /// significant to least significant
         ///
         constexpr explicit identity(std::vector<digit_t> &&digits = {}) noexcept
-        : digits(digits)
+        : digits(std::move(digits))
         {
 
         }
@@ -125,7 +126,7 @@ namespace esl {
         /// \example    identity<agent> = {0,1,2};
         ///
         /// \param digits
-        identity(std::initializer_list<digit_t> digits) noexcept
+        identity(std::initializer_list<digit_t> digits)
         : digits(digits)
         {
 
@@ -190,7 +191,7 @@ namespace esl {
         inline identity<identifiable_type_> &
         operator = (identity<identifiable_type_> &&rhs) noexcept
         {
-            digits = (rhs.digits);
+            digits = std::move(rhs.digits);
             return *this;
         }
 
-- 
2.43.0


From bb322b974096295a3ccef902837a6a2c1b3de391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:41 +0000
Subject: [PATCH 63/63] fix: looking for an agent that does not exist does not
 add an empty one to the simulation

---
 esl/simulation/agent_collection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esl/simulation/agent_collection.cpp b/esl/simulation/agent_collection.cpp
index 9434cc5..0924c86 100644
--- a/esl/simulation/agent_collection.cpp
+++ b/esl/simulation/agent_collection.cpp
@@ -56,6 +56,8 @@ namespace esl::simulation {
     std::shared_ptr<agent>
         agent_collection::operator[](const identity<agent> &a)
     {
-        return local_agents_[a];
+        // looking for an agent does not add it
+        auto iterator_ = local_agents_.find(a);
+        return local_agents_.end() == iterator_ ? nullptr : iterator_->second;
     }
 }
-- 
2.43.0

