From 0bde8c1bc83f3ab63436524712b83acf81a6f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 01/60] fix: latch becomes ready when its count reaches zero

fetch_sub returns the previous value, so comparing it with 0 never
detected the decrement that reached zero.
---
 include/asyncpp/latch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/latch.h b/include/asyncpp/latch.h
index 2099ddd..b8fe44e 100644
--- a/include/asyncpp/latch.h
+++ b/include/asyncpp/latch.h
@@ -39,7 +39,7 @@ namespace asyncpp {
          * \note It is undefined if the sum of all decrement calls exceeds the counter value.
          */
 		void decrement(std::size_t n = 1) noexcept {
-			if (m_count.fetch_sub(n, std::memory_order::acq_rel) == 0) { m_event.set(); }
+			if (m_count.fetch_sub(n, std::memory_order::acq_rel) == n) { m_event.set(); }
 		}
 
 		/**
-- 
2.43.0


From 41bfe513fa555d917477dfb8a1da0c5e6469d024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 02/60] fix: multi_consumer_event::set only reports true if it
 resumed a coroutine

As documented, and as the other event types do.
---
 include/asyncpp/event.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index e6092e3..0beae13 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -341,6 +341,7 @@ namespace asyncpp {
 			auto state = m_state.exchange(this, std::memory_order::acq_rel);
 			if (state == this) return false;
 			auto await = static_cast<awaiter*>(state);
+			if (await == nullptr) return false;
 			while (await != nullptr) {
 				auto next = await->m_next;
 				assert(await->m_parent == this);
-- 
2.43.0


From 19488e45f83f6ace99d3e84ddcc708f1fa0a9118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 03/60] fix: multi_consumer_auto_reset_event synchronizes with
 the set it consumes

The compare-exchange that consumes a signal (or takes the waiter list) needs
acquire semantics, otherwise nothing orders the work done before set() with the
coroutine that continues.
---
 include/asyncpp/event.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index 0beae13..3b946c2 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -490,7 +490,7 @@ namespace asyncpp {
 				await = static_cast<awaiter*>(old_state);
 				// if the event had awaiters we update the state to "unset", if it was previously unset we transition to set
 				new_state = (old_state == nullptr) ? this : nullptr;
-			} while (!m_state.compare_exchange_weak(old_state, new_state, std::memory_order::release,
+			} while (!m_state.compare_exchange_weak(old_state, new_state, std::memory_order::acq_rel,
 													std::memory_order::acquire));
 
 			// Execute the awaiters (if any)
@@ -561,7 +561,7 @@ namespace asyncpp {
 				//       because in that case we just enter the main loop in await_suspend
 				// Returns true if the value was updated (i.e. old_state equalled m_parent and cas succeeded)
 				return m_parent->m_state.compare_exchange_weak( //
-					old_state, nullptr, std::memory_order::release, std::memory_order::acquire);
+					old_state, nullptr, std::memory_order::acquire, std::memory_order::acquire);
 			}
 			[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) noexcept {
 				m_handle = hdl;
@@ -570,7 +570,7 @@ namespace asyncpp {
 					// If the event is set, reset it and resume the coroutine
 					if (old_state == m_parent) {
 						if (m_parent->m_state.compare_exchange_weak( //
-								old_state, nullptr, std::memory_order::release, std::memory_order::acquire))
+								old_state, nullptr, std::memory_order::acq_rel, std::memory_order::acquire))
 							return false;
 						// the state changed between load and compare (either because another coroutine was faster or the event was reset).
 						// Retry from the start
-- 
2.43.0


From 8188dab56a92e4f823af801c769491a6559f4b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 04/60] fix: multi_consumer_auto_reset_event does not lose
 waiters or signals on retry

'continue' in a do/while loop evaluates the loop condition, so a failed attempt
to consume the signal went on to register the awaiter without linking it to the
awaiters already present (losing them), or over a still set event (losing the
signal).
---
 include/asyncpp/event.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/event.h b/include/asyncpp/event.h
index 3b946c2..d067c1f 100644
--- a/include/asyncpp/event.h
+++ b/include/asyncpp/event.h
@@ -566,7 +566,7 @@ namespace asyncpp {
 			[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) noexcept {
 				m_handle = hdl;
 				void* old_state = m_parent->m_state.load(std::memory_order::acquire);
-				do {
+				while (true) {
 					// If the event is set, reset it and resume the coroutine
 					if (old_state == m_parent) {
 						if (m_parent->m_state.compare_exchange_weak( //
@@ -578,8 +578,10 @@ namespace asyncpp {
 					}
 					// The event is unset, add the existing awaiter (if any) to the list and suspend the coroutine
 					m_next = static_cast<awaiter*>(old_state);
-				} while (!m_parent->m_state.compare_exchange_weak( //
-					old_state, this, std::memory_order::release, std::memory_order::acquire));
+					if (m_parent->m_state.compare_exchange_weak( //
+							old_state, this, std::memory_order::release, std::memory_order::acquire))
+						break;
+				}
 				return true;
 			}
 			constexpr void await_resume() const noexcept {}
-- 
2.43.0


From 796ff1458bffad7f18521e21748a086a4238625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 05/60] fix: channel::read does not suspend if the channel was
 closed in the meantime

---
 include/asyncpp/channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 6757539..5ad37ab 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -229,6 +229,7 @@ namespace asyncpp {
 		m_handle = hndl;
 		m_next = nullptr;
 		std::unique_lock lck{m_parent->m_mtx};
+		if (m_parent->m_closed.load(std::memory_order::relaxed)) return false;
 		// Check if there is a writer waiting
 		if (auto wrt = m_parent->m_writer_list; wrt != nullptr) {
 			// Unhook writer
-- 
2.43.0


From c8e2efadff2b755b7b3104dfa36dc4e5e7b5bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 06/60] fix: channel::write reports success if a reader was
 already waiting

---
 include/asyncpp/channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index 5ad37ab..f679f45 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -282,6 +282,7 @@ namespace asyncpp {
 			lck.unlock();
 			// Copy the value over
 			rdr->m_result = std::move(m_value);
+			m_result = true;
 			// Resume reader
 			if (rdr->m_dispatcher != nullptr)
 				rdr->m_dispatcher->push([rdr]() { rdr->m_handle.resume(); });
-- 
2.43.0


From 5892c53190532dae5d637fe7334e912108cab487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 07/60] fix: a queue with a maximum size of zero hands values
 from push to pop

---
 include/asyncpp/queue.h | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 547588d..826a028 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -225,8 +225,6 @@ namespace asyncpp {
 	template<typename T, typename TContainer>
 	inline bool queue<T, TContainer>::try_push(T&& value) {
 		std::unique_lock lck{m_mtx};
-		// Early exit if we are oversized
-		if (m_queue.size() >= m_max_size) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
 			m_pop_list = awaiter->m_next;
@@ -235,6 +233,8 @@ namespace asyncpp {
 			lck.unlock();
 			awaiter->resume(std::forward<T>(value));
 		} else {
+			// Early exit if we are oversized
+			if (m_queue.size() >= m_max_size) return false;
 			// There is noone waiting for the data (yet), so we just queue it
 			m_queue.push(std::forward<T>(value));
 		}
@@ -245,8 +245,6 @@ namespace asyncpp {
 	template<typename... Args>
 	inline bool queue<T, TContainer>::try_emplace(Args&&... args) {
 		std::unique_lock lck{m_mtx};
-		// Early exit if we are oversized
-		if (m_queue.size() >= m_max_size) return false;
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
 			m_pop_list = awaiter->m_next;
@@ -255,6 +253,8 @@ namespace asyncpp {
 			lck.unlock();
 			awaiter->resume(T{std::forward<Args>(args)...});
 		} else {
+			// Early exit if we are oversized
+			if (m_queue.size() >= m_max_size) return false;
 			// There is noone waiting for the data (yet), so we just queue it
 			m_queue.emplace(std::forward<Args>(args)...);
 		}
@@ -265,7 +265,16 @@ namespace asyncpp {
 	inline std::optional<T> queue<T, TContainer>::try_pop() {
 		std::unique_lock lck{m_mtx};
 		// Early out if the queue is empty
-		if (m_queue.empty()) return std::nullopt;
+		if (m_queue.empty()) {
+			auto awaiter = m_push_list;
+			if (awaiter == nullptr) return std::nullopt;
+			// A queue that stores nothing (max_size is 0) hands over the value of the first suspended push
+			m_push_list = awaiter->m_next;
+			lck.unlock();
+			std::optional<T> res{std::move(awaiter->m_value)};
+			awaiter->resume();
+			return res;
+		}
 		// Pop the first value
 		std::optional<T> res{std::move(m_queue.front())};
 		m_queue.pop();
@@ -326,8 +335,17 @@ namespace asyncpp {
 	inline bool queue<T, TContainer>::pop_awaiter::await_ready() {
 		std::unique_lock lck{m_parent->m_mtx};
 		if (m_parent->m_queue.empty()) {
-			lck.release(); // We unlock inside suspend
-			return false;
+			auto awaiter = m_parent->m_push_list;
+			if (awaiter == nullptr) {
+				lck.release(); // We unlock inside suspend
+				return false;
+			}
+			// A queue that stores nothing (max_size is 0) hands over the value of the first suspended push
+			m_parent->m_push_list = awaiter->m_next;
+			lck.unlock();
+			m_result.emplace(std::move(awaiter->m_value));
+			awaiter->resume();
+			return true;
 		}
 		m_result.emplace(std::move(m_parent->m_queue.front()));
 		m_parent->m_queue.pop();
-- 
2.43.0


From d54e84ea1712d3d6faf774f96c90d9cb61e98b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:02 +0000
Subject: [PATCH 08/60] fix: threadsafe_queue can be copied

---
 include/asyncpp/threadsafe_queue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/threadsafe_queue.h b/include/asyncpp/threadsafe_queue.h
index 3244203..6134671 100644
--- a/include/asyncpp/threadsafe_queue.h
+++ b/include/asyncpp/threadsafe_queue.h
@@ -3,6 +3,7 @@
 #include <mutex>
 #include <optional>
 #include <queue>
+#include <type_traits>
 #include <utility>
 
 namespace asyncpp {
@@ -14,7 +15,7 @@ namespace asyncpp {
 	 */
 	template<typename T, typename Container = std::deque<T>>
 	class threadsafe_queue {
-		std::mutex m_mutex{};
+		mutable std::mutex m_mutex{};
 		std::queue<T, Container> m_queue{};
 
 	public:
@@ -23,6 +24,7 @@ namespace asyncpp {
 		* \param args Arguments to forward to the container constructor
 		*/
 		template<typename... Args>
+			requires(std::is_constructible_v<std::queue<T, Container>, Args && ...>)
 		explicit threadsafe_queue(Args&&... args) : m_queue(std::forward<Args>(args)...) {}
 
 		threadsafe_queue(const threadsafe_queue& other) {
-- 
2.43.0


From 7e9cc1eaf5d0f62ac7d336deadb6be748206c255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 09/60] fix: a promise callback may destroy the last handle of
 the promise

---
 include/asyncpp/promise.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 0360c71..70cc5d6 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -31,6 +31,8 @@ namespace asyncpp {
 			std::vector<std::function<void(const TError&)>> m_on_reject{};
 
 			bool try_fulfill(auto&& value) {
+				// A callback might destroy the last promise refering to this state
+				const ref<promise_state> self{this};
 				std::unique_lock lck{m_mtx};
 				if (m_value.index() != pending_index) return false;
 				m_value.template emplace<fulfilled_index>(std::forward<decltype(value)>(value));
@@ -56,6 +58,8 @@ namespace asyncpp {
 			}
 
 			bool try_reject(auto&& value) {
+				// A callback might destroy the last promise refering to this state
+				const ref<promise_state> self{this};
 				std::unique_lock lck{m_mtx};
 				if (m_value.index() != pending_index) return false;
 				m_value.template emplace<rejected_index>(std::forward<decltype(value)>(value));
-- 
2.43.0


From 8b8e8795b8c32b5f1d2bbc68f7e6e3646aaabf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:14 +0000
Subject: [PATCH 10/60] fix: promise_all without arguments returns a fulfilled
 promise

---
 include/asyncpp/promise.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 70cc5d6..2d2f48a 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -523,6 +523,7 @@ namespace asyncpp {
 			promise<void> result;
 		};
 		auto shared = std::make_shared<state>();
+		if constexpr (sizeof...(args) == 0) shared->result.fulfill();
 		(args.on_settle([shared]() mutable {
 			auto curid = shared->count.fetch_add(1);
 			if (curid + 1 == sizeof...(args)) { shared->result.fulfill(); }
-- 
2.43.0


From 1e10a47e38c2d7a858aafe4e0c6ea21a16e83c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:19 +0000
Subject: [PATCH 11/60] fix: promise_first_successful only rejects if every
 promise got rejected

---
 include/asyncpp/promise.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 2d2f48a..89669ec 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -496,14 +496,13 @@ namespace asyncpp {
 	template<typename T, typename... TArgs>
 	static promise<T> promise_first_successful(promise<TArgs>... args) {
 		promise<T> result_promise;
-		auto finished = std::make_shared<std::atomic<size_t>>(0);
+		auto rejected = std::make_shared<std::atomic<size_t>>(0);
 		(args.then(
-			 [result_promise, finished](const typename promise<TArgs>::result_type& res) mutable {
-				 finished->fetch_add(1);
+			 [result_promise](const typename promise<TArgs>::result_type& res) mutable {
 				 result_promise.try_fulfill(res);
 			 },
-			 [result_promise, finished](const std::exception_ptr& exception) mutable {
-				 if (finished->fetch_add(1) + 1 == sizeof...(args)) result_promise.try_reject(exception);
+			 [result_promise, rejected](const std::exception_ptr& exception) mutable {
+				 if (rejected->fetch_add(1) + 1 == sizeof...(args)) result_promise.try_reject(exception);
 			 }),
 		 ...);
 		return result_promise;
-- 
2.43.0


From 1522b5262c58047247a3330cfe1732d71a675226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:02 +0000
Subject: [PATCH 12/60] fix: thread_pool destroys executed callbacks without
 holding the queue mutex

---
 include/asyncpp/thread_pool.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index ea81125..5d997b2 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -144,6 +144,8 @@ namespace asyncpp {
 							queue.pop();
 							lck.unlock();
 							cbfn();
+							// Destroying the callback might push to the queue as well, so do it unlocked
+							cbfn = nullptr;
 							lck.lock();
 						}
 					}
@@ -160,11 +162,12 @@ namespace asyncpp {
 				std::unique_lock lck{mutex};
 				g_current_thread = nullptr;
 				while (!queue.empty()) {
-					auto& cbfn = queue.front();
+					auto cbfn = std::move(queue.front());
+					queue.pop();
 					lck.unlock();
 					cbfn();
+					cbfn = nullptr;
 					lck.lock();
-					queue.pop();
 				}
 				dispatcher::current(nullptr);
 			}
-- 
2.43.0


From 64a45254e7e4fcd9747936fc12a2a115e23f0605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:52 +0000
Subject: [PATCH 13/60] fix: thread_pool tasks can push to their pool while its
 last worker exits

---
 include/asyncpp/thread_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index 5d997b2..fd421f1 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -160,7 +160,6 @@ namespace asyncpp {
 					}
 				}
 				std::unique_lock lck{mutex};
-				g_current_thread = nullptr;
 				while (!queue.empty()) {
 					auto cbfn = std::move(queue.front());
 					queue.pop();
@@ -169,6 +168,8 @@ namespace asyncpp {
 					cbfn = nullptr;
 					lck.lock();
 				}
+				lck.unlock();
+				g_current_thread = nullptr;
 				dispatcher::current(nullptr);
 			}
 		};
-- 
2.43.0


From bbbd2cf3f0f8c672a3ce08d0fc3f81ef8180f9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:52 +0000
Subject: [PATCH 14/60] fix: thread_pool does not lose tasks pushed while it
 shrinks

---
 include/asyncpp/thread_pool.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index fd421f1..c7d4ec7 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -62,9 +62,13 @@ namespace asyncpp {
 			std::unique_lock lck{m_resize_mtx};
 			auto old = m_target_size.load();
 			if (old > target_size) {
-				// Prevent new tasks from being scheduled on those threads
-				m_valid_size = target_size;
-				m_target_size = target_size;
+				{
+					// Prevent new tasks from being scheduled on those threads. The lock makes sure nobody
+					// still schedules (or steals) a task based on the old size.
+					std::unique_lock threads_lck{m_threads_mtx};
+					m_valid_size = target_size;
+					m_target_size = target_size;
+				}
 				// Notify all and join threads, if the threads index is greater or equal to m_target_size,
 				// it will invoke its remaining tasks and exit.
 				for (size_t i = target_size; i < m_threads.size(); i++) {
-- 
2.43.0


From 66109b7ef6089556243b0fd966af2b1055ef06b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:37 +0000
Subject: [PATCH 15/60] fix: thread_pool::push from a worker of another pool
 uses the right pool

---
 include/asyncpp/thread_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/thread_pool.h b/include/asyncpp/thread_pool.h
index c7d4ec7..e2d6e24 100644
--- a/include/asyncpp/thread_pool.h
+++ b/include/asyncpp/thread_pool.h
@@ -40,7 +40,7 @@ namespace asyncpp {
 		 */
 		void push(std::function<void()> cbfn) override {
 			if (!cbfn) return;
-			if (g_current_thread != nullptr) {
+			if (g_current_thread != nullptr && g_current_thread->pool == this) {
 				std::unique_lock lck{g_current_thread->mutex};
 				g_current_thread->queue.emplace(std::move(cbfn));
 			} else {
-- 
2.43.0


From e5dfb1f2db73a430c441e49f407a68322cc647a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:46 +0000
Subject: [PATCH 16/60] fix: timer destroys executed callbacks without holding
 its mutex

---
 include/asyncpp/timer.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 3724245..507d38d 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -302,6 +302,8 @@ namespace asyncpp {
 						try {
 							entry();
 						} catch (...) { std::terminate(); }
+						// Destroying the callback can call back into the timer as well
+						entry = nullptr;
 						lck.lock();
 					}
 				}
@@ -315,6 +317,8 @@ namespace asyncpp {
 						try {
 							handle.value().invokable(true);
 						} catch (...) { std::terminate(); }
+						// Destroying the callback can call back into the timer as well
+						handle = {};
 						lck.lock();
 					}
 				}
@@ -328,6 +332,8 @@ namespace asyncpp {
 						try {
 							handle.value().invokable(true);
 						} catch (...) { std::terminate(); }
+						// Destroying the callback can call back into the timer as well
+						handle = {};
 						lck.lock();
 					}
 				}
-- 
2.43.0


From 233c29e157e0355998e0681e3840bf2cdbbbb711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:17 +0000
Subject: [PATCH 17/60] fix: timer handles stop requests during schedule and
 while entries become due

---
 include/asyncpp/timer.h | 86 ++++++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 39 deletions(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 507d38d..3b77c7b 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -37,40 +37,26 @@ namespace asyncpp {
 			struct cancel_callback {
 				/// \brief Pointer to the timer containing this node
 				timer* parent;
-				/// \brief Iterator to this node in the entry set
-				std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>::const_iterator it;
+				/// \brief Pointer to the entry
+				const cancellable_scheduled_entry* entry;
 				/// \brief Invocation operator called on cancellation
 				void operator()() const {
-					// We have to distinguish between cancellation while in the process of construction and
-					// cancellation afterwards. If the stop_token is signalled at the time of construction it directly
-					// invokes the callback, however if we would lock at that point we would cause a deadlock with the
-					// outside lock in schedule(). We also can't directly delete the node in this case because
-					// std::optional<>::emplace tries to set a flag after construction which would cause use after free.
-					// Thus we set a flag in schedule() and postpone both the invoke and deletion until after emplace is done.
-					// If we are not in construction we need to lock and can directly destroy the node once we are done.
-					if (it->in_construction) {
-						auto entry =
-							new std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>::node_type(
-								parent->m_scheduled_cancellable_set.extract(it));
-						if (entry->value().invokable) {
-							parent->m_pushed.emplace([entry]() {
-								entry->value().invokable(false);
-								delete entry;
-							});
-						}
-					} else {
-						std::unique_lock lck{parent->m_mtx};
-						auto entry = parent->m_scheduled_cancellable_set.extract(it);
-						lck.unlock();
-						if (entry.value().invokable) {
-							parent->m_pushed.emplace([cbfn = std::move(entry.value().invokable)]() { cbfn(false); });
-							parent->m_cv.notify_all();
-						}
-					}
+					// If the stop_token is signalled while it is registered in schedule() (by us or a different thread) the
+					// entry is not part of the set yet and schedule() takes care of it. If the entry is already taken out of
+					// the set (it is due or the timer is shutting down) the timer thread is going to run it and waits for us.
+					std::unique_lock lck{parent->m_mtx};
+					entry->cancelled = true;
+					if (!entry->scheduled) return;
+					entry->scheduled = false;
+					parent->push_cancelled(parent->m_scheduled_cancellable_set.extract(entry->position));
 				}
 			};
+			using set = std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less>;
 			mutable std::optional<asyncpp::stop_callback<cancel_callback>> cancel_token;
-			mutable bool in_construction{true};
+			/// \brief Position of the entry, valid if scheduled is true (all of those are protected by the timers mutex)
+			mutable typename set::const_iterator position{};
+			mutable bool scheduled{false};
+			mutable bool cancelled{false};
 
 			cancellable_scheduled_entry(std::chrono::steady_clock::time_point time,
 										std::function<void(bool)> cbfn) noexcept
@@ -145,10 +131,17 @@ namespace asyncpp {
 		void schedule(std::function<void(bool)> cbfn, std::chrono::steady_clock::time_point timeout,
 					  asyncpp::stop_token stoken) {
 			if (m_exit) throw std::logic_error("shutting down");
+			cancellable_scheduled_entry::set pending;
+			auto iter = pending.emplace(timeout, std::move(cbfn));
+			// We can't hold the lock here because the callback might get invoked right away or might be blocked by
+			// a different thread that is waiting for our mutex inside its stop callback.
+			iter->cancel_token.emplace(std::move(stoken), cancellable_scheduled_entry::cancel_callback{this, &*iter});
+			auto node = pending.extract(iter);
 			std::unique_lock lck(m_mtx);
-			auto iter = m_scheduled_cancellable_set.emplace(timeout, std::move(cbfn));
-			iter->cancel_token.emplace(std::move(stoken), cancellable_scheduled_entry::cancel_callback{this, iter});
-			iter->in_construction = false;
+			if (node.value().cancelled) return push_cancelled(std::move(node));
+			iter = m_scheduled_cancellable_set.insert(std::move(node));
+			iter->position = iter;
+			iter->scheduled = true;
 			m_cv.notify_all();
 		}
 		/**
@@ -284,10 +277,23 @@ namespace asyncpp {
 		std::condition_variable m_cv{};
 		std::queue<std::function<void()>> m_pushed{};
 		std::multiset<scheduled_entry, scheduled_entry::time_less> m_scheduled_set{};
-		std::multiset<cancellable_scheduled_entry, scheduled_entry::time_less> m_scheduled_cancellable_set{};
+		cancellable_scheduled_entry::set m_scheduled_cancellable_set{};
 		std::atomic<bool> m_exit{};
 		std::thread m_thread{};
 
+		/// \brief Queue a cancelled entry for execution, needs to be called with m_mtx held
+		void push_cancelled(cancellable_scheduled_entry::set::node_type node) {
+			if (!node.value().invokable) {
+				// The stop_callback might be the one calling us, so it has to be destroyed by the timer thread
+				node.value().invokable = [](bool) {};
+			}
+			m_pushed.emplace([entry = std::make_shared<decltype(node)>(std::move(node))]() {
+				entry->value().cancel_token.reset();
+				entry->value().invokable(false);
+			});
+			m_cv.notify_all();
+		}
+
 		void run() noexcept {
 #ifdef __linux__
 			pthread_setname_np(pthread_self(), "asyncpp_timer");
@@ -325,17 +331,19 @@ namespace asyncpp {
 				while (!m_scheduled_cancellable_set.empty()) {
 					auto elem = m_scheduled_cancellable_set.begin();
 					if (elem->timepoint > now) break;
+					elem->scheduled = false;
 					auto handle = m_scheduled_cancellable_set.extract(elem);
+					lck.unlock();
+					// This waits for the stop callback, which in turn needs the lock
+					handle.value().cancel_token.reset();
 					if (handle.value().invokable) {
-						handle.value().cancel_token.reset();
-						lck.unlock();
 						try {
-							handle.value().invokable(true);
+							handle.value().invokable(!handle.value().cancelled);
 						} catch (...) { std::terminate(); }
-						// Destroying the callback can call back into the timer as well
-						handle = {};
-						lck.lock();
 					}
+					// Destroying the callback can call back into the timer as well
+					handle = {};
+					lck.lock();
 				}
 				now = std::chrono::steady_clock::now();
 				std::chrono::nanoseconds timeout{500 * 1000 * 1000};
-- 
2.43.0


From 26178def2e0f3d293d5a6fe163b61847c956e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:42 +0000
Subject: [PATCH 18/60] fix: timer cancels everything that is left when it is
 destroyed

---
 include/asyncpp/timer.h | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/include/asyncpp/timer.h b/include/asyncpp/timer.h
index 3b77c7b..dc9706d 100644
--- a/include/asyncpp/timer.h
+++ b/include/asyncpp/timer.h
@@ -355,27 +355,30 @@ namespace asyncpp {
 					m_cv.wait_for(lck, timeout);
 				}
 			}
+			// Cancel everything that is left. New entries can show up while we do because stop_tokens can still get signalled.
 			std::unique_lock lck(m_mtx);
-			auto set = std::move(m_scheduled_set);
-			auto cset = std::move(m_scheduled_cancellable_set);
-			lck.unlock();
-			for (const auto& entry : set) {
-				if (entry.invokable) {
-					try {
-						entry.invokable(false);
-					} catch (...) { std::terminate(); }
-				}
-			}
-			for (const auto& entry : cset) {
-				if (entry.invokable) {
-					try {
-						entry.invokable(false);
-					} catch (...) { std::terminate(); }
-				}
+			while (!m_pushed.empty() || !m_scheduled_set.empty() || !m_scheduled_cancellable_set.empty()) {
+				try {
+					if (!m_pushed.empty()) {
+						auto entry = std::move(m_pushed.front());
+						m_pushed.pop();
+						lck.unlock();
+						if (entry) entry();
+					} else if (!m_scheduled_set.empty()) {
+						auto handle = m_scheduled_set.extract(m_scheduled_set.begin());
+						lck.unlock();
+						if (handle.value().invokable) handle.value().invokable(false);
+					} else {
+						auto elem = m_scheduled_cancellable_set.begin();
+						elem->scheduled = false;
+						auto handle = m_scheduled_cancellable_set.extract(elem);
+						lck.unlock();
+						handle.value().cancel_token.reset();
+						if (handle.value().invokable) handle.value().invokable(false);
+					}
+				} catch (...) { std::terminate(); }
+				lck.lock();
 			}
-			lck.lock();
-			m_scheduled_set.clear();
-			m_scheduled_cancellable_set.clear();
 		}
 	};
 
-- 
2.43.0


From 2a31064015ed0a55cdf50c89e7155f51fcdb4c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:07 +0000
Subject: [PATCH 19/60] fix: simple_dispatcher::run does not miss a stop

---
 include/asyncpp/simple_dispatcher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/simple_dispatcher.h b/include/asyncpp/simple_dispatcher.h
index 9f51937..0382a92 100644
--- a/include/asyncpp/simple_dispatcher.h
+++ b/include/asyncpp/simple_dispatcher.h
@@ -43,8 +43,9 @@ namespace asyncpp {
          */
 		void run() {
 			dispatcher* const old_dispatcher = dispatcher::current(this);
-			while (!m_done) {
+			while (true) {
 				std::unique_lock lck{m_mtx};
+				if (m_done) break;
 				if (m_queue.empty()) {
 					m_cv.wait(lck);
 					continue;
-- 
2.43.0


From 3ca5ab5216df1fd94ca388e7f70cc2cc2cb2d44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:49 +0000
Subject: [PATCH 20/60] fix: simple_dispatcher::run restores the current
 dispatcher if a callback throws

---
 include/asyncpp/simple_dispatcher.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/simple_dispatcher.h b/include/asyncpp/simple_dispatcher.h
index 0382a92..1e974ef 100644
--- a/include/asyncpp/simple_dispatcher.h
+++ b/include/asyncpp/simple_dispatcher.h
@@ -42,7 +42,10 @@ namespace asyncpp {
          * \brief Block and process tasks pushed to it until stop is called.
          */
 		void run() {
-			dispatcher* const old_dispatcher = dispatcher::current(this);
+			struct restore_current {
+				dispatcher* const old_dispatcher;
+				~restore_current() { dispatcher::current(old_dispatcher); }
+			} const restore{dispatcher::current(this)};
 			while (true) {
 				std::unique_lock lck{m_mtx};
 				if (m_done) break;
@@ -55,7 +58,6 @@ namespace asyncpp {
 				lck.unlock();
 				if (cbfn) cbfn();
 			}
-			dispatcher::current(old_dispatcher);
 		}
 	};
 } // namespace asyncpp
-- 
2.43.0


From e5724da43293d0fcf1b653cf057db9d8a54e31a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:06 +0000
Subject: [PATCH 21/60] fix: atomic_ref can be used with more than one type

---
 include/asyncpp/ref.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 6ca7a8a..e875ea9 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -237,20 +237,15 @@ namespace asyncpp {
 	template<RefCountable T>
 	class atomic_ref {
 		friend struct std::hash<asyncpp::atomic_ref<T>>;
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const atomic_ref<T2>& lhs, const atomic_ref<T2>& rhs) noexcept {
-			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T2>::lock_mask) <=>
-				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T2>::lock_mask);
+		friend constexpr auto operator<=>(const atomic_ref& lhs, const atomic_ref& rhs) noexcept {
+			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~lock_mask) <=>
+				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~lock_mask);
 		}
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const atomic_ref<T2>& lhs, const T2* rhs) noexcept {
-			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask) <=>
-				   reinterpret_cast<uintptr_t>(rhs);
+		friend constexpr auto operator<=>(const atomic_ref& lhs, const T* rhs) noexcept {
+			return (lhs.m_ptr.load(std::memory_order::relaxed) & ~lock_mask) <=> reinterpret_cast<uintptr_t>(rhs);
 		}
-		template<RefCountable T2>
-		friend constexpr auto operator<=>(const T2* lhs, const atomic_ref<T2>& rhs) noexcept {
-			return reinterpret_cast<uintptr_t>(lhs) <=>
-				   (rhs.m_ptr.load(std::memory_order::relaxed) & ~atomic_ref<T>::lock_mask);
+		friend constexpr auto operator<=>(const T* lhs, const atomic_ref& rhs) noexcept {
+			return reinterpret_cast<uintptr_t>(lhs) <=> (rhs.m_ptr.load(std::memory_order::relaxed) & ~lock_mask);
 		}
 		mutable std::atomic<uintptr_t> m_ptr;
 
-- 
2.43.0


From 714127d995b9bd30267376a0468fa4c03db7770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:06 +0000
Subject: [PATCH 22/60] fix: dropping the last reference synchronizes with all
 the others

---
 include/asyncpp/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index e875ea9..920a56e 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -31,7 +31,7 @@ namespace asyncpp {
 		thread_safe_refcount& operator=(const thread_safe_refcount& other) = delete;
 
 		size_t fetch_increment() noexcept { return m_count.fetch_add(1, std::memory_order::acquire); }
-		[[nodiscard]] size_t fetch_decrement() noexcept { return m_count.fetch_sub(1, std::memory_order::release); }
+		[[nodiscard]] size_t fetch_decrement() noexcept { return m_count.fetch_sub(1, std::memory_order::acq_rel); }
 		[[nodiscard]] size_t count() const noexcept { return m_count.load(std::memory_order::relaxed); }
 	};
 	/**
-- 
2.43.0


From bb2d72707e6b307984330253b792db37f1762adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:46 +0000
Subject: [PATCH 23/60] fix: ref releases the old value after it is replaced

---
 include/asyncpp/ref.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/asyncpp/ref.h b/include/asyncpp/ref.h
index 920a56e..28d3d91 100644
--- a/include/asyncpp/ref.h
+++ b/include/asyncpp/ref.h
@@ -169,8 +169,7 @@ namespace asyncpp {
 		/// \brief Move assignment operator
 		//NOLINTNEXTLINE(hicpp-noexcept-move,performance-noexcept-move-constructor)
 		ref& operator=(ref&& other) noexcept(noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = std::exchange(other.m_ptr, nullptr);
+			if (&other != this) reset(std::exchange(other.m_ptr, nullptr), adopt_ref);
 			return *this;
 		}
 		/**
@@ -180,9 +179,8 @@ namespace asyncpp {
 		 */
 		void reset(T* ptr) noexcept(noexcept(refcounted_add_ref(std::declval<T*>())) &&
 									noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = ptr;
-			if (m_ptr) refcounted_add_ref(m_ptr);
+			if (ptr) refcounted_add_ref(ptr);
+			reset(ptr, adopt_ref);
 		}
 		/**
 		 * \brief Reset the handle with a new value
@@ -190,8 +188,9 @@ namespace asyncpp {
 		 * \param adopt_ref the reference count is already incremented, keep it as is
 		 */
 		void reset(T* ptr, decltype(adopt_ref)) noexcept(noexcept(refcounted_remove_ref(std::declval<T*>()))) {
-			if (m_ptr) refcounted_remove_ref(m_ptr);
-			m_ptr = ptr;
+			// Releasing the old value might destroy other (or even this) handle, so it needs to come last
+			auto old = std::exchange(m_ptr, ptr);
+			if (old) refcounted_remove_ref(old);
 		}
 		/**
 		 * \brief Reset the handle to nullptr
-- 
2.43.0


From 6ccae046f9c9b9065ef408efac47b0a8ebad1757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 24/60] fix: signal::prepend compiles

---
 include/asyncpp/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 68b3b77..d3317ab 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -345,7 +345,7 @@ namespace asyncpp {
 			m_head = new_node;
 		} else {
 			m_head = new_node;
-			m_tail = new_node;
+			m_tail = new_node.get();
 		}
 		return handle(static_ref_cast<detail::signal_node_base>(new_node));
 	}
-- 
2.43.0


From a13dffe0d821175390ce6d8c621bcb63e1366cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 25/60] fix: signal move assignment returns a reference

---
 include/asyncpp/signal.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index d3317ab..c497b72 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -291,6 +291,7 @@ namespace asyncpp {
 		m_head = std::exchange(other.m_head, nullptr);
 		m_tail = std::exchange(other.m_tail, nullptr);
 		m_current_counter.store(other.m_current_counter.exchange(1));
+		return *this;
 	}
 
 	template<typename... TParams, typename TTraits>
-- 
2.43.0


From a221d611c56dbd875bc9758ce2ed2047b0702cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 26/60] fix: handles of a destroyed or overwritten signal are
 not valid

---
 include/asyncpp/signal.h | 41 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index c497b72..7dc6706 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -168,6 +168,18 @@ namespace asyncpp {
 			return result;
 		}
 
+		// Disconnect and release all nodes of a list that does not belong to a signal anymore
+		static void release_nodes(ref<node> head) noexcept {
+			for (auto ptr = head.get(); ptr != nullptr; ptr = ptr->next.get()) {
+				ptr->counter = detail::signal_removed_counter;
+				ptr->previous = nullptr;
+			}
+			while (head) {
+				auto next = std::exchange(head->next, nullptr);
+				head = std::move(next);
+			}
+		}
+
 		void free_node(ref<node>& node) const noexcept {
 			if (node->next) { node->next->previous = node->previous; }
 			if (node->previous) { node->previous->next = node->next; }
@@ -278,33 +290,20 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	//NOLINTNEXTLINE(performance-noexcept-move-constructor)
 	inline signal<void(TParams...), TTraits>& signal<void(TParams...), TTraits>::operator=(signal&& other) {
-		std::scoped_lock lck{m_mutex, other.m_mutex};
-		auto node = m_head;
-		m_head.reset();
-		while (node) {
-			auto next = node->next;
-			node->previous = nullptr;
-			node->next.reset();
-			node = next;
+		ref<node> old{};
+		{
+			std::scoped_lock lck{m_mutex, other.m_mutex};
+			old = std::exchange(m_head, std::exchange(other.m_head, nullptr));
+			m_tail = std::exchange(other.m_tail, nullptr);
+			m_current_counter.store(other.m_current_counter.exchange(1));
 		}
-		assert(!node);
-		m_head = std::exchange(other.m_head, nullptr);
-		m_tail = std::exchange(other.m_tail, nullptr);
-		m_current_counter.store(other.m_current_counter.exchange(1));
+		release_nodes(std::move(old));
 		return *this;
 	}
 
 	template<typename... TParams, typename TTraits>
 	inline signal<void(TParams...), TTraits>::~signal() {
-		auto node = m_head;
-		m_head.reset();
-		while (node) {
-			auto next = node->next;
-			node->previous = nullptr;
-			node->next.reset();
-			node = next;
-		}
-		assert(!node);
+		release_nodes(std::exchange(m_head, nullptr));
 	}
 
 	template<typename... TParams, typename TTraits>
-- 
2.43.0


From 7023345e3dbedfc7e6c80460ec2be18290894202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 27/60] fix: signal::remove only removes slots connected to the
 signal

---
 include/asyncpp/signal.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 7dc6706..4b69cd0 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -355,8 +355,14 @@ namespace asyncpp {
 		auto node = static_ref_cast<signal::node>(hdl.m_node);
 		if (!node) return false;
 		std::lock_guard lck{m_mutex};
+		auto ptr = m_head.get();
+		while (ptr && ptr != node.get()) {
+			ptr = ptr->next.get();
+		}
+		if (!ptr) return false;
+		const bool connected = node->counter != detail::signal_removed_counter;
 		free_node(node);
-		return true;
+		return connected;
 	}
 
 	template<typename... TParams, typename TTraits>
-- 
2.43.0


From c2b7a85cda8257da2ff1285a7c2f54a6bcdf885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 28/60] fix: signal emission unlinks disconnected slots once
 and without holding the mutex

---
 include/asyncpp/signal.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 4b69cd0..dcad9a7 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -186,6 +186,7 @@ namespace asyncpp {
 			node->counter = detail::signal_removed_counter;
 			if (m_head == node) m_head = node->next;
 			if (m_tail == node) m_tail = node->previous;
+			node->previous = nullptr;
 		}
 	};
 
@@ -396,8 +397,10 @@ namespace asyncpp {
 				++ninvoked;
 			}
 
+			auto current = node; // Released after unlocking
 			std::lock_guard lck(m_mutex);
-			if (node->counter == detail::signal_removed_counter) { free_node(node); }
+			const bool linked = node->previous != nullptr || m_head == node;
+			if (linked && node->counter == detail::signal_removed_counter) { free_node(node); }
 			node = node->next;
 		} while (node);
 		return ninvoked;
-- 
2.43.0


From de59876acad5561a53fa300a401cd4f80602ca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 29/60] fix: slots connected during an emission are not called
 by it

---
 include/asyncpp/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index dcad9a7..2240c8e 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -392,7 +392,7 @@ namespace asyncpp {
 
 		const auto counter = m_current_counter.load(std::memory_order_acquire);
 		do {
-			if (node->counter != detail::signal_removed_counter && counter >= node->counter) {
+			if (node->counter != detail::signal_removed_counter && counter > node->counter) {
 				node->invoke(params...);
 				++ninvoked;
 			}
-- 
2.43.0


From c9f402ca9786125411d3168212dae8bbce91ba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 30/60] fix: signal emission reads the counter of a slot once

---
 include/asyncpp/signal.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 2240c8e..0a0004b 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -392,7 +392,8 @@ namespace asyncpp {
 
 		const auto counter = m_current_counter.load(std::memory_order_acquire);
 		do {
-			if (node->counter != detail::signal_removed_counter && counter > node->counter) {
+			const size_t node_counter = node->counter;
+			if (node_counter != detail::signal_removed_counter && counter > node_counter) {
 				node->invoke(params...);
 				++ninvoked;
 			}
-- 
2.43.0


From 5cd3b2b89eed17a475b92bf835155dc51ea68b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 31/60] fix: signal_manager slots may use the manager,
 shrink_to_fit does not lose slots

---
 include/asyncpp/signal.h | 60 +++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 0a0004b..93f540b 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -4,10 +4,12 @@
 #include <atomic>
 #include <cassert>
 #include <cstddef>
+#include <memory>
 #include <mutex>
 #include <shared_mutex>
 #include <unordered_map>
 #include <utility>
+#include <vector>
 
 namespace asyncpp {
 	struct signal_traits_mt {
@@ -216,66 +218,66 @@ namespace asyncpp {
 
 		template<typename FN>
 		handle append(event_type event, FN&& fncb) {
-			auto iter = find_or_create_slot(event);
-			assert(iter != m_mapping.end());
-			return iter->second.append(std::forward<decltype(fncb)>(fncb));
+			return with_slot(event, [&](signal_type& sig) { return sig.append(std::forward<decltype(fncb)>(fncb)); });
 		}
 		template<typename FN>
 		handle prepend(event_type event, FN&& fncb) {
-			auto iter = find_or_create_slot(event);
-			assert(iter != m_mapping.end());
-			return iter->second.prepend(std::forward<decltype(fncb)>(fncb));
+			return with_slot(event, [&](signal_type& sig) { return sig.prepend(std::forward<decltype(fncb)>(fncb)); });
 		}
 
 		bool remove(event_type event, const handle& hdl) {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(event);
-			return iter != m_mapping.end() && iter->second.remove(hdl);
+			auto sig = find_slot(event);
+			return sig && sig->remove(hdl);
 		}
 
 		bool owns_handle(event_type event, const handle& hdl) const {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(event);
-			return iter != m_mapping.end() && iter->second.owns_handle(hdl);
+			auto sig = find_slot(event);
+			return sig && sig->owns_handle(hdl);
 		}
 
 		size_t invoke(event_type event, const TParams&... params) const {
-			std::shared_lock lck{m_mutex};
-			auto iter = m_mapping.find(event);
-			if (iter == m_mapping.end()) return 0;
-			return iter->second(params...);
+			auto sig = find_slot(event);
+			return sig ? (*sig)(params...) : 0;
 		}
 
 		size_t operator()(event_type event, const TParams&... params) const { return invoke(event, params...); }
 
 		size_t shrink_to_fit() {
+			std::vector<std::shared_ptr<signal_type>> removed; // Destroyed after unlocking
 			std::unique_lock lck{m_mutex};
-			size_t res = 0;
 			for (auto it = m_mapping.begin(); it != m_mapping.end();) {
-				if (it->second.empty()) {
-					res++;
+				if (it->second->empty()) {
+					removed.push_back(it->second);
 					it = m_mapping.erase(it);
 				} else
 					it++;
 			}
-			return res;
+			return removed.size();
 		}
 
 	private:
 		mutable std::shared_mutex m_mutex{};
-		std::unordered_map<event_type, signal_type> m_mapping;
+		std::unordered_map<event_type, std::shared_ptr<signal_type>> m_mapping;
 
-		auto find_or_create_slot(event_type evt) {
+		// The signal is used without holding m_mutex, because its slots may use the manager
+		std::shared_ptr<signal_type> find_slot(event_type evt) const {
 			std::shared_lock lck{m_mutex};
 			auto iter = m_mapping.find(evt);
-			if (iter == m_mapping.end()) {
-				lck.unlock();
-				std::unique_lock unique{m_mutex};
-				iter = m_mapping.find(evt);
-				if (iter != m_mapping.end()) return iter;
-				iter = m_mapping.emplace(evt, signal_type{}).first;
+			return iter != m_mapping.end() ? iter->second : nullptr;
+		}
+
+		// Slots are connected while holding m_mutex, because shrink_to_fit may remove the signal before
+		template<typename FN>
+		handle with_slot(event_type evt, FN&& func) {
+			{
+				std::shared_lock lck{m_mutex};
+				auto iter = m_mapping.find(evt);
+				if (iter != m_mapping.end()) return func(*iter->second);
 			}
-			return iter;
+			std::unique_lock unique{m_mutex};
+			auto iter = m_mapping.find(evt);
+			if (iter == m_mapping.end()) iter = m_mapping.emplace(evt, std::make_shared<signal_type>()).first;
+			return func(*iter->second);
 		}
 	};
 
-- 
2.43.0


From c0338272f19db9989ab3717fd5f001ed728ca934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 32/60] fix: async_launch_scope joins without touching a scope
 that may be gone

---
 include/asyncpp/launch.h | 66 ++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 36 deletions(-)

diff --git a/include/asyncpp/launch.h b/include/asyncpp/launch.h
index 5cc02b2..56ceeb6 100644
--- a/include/asyncpp/launch.h
+++ b/include/asyncpp/launch.h
@@ -49,14 +49,25 @@ namespace asyncpp {
 	 * \brief Holder class for spawning child tasks. Allows waiting for all of them to finish.
 	 */
 	class async_launch_scope {
-		std::atomic<size_t> m_count{0U};
+		// Number of active tasks times two, plus one if m_continuation has to be resumed by the last task.
+		// Both are kept in a single word because the scope may be gone as soon as the last task was counted or
+		// the joining coroutine became visible.
+		std::atomic<size_t> m_state{0U};
 		std::atomic<void*> m_continuation{nullptr};
 
+		void task_started() noexcept { m_state.fetch_add(2); }
+		void task_finished() noexcept {
+			auto state = m_state.load();
+			while (!m_state.compare_exchange_weak(state, state == 3 ? 0 : state - 2)) {}
+			// If this is the last task and we are being awaited resume the awaiter
+			if (state == 3) coroutine_handle<>::from_address(m_continuation.exchange(nullptr)).resume();
+		}
+
 	public:
 		constexpr async_launch_scope() noexcept = default;
 		async_launch_scope(const async_launch_scope&) = delete;
 		async_launch_scope& operator=(const async_launch_scope&) = delete;
-		~async_launch_scope() { assert(m_count.load() == 0); }
+		~async_launch_scope() { assert(m_state.load() == 0); }
 
 		/**
 		 * \brief Spawn a new task for the given awaitable.
@@ -67,16 +78,8 @@ namespace asyncpp {
 		void launch(Awaitable&& awaitable, const Allocator& allocator = {}) {
 			[](async_launch_scope* scope, std::decay_t<Awaitable> awaitable,
 			   const Allocator&) -> detail::launch_task<Allocator> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->task_started();
+				scope_guard guard{[scope]() noexcept { scope->task_finished(); }};
 				co_await awaitable;
 			}(this, std::forward<decltype(awaitable)>(awaitable), allocator);
 		}
@@ -93,16 +96,8 @@ namespace asyncpp {
 		void invoke_tuple(Callable&& callable, std::tuple<Args...>&& args, const Allocator& allocator = {}) {
 			[](async_launch_scope* scope, Callable callable, std::tuple<Args...>&& args,
 			   const Allocator&) -> detail::launch_task<Allocator> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->task_started();
+				scope_guard guard{[scope]() noexcept { scope->task_finished(); }};
 				co_await std::apply(callable, std::move(args));
 			}(this, std::forward<Callable>(callable), std::move(args), allocator);
 		}
@@ -118,16 +113,8 @@ namespace asyncpp {
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke(Callable&& callable, Args&&... args) {
 			[](async_launch_scope* scope, Callable callable, Args&&... args) -> detail::launch_task<> {
-				scope->m_count.fetch_add(1);
-				scope_guard guard{[scope]() noexcept {
-					// If this is the last task
-					if (scope->m_count.fetch_sub(1) == 1) {
-						// And we are being awaited
-						auto hdl = scope->m_continuation.exchange(nullptr);
-						// Resume the awaiter
-						if (hdl != nullptr) coroutine_handle<>::from_address(hdl).resume();
-					}
-				}};
+				scope->task_started();
+				scope_guard guard{[scope]() noexcept { scope->task_finished(); }};
 				co_await std::invoke(callable, std::forward<Args>(args)...);
 			}(this, std::forward<Callable>(callable), std::forward<Args>(args)...);
 		}
@@ -141,15 +128,22 @@ namespace asyncpp {
 				async_launch_scope* m_scope;
 				[[nodiscard]] bool await_ready() const noexcept {
 					// Dont wait if theres nothing to await
-					return m_scope->m_count.load() == 0;
+					return m_scope->m_state.load() == 0;
 				}
 				[[nodiscard]] bool await_suspend(coroutine_handle<> hdl) const {
 					// Set our coroutine if there is noone waiting
 					void* expected = nullptr;
 					if (!m_scope->m_continuation.compare_exchange_strong(expected, hdl.address()))
 						throw std::logic_error("duplicate join");
-					// We might have nothing left to wait on if the last coroutine finished in the meantime
-					return m_scope->m_count.load() != 0;
+					auto state = m_scope->m_state.load();
+					do {
+						// We might have nothing left to wait on if the last coroutine finished in the meantime
+						if (state == 0) {
+							m_scope->m_continuation.store(nullptr);
+							return false;
+						}
+					} while (!m_scope->m_state.compare_exchange_weak(state, state | 1));
+					return true;
 				}
 				constexpr void await_resume() const noexcept {}
 			};
@@ -178,7 +172,7 @@ namespace asyncpp {
 		 * \brief Returns the number of active task on this scope
 		 * \warning Only use this value for informational purposes, it might change at any time.
 		 */
-		[[nodiscard]] size_t inflight_coroutines() const noexcept { return m_count.load(std::memory_order::relaxed); }
+		[[nodiscard]] size_t inflight_coroutines() const noexcept { return m_state.load(std::memory_order::relaxed) / 2; }
 
 		/**
 		 * \brief Returns true if there is no active task currently running on this scope
-- 
2.43.0


From 917eb37cdee8e413537edbfb9f2f7812b6554a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 33/60] fix: async_launch_scope::invoke keeps a copy of an
 lvalue callable

---
 include/asyncpp/launch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/launch.h b/include/asyncpp/launch.h
index 56ceeb6..e3b644f 100644
--- a/include/asyncpp/launch.h
+++ b/include/asyncpp/launch.h
@@ -94,7 +94,7 @@ namespace asyncpp {
 		template<typename Callable, typename... Args, ByteAllocator Allocator = default_allocator_type>
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke_tuple(Callable&& callable, std::tuple<Args...>&& args, const Allocator& allocator = {}) {
-			[](async_launch_scope* scope, Callable callable, std::tuple<Args...>&& args,
+			[](async_launch_scope* scope, std::decay_t<Callable> callable, std::tuple<Args...>&& args,
 			   const Allocator&) -> detail::launch_task<Allocator> {
 				scope->task_started();
 				scope_guard guard{[scope]() noexcept { scope->task_finished(); }};
@@ -112,7 +112,7 @@ namespace asyncpp {
 		template<typename Callable, typename... Args>
 			requires(std::is_invocable_v<Callable, Args...>)
 		void invoke(Callable&& callable, Args&&... args) {
-			[](async_launch_scope* scope, Callable callable, Args&&... args) -> detail::launch_task<> {
+			[](async_launch_scope* scope, std::decay_t<Callable> callable, Args&&... args) -> detail::launch_task<> {
 				scope->task_started();
 				scope_guard guard{[scope]() noexcept { scope->task_finished(); }};
 				co_await std::invoke(callable, std::forward<Args>(args)...);
-- 
2.43.0


From bab8a3bb349498bfa58a5bfbecc0a34442276e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 34/60] fix: stop_source move assignment gives up the
 overwritten state

---
 include/asyncpp/stop_token.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/stop_token.h b/include/asyncpp/stop_token.h
index a38a46c..55fa863 100644
--- a/include/asyncpp/stop_token.h
+++ b/include/asyncpp/stop_token.h
@@ -305,7 +305,10 @@ namespace asyncpp {
 			return *this;
 		}
 
-		stop_source& operator=(stop_source&&) noexcept = default;
+		stop_source& operator=(stop_source&& other) noexcept {
+			stop_source(std::move(other)).swap(*this);
+			return *this;
+		}
 
 		~stop_source() {
 			if (m_state) m_state->sub_ssrc();
-- 
2.43.0


From bcac5e85021a30d05f100a95441386c6c801c7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 35/60] fix: fire_and_forget_task gives up its reference after
 it is suspended

---
 include/asyncpp/fire_and_forget.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index fd93659..b7dc011 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -44,10 +44,12 @@ namespace asyncpp {
 				auto final_suspend() noexcept {
 					struct awaiter {
 						promise_type* self;
-						[[nodiscard]] constexpr bool await_ready() const noexcept {
-							return self->m_ref_count.fetch_sub(1) == 1;
+						[[nodiscard]] constexpr bool await_ready() const noexcept { return false; }
+						// The reference is given up once the coroutine is suspended, because from then on
+						// the last handle might destroy it. If there is no handle left it continues and destroys itself.
+						[[nodiscard]] bool await_suspend(coroutine_handle<>) const noexcept {
+							return self->m_ref_count.fetch_sub(1) != 1;
 						}
-						void await_suspend(coroutine_handle<>) const noexcept {}
 						constexpr void await_resume() const noexcept {}
 					};
 					return awaiter{this};
-- 
2.43.0


From 97971305f3780e7075580a022f9f66f4bddd09f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 36/60] fix: copies of a fire_and_forget_task start it only
 once

---
 include/asyncpp/fire_and_forget.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index b7dc011..fe01ed5 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -23,6 +23,7 @@ namespace asyncpp {
 			// Promise type of this task
 			class promise_type : public promise_allocator_base<Allocator> {
 				std::atomic<size_t> m_ref_count{1};
+				std::atomic<bool> m_started{Eager};
 				std::function<void()> m_exception_handler{};
 
 			public:
@@ -75,6 +76,7 @@ namespace asyncpp {
 					if (m_ref_count.fetch_sub(1) == 1) coroutine_handle<promise_type>::from_promise(*this).destroy();
 				}
 				void ref() noexcept { m_ref_count.fetch_add(1); }
+				[[nodiscard]] bool mark_started() noexcept { return !m_started.exchange(true); }
 			};
 
 			/// \brief Construct from a handle
@@ -112,9 +114,9 @@ namespace asyncpp {
 			void start() noexcept
 				requires(!Eager)
 			{
-				if (m_coro && !m_coro.done()) {
-					m_coro.resume();
-					// Make sure it is only started once
+				if (m_coro) {
+					// Make sure it is only started once, even if there are copies
+					if (m_coro.promise().mark_started()) m_coro.resume();
 					m_coro.promise().unref();
 					m_coro = nullptr;
 				}
-- 
2.43.0


From 4e7809e94cab0f5cf59868b038c869f0b127f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 37/60] fix: exception_policy::ignore ignores the exception

---
 include/asyncpp/policy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/policy.h b/include/asyncpp/policy.h
index 74d4519..7d7da04 100644
--- a/include/asyncpp/policy.h
+++ b/include/asyncpp/policy.h
@@ -25,5 +25,5 @@ namespace asyncpp {
 		static exception_policy handle(std::function<void()> cbfn) { return exception_policy{std::move(cbfn)}; }
 	};
 	inline const exception_policy exception_policy::terminate = {[]() { std::terminate(); }};
-	inline const exception_policy exception_policy::ignore = {};
+	inline const exception_policy exception_policy::ignore = {[]() {}};
 } // namespace asyncpp
-- 
2.43.0


From b24e6fe32c31592c4bc62b073ec48c602a026465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 38/60] fix: generator supports reference element types

---
 include/asyncpp/generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/generator.h b/include/asyncpp/generator.h
index 7f94e89..4b0818f 100644
--- a/include/asyncpp/generator.h
+++ b/include/asyncpp/generator.h
@@ -51,7 +51,7 @@ namespace asyncpp {
 			suspend_never await_transform(U&& value) = delete;
 
 		private:
-			T* m_value{nullptr};
+			pointer_type m_value{nullptr};
 			std::exception_ptr m_exception{nullptr};
 		};
 
-- 
2.43.0


From 97e9a6a149c3f7b6b8ccd9ae13d7604e0053e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 39/60] fix: async_generator supports reference element types

---
 include/asyncpp/async_generator.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/asyncpp/async_generator.h b/include/asyncpp/async_generator.h
index 698ded6..92acd64 100644
--- a/include/asyncpp/async_generator.h
+++ b/include/asyncpp/async_generator.h
@@ -31,6 +31,8 @@ namespace asyncpp {
 		template<typename T>
 		class async_generator_promise_base {
 		public:
+			using pointer_type = std::add_pointer_t<T>;
+
 			async_generator_promise_base() noexcept = default;
 			async_generator_promise_base(const async_generator_promise_base& other) = delete;
 			async_generator_promise_base& operator=(const async_generator_promise_base& other) = delete;
@@ -45,7 +47,7 @@ namespace asyncpp {
 			void rethrow_if_unhandled_exception() {
 				if (m_exception) { std::rethrow_exception(std::move(m_exception)); }
 			}
-			[[nodiscard]] T* value() const noexcept { return m_value; }
+			[[nodiscard]] pointer_type value() const noexcept { return m_value; }
 
 		protected:
 			[[nodiscard]] async_generator_yield_operation internal_yield_value() noexcept {
@@ -62,7 +64,7 @@ namespace asyncpp {
 			coroutine_handle<> m_consumer;
 
 		protected:
-			T* m_value;
+			pointer_type m_value;
 		};
 
 		template<typename T, ByteAllocator Allocator>
@@ -85,7 +87,7 @@ namespace asyncpp {
 		};
 
 		template<typename T, ByteAllocator Allocator>
-		class async_generator_promise<T&&, Allocator> final : public async_generator_promise_base<T>,
+		class async_generator_promise<T&&, Allocator> final : public async_generator_promise_base<T&&>,
 															  public promise_allocator_base<Allocator> {
 		public:
 			async_generator_promise() noexcept = default;
@@ -106,7 +108,7 @@ namespace asyncpp {
 			// allow calculating difference between two iterators.
 			using difference_type = std::ptrdiff_t;
 			using value_type = std::remove_reference_t<T>;
-			using reference = std::add_lvalue_reference_t<T>;
+			using reference = std::conditional_t<std::is_reference_v<T>, T, T&>;
 			using pointer = std::add_pointer_t<value_type>;
 
 			explicit async_generator_iterator(std::nullptr_t) noexcept {}
@@ -135,7 +137,7 @@ namespace asyncpp {
 				};
 				return increment_op{*this};
 			}
-			[[nodiscard]] reference operator*() const noexcept { return *static_cast<T*>(m_promise->value()); }
+			[[nodiscard]] reference operator*() const noexcept { return static_cast<reference>(*m_promise->value()); }
 			[[nodiscard]] bool operator==(const async_generator_iterator& other) const noexcept {
 				return m_promise == other.m_promise;
 			}
-- 
2.43.0


From 157998da9b53df905f440a61ab819a5d554c9e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 40/60] fix: fibers start with valid floating point control
 words

---
 include/asyncpp/fiber.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 5e84505..ded8160 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -155,6 +155,11 @@ namespace asyncpp::detail {
 		auto frame = reinterpret_cast<stack_frame*>(sp);
 		frame->ret_addr = reinterpret_cast<uintptr_t>(entry_fn);
 		frame->param = reinterpret_cast<uintptr_t>(arg);
+		// Start with the floating point control words of the creating thread
+		//NOLINTNEXTLINE(hicpp-no-assembler)
+		asm("stmxcsr %0" : "=m"(frame->mmx_cw));
+		//NOLINTNEXTLINE(hicpp-no-assembler)
+		asm("fnstcw %0" : "=m"(frame->x87_cw));
 		assert((reinterpret_cast<uintptr_t>(sp) % 16) == 0xc);
 #elif defined(__x86_64__)
 		// The restore code adds 72 byte and ret another 8. Since we want
@@ -183,6 +188,11 @@ namespace asyncpp::detail {
 		auto frame = reinterpret_cast<stack_frame*>(sp);
 		frame->ret_addr = reinterpret_cast<uintptr_t>(entry_fn);
 		frame->param = reinterpret_cast<uintptr_t>(arg);
+		// Start with the floating point control words of the creating thread
+		//NOLINTNEXTLINE(hicpp-no-assembler)
+		asm("stmxcsr %0" : "=m"(frame->mmx_cw));
+		//NOLINTNEXTLINE(hicpp-no-assembler)
+		asm("fnstcw %0" : "=m"(frame->x87_cw));
 #elif defined(__arm__)
 		// Stack needs to be 64bit aligned for vstmia
 		sp -= 16;
-- 
2.43.0


From bf7695dd556fae795cd36387ab3b5206c3060334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 41/60] fix: destroying a fiber does not resume its awaiter

---
 include/asyncpp/fiber.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index ded8160..c246e8c 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -775,6 +775,8 @@ namespace asyncpp::detail {
 			// Signal destruction and resume, then delete self
 			if (hndl->resume_cb != nullptr && hndl->was_started) {
 				hndl->want_destroy = true;
+				// Whoever waits for us does not get a result
+				hndl->continuation = nullptr;
 				hndl->resume_cb(hndl);
 				assert(hndl->resume_cb == nullptr);
 			}
-- 
2.43.0


From cbff68dc55fb2411389846aab6ded1ae0152d78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 42/60] fix: a fiber is not touched after it was handed over by
 await_suspend

---
 include/asyncpp/fiber.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index c246e8c..d4f0723 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -764,12 +764,16 @@ namespace asyncpp::detail {
 					auto handler = std::exchange(hndl->suspend_handler, nullptr);
 					auto ptr = std::exchange(hndl->suspend_handler_ptr, nullptr);
 					try {
-						if (handler(ptr, coroutine_handle<>::from_address(static_cast<void*>(hndl)))) break;
+						if (handler(ptr, coroutine_handle<>::from_address(static_cast<void*>(hndl)))) {
+							// The fiber might already run somewhere else or be gone, so don't touch it again
+							g_current_fiber = old;
+							return;
+						}
 					} catch (...) { hndl->suspend_exception = std::current_exception(); }
 				}
 			}
 			g_current_fiber = old;
-			if (hndl->resume_cb == nullptr && hndl->continuation != nullptr) { hndl->continuation.resume(); }
+			if (hndl->continuation != nullptr) { hndl->continuation.resume(); }
 		};
 		hndl->destroy_cb = [](fiber_handle_base* hndl) {
 			// Signal destruction and resume, then delete self
-- 
2.43.0


From 690d3cdc2d9febc4b348225b98a0cdb71555a032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 43/60] fix: a fiber resumed during exception unwinding may
 await

---
 include/asyncpp/fiber.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index d4f0723..6e38d9b 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -699,6 +699,9 @@ namespace asyncpp::detail {
 
 		coroutine_handle<> continuation{};
 
+		// Exceptions in flight on the thread that resumed the fiber
+		int uncaught_exceptions = 0;
+
 		bool want_destroy = false;
 		bool was_started = false;
 #if ASYNCPP_HAS_ASAN
@@ -744,6 +747,7 @@ namespace asyncpp::detail {
 		hndl->resume_cb = [](fiber_handle_base* hndl) {
 			auto old = std::exchange(g_current_fiber, hndl);
 			while (hndl->resume_cb != nullptr) {
+				hndl->uncaught_exceptions = std::uncaught_exceptions();
 #if ASYNCPP_HAS_ASAN
 				void* asan_handle;
 				__sanitizer_start_switch_fiber(&asan_handle, hndl->fiber_stack.mmap_base, hndl->fiber_stack.mmap_size);
@@ -846,8 +850,9 @@ namespace asyncpp::detail {
 	template<typename T>
 	static auto fiber_await(T&& awaiter) {
 		// We can not suspend during exception unwinding because the unwinding library
-		// uses thread local globals.
-		if (std::uncaught_exceptions() != 0) std::terminate();
+		// uses thread local globals. Exceptions of whoever resumed the fiber don't matter.
+		const auto current = detail::g_current_fiber;
+		if (std::uncaught_exceptions() != (current != nullptr ? current->uncaught_exceptions : 0)) std::terminate();
 		if (!static_cast<bool>(awaiter.await_ready())) {
 			// Awaiting is a coordination between this fiber handle's
 			// resume method and the fiber itself. Because the fiber is
@@ -858,7 +863,7 @@ namespace asyncpp::detail {
 			// await_suspend, passing the handle, and resume the correct handle
 			// if needed. Special handling is needed for exceptions thrown in
 			// await_suspend (which need to get rethrown in the fiber).
-			auto hndl = detail::g_current_fiber;
+			auto hndl = current;
 			assert(hndl != nullptr);
 #ifdef __linux__
 			assert(__builtin_frame_address(0) > hndl->fiber_stack.mmap_base);
-- 
2.43.0


From 0da7ee6bebef866213ee46e1f3de6b2248307e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 44/60] fix: a fiber being destroyed does not suspend again

---
 include/asyncpp/fiber.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 6e38d9b..2dfed4c 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -865,6 +865,11 @@ namespace asyncpp::detail {
 			// await_suspend (which need to get rethrown in the fiber).
 			auto hndl = current;
 			assert(hndl != nullptr);
+			// A fiber that is being destroyed can not suspend again
+			if (hndl->want_destroy) {
+				// NOLINTNEXTLINE(hicpp-exception-baseclass)
+				throw fiber_destroy_requested_exception{};
+			}
 #ifdef __linux__
 			assert(__builtin_frame_address(0) > hndl->fiber_stack.mmap_base);
 			assert(__builtin_frame_address(0) <
-- 
2.43.0


From 106398a8bfb2e1aa263d52fdbf4c96859984280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 45/60] fix: fibers can await in functions of other translation
 units

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 2dfed4c..8ef9086 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -724,7 +724,7 @@ namespace asyncpp::detail {
 #if defined(ASYNCPP_SO_COMPAT)
 	extern thread_local fiber_handle_base* g_current_fiber;
 #else
-	inline static thread_local fiber_handle_base* g_current_fiber = nullptr;
+	inline thread_local fiber_handle_base* g_current_fiber = nullptr;
 #endif
 
 #if defined(ASYNCPP_SO_COMPAT_IMPL)
-- 
2.43.0


From 00493a4d71caa030ac6cf4022e6b4d3e1f3848f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 46/60] fix: fibers can continue on another thread within one
 function

---
 include/asyncpp/fiber.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 8ef9086..0b5274a 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -731,6 +731,17 @@ namespace asyncpp::detail {
 	thread_local fiber_handle_base* g_current_fiber = nullptr;
 #endif
 
+	// A fiber can continue on a different thread after every await. The compiler assumes that a function stays on its
+	// thread and reuses the address of thread locals, so this must not get inlined into the code running on the fiber.
+#if defined(_MSC_VER) && !defined(__clang__)
+	__declspec(noinline)
+#else
+	__attribute__((noinline))
+#endif
+	inline fiber_handle_base* get_current_fiber() noexcept {
+		return g_current_fiber;
+	}
+
 	struct fiber_destroy_requested_exception {};
 
 	template<typename FN>
@@ -851,7 +862,7 @@ namespace asyncpp::detail {
 	static auto fiber_await(T&& awaiter) {
 		// We can not suspend during exception unwinding because the unwinding library
 		// uses thread local globals. Exceptions of whoever resumed the fiber don't matter.
-		const auto current = detail::g_current_fiber;
+		const auto current = detail::get_current_fiber();
 		if (std::uncaught_exceptions() != (current != nullptr ? current->uncaught_exceptions : 0)) std::terminate();
 		if (!static_cast<bool>(awaiter.await_ready())) {
 			// Awaiting is a coordination between this fiber handle's
-- 
2.43.0


From f60ec5096250c874b29113876babf7768adb29ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:43 +0000
Subject: [PATCH 47/60] fix: dispatcher::current() is right in a fiber that
 changed its thread

---
 include/asyncpp/dispatcher.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/dispatcher.h b/include/asyncpp/dispatcher.h
index b0786e9..e3557b4 100644
--- a/include/asyncpp/dispatcher.h
+++ b/include/asyncpp/dispatcher.h
@@ -45,7 +45,16 @@ namespace asyncpp {
          * Returns the current dispatcher, or nullptr if the current thread is
          * not associated with a dispatcher.
          */
-		static dispatcher* current() noexcept { return g_current_dispatcher; }
+		// Not inlined: the compiler assumes that a function stays on its thread and might reuse the
+		// address of the thread local, but a fiber can continue on a different thread.
+#if defined(_MSC_VER) && !defined(__clang__)
+		__declspec(noinline)
+#else
+		__attribute__((noinline))
+#endif
+		static dispatcher* current() noexcept {
+			return g_current_dispatcher;
+		}
 	};
 
 #if defined(ASYNCPP_SO_COMPAT_IMPL)
-- 
2.43.0


From bda2b9c73aab3a1ac7ffbb92d0d14656d75dd1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 48/60] fix: fiber<void> keeps its own copy of the function

---
 include/asyncpp/fiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 0b5274a..8faa48d 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -747,7 +747,7 @@ namespace asyncpp::detail {
 	template<typename FN>
 	static coroutine_handle<> make_fiber_handle(size_t stack_size, FN&& cbfn) {
 		struct handle : fiber_handle_base {
-			FN function;
+			std::decay_t<FN> function;
 			explicit handle(FN&& cbfn) : function(std::forward<FN>(cbfn)) {}
 		};
 
-- 
2.43.0


From bcc9584e0adf7f659ce55cc82f26966a47ccfebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 49/60] fix: the allocator stored with a coroutine frame is
 destroyed

---
 include/asyncpp/detail/promise_allocator_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/detail/promise_allocator_base.h b/include/asyncpp/detail/promise_allocator_base.h
index 66939c0..f3eeb01 100644
--- a/include/asyncpp/detail/promise_allocator_base.h
+++ b/include/asyncpp/detail/promise_allocator_base.h
@@ -42,6 +42,7 @@ namespace asyncpp::detail {
 			} else {
 				allocator_type* info = static_cast<allocator_type*>(ptr) - 1;
 				auto alloc = std::move(*info);
+				info->~allocator_type();
 				std::allocator_traits<allocator_type>::deallocate(
 					alloc, static_cast<std::byte*>(static_cast<void*>(info)), size + sizeof(Allocator));
 			}
-- 
2.43.0


From 2a739bf0783c7110e368c646634a70683f55e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 50/60] fix: coroutine frames allocated with a stateful
 allocator are aligned

---
 .../asyncpp/detail/promise_allocator_base.h   | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/include/asyncpp/detail/promise_allocator_base.h b/include/asyncpp/detail/promise_allocator_base.h
index f3eeb01..be04619 100644
--- a/include/asyncpp/detail/promise_allocator_base.h
+++ b/include/asyncpp/detail/promise_allocator_base.h
@@ -2,7 +2,12 @@
 #include <asyncpp/detail/concepts.h>
 #include <asyncpp/detail/parameter_pack.h>
 #include <asyncpp/detail/std_import.h>
+#include <cstddef>
+#include <cstdint>
+#include <memory>
+#include <new>
 #include <type_traits>
+#include <utility>
 
 namespace asyncpp {
 #ifndef ASYNCPP_DEFAULT_ALLOCATOR
@@ -15,6 +20,15 @@ namespace asyncpp {
 namespace asyncpp::detail {
 	template<ByteAllocator Allocator>
 	class promise_allocator_base {
+		// Precedes the frame if the allocator has state
+		struct header {
+			Allocator alloc;
+			std::byte* base;
+		};
+		static constexpr size_t frame_alignment =
+			alignof(header) > __STDCPP_DEFAULT_NEW_ALIGNMENT__ ? alignof(header) : __STDCPP_DEFAULT_NEW_ALIGNMENT__;
+		static constexpr size_t header_size = sizeof(header) + frame_alignment - 1;
+
 	public:
 		using allocator_type = Allocator;
 
@@ -29,9 +43,12 @@ namespace asyncpp::detail {
 				static_assert(std::is_convertible_v<std::remove_cvref_t<decltype(alloc)>&, allocator_type> ||
 								  std::is_constructible_v<allocator_type, decltype(alloc)>,
 							  "last argument is not of allocator type");
-				auto ptr = std::allocator_traits<allocator_type>::allocate(alloc, size + sizeof(allocator_type));
-				auto aptr = new (ptr) allocator_type{std::move(alloc)};
-				return aptr + 1;
+				std::byte* base = std::allocator_traits<allocator_type>::allocate(alloc, size + header_size);
+				// The compiler expects a frame with the alignment of operator new, but the allocator provides plain bytes
+				const auto misaligned = (reinterpret_cast<uintptr_t>(base) + sizeof(header)) % frame_alignment;
+				auto frame = base + sizeof(header) + (misaligned == 0 ? 0 : frame_alignment - misaligned);
+				new (frame - sizeof(header)) header{std::move(alloc), base};
+				return frame;
 			}
 		}
 		void operator delete(void* ptr, size_t size) {
@@ -40,11 +57,11 @@ namespace asyncpp::detail {
 				allocator_type alloc{};
 				std::allocator_traits<allocator_type>::deallocate(alloc, static_cast<std::byte*>(ptr), size);
 			} else {
-				allocator_type* info = static_cast<allocator_type*>(ptr) - 1;
-				auto alloc = std::move(*info);
-				info->~allocator_type();
-				std::allocator_traits<allocator_type>::deallocate(
-					alloc, static_cast<std::byte*>(static_cast<void*>(info)), size + sizeof(Allocator));
+				header* info = static_cast<header*>(ptr) - 1;
+				auto alloc = std::move(info->alloc);
+				auto base = info->base;
+				info->~header();
+				std::allocator_traits<allocator_type>::deallocate(alloc, base, size + header_size);
 			}
 		}
 	};
-- 
2.43.0


From ce27d4d1e789960e9a7c4ed26a12d7d97ff003e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 51/60] fix: channel::close used the channel while and after
 resuming the waiting coroutines

The coroutines were resumed with the mutex of the channel held and the channel
was accessed afterwards. A reader that destroys the channel after it got closed
(on another thread, or inside close()) lead to a use after free, and a resumed
coroutine waiting for a thread that is about to read or write to a deadlock.
---
 include/asyncpp/channel.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/asyncpp/channel.h b/include/asyncpp/channel.h
index f679f45..3cdea5e 100644
--- a/include/asyncpp/channel.h
+++ b/include/asyncpp/channel.h
@@ -7,6 +7,7 @@
 #include <cassert>
 #include <mutex>
 #include <optional>
+#include <utility>
 
 namespace asyncpp {
 
@@ -191,12 +192,14 @@ namespace asyncpp {
 		if (m_closed.load(std::memory_order::relaxed)) return;
 		std::unique_lock lck{m_mtx};
 		if (!m_closed.exchange(true)) {
-			// This is the first close, so cancel all waiting awaiters
-			while (m_reader_list != nullptr) {
-				auto rdr = m_reader_list;
-				m_reader_list = rdr->m_next;
-				// We do not need to unlock, because all further attempts to access this
-				// cannel will get refused.
+			// This is the first close, so cancel all waiting awaiters. None are added afterwards.
+			// They might destroy the channel once they are resumed, so it is not used from here on.
+			auto reader_list = std::exchange(m_reader_list, nullptr);
+			auto writer_list = std::exchange(m_writer_list, nullptr);
+			lck.unlock();
+			while (reader_list != nullptr) {
+				auto rdr = reader_list;
+				reader_list = rdr->m_next;
 				rdr->m_result.reset();
 				// Resume reader
 				if (rdr->m_dispatcher != nullptr)
@@ -204,11 +207,9 @@ namespace asyncpp {
 				else
 					rdr->m_handle.resume();
 			}
-			while (m_writer_list != nullptr) {
-				auto wrt = m_writer_list;
-				m_writer_list = wrt->m_next;
-				// We do not need to unlock, because all further attempts to access this
-				// cannel will get refused.
+			while (writer_list != nullptr) {
+				auto wrt = writer_list;
+				writer_list = wrt->m_next;
 				wrt->m_result = false;
 				// Resume reader
 				if (wrt->m_dispatcher != nullptr)
-- 
2.43.0


From f3a3d11fdf5a55cd5a24530eb27916f5f51d280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 52/60] fix: moving a queue to itself deadlocked

The same mutex was locked twice.
---
 include/asyncpp/queue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 826a028..e51951d 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -171,6 +171,7 @@ namespace asyncpp {
 
 	template<typename T, typename TContainer>
 	inline queue<T, TContainer>& queue<T, TContainer>::operator=(queue&& other) noexcept {
+		if (&other == this) return *this;
 		pop_awaiter* old_pop = nullptr;
 		push_awaiter* old_push = nullptr;
 		{
-- 
2.43.0


From 6ca8715dcdfd34f763a0dc2cf694ccbcdf6dbd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 53/60] fix: moving a signal to itself deadlocked

The same mutex was locked twice.
---
 include/asyncpp/signal.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asyncpp/signal.h b/include/asyncpp/signal.h
index 93f540b..c404ce2 100644
--- a/include/asyncpp/signal.h
+++ b/include/asyncpp/signal.h
@@ -293,6 +293,7 @@ namespace asyncpp {
 	template<typename... TParams, typename TTraits>
 	//NOLINTNEXTLINE(performance-noexcept-move-constructor)
 	inline signal<void(TParams...), TTraits>& signal<void(TParams...), TTraits>::operator=(signal&& other) {
+		if (&other == this) return *this;
 		ref<node> old{};
 		{
 			std::scoped_lock lck{m_mutex, other.m_mutex};
-- 
2.43.0


From 7c6b3def62d7e4ba8b8c17a0166df6cf0d508129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 54/60] fix: fire_and_forget_task::start used the handle after
 the coroutine ran

---
 include/asyncpp/fire_and_forget.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/asyncpp/fire_and_forget.h b/include/asyncpp/fire_and_forget.h
index fe01ed5..8740e14 100644
--- a/include/asyncpp/fire_and_forget.h
+++ b/include/asyncpp/fire_and_forget.h
@@ -114,11 +114,11 @@ namespace asyncpp {
 			void start() noexcept
 				requires(!Eager)
 			{
-				if (m_coro) {
+				// The coroutine might destroy this handle while it runs
+				if (auto coro = std::exchange(m_coro, nullptr)) {
 					// Make sure it is only started once, even if there are copies
-					if (m_coro.promise().mark_started()) m_coro.resume();
-					m_coro.promise().unref();
-					m_coro = nullptr;
+					if (coro.promise().mark_started()) coro.resume();
+					coro.promise().unref();
 				}
 			}
 
-- 
2.43.0


From 67b5bd4d08734ca736e7f074fc5ce68d618a25f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 55/60] fix: keep the promise pending if constructing the value
 throws

---
 include/asyncpp/promise.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 89669ec..63198a8 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -35,7 +35,13 @@ namespace asyncpp {
 				const ref<promise_state> self{this};
 				std::unique_lock lck{m_mtx};
 				if (m_value.index() != pending_index) return false;
-				m_value.template emplace<fulfilled_index>(std::forward<decltype(value)>(value));
+				try {
+					m_value.template emplace<fulfilled_index>(std::forward<decltype(value)>(value));
+				} catch (...) {
+					// We are still pending
+					m_value.template emplace<pending_index>();
+					throw;
+				}
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto fulfill_cbs = std::move(m_on_fulfill);
-- 
2.43.0


From a3cacaed33066a98487031a3bc947f5bc16cfa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 56/60] fix: do not destroy the unused promise callbacks while
 holding the lock

---
 include/asyncpp/promise.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asyncpp/promise.h b/include/asyncpp/promise.h
index 63198a8..6687589 100644
--- a/include/asyncpp/promise.h
+++ b/include/asyncpp/promise.h
@@ -45,6 +45,8 @@ namespace asyncpp {
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto fulfill_cbs = std::move(m_on_fulfill);
+				// Destroying a callback can use the promise, so this needs to happen after unlocking
+				auto reject_cbs = std::move(m_on_reject);
 				m_on_settle.clear();
 				m_on_fulfill.clear();
 				m_on_reject.clear();
@@ -72,6 +74,8 @@ namespace asyncpp {
 				m_cv.notify_all();
 				auto settle_cbs = std::move(m_on_settle);
 				auto reject_cbs = std::move(m_on_reject);
+				// Destroying a callback can use the promise, so this needs to happen after unlocking
+				auto fulfill_cbs = std::move(m_on_fulfill);
 				m_on_settle.clear();
 				m_on_fulfill.clear();
 				m_on_reject.clear();
-- 
2.43.0


From 50c9b7702201e59da15db88c15fa7e1a6f270c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 57/60] fix: do not lose the waiting pop if try_emplace can not
 construct the element

---
 include/asyncpp/queue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index e51951d..1fd3b7c 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -248,11 +248,13 @@ namespace asyncpp {
 		std::unique_lock lck{m_mtx};
 		// Check if there is an task waiting in pop
 		if (auto awaiter = m_pop_list; awaiter != nullptr) {
+			// If this throws the task has to stay in the list
+			T value{std::forward<Args>(args)...};
 			m_pop_list = awaiter->m_next;
 			// There should never be a task waiting in pop with a non empty queue
 			assert(m_queue.empty());
 			lck.unlock();
-			awaiter->resume(T{std::forward<Args>(args)...});
+			awaiter->resume(std::move(value));
 		} else {
 			// Early exit if we are oversized
 			if (m_queue.size() >= m_max_size) return false;
-- 
2.43.0


From a850b5e74098684d9570ef42f1e0a9f6d010b712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 58/60] fix: do not destroy the elements of a queue while
 holding its lock

---
 include/asyncpp/queue.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/asyncpp/queue.h b/include/asyncpp/queue.h
index 1fd3b7c..45b4b45 100644
--- a/include/asyncpp/queue.h
+++ b/include/asyncpp/queue.h
@@ -174,8 +174,11 @@ namespace asyncpp {
 		if (&other == this) return *this;
 		pop_awaiter* old_pop = nullptr;
 		push_awaiter* old_push = nullptr;
+		// The elements are destroyed after unlocking, because their destructors might use the queue
+		std::optional<std::queue<T, TContainer>> old_queue;
 		{
 			std::scoped_lock lck(m_mtx, other.m_mtx);
+			old_queue.emplace(std::move(m_queue));
 			m_queue = std::move(other.m_queue);
 			m_max_size = other.m_max_size;
 			m_dispatcher = other.m_dispatcher;
@@ -188,6 +191,7 @@ namespace asyncpp {
 			m_push_list = other.m_push_list;
 			other.m_push_list = nullptr;
 		}
+		old_queue.reset();
 		// Fail all pop operations on the moved to queue
 		while (old_pop != nullptr) {
 			auto await = old_pop;
@@ -307,12 +311,15 @@ namespace asyncpp {
 	template<typename T, typename TContainer>
 	inline void queue<T, TContainer>::clear() {
 		std::unique_lock lck{m_mtx};
+		// The elements are destroyed after unlocking, because their destructors might use the queue
+		std::optional<std::queue<T, TContainer>> old_queue{std::move(m_queue)};
 		while (!m_queue.empty())
 			m_queue.pop();
 		// Check if there is someone waiting in push
 		auto push_list = m_push_list;
 		m_push_list = nullptr;
 		lck.unlock();
+		old_queue.reset();
 
 		while (push_list != nullptr) {
 			const auto await = push_list;
-- 
2.43.0


From 661d6c44c22f9c31ef0923e187d903b062eaa5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 59/60] fix: do not destroy the elements of a threadsafe_queue
 while holding its lock

---
 include/asyncpp/threadsafe_queue.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/asyncpp/threadsafe_queue.h b/include/asyncpp/threadsafe_queue.h
index 6134671..1b26e18 100644
--- a/include/asyncpp/threadsafe_queue.h
+++ b/include/asyncpp/threadsafe_queue.h
@@ -38,15 +38,22 @@ namespace asyncpp {
 		}
 		threadsafe_queue& operator=(const threadsafe_queue& other) {
 			if (&other != this) {
+				// The elements are destroyed after unlocking, because their destructors might use the queue
+				std::optional<std::queue<T, Container>> old;
 				std::scoped_lock lck{other.m_mutex, m_mutex};
-				m_queue = other.m_queue;
+				auto copy = other.m_queue;
+				old.emplace(std::move(m_queue));
+				m_queue = std::move(copy);
 			}
 			return *this;
 		}
 		//NOLINTNEXTLINE(performance-noexcept-move-constructor)
 		threadsafe_queue& operator=(threadsafe_queue&& other) {
 			if (&other != this) {
+				// The elements are destroyed after unlocking, because their destructors might use the queue
+				std::optional<std::queue<T, Container>> old;
 				std::scoped_lock lck{other.m_mutex, m_mutex};
+				old.emplace(std::move(m_queue));
 				m_queue = std::move(other.m_queue);
 			}
 			return *this;
-- 
2.43.0


From e5fb18c79d97c0209b02ff00d75010dcf3d0a2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 60/60] fix: a fiber needed more stack for every await of
 something that resumed it right away

---
 include/asyncpp/fiber.h | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/asyncpp/fiber.h b/include/asyncpp/fiber.h
index 8faa48d..e308b58 100644
--- a/include/asyncpp/fiber.h
+++ b/include/asyncpp/fiber.h
@@ -693,7 +693,8 @@ namespace asyncpp::detail {
 		detail::fiber_context fiber_context{};
 		detail::stack_context fiber_stack{};
 
-		bool (*suspend_handler)(void* ptr, coroutine_handle<> hndl) = nullptr;
+		// Returns the coroutine to resume next, this is hndl if the fiber was not suspended and nullptr if there is none
+		coroutine_handle<> (*suspend_handler)(void* ptr, coroutine_handle<> hndl) = nullptr;
 		void* suspend_handler_ptr = nullptr;
 		std::exception_ptr suspend_exception = nullptr;
 
@@ -742,6 +743,16 @@ namespace asyncpp::detail {
 		return g_current_fiber;
 	}
 
+	// Not part of the function resuming a fiber, because temporaries in there would prevent tail calls
+#if defined(_MSC_VER) && !defined(__clang__)
+	__declspec(noinline)
+#else
+	__attribute__((noinline))
+#endif
+	inline void save_suspend_exception(fiber_handle_base* hndl) noexcept {
+		hndl->suspend_exception = std::current_exception();
+	}
+
 	struct fiber_destroy_requested_exception {};
 
 	template<typename FN>
@@ -778,13 +789,19 @@ namespace asyncpp::detail {
 				if (hndl->suspend_handler) {
 					auto handler = std::exchange(hndl->suspend_handler, nullptr);
 					auto ptr = std::exchange(hndl->suspend_handler_ptr, nullptr);
+					const auto self = coroutine_handle<>::from_address(static_cast<void*>(hndl));
+					auto next = self;
 					try {
-						if (handler(ptr, coroutine_handle<>::from_address(static_cast<void*>(hndl)))) {
-							// The fiber might already run somewhere else or be gone, so don't touch it again
-							g_current_fiber = old;
-							return;
-						}
-					} catch (...) { hndl->suspend_exception = std::current_exception(); }
+						next = handler(ptr, self);
+					} catch (...) { save_suspend_exception(hndl); }
+					if (next != self) {
+						// The fiber might already run somewhere else or be gone, so don't touch it again
+						g_current_fiber = old;
+						// This has to be a tail call (like the continuation below), because a fiber would otherwise need
+						// more stack for every await of something that resumes it right away.
+						if (next != nullptr) next.resume();
+						return;
+					}
 				}
 			}
 			g_current_fiber = old;
@@ -890,12 +907,11 @@ namespace asyncpp::detail {
 			hndl->suspend_handler = [](void* ptr, coroutine_handle<> hndl) {
 				if constexpr (std::is_same_v<AwaitResult, void>) {
 					static_cast<T*>(ptr)->await_suspend(hndl);
-					return true;
+					return coroutine_handle<>{};
 				} else if constexpr (std::is_same_v<AwaitResult, bool>) {
-					return static_cast<T*>(ptr)->await_suspend(hndl);
+					return static_cast<T*>(ptr)->await_suspend(hndl) ? coroutine_handle<>{} : hndl;
 				} else { // Treat everything else as a coroutine_handle to resume
-					static_cast<T*>(ptr)->await_suspend(hndl).resume();
-					return true;
+					return coroutine_handle<>{static_cast<T*>(ptr)->await_suspend(hndl)};
 				}
 			};
 			hndl->suspend_handler_ptr = &awaiter;
-- 
2.43.0

