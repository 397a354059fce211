// Common parts of the conformance drivers: client coroutines ("actors"), test dispatchers, quiescence.
// Include this after VS_HEADERS have been defined by the driver as a list of asyncpp headers to include under the shim:
//   #include "vsched.h"
//   #define std vstd
//   #include <asyncpp/...>
//   #undef std
//   #include "harness.h"
#pragma once
#define std vstd
#include <asyncpp/dispatcher.h>
#undef std
#include <algorithm>
#include <string>
#include <vector>

namespace hs {
	inline std::string num(long v) { return std::to_string(v); }

	// ------------------------------------------------------------ dispatchers
	// A dispatcher with an own thread; runs tasks in push order.
	class tdisp : public asyncpp::dispatcher {
		vstd::mutex m_mtx;
		vstd::condition_variable m_cv;
		std::deque<std::function<void()>> m_q;
		bool m_stop = false, m_busy = false;
		vstd::thread m_th;

	public:
		const int id;
		vs::Raw pushes = 0;
		explicit tdisp(int i) : id(i) {
			m_th = vstd::thread([this] { loop(); });
		}
		void push(std::function<void()> fn) override {
			pushes++;
			std::unique_lock l(m_mtx);
			m_q.push_back(std::move(fn));
			m_cv.notify_all();
		}
		void loop() {
			vs::set_actor(100 + id);
			auto old = asyncpp::dispatcher::current(this);
			std::unique_lock l(m_mtx);
			while (true) {
				while (m_q.empty() && !m_stop) m_cv.wait(l);
				if (m_q.empty()) break;
				auto fn = std::move(m_q.front());
				m_q.pop_front();
				m_busy = true;
				l.unlock();
				fn();
				fn = nullptr;
				l.lock();
				m_busy = false;
				m_cv.notify_all();
			}
			asyncpp::dispatcher::current(old);
		}
		void wait_idle() {
			std::unique_lock l(m_mtx);
			while (!m_q.empty() || m_busy) m_cv.wait(l);
		}
		void stop() {
			{
				std::unique_lock l(m_mtx);
				m_stop = true;
				m_cv.notify_all();
			}
			m_th.join();
		}
	};
	inline int disp_id(asyncpp::dispatcher* d) { return d == nullptr ? 0 : static_cast<tdisp*>(d)->id; }
	inline int cur() { return disp_id(asyncpp::dispatcher::current()); }
	inline int th() { return vs::self_id(); }

	// a set of dispatchers 1..n (0 = none)
	struct disps {
		std::vector<std::unique_ptr<tdisp>> d;
		explicit disps(int n) {
			for (int i = 1; i <= n; i++) d.push_back(std::make_unique<tdisp>(i));
		}
		asyncpp::dispatcher* get(int i) { return i == 0 ? nullptr : d[(size_t)i - 1].get(); }
		void wait_idle() {
			while (true) {
				long before = 0, after = 0;
				for (auto& x : d) before += x->pushes;
				for (auto& x : d) x->wait_idle();
				for (auto& x : d) x->wait_idle();
				for (auto& x : d) after += x->pushes;
				if (before == after) return;
			}
		}
		void stop() {
			for (auto& x : d) x->stop();
		}
	};

	// ------------------------------------------------------------ client coroutine
	struct actor {
		struct promise_type {
			VS_NOTSAN actor get_return_object() noexcept { return {}; }
			constexpr std::suspend_never initial_suspend() noexcept { return {}; }
			constexpr std::suspend_never final_suspend() noexcept { return {}; }
			void return_void() noexcept {}
			void unhandled_exception() noexcept { VSEV("exc"); }
		};
	};
	// A value that shows when it was moved away.
	struct Val {
		int v;
		explicit Val(int x) : v(x) {}
		Val(Val&& o) noexcept : v(std::exchange(o.v, -1)) {}
		Val& operator=(Val&& o) noexcept {
			v = std::exchange(o.v, -1);
			return *this;
		}
		Val(const Val&) = delete;
	};
	// co_await watch(a, q, awaitable): like awaiting the awaitable, and records when the coroutine of client a has been
	// suspended (by its q-th await). From then on the await has taken effect.
	template<typename A>
	decltype(auto) get_awaiter(A&& a) {
		if constexpr (requires { static_cast<A&&>(a).operator co_await(); }) return static_cast<A&&>(a).operator co_await();
		else if constexpr (requires { operator co_await(static_cast<A&&>(a)); }) return operator co_await(static_cast<A&&>(a));
		else return static_cast<A&&>(a);
	}
	template<typename A>
	struct watch {
		decltype(get_awaiter(std::declval<A>())) inner;
		int a, q;
		watch(int a, int q, A&& x) : inner(get_awaiter(static_cast<A&&>(x))), a(a), q(q) {}
		watch(const watch&) = delete;
		decltype(auto) await_ready() { return inner.await_ready(); }
		auto await_suspend(std::coroutine_handle<> h) {
			// the coroutine may be gone as soon as it is suspended
			int la = a, lq = q;
			using R = decltype(inner.await_suspend(h));
			if constexpr (std::is_void_v<R>) {
				inner.await_suspend(h);
				VSEV("susp").k("a", la).k("q", lq);
				return true;
			} else if constexpr (std::is_same_v<R, bool>) {
				bool r = inner.await_suspend(h);
				if (r) VSEV("susp").k("a", la).k("q", lq);
				return r;
			} else
				return inner.await_suspend(h);
		}
		decltype(auto) await_resume() { return inner.await_resume(); }
	};
	template<typename A>
	watch(int, int, A&&) -> watch<A&&>;
	// runs f(i) for i in 1..n, each on its own thread, and joins them
	template<typename F>
	void parallel(int n, F f) {
		std::vector<vstd::thread> t;
		for (int i = 1; i <= n; i++)
			t.emplace_back([i, &f] {
				vs::set_actor(i);
				f(i);
			});
		for (auto& x : t) x.join();
	}
} // namespace hs
