// Conformance driver for B01: how much stack coroutines and fibers need that await very often.
#include "vsched.h"
#define std vstd
#include <asyncpp/async_generator.h>
#include <asyncpp/channel.h>
#include <asyncpp/event.h>
#include <asyncpp/fiber.h>
#include <asyncpp/fire_and_forget.h>
#include <asyncpp/generator.h>
#include <asyncpp/launch.h>
#include <asyncpp/mutex.h>
#include <asyncpp/promise.h>
#include <asyncpp/queue.h>
#include <asyncpp/sync_wait.h>
#include <asyncpp/task.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	constexpr long unit = 4096, per = 4;
	struct Ctx;
	Ctx* X;
	struct Ctx {
		int n = 0;		// iterations
		char* base = nullptr;
		std::vector<char*> fibers; // where their stacks start
		int cur = 0;
		std::vector<std::string> prog;
		long deepest[8] = {};
		int bad[8] = {};
		int ended = 0;
		queue<int> q;
		channel<int> ch;
		mutex mtx;
		multi_consumer_auto_reset_event ev[2];
		explicit Ctx(size_t max) : q(max) {}
	};
	constexpr size_t fstack = 262144;
	__attribute__((noinline)) void probe(int a) {
		char c;
		char* volatile p = &c;
		char* base = X->base;
		for (auto f : X->fibers)
			if (p < f && p > f - fstack) base = f;
		long d = base - p;
		if (d > X->deepest[a]) X->deepest[a] = d;
	}
	// a is at its i-th iteration
	void at(int a, int i) {
		probe(a);
		if ((i & (i - 1)) == 0) VSEV("at").k("a", a).k("i", i).k("d", X->deepest[a] / unit);
	}
	void end(int a, int i) { VSEV("end").k("a", a).k("n", i).k("d", X->deepest[a] / unit).k("bad", X->bad[a]); }

	task<int> leaf(int a, int i) {
		probe(a);
		co_return i;
	}
	task<> nothing(int a) {
		probe(a);
		co_return;
	}
	task<int> fails(int a, int i) {
		probe(a);
		throw i;
		co_return i;
	}
	task<int> nested(int a, int i, int k) {
		probe(a);
		if (k == 0) co_return co_await leaf(a, i);
		int r = co_await nested(a, i, k - 1);
		probe(a);
		co_return r;
	}
	task<int> chain(int a, int k) {
		probe(a);
		int r = k > 0 ? 1 + co_await chain(a, k - 1) : 0;
		probe(a);
		co_return r;
	}
	// yields 0, 1, 2, ..., after awaiting k tasks each
	async_generator<int> numbers(int a, int n, int k) {
		for (int i = 0; n < 0 || i < n; i++) {
			for (int j = 0; j < k; j++) co_await leaf(a, j);
			probe(a);
			co_yield i;
		}
	}
	generator<int> plain(int a, int n) {
		for (int i = 0; i < n; i++) {
			probe(a);
			co_yield i;
		}
	}
	eager_fire_and_forget_task<> eager(int a) {
		probe(a);
		co_await nothing(a);
	}
	fire_and_forget_task<> lazy(int a) {
		probe(a);
		co_await nothing(a);
	}
	fiber<int> small(int a, int i) {
		return fiber<int>([a, i] {
			char c;
			X->fibers.push_back(&c + 512);
			probe(a);
			X->fibers.pop_back();
			return i;
		}, 16384);
	}
#define STEPS \
	switch (s) { \
	case 't': if (AWAIT(leaf(a, i)) != i) X->bad[a]++; break; \
	case 'v': AWAIT(nothing(a)); break; \
	case 'e': \
		try { \
			AWAIT(fails(a, i)); \
			X->bad[a]++; \
		} catch (int v) { \
			if (v != i) X->bad[a]++; \
		} \
		break; \
	case 'n': if (AWAIT(nested(a, i, 3)) != i) X->bad[a]++; break; \
	case 'c': if (i == 0 && AWAIT(chain(a, X->n)) != X->n) X->bad[a]++; break; \
	case 'g': \
	case 'G': \
		if (i == 0) it.emplace(AWAIT(gen.begin())); \
		else AWAIT(++*it); \
		if (**it != i) X->bad[a]++; \
		break; \
	case 'h': { \
		auto g = numbers(a, i % 4, i % 3); \
		int c = 0; \
		for (auto j = AWAIT(g.begin()); j != g.end(); AWAIT(++j)) \
			if (*j != c++) X->bad[a]++; \
		if (c != i % 4) X->bad[a]++; \
		break; \
	} \
	case 'y': { \
		int c = 0; \
		for (auto v : plain(a, i % 5)) \
			if (v != c++) X->bad[a]++; \
		break; \
	} \
	case 'p': if (as_promise(leaf(a, i)).get() != i) X->bad[a]++; break; \
	case 'P': { \
		promise<int> pr; \
		pr.fulfill(int(i)); \
		if (AWAIT(pr) != i) X->bad[a]++; \
		break; \
	} \
	case 'F': eager(a); break; \
	case 'Z': { \
		auto z = lazy(a); \
		z.start(); \
		break; \
	} \
	case 'L': launch(nothing(a)); break; \
	case 'J': scope.launch(nothing(a)); if (i % 7 == 6) AWAIT(scope.join()); break; \
	case 'f': if (AWAIT(small(a, i).await()) != i) X->bad[a]++; break; \
	case 'u': (void)AWAIT(X->q.push(int(i))); break; \
	case 'o': (void)AWAIT(X->q.pop()); break; \
	case 'U': (void)X->q.try_push(int(i)); break; \
	case 'O': (void)X->q.try_pop(); break; \
	case 'w': (void)AWAIT(X->ch.write(i)); break; \
	case 'r': (void)AWAIT(X->ch.read()); break; \
	case 'l': AWAIT(X->mtx.lock()); probe(a); X->mtx.unlock(); break; \
	case 'm': AWAIT(X->mtx.lock()); probe(a); AWAIT(X->ev[0]); X->mtx.unlock(); break; \
	case 's': X->ev[0].set(); break; \
	case 'S': X->ev[1].set(); break; \
	case 'k': AWAIT(X->ev[0]); break; \
	case 'K': AWAIT(X->ev[1]); break; \
	}
	hs::actor client(int a) {
		auto& prog = X->prog[(size_t)a];
		auto gen = numbers(a, -1, prog.find('G') != std::string::npos ? 9 : 1);
		async_launch_scope scope;
		std::optional<detail::async_generator_iterator<int>> it;
		int i = 0;
		for (; i < X->n; i++) {
			at(a, i);
			for (char s : prog) {
#define AWAIT(x) (co_await (x))
				STEPS
#undef AWAIT
				probe(a);
			}
		}
		co_await scope.join();
		X->ended++;
		end(a, i);
	}
	template<typename T>
	auto fa(T&& x) {
		if constexpr (requires { static_cast<T&&>(x).operator co_await(); }) return fiber<int>::fiber_await(static_cast<T&&>(x).operator co_await());
		else return fiber<int>::fiber_await(static_cast<T&&>(x));
	}
	// the same as a fiber
	void fiber_client(int a) {
		char c;
		X->fibers.push_back(&c + 512);
		auto& prog = X->prog[(size_t)a];
		auto gen = numbers(a, -1, prog.find('G') != std::string::npos ? 9 : 1);
		async_launch_scope scope;
		std::optional<detail::async_generator_iterator<int>> it;
		int i = 0;
		for (; i < X->n; i++) {
			at(a, i);
			for (char s : prog) {
#define AWAIT(x) (fa(x))
				STEPS
#undef AWAIT
				probe(a);
			}
		}
		fa(scope.join());
		X->ended++;
		end(a, i);
		X->fibers.erase(std::find(X->fibers.begin(), X->fibers.end(), &c + 512));
	}
	hs::actor run_fiber(int a) {
		fiber<int> f([a] {
			fiber_client(a);
			return a;
		}, fstack);
		co_await f.await();
	}
	void body(vs::Case& c) {
		auto& r = c.rng;
		int max[] = {0, 1, 1, 2, 5, 100};
		Ctx x((size_t)max[r(6)]);
		char b;
		x.base = &b;
		X = &x;
		int k = 1 + r(3);
		int sizes[] = {150, 600, 2000};
		x.n = sizes[r(3)];
		x.prog.resize((size_t)k + 1);
		std::vector<bool> fib((size_t)k + 1, false);
		std::string show;
		for (int a = 1; a <= k; a++) {
			fib[(size_t)a] = r.chance(25);
			const char* pool = r.chance(50) ? "tvencghyPpFZLJf" : r.chance(50) ? "uouowrlmskSKUO" : "tvencGhyPpFZLJfuowrlmskSK";
			int l = 1 + r(4), len = (int)strlen(pool);
			for (int i = 0; i < l; i++) x.prog[(size_t)a] += pool[r(len)];
			auto& s = x.prog[(size_t)a];
			// one generator per actor
			for (bool seen = false; auto& ch : s)
				if (strchr("gG", ch)) {
					if (seen) ch = 't';
					seen = true;
				}
			if (s.find('f') != std::string::npos) x.n = std::min(x.n, 600);
			if (a == 2 && r.chance(50)) {
				// the counterpart of the first
				s = x.prog[1];
				for (auto& ch : s) {
					const char *from = "uowrskSKgG", *to = "ourwksKStt";
					if (auto q = strchr(from, ch)) ch = to[q - from];
				}
			}
			show += hs::num(a) + (fib[(size_t)a] ? " fiber: " : ": ") + s + "; ";
		}
		// every step of every actor has at most that many coroutines of its own that are not suspended
		vs::set_case("{\"n\":" + hs::num(x.n) + ",\"h\":" + hs::num(per) + ",\"unit\":" + hs::num(unit) + "}", hs::num(x.n) + " times; " + show);
		for (int a = 1; a <= k; a++) {
			VSEV("start").k("a", a);
			if (fib[(size_t)a]) run_fiber(a);
			else client(a);
		}
		// supply whatever they wait for
		for (int i = 0; i < 40 * x.n && x.ended < k; i++) {
			x.ev[0].set();
			x.ev[1].set();
			if (i % 2) (void)x.q.try_push(int(i)), (void)x.q.try_pop();
			else (void)x.q.try_pop(), (void)x.q.try_push(int(i));
			(void)x.ch.try_write(i);
			(void)x.ch.try_read();
		}
		VSEV("quiesce");
		if (x.ended < k) x.ch.close();
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
