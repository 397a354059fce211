// Conformance driver for F01: fibers created, moved, awaited (nested), dropped, on several threads.
#include "vsched.h"
#include <cfenv>
#define std vstd
#include <asyncpp/fiber.h>
#undef std
#include "harness.h"
#include "fiber2.h"
#include <optional>
#include <variant>

using namespace asyncpp;
namespace {
	enum Kind { k_val, k_int, k_void };
	// N create fiber v in slot w, W await slot v (w: as an rvalue), w create fiber v and await it as a temporary, D drop slot v, M move slot w to v
	// H hop to dispatcher v (w: which kind of awaiter), I resumed inside await_suspend, F await_suspend gives false, R ready, T await_suspend throws,
	// t await_resume throws after a hop, K suspend for good, S suspend for good and swallow what is thrown when the fiber is dropped, G use the stack
	// C run client v, a coroutine, as a part of the fiber, U resumed in a destructor while the thread unwinds, L several hops in one function, O hop in a function of another translation unit
	struct Op { char k; int v; int w = 0; };
	struct FibProg {
		Kind k;
		int round;
		std::vector<Op> ops;
	};
	// a copyable value that shows when it was moved away
	struct CVal {
		int v;
		explicit CVal(int x) : v(x) {}
		CVal(const CVal&) = default;
		CVal(CVal&& o) noexcept : v(std::exchange(o.v, -1)) {}
	};
	using Slot = std::variant<std::monostate, fiber<CVal>, fiber<int>, fiber<void>>;
	struct Ctx {
		hs::disps* ds;
		std::map<int, FibProg> fibs;
		std::map<int, Slot> slots;
		std::map<int, std::vector<int>> mine; // slots that are local variables of a fiber
		std::vector<std::vector<Op>> prog;
		std::map<int, int> in; // fiber in a slot
		std::map<int, int> awaited, moved;
		std::coroutine_handle<> frame[8];
		vs::Raw waiting[8];
	};
	struct Witness {
		int t;
		explicit Witness(int t) : t(t) {}
		Witness(Witness&& o) noexcept : t(std::exchange(o.t, 0)) {}
		~Witness() {
			if (t) VSEV("gone").k("t", t).k("th", hs::th());
		}
	};
	struct Local {
		Ctx* x;
		int t;
		~Local() {
			for (int s : x->mine.at(t)) x->slots.at(s).emplace<0>();
			VSEV("left").k("t", t).k("th", hs::th());
		}
	};
	int value_of(int t) { return t + 1000; }
	void bad(int t, const char* what) { VSEV("bad").k("t", t).k("what", what); }
	const int modes[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
	volatile long opaque_zero = 0;
	// calls f with values kept in registers across the call
	template<typename F>
	__attribute__((noinline, noclone)) void with_registers(int t, F f) {
		const long z = opaque_zero;
		long a = z + t, b = z + t * 3, c = z + t * 5, d = z + t * 7, e = z + t * 11, g = z + t * 13;
		asm volatile("" : "+r"(a), "+r"(b), "+r"(c), "+r"(d), "+r"(e), "+r"(g));
		f();
		asm volatile("" : "+r"(a), "+r"(b), "+r"(c), "+r"(d), "+r"(e), "+r"(g));
		if (a != t || b != t * 3L || c != t * 5L || d != t * 7L || e != t * 11L || g != t * 13L) bad(t, "registers");
	}
	struct Base {
		Ctx* x;
		int t, d;
		bool await_ready() { return false; }
		void go(std::coroutine_handle<> h) {
			auto disp = x->ds->get(d);
			VSEV("hop").k("t", t);
			disp->push([h] { with_registers(7, [&] { h.resume(); }); });
		}
		int await_resume() {
			VSEV("back").k("t", t).k("th", hs::th());
			return t + 77;
		}
	};
	struct HopV : Base { void await_suspend(std::coroutine_handle<> h) { go(h); } };
	struct HopB : Base { bool await_suspend(std::coroutine_handle<> h) { go(h); return true; } };
	struct HopH : Base { std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) { go(h); return std::noop_coroutine(); } };
	struct HopT : HopV {
		int await_resume() {
			HopV::await_resume();
			throw t + 78;
		}
	};
	struct Inline : Base { void await_suspend(std::coroutine_handle<> h) { VSEV("hop").k("t", t); h.resume(); } };
	struct InlineB : Base { bool await_suspend(std::coroutine_handle<> h) { VSEV("hop").k("t", t); h.resume(); return true; } };
	// comes back in a destructor that runs because of an exception
	struct Unwind : Base {
		void await_suspend(std::coroutine_handle<> h) {
			VSEV("hop").k("t", t);
			struct G {
				std::coroutine_handle<> h;
				~G() { h.resume(); }
			};
			try {
				G g{h};
				throw 1;
			} catch (int) {}
		}
	};
	struct Not : Base { bool await_suspend(std::coroutine_handle<>) { return false; } int await_resume() { return t + 77; } };
	struct Ready : Base { bool await_ready() { return true; } void await_suspend(std::coroutine_handle<>) { bad(t, "ready but suspended"); } int await_resume() { return t + 77; } };
	struct Throws : Base { void await_suspend(std::coroutine_handle<>) { throw t + 79; } int await_resume() { bad(t, "resumed"); return 0; } };
	struct ParkAw : Base {
		void await_suspend(std::coroutine_handle<>) { VSEV("park").k("t", t); }
		int await_resume() { bad(t, "resumed"); return 0; }
	};
	void res(int a, int t, int v) { VSEV("res").k("a", a).k("t", t).k("v", v).k("th", hs::th()); }
	// the coroutine of a client
	struct client {
		struct promise_type {
			Ctx* x;
			int a;
			promise_type(Ctx* x, int a) : x(x), a(a) {}
			promise_type(Ctx* x, long) : x(x), a(0) {}
			VS_NOTSAN client get_return_object() noexcept { return {}; }
			std::suspend_never initial_suspend() noexcept {
				x->frame[a] = std::coroutine_handle<promise_type>::from_promise(*this);
				return {};
			}
			std::suspend_never final_suspend() noexcept {
				x->frame[a] = nullptr;
				return {};
			}
			void return_void() noexcept {}
			void unhandled_exception() noexcept { VSEV("exc"); }
		};
	};
	int fbody(Ctx* x, int a);
	struct FarBody : far_body {
		Ctx* x;
		int t;
		Witness w;
		FarBody(Ctx* x, int t) : x(x), t(t), w(t) {}
		int run() override { return fbody(x, t); }
	};
	template<typename R>
	auto make(Ctx* x, int t) {
		if constexpr (std::is_same_v<R, int>)
			if (t & 1) return far_make(std::make_unique<FarBody>(x, t));
		if (t % 3 == 0) {
			// an lvalue
			auto fn = [x, t, w = std::make_shared<Witness>(t)]() -> R {
				if constexpr (std::is_void_v<R>) fbody(x, t);
				else return R(fbody(x, t));
			};
			return fiber<R>(fn);
		}
		return fiber<R>([x, t, w = Witness{t}]() -> R {
			if constexpr (std::is_void_v<R>) fbody(x, t);
			else return R(fbody(x, t));
		});
	}
	void create(Ctx* x, int a, int t, int h) {
		auto& s = x->slots.at(h);
		if (s.index() != 0) return;
		vs::point();
		VSEV("create").k("a", a).k("t", t).k("h", h);
		x->in.at(h) = t;
		switch (x->fibs[t].k) {
		case k_val: s.emplace<1>(make<CVal>(x, t)); break;
		case k_int: s.emplace<2>(make<int>(x, t)); break;
		case k_void: s.emplace<3>(make<void>(x, t)); break;
		}
	}
	void drop(Ctx* x, int a, int h) {
		auto& s = x->slots.at(h);
		if (s.index() == 0) return;
		vs::point();
		VSEV("call").k("a", a).k("op", "drop").k("h", h).k("g", 0).k("th", hs::th());
		with_registers(a, [&] { s.emplace<0>(); });
		VSEV("ret").k("a", a);
	}
	void move(Ctx* x, int a, int h, int g) {
		auto &d = x->slots.at(h), &s = x->slots.at(g);
		if (s.index() == 0 || (d.index() != 0 && d.index() != s.index())) return;
		vs::point();
		VSEV("call").k("a", a).k("op", "move").k("h", h).k("g", g).k("th", hs::th());
		d = std::move(s); // constructs, or assigns if both are fibers of the same type
		if (h != g) {
			x->in.at(h) = x->in.at(g);
			s.emplace<0>();
		}
		VSEV("ret").k("a", a);
	}
#define CO(E) co_await (E)
#define FI(E) fiber<void>::fiber_await((E).await())
#define GET_CVal(AW, EXPR) { auto r = AW(EXPR); v = r.v; }
#define GET_int(AW, EXPR) { v = AW(EXPR); }
#define GET_void(AW, EXPR) { AW(EXPR); v = 0; }
#define SLOT(AW, R) \
	{ \
		auto& f = std::get<fiber<R>>(s); \
		if (o.w) GET_##R(AW, std::move(f)) \
		else GET_##R(AW, f) \
	}
#define BY_SLOT(AW) \
	{ \
		if (s.index() == 1) SLOT(AW, CVal) \
		else if (s.index() == 2) SLOT(AW, int) \
		else SLOT(AW, void) \
	}
#define BY_TEMP(AW) \
	{ \
		if (x->fibs[t].k == k_val) GET_CVal(AW, make<CVal>(x, t)) \
		else if (x->fibs[t].k == k_int) GET_int(AW, make<int>(x, t)) \
		else GET_void(AW, make<void>(x, t)) \
	}
// awaiting slot o.v or a temporary fiber o.v, in a coroutine or in a fiber
#define DO_AWAIT(AW) \
	{ \
		bool temp = o.k == 'w'; \
		int h = temp ? o.w : o.v; \
		auto& s = x->slots.at(h); \
		int t = temp ? o.v : x->in.at(h), v = -1; \
		if (temp ? s.index() != 0 : s.index() == 0) break; \
		if (!temp && x->awaited.at(t)) { \
			if (x->moved.at(t)) break; \
			if (o.w) x->moved.at(t) = 1; \
			BY_SLOT(AW) \
			VSEV("again").k("a", a).k("h", h).k("v", v); \
			break; \
		} \
		x->awaited.at(t) = 1; \
		if (o.w) x->moved.at(t) = 1; \
		vs::point(); \
		if (temp) VSEV("create").k("a", a).k("t", t).k("h", h); \
		VSEV("await").k("a", a).k("h", h).k("temp", temp).k("th", hs::th()); \
		if (a < 10) x->waiting[a] = 1; \
		if (temp) BY_TEMP(AW) \
		else BY_SLOT(AW) \
		if (a < 10) x->waiting[a] = 0; \
		res(a, t, v); \
	}
	void simple_op(Ctx* x, int a, Op o) {
		switch (o.k) {
		case 'N': create(x, a, o.v, o.w); break;
		case 'D': drop(x, a, o.v); break;
		case 'M': move(x, a, o.v, o.w); break;
		}
	}
	client run(Ctx* x, int a) {
		for (auto o : x->prog[(size_t)a]) switch (o.k) {
			case 'E': {
				fiber<int> f;
				fiber<void> g;
				int n = 0;
				try {
					co_await f;
				} catch (const std::logic_error&) { n++; }
				try {
					co_await g;
				} catch (const std::logic_error&) { n++; }
				if (n != 2) bad(a, "empty");
				break;
			}
			case 'W': case 'w': DO_AWAIT(CO) break;
			default: simple_op(x, a, o);
			}
	}
	__attribute__((noinline)) long use_stack(int n) {
		volatile char b[1024];
		for (size_t i = 0; i < sizeof b; i += 64) b[i] = (char)(n + (int)i);
		long r = n > 0 ? use_stack(n - 1) : 0;
		for (size_t i = 0; i < sizeof b; i += 64)
			if (b[i] != (char)(n + (int)i)) r++;
		return r;
	}
	volatile double one = 1, three = 3;
	volatile long double lone = 1, lthree = 3;
	template<typename A>
	void await_one(Ctx* x, int t, int d) {
		int v = 0;
		with_registers(t, [&] {
			if (d & 1) v = fib_await A{{x, t, 1 + d / 2}};
			else v = fiber<int>::fiber_await(A{{x, t, 1 + d / 2}});
		});
		if (v != t + 77) bad(t, "value of an await");
	}
	template<>
	void await_one<HopT>(Ctx* x, int t, int d) {
		int v = 0;
		try {
			fib_await HopT{{{x, t, 1 + d / 2}}};
		} catch (int e) { v = e; }
		if (v != t + 78) bad(t, "exception of await_resume");
	}
	template<>
	void await_one<Throws>(Ctx* x, int t, int d) {
		int v = 0;
		try {
			fib_await Throws{{x, t, d}};
		} catch (int e) { v = e; }
		if (v != t + 79) bad(t, "exception of await_suspend");
	}
	// from thread to thread within one function; the compiler is free to unroll the loop and to merge what it does
	struct Tour : HopV {};
	__attribute__((noinline)) void tour(Ctx* x, int t, int d) {
		for (int i = 0; i < 3; i++) {
			int n = 1 + (d / 2 + i) % (int)x->ds->d.size();
			fib_await Tour{{{x, t, n}}};
			if (dispatcher::current() != x->ds->get(n)) bad(t, "dispatcher");
		}
	}
	struct Far : far_awaiter {
		HopV h;
		Far(Ctx* x, int t, int d) : h{{x, t, d}} {}
		void suspend(std::coroutine_handle<> c) override { h.await_suspend(c); }
		int resume() override { return h.await_resume(); }
	};
	void do_fops(Ctx* x, int a, Op o) {
		switch (o.k) {
		case 'H':
			switch (o.w) {
			case 0: await_one<HopV>(x, a, o.v); break;
			case 1: await_one<HopB>(x, a, o.v); break;
			case 2: await_one<HopH>(x, a, o.v); break;
			default: await_one<HopT>(x, a, o.v);
			}
			break;
		case 'I':
			if (o.w) await_one<Inline>(x, a, o.v);
			else await_one<InlineB>(x, a, o.v);
			break;
		case 'L': tour(x, a, o.v); break;
		case 'O': {
			Far f(x, a, 1 + o.v / 2);
			if (far_await(f) != a + 77) bad(a, "value of an await");
			break;
		}
		case 'F': await_one<Not>(x, a, o.v); break;
		case 'R': await_one<Ready>(x, a, o.v); break;
		case 'T': await_one<Throws>(x, a, o.v); break;
		case 'U': await_one<Unwind>(x, a, o.v); break;
		case 'K': await_one<ParkAw>(x, a, o.v); break;
		case 'G':
			if (use_stack(60)) bad(a, "stack");
			break;
		case 'w': case 'W': DO_AWAIT(FI) break;
		case 'C': run(x, o.v); break;
		default: simple_op(x, a, o);
		}
	}
	// the body of fiber a
	int fbody(Ctx* x, int a) {
		Local local{x, a};
		VSEV("start").k("t", a).k("th", hs::th());
		alignas(32) volatile long loc[4] = {a, a + 1, a + 2, a + 3};
		if (((uintptr_t)__builtin_frame_address(0) & 15) != 0) bad(a, "alignment");
		auto& p = x->fibs.at(a);
		std::fesetround(modes[p.round]);
		double q = one / three;
		long double lq = lone / lthree;
		for (auto o : p.ops) {
			if (o.k == 'S') {
				bool sw = false;
				try {
					await_one<ParkAw>(x, a, o.v);
				} catch (...) { sw = true; }
				if (!sw) bad(a, "resumed");
				// only this far: awaiting again ends the fiber as well
				await_one<Ready>(x, a, o.v);
				await_one<HopV>(x, a, o.v);
				bad(a, "awaited while it is dropped");
				return 0;
			}
			with_registers(a + 1000, [&] { do_fops(x, a, o); });
			if (std::fegetround() != modes[p.round] || one / three != q || lone / lthree != lq) bad(a, "floating point environment");
			for (int i = 0; i < 4; i++)
				if (loc[i] != a + i) bad(a, "locals");
		}
		VSEV("end").k("t", a).k("v", p.k == k_void ? 0 : value_of(a));
		return value_of(a);
	}
	// awaiting what is awaited already
	client probe(Ctx* x, long h) {
		auto& s = x->slots.at((int)h);
		bool refused = false;
		try {
			if (s.index() == 1) co_await std::get<1>(s);
			else if (s.index() == 2) co_await std::get<2>(s);
			else co_await std::get<3>(s);
		} catch (const std::logic_error&) { refused = true; }
		if (refused) VSEV("refused").k("a", 0).k("h", h);
		else bad(0, "awaited twice");
	}
	std::string show(const std::vector<Op>& p) {
		std::string s;
		for (auto o : p) s += std::string(" ") + o.k + (o.v ? hs::num(o.v) : "") + (o.w ? "," + hs::num(o.w) : "");
		return s;
	}
	void body(vs::Case& c) {
		auto& r = c.rng;
		Ctx x;
		int n = 1 + r(c.size == 0 ? 2 : 3);
		int ndisp = 1 + r(c.size == 0 ? 1 : 3);
		int nt = 101;
		int m = r.chance(40) ? 1 + r(2) : 0; // clients that run inside of fibers
		std::vector<int> nested;
		bool parks = r.chance(30);
		bool swallow = parks && r.chance(20);
		auto fiber_of = [&](auto& self, int depth) -> int {
			int t = nt++;
			x.mine[t];
			FibProg p;
			p.k = (Kind)r(3);
			p.round = r(4);
			int nops = r(depth == 0 ? 5 : 3);
			auto disp = [&] { return 2 * r(ndisp) + r(2); };
			for (int j = 0; j < nops; j++) {
				int w = r(100);
				if (!nested.empty() && r.chance(50)) {
					p.ops.push_back({'C', nested.back()});
					nested.pop_back();
					nops++;
				} else if (w < 35) p.ops.push_back({'H', disp(), r(4)});
				else if (w < 40) p.ops.push_back({'I', disp(), r(2)});
				else if (w < 45) p.ops.push_back({'F', disp()});
				else if (w < 50) p.ops.push_back({'R', disp()});
				else if (w < 55) p.ops.push_back({'T', disp()});
				else if (w < 58) p.ops.push_back({'G', 0});
				else if (w < 62) p.ops.push_back({'U', disp()});
				else if (w < 68) p.ops.push_back({'L', disp()});
				else if (w < 71) p.ops.push_back({'O', disp()});
				else if (depth < 3 && nt < 112) {
					int u = self(self, depth + 1);
					x.mine[t].push_back(u);
					if (r.chance(50)) p.ops.push_back({'w', u, u});
					else {
						p.ops.push_back({'N', u, u});
						auto& own = x.mine[t];
						if (r.chance(30)) p.ops.push_back({'M', own[(size_t)r((int)own.size())], u});
						if (r.chance(75)) p.ops.push_back({'W', own[(size_t)r((int)own.size())], r(2)});
						if (r.chance(30)) p.ops.push_back({'D', own[(size_t)r((int)own.size())]});
						if (r.chance(30)) p.ops.push_back({'W', own[(size_t)r((int)own.size())], r(2)});
					}
				}
			}
			if (parks && r.chance(35)) p.ops.push_back({swallow && r.chance(50) ? 'S' : 'K', disp()});
			x.fibs[t] = p;
			return t;
		};
		x.prog.resize((size_t)(n + m) + 1);
		for (int i = 1; i <= n + m; i++) {
			int a = i <= m ? n + i : i - m; // those that run inside come first
			if (i == m + 1)
				for (int b = 1; b <= m; b++) nested.push_back(n + b);
			auto& p = x.prog[(size_t)a];
			auto slot = [&] { return 10 * a + r(3); };
			int k = 1 + r(c.size == 0 ? 3 : 5);
			for (int j = 0; j < k; j++) {
				int w = r(100);
				if (w < 55 && nt < (a > n ? 105 : 109)) {
					int t = fiber_of(fiber_of, a > n ? 2 : 0), s = slot();
					p.push_back({'D', s});
					if (r.chance(35)) p.push_back({'w', t, s});
					else {
						p.push_back({'N', t, s});
						if (r.chance(25)) {
							int s2 = slot();
							p.push_back({'M', s2, s});
							s = s2;
						}
						if (r.chance(75)) p.push_back({'W', s, r(2)});
					}
				} else if (w < 68) p.push_back({'W', slot(), r(2)});
				else if (w < 83) p.push_back({'D', slot()});
				else if (w < 98) p.push_back({'M', slot(), slot()});
				else p.push_back({'E', 0});
			}
		}
		for (int a = 1; a <= n + m; a++)
			for (int k = 0; k < 3; k++) x.slots[10 * a + k], x.in[10 * a + k];
		for (int t = 101; t < 113; t++) x.slots[t], x.in[t], x.awaited[t], x.moved[t];
		int dropwaited = r(2);
		std::string sh;
		for (int a = 1; a <= n + m; a++) sh += hs::num(a) + ":" + show(x.prog[(size_t)a]) + "; ";
		for (auto& t : x.fibs) sh += hs::num(t.first) + " " + "viV"[t.second.k] + ":" + show(t.second.ops) + "; ";
		vs::set_case("{}", sh);
		hs::disps ds(ndisp);
		x.ds = &ds;
		hs::parallel(n, [&](int a) {
			with_registers(a, [&] { run(&x, a); });
			if (std::fegetround() != FE_TONEAREST) bad(a, "floating point environment of a thread");
		});
		ds.wait_idle();
		auto quiet = [&](bool all) {
			std::vector<int> s;
			for (int a = 1; a <= n + m; a++)
				if (x.waiting[a]) s.push_back(a);
			VSEV("quiesce").k("susp", s).k("all", all);
		};
		quiet(false);
		for (auto& s : x.slots)
			if (s.first < 100 && s.second.index() != 0 && x.waiting[s.first / 10] && x.awaited[x.in[s.first]]) {
				bool finished = s.second.index() == 1 ? std::get<1>(s.second).await().await_ready()
					: s.second.index() == 2 ? std::get<2>(s.second).await().await_ready() : std::get<3>(s.second).await().await_ready();
				if (finished) continue;
				probe(&x, (long)s.first);
				// what waits for it is not resumed when it is dropped
				if (dropwaited) drop(&x, 0, s.first);
			}
		quiet(false);
		// destroy what waits for ever, from the outside
		for (int a = 1; a <= n + m; a++)
			if (x.waiting[a]) {
				VSEV("call").k("a", 0).k("op", "kill").k("c", a).k("th", hs::th());
				x.waiting[a] = 0;
				std::exchange(x.frame[a], nullptr).destroy();
				VSEV("ret").k("a", 0);
			}
		for (auto& s : x.slots)
			if (s.first < 100) drop(&x, 0, s.first);
		quiet(true);
		ds.stop();
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
