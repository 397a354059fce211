// Conformance driver for K01: task<T> created, moved, awaited (nested), dropped, on several threads.
#include "vsched.h"
#define std vstd
#include <asyncpp/task.h>
#undef std
#include "harness.h"
#include <optional>
#include <variant>

using namespace asyncpp;
namespace {
	enum Kind { k_val, k_int, k_void };
	// N create task v in slot w, W await slot v (w: as an rvalue), w create task v and await it as a temporary, D drop slot v, M move slot w to v
	// H hop to dispatcher v, K suspend for good, X throw
	struct Op { char k; int v; int w = 0; };
	struct TaskProg {
		Kind k;
		std::vector<Op> ops;
	};
	using Slot = std::variant<std::monostate, task<hs::Val>, task<int>, task<void>>;
	struct Ctx {
		hs::disps* ds;
		std::map<int, TaskProg> tasks;
		std::map<int, Slot> slots;
		std::map<int, std::vector<int>> mine; // slots that are local variables of a task
		std::vector<std::vector<Op>> prog;
		std::map<int, int> in; // task in a slot
		std::map<int, int> awaited;
		std::coroutine_handle<> frame[8];
		vs::Raw waiting[8];
	};
	struct Witness {
		int t;
		explicit Witness(int t) : t(t) {}
		Witness(Witness&& o) noexcept : t(std::exchange(o.t, 0)) {}
		~Witness() {
			if (t) VSEV("gone").k("t", t).k("th", hs::th());
		}
	};
	struct Local {
		Ctx* x;
		int t;
		~Local() {
			for (int s : x->mine.at(t)) x->slots.at(s).emplace<0>();
			VSEV("left").k("t", t).k("th", hs::th());
		}
	};
	int value_of(int t) { return t + 1000; }
	struct HopAw {
		Ctx* x;
		int t, d;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> h) {
			auto disp = x->ds->get(d);
			VSEV("hop").k("t", t);
			disp->push([h] { h.resume(); });
		}
		void await_resume() { VSEV("back").k("t", t).k("th", hs::th()); }
	};
	struct ParkAw {
		int t;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<>) { VSEV("park").k("t", t); }
		void await_resume() {}
	};
	void res(int a, int t, int v, bool exc) { VSEV("res").k("a", a).k("t", t).k("v", v).k("exc", exc).k("th", hs::th()); }
	// the coroutine of a client
	struct client {
		struct promise_type {
			Ctx* x;
			int a;
			promise_type(Ctx* x, int a, Witness&) : x(x), a(a) {}
			VS_NOTSAN client get_return_object() noexcept { return {}; }
			std::suspend_never initial_suspend() noexcept {
				x->frame[a] = std::coroutine_handle<promise_type>::from_promise(*this);
				return {};
			}
			std::suspend_never final_suspend() noexcept {
				x->frame[a] = nullptr;
				return {};
			}
			void return_void() noexcept {}
			void unhandled_exception() noexcept { VSEV("exc"); }
		};
	};
	template<typename T>
	struct result_of { using type = void; };
	template<typename T>
	struct result_of<task<T>> { using type = T; };
	template<typename Ret>
	Ret run(Ctx* x, int a, Witness w);
	void create(Ctx* x, int a, int t, int h) {
		auto& s = x->slots.at(h);
		if (s.index() != 0) return;
		vs::point();
		VSEV("create").k("a", a).k("t", t).k("h", h);
		x->in.at(h) = t;
		switch (x->tasks[t].k) {
		case k_val: s.emplace<1>(run<task<hs::Val>>(x, t, Witness{t})); break;
		case k_int: s.emplace<2>(run<task<int>>(x, t, Witness{t})); break;
		case k_void: s.emplace<3>(run<task<void>>(x, t, Witness{t})); break;
		}
	}
	void drop(Ctx* x, int a, int h) {
		auto& s = x->slots.at(h);
		if (s.index() == 0) return;
		vs::point();
		VSEV("call").k("a", a).k("op", "drop").k("h", h).k("g", 0).k("th", hs::th());
		s.emplace<0>();
		VSEV("ret").k("a", a);
	}
	void move(Ctx* x, int a, int h, int g) {
		auto &d = x->slots.at(h), &s = x->slots.at(g);
		if (s.index() == 0 || (d.index() != 0 && d.index() != s.index())) return;
		vs::point();
		VSEV("call").k("a", a).k("op", "move").k("h", h).k("g", g).k("th", hs::th());
		d = std::move(s); // constructs, or assigns if both are tasks of the same type
		if (h != g) {
			x->in.at(h) = x->in.at(g);
			s.emplace<0>();
		}
		VSEV("ret").k("a", a);
	}
#define AWAIT1(R, EXPR) \
	{ \
		if constexpr (std::is_void_v<R>) { \
			co_await EXPR; \
			v = 0; \
		} else if constexpr (std::is_same_v<R, int>) v = co_await EXPR; \
		else { \
			auto r = co_await EXPR; \
			v = r.v; \
		} \
	}
#define AWAIT_SLOT(R) \
	{ \
		auto& tsk = std::get<task<R>>(s); \
		if (o.w) AWAIT1(R, std::move(tsk)) \
		else AWAIT1(R, tsk) \
	}
	// client a or task a
	template<typename Ret>
	Ret run(Ctx* x, int a, Witness w) {
		using R = typename result_of<Ret>::type;
		constexpr bool is_task = !std::is_same_v<Ret, client>;
		std::optional<Local> local;
		if constexpr (is_task) {
			local.emplace(x, a);
			VSEV("start").k("t", a).k("th", hs::th());
		}
		const int val = std::is_void_v<R> ? 0 : value_of(a); // must survive every suspension
		for (auto o : is_task ? x->tasks[a].ops : x->prog[(size_t)a]) {
			switch (o.k) {
			case 'N': create(x, a, o.v, o.w); break;
			case 'D': drop(x, a, o.v); break;
			case 'M': move(x, a, o.v, o.w); break;
			case 'H': co_await HopAw{x, a, o.v}; break;
			case 'K': co_await ParkAw{a}; break;
			case 'X':
				VSEV("end").k("t", a).k("v", value_of(a)).k("exc", true);
				throw value_of(a);
			case 'W': {
				auto& s = x->slots.at(o.v);
				int t = x->in.at(o.v), v = -1;
				if (s.index() == 0 || x->awaited.at(t)) break;
				bool exc = false;
				x->awaited.at(t) = 1;
				vs::point();
				VSEV("await").k("a", a).k("h", o.v).k("temp", false).k("th", hs::th());
				if (!is_task) x->waiting[a] = 1;
				try {
					if (s.index() == 1) AWAIT_SLOT(hs::Val)
					else if (s.index() == 2) AWAIT_SLOT(int)
					else AWAIT_SLOT(void)
				} catch (int e) {
					v = e;
					exc = true;
				}
				if (!is_task) x->waiting[a] = 0;
				res(a, t, v, exc);
				break;
			}
			case 'w': {
				auto& s = x->slots.at(o.w);
				int t = o.v, v = -1;
				if (s.index() != 0) break;
				bool exc = false;
				x->awaited.at(t) = 1;
				vs::point();
				VSEV("create").k("a", a).k("t", t).k("h", o.w);
				VSEV("await").k("a", a).k("h", o.w).k("temp", true).k("th", hs::th());
				if (!is_task) x->waiting[a] = 1;
				try {
					if (x->tasks[t].k == k_val) AWAIT1(hs::Val, run<task<hs::Val>>(x, t, Witness{t}))
					else if (x->tasks[t].k == k_int) AWAIT1(int, run<task<int>>(x, t, Witness{t}))
					else AWAIT1(void, run<task<void>>(x, t, Witness{t}))
				} catch (int e) {
					v = e;
					exc = true;
				}
				if (!is_task) x->waiting[a] = 0;
				res(a, t, v, exc);
				break;
			}
			}
		}
		if constexpr (is_task) VSEV("end").k("t", w.t).k("v", val).k("exc", false);
		if constexpr (std::is_void_v<R>) co_return;
		else if constexpr (std::is_same_v<R, int>) co_return val;
		else co_return hs::Val{val};
	}
	std::string show(const std::vector<Op>& p) {
		std::string s;
		for (auto o : p) s += std::string(" ") + o.k + (o.v ? hs::num(o.v) : "") + (o.w ? "," + hs::num(o.w) : "");
		return s;
	}
	void body(vs::Case& c) {
		auto& r = c.rng;
		Ctx x;
		int n = 1 + r(c.size == 0 ? 2 : 3);
		int ndisp = 1 + r(c.size == 0 ? 1 : 3);
		int nt = 101;
		bool parks = r.chance(20);
		// uses task t from slots own: create, then await, drop or move
		auto task_of = [&](auto& self, int depth) -> int {
			int t = nt++;
			x.mine[t];
			TaskProg p;
			p.k = (Kind)r(3);
			int m = r(depth == 0 ? 4 : 3);
			for (int j = 0; j < m; j++) {
				int w = r(100);
				if (w < 45) p.ops.push_back({'H', 1 + r(ndisp)});
				else if (depth < 3 && nt < 112) {
					int u = self(self, depth + 1);
					x.mine[t].push_back(u);
					if (r.chance(50)) p.ops.push_back({'w', u, u});
					else {
						p.ops.push_back({'N', u, u});
						auto& own = x.mine[t];
						if (r.chance(30)) p.ops.push_back({'M', own[(size_t)r((int)own.size())], u});
						if (r.chance(75)) p.ops.push_back({'W', own[(size_t)r((int)own.size())], r(2)});
						if (r.chance(30)) p.ops.push_back({'D', own[(size_t)r((int)own.size())]});
					}
				}
			}
			if (r.chance(25)) p.ops.push_back({'X', 0});
			else if (parks && r.chance(30)) p.ops.push_back({'K', 0});
			x.tasks[t] = p;
			return t;
		};
		x.prog.resize((size_t)n + 1);
		for (int a = 1; a <= n; a++) {
			auto& p = x.prog[(size_t)a];
			auto slot = [&] { return 10 * a + r(3); };
			int k = 1 + r(c.size == 0 ? 3 : 5);
			for (int j = 0; j < k; j++) {
				int w = r(100);
				if (w < 55 && nt < 109) {
					int t = task_of(task_of, 0), s = slot();
					if (r.chance(35)) {
						p.push_back({'D', s});
						p.push_back({'w', t, s});
					} else {
						p.push_back({'D', s});
						p.push_back({'N', t, s});
						if (r.chance(25)) {
							int s2 = slot();
							p.push_back({'M', s2, s});
							s = s2;
						}
						if (r.chance(75)) p.push_back({'W', s, r(2)});
					}
				} else if (w < 70) p.push_back({'W', slot(), r(2)});
				else if (w < 85) p.push_back({'D', slot()});
				else p.push_back({'M', slot(), slot()});
			}
		}
		for (int a = 1; a <= n; a++)
			for (int k = 0; k < 3; k++) x.slots[10 * a + k], x.in[10 * a + k];
		for (int t = 101; t < 113; t++) x.slots[t], x.in[t], x.awaited[t];
		std::string sh;
		for (int a = 1; a <= n; a++) sh += hs::num(a) + ":" + show(x.prog[(size_t)a]) + "; ";
		for (auto& t : x.tasks) sh += hs::num(t.first) + " " + "viV"[t.second.k] + ":" + show(t.second.ops) + "; ";
		vs::set_case("{}", sh);
		hs::disps ds(ndisp);
		x.ds = &ds;
		hs::parallel(n, [&](int a) { run<client>(&x, a, Witness{0}); });
		ds.wait_idle();
		auto quiet = [&](bool all) {
			std::vector<int> s;
			for (int a = 1; a <= n; a++)
				if (x.waiting[a]) s.push_back(a);
			VSEV("quiesce").k("susp", s).k("all", all);
		};
		quiet(false);
		// destroy what waits for ever, from the outside
		for (int a = 1; a <= n; a++)
			if (x.waiting[a]) {
				VSEV("call").k("a", 0).k("op", "kill").k("c", a).k("th", hs::th());
				x.waiting[a] = 0;
				std::exchange(x.frame[a], nullptr).destroy();
				VSEV("ret").k("a", 0);
			}
		for (auto& s : x.slots)
			if (s.first < 100) drop(&x, 0, s.first);
		quiet(true);
		ds.stop();
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
