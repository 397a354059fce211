// Conformance driver for K04 and K05: fire_and_forget_task, eager_fire_and_forget_task, launch() and as_promise().
#include "vsched.h"
#define std vstd
#include <asyncpp/fire_and_forget.h>
#include <asyncpp/launch.h>
#include <asyncpp/sync_wait.h>
#undef std
#include "harness.h"
#include <optional>

using namespace asyncpp;
namespace {
	enum Kind { lazy, eager, launched, fut_int, fut_void, fut_auto };
	const char* kind_name(Kind k) { return k == lazy ? "lazy" : k == eager ? "eager" : k == launched ? "launch" : "future"; }
	// N create task v (handle in slot w), S start slot v, D drop slot v, C copy slot w to v, M move slot w to v, P poll future v, G get future v
	// in tasks: H hop to dispatcher v, p policy v, X throw
	struct Op { char k; int v; int w = 0; };
	struct TaskProg {
		Kind k;
		std::vector<Op> ops;
	};
	struct Ctx;
	struct Slot {
		std::optional<fire_and_forget_task<>> l;
		std::optional<eager_fire_and_forget_task<>> e;
		bool empty() const { return !l && !e; }
		void drop() {
			l.reset();
			e.reset();
		}
	};
	struct Ctx {
		hs::disps* ds;
		std::map<int, TaskProg> tasks;
		std::map<int, Slot> slots;
		std::map<int, vstd::future<void>> fv;
		std::map<int, vstd::future<hs::Val>> fi;
		std::vector<std::vector<Op>> prog;
	};
	// lives in the frame of the task
	struct Witness {
		int t;
		explicit Witness(int t) : t(t) {}
		Witness(Witness&& o) noexcept : t(std::exchange(o.t, 0)) {}
		~Witness() {
			if (t) VSEV("gone").k("t", t).k("th", hs::th());
		}
	};
	int value_of(int t) { return t + 1000; }
	void op1(Ctx* x, int a, Op o);
	exception_policy policy(int t, int p) {
		if (p == 0) return exception_policy::terminate;
		if (p == 1) return exception_policy::ignore;
		return exception_policy::handle([t] {
			int v = -1;
			try {
				std::rethrow_exception(std::current_exception());
			} catch (int w) { v = w; }
			VSEV("handled").k("t", t).k("v", v).k("th", hs::th());
		});
	}
	struct HopAw {
		Ctx* x;
		int t, d;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> h) {
			auto disp = x->ds->get(d);
			VSEV("hop").k("t", t);
			disp->push([h] { h.resume(); });
		}
		void await_resume() { VSEV("back").k("t", t).k("th", hs::th()); }
	};
	// the body of a fire_and_forget task
	template<typename T>
	T detached(Ctx* x, int t, Witness w) {
		VSEV("start").k("t", t).k("th", hs::th());
		auto mine = std::make_unique<int>(t); // a local: must survive every suspension
		for (auto o : x->tasks[t].ops) {
			if (o.k == 'H') co_await HopAw{x, t, o.v};
			else if (o.k == 'p') {
				auto p = policy(t, o.v);
				VSEV("pol").k("t", t).k("p", o.v);
				co_await std::move(p);
			} else if (o.k == 'X') {
				VSEV("throw").k("t", t).k("v", value_of(t));
				throw value_of(t);
			} else
				op1(x, t, o);
		}
		VSEV("end").k("t", *mine == t && w.t == t ? t : 0).k("v", 0);
	}
	// an awaitable that suspends at most once
	template<typename R>
	struct Work {
		Ctx* x;
		int t;
		Witness w;
		size_t i = 0;
		bool away = false;
		Work(Ctx* x, int t) : x(x), t(t), w(t) {}
		Work(Work&& o) noexcept = default;
		bool await_ready() {
			VSEV("start").k("t", t).k("th", hs::th());
			auto& p = x->tasks[t].ops;
			for (; i < p.size(); i++) {
				if (p[i].k == 'H') return false;
				step(p[i]);
			}
			return true;
		}
		void await_suspend(std::coroutine_handle<> h) {
			auto disp = x->ds->get(x->tasks[t].ops[i].v);
			away = true;
			i++;
			VSEV("hop").k("t", t);
			disp->push([h] { h.resume(); });
		}
		R await_resume() {
			if (away) VSEV("back").k("t", t).k("th", hs::th());
			auto& p = x->tasks[t].ops;
			for (; i < p.size(); i++) step(p[i]);
			bool val = !std::is_void_v<R>;
			VSEV("end").k("t", t).k("v", val ? value_of(t) : 0);
			if constexpr (!std::is_void_v<R>) return R{value_of(t)};
		}
		void step(Op o) {
			if (o.k == 'X') {
				VSEV("throw").k("t", t).k("v", value_of(t));
				throw value_of(t);
			}
			op1(x, t, o);
		}
	};
	template<typename F>
	void get_future(Ctx* x, int a, int t, F& f) {
		auto g = std::move(f);
		vs::point();
		VSEV("call").k("a", a).k("op", "get").k("t", t);
		int v = 0;
		bool exc = false;
		try {
			if constexpr (std::is_void_v<decltype(g.get())>) g.get();
			else v = g.get().v;
		} catch (int e) {
			v = e;
			exc = true;
		}
		VSEV("ret").k("a", a).k("op", "get").k("v", v).k("exc", exc);
	}
	void op1(Ctx* x, int a, Op o) {
		auto slot = [&](int s) -> Slot& { return x->slots.at(s); };
		switch (o.k) {
		case 'N': {
			int t = o.v;
			Kind k = x->tasks[t].k;
			vs::point();
			VSEV("call").k("a", a).k("op", "create").k("t", t).k("k", kind_name(k)).k("h", k <= eager ? o.w : 0).k("th", hs::th());
			switch (k) {
			case lazy: slot(o.w).l.emplace(detached<fire_and_forget_task<>>(x, t, Witness{t})); break;
			case eager: slot(o.w).e.emplace(detached<eager_fire_and_forget_task<>>(x, t, Witness{t})); break;
			case launched: launch(Work<void>{x, t}); break;
			case fut_int: x->fi.at(t) = as_promise<hs::Val>(Work<hs::Val>{x, t}); break;
			case fut_void: x->fv.at(t) = as_promise<void>(Work<void>{x, t}); break;
			case fut_auto: x->fi.at(t) = as_promise(Work<hs::Val>{x, t}); break;
			}
			VSEV("ret").k("a", a).k("op", "create");
			break;
		}
		case 'S': {
			auto& s = slot(o.v);
			if (!s.l) break;
			vs::point();
			VSEV("call").k("a", a).k("op", "start").k("h", o.v).k("g", 0).k("th", hs::th());
			s.l->start();
			if (s.l) s.l->start(); // has no effect: the first call gave up the handle (the task might have destroyed it)
			s.l.reset();
			VSEV("ret").k("a", a).k("op", "op");
			break;
		}
		case 'D': {
			auto& s = slot(o.v);
			if (s.empty()) break;
			vs::point();
			VSEV("call").k("a", a).k("op", "drop").k("h", o.v).k("g", 0).k("th", hs::th());
			s.drop();
			VSEV("ret").k("a", a).k("op", "op");
			break;
		}
		case 'C':
		case 'M': {
			auto &d = slot(o.v), &s = slot(o.w);
			if (s.empty() || (d.l && s.e) || (d.e && s.l)) break;
			vs::point();
			VSEV("call").k("a", a).k("op", o.k == 'C' ? "copy" : "move").k("h", o.v).k("g", o.w).k("th", hs::th());
			if (o.k == 'C') d = s; // optional: constructs or assigns
			else {
				d = std::move(s);
				if (&d != &s) s.drop();
			}
			VSEV("ret").k("a", a).k("op", "op");
			break;
		}
		case 'P': {
			if (!x->fi.at(o.v).valid() && !x->fv.at(o.v).valid()) break;
			vs::point();
			VSEV("call").k("a", a).k("op", "poll").k("t", o.v);
			bool v = x->fi.at(o.v).valid() ? x->fi.at(o.v).wait_for(std::chrono::seconds(0)) == std::future_status::ready
										   : x->fv.at(o.v).wait_for(std::chrono::seconds(0)) == std::future_status::ready;
			VSEV("ret").k("a", a).k("op", "poll").k("v", v);
			break;
		}
		case 'G':
			if (x->fi.at(o.v).valid()) get_future(x, a, o.v, x->fi.at(o.v));
			else if (x->fv.at(o.v).valid()) get_future(x, a, o.v, x->fv.at(o.v));
			break;
		}
	}
	std::string show(const std::vector<Op>& p) {
		std::string s;
		for (auto o : p) s += std::string(" ") + o.k + hs::num(o.v) + (o.w ? "," + hs::num(o.w) : "");
		return s;
	}
	void body(vs::Case& c) {
		std::set_terminate([] { vs::abort_run("terminated", ""); });
		auto& r = c.rng;
		bool futures = vs::variant() == "future";
		Ctx x;
		int n = 1 + r(c.size == 0 ? 2 : 3);
		int ndisp = 1 + r(c.size == 0 ? 1 : 2);
		int nt = 101;
		bool may_die = r.chance(1);
		auto kind = [&]() -> Kind {
			if (futures) return (Kind)(fut_int + r(3));
			int w = r(100);
			return w < 50 ? lazy : w < 85 ? eager : launched;
		};
		auto task = [&](auto& self, int depth) -> int {
			int t = nt++;
			auto& p = x.tasks[t];
			p.k = kind();
			bool work = p.k >= launched;
			bool handled = p.k >= fut_int;
			auto& v = p.ops;
			int hops = 0, m = r(4);
			auto nested = [&] {
				if (depth >= 2 || nt >= 112) return;
				int u = self(self, depth + 1);
				// the task destroys the handle it was started with
				if (x.tasks[u].k == lazy && r.chance(30)) x.tasks[u].ops.insert(x.tasks[u].ops.begin(), Op{'D', u});
				v.push_back({'N', u, u});
				if (x.tasks[u].k == lazy && r.chance(75)) v.push_back({'S', u});
				if (x.tasks[u].k <= eager && r.chance(30)) v.push_back({'D', u});
			};
			for (int j = 0; j < m; j++) {
				int w = r(100);
				if (w < 50) {
					if (work && hops) continue;
					hops++;
					v.push_back({'H', 1 + r(ndisp)});
				} else if (w < 75 && !work) {
					int pol = r(100) < 10 ? 0 : 1 + r(2);
					handled = pol != 0;
					v.push_back({'p', pol});
				} else if (r.chance(40))
					nested();
			}
			if ((handled || may_die) && r.chance(50)) v.push_back({'X', 0});
			return t;
		};
		auto have = [&](int s) { x.slots[s]; };
		x.prog.resize((size_t)n + 1);
		for (int a = 1; a <= n; a++)
			for (int k = 0; k < 3; k++) have(10 * a + k);
		for (int t = 101; t <= 112; t++) {
			have(t);
			x.fi[t];
			x.fv[t];
		}
		auto slot = [&](int a) { return 10 * a + r(3); };
		std::vector<std::vector<int>> futs((size_t)n + 1);
		// made by the main thread, shared by the clients
		int shared = r.chance(70) ? 1 + r(2) : 0;
		for (int j = 0; j < shared; j++) {
			int t = task(task, 0), a = 1 + r(n), s = slot(a);
			if (x.tasks[t].k <= eager) x.prog[0].push_back({'D', s});
			x.prog[0].push_back({'N', t, s});
			if (x.tasks[t].k <= eager)
				for (int b = 1; b <= n; b++)
					if (b != a && r.chance(70)) x.prog[0].push_back({'C', slot(b), s});
			if (x.tasks[t].k >= fut_int) futs[(size_t)a].push_back(t);
		}
		for (int a = 1; a <= n; a++) {
			auto& p = x.prog[(size_t)a];
			int k = 1 + r(c.size == 0 ? 3 : 5);
			for (int j = 0; j < k; j++) {
				int w = r(100);
				if (w < 35 && nt < 110) {
					int t = task(task, 0), s = slot(a);
					if (x.tasks[t].k <= eager) p.push_back({'D', s});
					p.push_back({'N', t, s});
					if (x.tasks[t].k == lazy && r.chance(50)) p.push_back({'S', s});
					if (x.tasks[t].k >= fut_int) futs[(size_t)a].push_back(t);
				} else if (futures) {
					auto& f = futs[(size_t)a];
					if (!f.empty()) p.push_back({r.chance(50) ? 'P' : 'G', f[(size_t)r((int)f.size())]});
				} else if (w < 55) p.push_back({'S', slot(a)});
				else if (w < 75) p.push_back({'D', slot(a)});
				else p.push_back({r.chance(50) ? 'C' : 'M', slot(a), slot(a)});
			}
		}
		std::string sh = may_die ? "may terminate " : "";
		for (int a = 0; a <= n; a++) sh += hs::num(a) + ":" + show(x.prog[(size_t)a]) + "; ";
		for (auto& t : x.tasks) sh += hs::num(t.first) + " " + "lelIVA"[t.second.k] + ":" + show(t.second.ops) + "; ";
		vs::set_case("{}", sh);
		hs::disps ds(ndisp);
		x.ds = &ds;
		for (auto o : x.prog[0]) op1(&x, 0, o);
		hs::parallel(n, [&](int a) {
			for (auto o : x.prog[(size_t)a]) op1(&x, a, o);
		});
		if (r.chance(50)) {
			ds.wait_idle();
			VSEV("quiesce").k("all", false);
		}
		for (auto& s : x.slots)
			if (s.first < 100) op1(&x, 0, {'D', s.first});
		ds.wait_idle();
		for (auto& s : x.slots) op1(&x, 0, {'D', s.first}); // the ones the tasks used
		VSEV("quiesce").k("all", true);
		ds.stop();
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
