// Conformance driver for L01: one async_launch_scope, clients on several threads, tasks that suspend and use the scope.
#include "vsched.h"
#define std vstd
#include <asyncpp/launch.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	// L launch task v, I invoke, T invoke_tuple, i invoke of an lvalue callable, J join, F join_future #v, P poll future #v, G get future #v,
	// Q tasks in flight, D destroy the scope (owner programs)
	struct Op { char k; int v; };
	struct TaskProg {
		int d = 0;      // dispatcher that continues it, 0: does not suspend
		int hops = 0;
		std::vector<Op> before, after;
	};
	struct Ctx {
		async_launch_scope* s;
		hs::disps* ds;
		std::vector<std::vector<Op>> prog;
		std::map<int, TaskProg> tasks;
		vstd::future<void> futs[8];
		vs::Raw made[8], got[8];
		std::map<int, std::unique_ptr<vs::Cell>> cell;
		vs::Raw waiting[8], running[128], ended[128];
		bool owner = false;
		int initiator = 0;
	};
	void ops(Ctx* x, int a, const std::vector<Op>& p);
	// what a task does; awaited by the wrapper coroutine of the scope
	struct Work {
		Ctx* x;
		int t;
		bool moved = false;
		Work(Ctx* x, int t) : x(x), t(t) {}
		Work(Work&& o) noexcept : x(o.x), t(std::exchange(o.t, 0)) {}
		bool await_ready() {
			VSEV("start").k("t", t).k("th", hs::th());
			x->running[t] = 1;
			ops(x, t, x->tasks[t].before);
			return x->tasks[t].d == 0;
		}
		void await_suspend(std::coroutine_handle<> h) { hop(x, t, h, x->tasks[t].hops); }
		static void hop(Ctx* x, int t, std::coroutine_handle<> h, int n) {
			x->ds->get(x->tasks[t].d)->push([x, t, h, n] {
				if (n > 0) hop(x, t, h, n - 1);
				else h.resume();
			});
		}
		void await_resume() {
			ops(x, t, x->tasks[t].after);
			x->cell[t]->write(1);
			x->running[t] = 0;
			x->ended[t] = 1;
			VSEV("end").k("t", t).k("th", hs::th());
		}
	};
	// a callable whose captures have to live as long as the task
	struct Callable {
		std::shared_ptr<int> alive = std::make_shared<int>(1);
		Ctx* x;
		int t;
		struct Aw {
			Callable* c;
			Work w;
			bool await_ready() { return w.await_ready(); }
			void await_suspend(std::coroutine_handle<> h) { w.await_suspend(h); }
			void await_resume() {
				if (*c->alive != 1) VSEV("bad").k("what", "callable gone");
				w.await_resume();
			}
		};
		Callable(Ctx* x, int t) : x(x), t(t) {}
		Aw operator()() { return Aw{this, Work{x, t}}; }
		Aw operator()(int v, const hs::Val& w) {
			if (v != 5 || w.v != 6) VSEV("bad").k("what", "arguments");
			return Aw{this, Work{x, t}};
		}
	};
	void op1(Ctx* x, int a, Op o) {
		switch (o.k) {
		case 'L':
		case 'I':
		case 'T':
		case 'i':
			vs::point();
			VSEV("call").k("a", a).k("op", "launch").k("t", o.v).k("sync", x->tasks[o.v].d == 0).k("th", hs::th());
			if (o.k == 'L') x->s->launch(Work{x, o.v});
			else if (o.k == 'I') x->s->invoke(Callable{x, o.v}, 5, hs::Val{6});
			else if (o.k == 'T') x->s->invoke_tuple(Callable{x, o.v}, std::make_tuple(5, hs::Val{6}));
			else {
				Callable c{x, o.v};
				x->s->invoke(c);
			}
			VSEV("ret").k("a", a).k("op", "launch");
			break;
		case 'F':
			vs::point();
			VSEV("call").k("a", a).k("op", "fut").k("f", o.v).k("th", hs::th());
			x->futs[o.v - 200] = x->s->join_future();
			x->made[o.v - 200] = 1;
			VSEV("ret").k("a", a).k("op", "fut");
			break;
		case 'P': {
			if (!x->made[o.v - 200] || x->got[o.v - 200]) break;
			vs::point();
			VSEV("call").k("a", a).k("op", "poll").k("f", o.v);
			bool v = x->futs[o.v - 200].wait_for(std::chrono::seconds(0)) == std::future_status::ready;
			VSEV("ret").k("a", a).k("op", "poll").k("v", v ? "yes" : "no");
			break;
		}
		case 'G': {
			if (!x->made[o.v - 200] || x->got[o.v - 200] || hs::cur() != 0) break;
			x->got[o.v - 200] = 1;
			auto f = std::move(x->futs[o.v - 200]);
			vs::point();
			VSEV("call").k("a", a).k("op", "get").k("f", o.v);
			const char* v = "ok";
			try {
				f.get();
			} catch (const std::logic_error&) { v = "dup"; }
			VSEV("ret").k("a", a).k("op", "get").k("v", v);
			break;
		}
		case 'Q': {
			vs::point();
			VSEV("call").k("a", a).k("op", "query");
			size_t v = x->s->inflight_coroutines();
			VSEV("ret").k("a", a).k("op", "query").k("v", (long)v);
			break;
		}
		}
	}
	void ops(Ctx* x, int a, const std::vector<Op>& p) {
		for (auto o : p) op1(x, a, o);
	}
	hs::actor client(Ctx* x, int a) {
		int q = 0;
		for (auto o : x->prog[(size_t)a]) {
			if (o.k == 'J') {
				vs::point();
				VSEV("call").k("a", a).k("op", "join").k("q", ++q).k("th", hs::th());
				x->waiting[a] = 1;
				const char* v = "ok";
				try {
					co_await hs::watch(a, q, x->s->join());
				} catch (const std::logic_error&) { v = "dup"; }
				x->waiting[a] = 0;
				VSEV("res").k("a", a).k("th", hs::th()).k("v", v);
				if (x->owner) // nobody else launches: everything launched so far is over and visible
					for (auto& c : x->cell)
						if (x->ended[c.first]) c.second->read();
			} else if (o.k == 'D') {
				delete x->s;
				x->s = nullptr;
			} else
				op1(x, a, o);
		}
	}
	void quiesce(Ctx& x, int n) {
		x.ds->wait_idle();
		std::vector<int> s, t;
		for (int a = 1; a <= n; a++)
			if (x.waiting[a]) s.push_back(a);
		for (auto& k : x.tasks)
			if (x.running[k.first]) t.push_back(k.first);
		VSEV("quiesce").k("susp", s).k("run", t);
	}
	std::string show(const std::vector<Op>& p) {
		std::string s;
		for (auto o : p) s += std::string(" ") + o.k + (o.v ? hs::num(o.v) : "");
		return s;
	}
	void body(vs::Case& c) {
		auto& r = c.rng;
		Ctx x;
		x.owner = r.chance(50);
		int n = x.owner ? 1 : 1 + r(c.size == 0 ? 2 : 3);
		int ndisp = 1 + r(c.size == 0 ? 1 : 3);
		int nt = 101, nf = 201;
		auto task = [&](auto& self, int depth) -> int {
			int t = nt++;
			TaskProg p;
			p.d = r.chance(25) ? 0 : 1 + r(ndisp);
			p.hops = r.chance(20) ? 1 : 0;
			x.cell[t] = std::make_unique<vs::Cell>();
			for (auto* v : {&p.before, &p.after})
				if (r.chance(25)) {
					if (depth < 2 && nt < 112 && r.chance(70)) v->push_back({"LITi"[r(4)], self(self, depth + 1)});
					else if (!x.owner && nf < 204 && r.chance(30)) v->push_back({'F', nf++});
					else v->push_back({'Q', 0});
				}
			x.tasks[t] = p;
			return t;
		};
		x.prog.resize((size_t)n + 1);
		std::string sh = x.owner ? "owner " : "";
		for (int a = 1; a <= n; a++) {
			auto& p = x.prog[(size_t)a];
			if (x.owner) {
				int rounds = 1 + r(c.size == 0 ? 1 : 3);
				for (int i = 0; i < rounds; i++) {
					int k = 1 + r(3);
					for (int j = 0; j < k && nt < 110; j++) {
						p.push_back({"LLITi"[r(5)], task(task, 0)});
						if (r.chance(15)) p.push_back({'Q', 0});
					}
					p.push_back({'J', 0});
					if (r.chance(30)) p.push_back({'Q', 0});
				}
				p.push_back({'D', 0});
			} else {
				int k = 1 + r(c.size == 0 ? 3 : 4);
				int own = 0; // the latest future of this client; nobody else uses it
				for (int j = 0; j < k; j++) {
					int w = r(100);
					if (w < 45 && nt < 110) p.push_back({"LLITi"[r(5)], task(task, 0)});
					else if (w < 75) p.push_back({'J', 0});
					else if (w < 85 && nf < 204) p.push_back({'F', own = nf++});
					else if (w < 93 && own) p.push_back({r.chance(60) ? 'P' : 'G', own});
					else p.push_back({'Q', 0});
				}
			}
			sh += hs::num(a) + ":" + show(p) + "; ";
		}
		for (auto& t : x.tasks)
			sh += hs::num(t.first) + "@" + hs::num(t.second.d) + (t.second.hops ? "+" : "") + ":" + show(t.second.before) + " |" + show(t.second.after) + "; ";
		vs::set_case("{}", sh);
		x.s = new async_launch_scope();
		auto s = x.s;
		hs::disps ds(ndisp);
		x.ds = &ds;
		hs::parallel(n, [&](int a) { client(&x, a); });
		quiesce(x, n);
		if (x.s) {
			for (int f = 201; f < 208; f++) op1(&x, 0, {'G', f});
			op1(&x, 0, {'Q', 0});
		}
		ds.stop();
		bool left = false;
		for (int a = 1; a <= n; a++) left |= (bool)x.waiting[a];
		if (left) vs::mark_dirty();
		else if (x.s == s) delete s;
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
