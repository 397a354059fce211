// Conformance driver for D01: simple dispatchers, their loops (also nested), tasks that push, stop and throw, and
// coroutines that defer themselves between them.
#include "vsched.h"
#define std vstd
#include <asyncpp/defer.h>
#include <asyncpp/simple_dispatcher.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	struct Op { char k; int d; int id; int var; }; // P push, E push empty, S stop, N run a loop, D defer, C coroutine, T throw
	struct Ctx {
		std::unique_ptr<simple_dispatcher> disp[3];
		std::vector<std::vector<Op>> prog;  // per client
		std::vector<std::vector<Op>> tprog; // per task or coroutine
		std::vector<std::unique_ptr<vs::Cell>> before, after;
		vstd::mutex bm;
		vstd::condition_variable bc;
		int ended = 0;
	};
	void op(Ctx* x, int a, Op o);
	int cur(Ctx* x) {
		auto d = dispatcher::current();
		if (d == nullptr) return 0;
		for (int i = 1; i <= 2; i++)
			if (x->disp[i] && d == static_cast<dispatcher*>(x->disp[i].get())) return i;
		return 99;
	}
	void starts(Ctx* x, int id) {
		VSEV("run").k("id", id).k("th", hs::th()).k("cur", cur(x));
		x->before[(size_t)(id - 100)]->read();
	}
	void count(Ctx* x) {
		std::unique_lock l(x->bm);
		x->ended++;
		x->bc.notify_all();
	}
	void ends(Ctx* x, int id, bool thrown) {
		x->after[(size_t)(id - 100)]->write(1);
		VSEV("end").k("id", id).k("cur", cur(x)).k("thrown", thrown);
		count(x);
	}
	struct boom {};
	bool run_loop(Ctx* x, int a, int d) {
		VSEV("call").k("a", a).k("op", "run").k("d", d).k("th", hs::th()).k("cur", cur(x));
		bool thrown = false;
		try {
			x->disp[d]->run();
		} catch (boom&) { thrown = true; }
		VSEV("ret").k("a", a).k("op", "run").k("thrown", thrown).k("cur", cur(x));
		return thrown;
	}
	hs::actor coro(Ctx* x, int a, std::vector<Op>* prog) {
		bool task = false;
		for (auto o : *prog) {
			if (o.k != 'D') {
				op(x, a, o);
				continue;
			}
			x->before[(size_t)(o.id - 100)]->write(1);
			VSEV("call").k("a", a).k("op", "defer").k("d", o.d).k("id", o.id).k("last", task && o.d != 0);
			if (task && o.d != 0) {
				x->after[(size_t)(a - 100)]->write(1);
				count(x);
			}
			if (o.var == 0) co_await defer{x->disp[o.d].get()};
			else if (o.var == 1 || o.d == 0) co_await defer<dispatcher>{static_cast<dispatcher*>(x->disp[o.d].get())};
			else co_await defer{*x->disp[o.d]};
			if (o.d == 0) {
				VSEV("ret").k("a", a).k("op", "defer");
				count(x);
				x->after[(size_t)(o.id - 100)]->write(1);
			} else {
				a = o.id;
				task = true;
				starts(x, a);
			}
		}
		if (task) ends(x, a, false);
	}
	void op(Ctx* x, int a, Op o) {
		vs::point();
		switch (o.k) {
		case 'P': {
			x->before[(size_t)(o.id - 100)]->write(1);
			VSEV("call").k("a", a).k("op", "push").k("d", o.d).k("id", o.id);
			x->disp[o.d]->push([x, id = o.id] {
				starts(x, id);
				bool thr = false;
				for (auto q : x->tprog[(size_t)(id - 100)]) {
					if (q.k == 'T') thr = true;
					else op(x, id, q);
				}
				ends(x, id, thr);
				if (thr) throw boom{};
			});
			VSEV("ret").k("a", a).k("op", "push");
			break;
		}
		case 'E':
			VSEV("call").k("a", a).k("op", "empty").k("d", o.d);
			x->disp[o.d]->push({});
			VSEV("ret").k("a", a).k("op", "empty");
			break;
		case 'S':
			VSEV("call").k("a", a).k("op", "stop").k("d", o.d);
			x->disp[o.d]->stop();
			VSEV("ret").k("a", a).k("op", "stop");
			break;
		case 'N': run_loop(x, a, o.d); break;
		case 'C': {
			auto& p = x->tprog[(size_t)o.id];
			bool away = false;
			for (auto& q : p) away = away || (q.k == 'D' && q.d != 0);
			coro(x, a, &p);
			if (away) VSEV("ret").k("a", a).k("op", "handoff");
			break;
		}
		default: break;
		}
	}
	void body(vs::Case& c) {
		auto& r = c.rng;
		Ctx x;
		for (int i = 0; i < 16; i++) {
			x.before.push_back(std::make_unique<vs::Cell>());
			x.after.push_back(std::make_unique<vs::Cell>());
		}
		x.tprog.resize(64);
		std::string show;
		int nid = 101, ncor = 20;
		int nd = 1 + r(2), ncl = 1 + r(c.size == 0 ? 2 : 3);
		int maxid = c.size == 0 ? 104 : 111;
		bool drain = r.chance(45);                  // wait for everything to run before stopping
		bool nested = nd == 2 && !drain && r.chance(60); // the loop of 2 is only run within tasks of 1
		bool throws = r.chance(30);
		std::function<std::vector<Op>(int, int, int, bool)> gen = [&](int k, int depth, int where, bool co) {
			std::vector<Op> v;
			for (int i = 0; i < k; i++) {
				int q = r(100);
				Op o{'.', 1 + r(nd), 0, r(3)};
				if (co && r.chance(60) && nid <= maxid) {
					o.k = 'D';
					if (r.chance(15)) o.d = 0;
					o.id = nid++;
					show += " defer#" + hs::num(o.id) + "@" + hs::num(o.d);
					v.push_back(o);
					continue;
				}
				if (q < 50 && nid <= maxid) {
					o.k = 'P';
					o.id = nid++;
					show += " push#" + hs::num(o.id) + "@" + hs::num(o.d);
					if (depth < 3 && r.chance(45)) {
						show += "(";
						x.tprog[(size_t)(o.id - 100)] = gen(1 + r(2), depth + 1, o.d, false);
						show += " )";
					}
					if (throws && r.chance(30)) x.tprog[(size_t)(o.id - 100)].push_back({'T', 0, 0, 0}), show += "!";
				} else if (q < 65 && !co && ncor < 60) {
					o.k = 'C';
					o.id = ncor++;
					show += " co(";
					x.tprog[(size_t)o.id] = gen(1 + r(4), 3, 0, true);
					show += " )";
				} else if (q < 70) o.k = 'E', show += " empty";
				else if (q < 82 && !drain) o.k = 'S', show += " stop" + hs::num(o.d);
				else if (q < 97 && nested && where == 1) o.k = 'N', o.d = 2, show += " run2";
				v.push_back(o);
			}
			return v;
		};
		x.prog.resize(4);
		for (int a = 1; a <= ncl; a++) {
			show += "; " + hs::num(a) + ":";
			x.prog[(size_t)a] = gen(1 + r(c.size == 0 ? 2 : 4), 0, 0, false);
		}
		show += nested ? "; 2 is run by tasks of 1" : "";
		show += drain ? "; stop when idle" : "; stop";
		vs::set_case("{}", show);
		for (int d = 1; d <= nd; d++) x.disp[d] = std::make_unique<simple_dispatcher>();
		{
			std::vector<vstd::thread> t, rt;
			for (int d = 1; d <= nd; d++)
				if (!(nested && d == 2))
					rt.emplace_back([d, &x] {
						vs::set_actor(10 + d);
						while (run_loop(&x, 10 + d, d)) {}
					});
			for (int a = 1; a <= ncl; a++)
				t.emplace_back([a, &x] {
					vs::set_actor(a);
					for (auto o : x.prog[(size_t)a]) op(&x, a, o);
				});
			vs::set_actor(0);
			for (auto& y : t) y.join();
			if (drain) {
				std::unique_lock l(x.bm);
				while (x.ended < nid - 101) x.bc.wait(l);
			}
			for (int d = 1; d <= nd; d++) op(&x, 0, {'S', d, 0, 0});
			for (auto& y : rt) y.join();
		}
		VSEV("quiesce");
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
