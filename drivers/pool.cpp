// Conformance driver for T01: one or two thread pools, clients pushing and resizing, tasks that push.
#include "vsched.h"
#define std vstd
#include <asyncpp/thread_pool.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	struct Op { char k; int p; int id; int n; }; // P push, E push empty, Z size, R resize, B barrier, . nothing
	struct Ctx {
		std::unique_ptr<thread_pool> pool[3];
		std::vector<std::vector<Op>> prog;  // per client
		std::vector<std::vector<Op>> tprog; // per task
		std::vector<std::vector<Op>> dprog; // run when the closure of the task is destroyed
		std::vector<std::unique_ptr<vs::Cell>> before, after;
		vstd::mutex bm;
		vstd::condition_variable bc;
		int bn = 0, bneed = 0;
		vs::Raw accepted[16];
	};
	void op(Ctx* x, int a, Op o);
	int pool_of(Ctx* x, dispatcher* d) {
		for (int p = 1; p <= 2; p++)
			if (x->pool[p] && d == static_cast<dispatcher*>(x->pool[p].get())) return p;
		return d == nullptr ? 0 : 99;
	}
	struct Tail { // lives as long as the closure of a task
		Ctx* x;
		int id;
		Tail(Ctx* c, int i) : x(c), id(i) {}
		Tail(const Tail&) = delete;
		~Tail() {
			for (auto o : x->dprog[(size_t)(id - 100)]) op(x, id + 100, o);
		}
	};
	struct Task {
		Ctx* x;
		int id;
		std::shared_ptr<Tail> tail;
		void operator()() {
			VSEV("run").k("id", id).k("th", hs::th()).k("cur", pool_of(x, dispatcher::current()));
			x->before[(size_t)(id - 100)]->read();
			for (auto o : x->tprog[(size_t)(id - 100)]) op(x, id, o);
			x->after[(size_t)(id - 100)]->write(1);
			VSEV("end").k("id", id);
		}
	};
	void op(Ctx* x, int a, Op o) {
		vs::point();
		switch (o.k) {
		case 'P': {
			x->before[(size_t)(o.id - 100)]->write(1);
			VSEV("call").k("a", a).k("op", "push").k("p", o.p).k("id", o.id).k("th", hs::th());
			int r = 1;
			std::function<void()> fn;
			if (x->dprog[(size_t)(o.id - 100)].empty()) fn = Task{x, o.id, nullptr};
			else fn = Task{x, o.id, std::make_shared<Tail>(x, o.id)};
			try {
				x->pool[o.p]->push(std::move(fn));
				x->accepted[o.id - 100] = 1;
			} catch (std::runtime_error&) { r = 0; }
			VSEV("ret").k("a", a).k("op", "push").k("r", r);
			break;
		}
		case 'E': {
			VSEV("call").k("a", a).k("op", "empty").k("p", o.p).k("th", hs::th());
			int r = 1;
			try {
				x->pool[o.p]->push(std::function<void()>{});
			} catch (std::runtime_error&) { r = 0; }
			VSEV("ret").k("a", a).k("op", "empty").k("r", r);
			break;
		}
		case 'Z':
			VSEV("call").k("a", a).k("op", "size").k("p", o.p).k("th", hs::th());
			VSEV("ret").k("a", a).k("op", "size").k("r", x->pool[o.p]->size());
			break;
		case 'R':
			VSEV("call").k("a", a).k("op", "resize").k("p", o.p).k("n", o.n).k("th", hs::th());
			x->pool[o.p]->resize((size_t)o.n);
			VSEV("ret").k("a", a).k("op", "resize");
			break;
		case 'B': {
			std::unique_lock l(x->bm);
			if (++x->bn >= x->bneed) x->bc.notify_all();
			while (x->bn < x->bneed) x->bc.wait(l);
			break;
		}
		default: break;
		}
	}
	void scenario(vs::Case& c) {
		auto& r = c.rng;
		Ctx x;
		for (int i = 0; i < 16; i++) {
			x.before.push_back(std::make_unique<vs::Cell>());
			x.after.push_back(std::make_unique<vs::Cell>());
		}
		x.tprog.resize(16);
		x.dprog.resize(16);
		int sz[3] = {0, 0, 0};
		std::string show;
		int nid = 101;
		int npool = 1, ncl = 1;
		if (r.chance(25)) {
			// every worker is usable: as many tasks as there are workers wait for each other
			int n = 1 + r(3), grow = r.chance(40), shrink = r.chance(30);
			sz[1] = grow ? r(n) : shrink ? n + 1 : n;
			x.bneed = n;
			x.prog.resize(2);
			if (sz[1] != n) x.prog[1].push_back({'R', 1, 0, n});
			if (r.chance(40)) { // from within a task
				int id = nid++;
				for (int i = 1; i < n; i++) {
					x.tprog[(size_t)(nid - 100)].push_back({'B', 0, 0, 0});
					x.tprog[(size_t)(id - 100)].push_back({'P', 1, nid++, 0});
				}
				x.tprog[(size_t)(id - 100)].push_back({'B', 0, 0, 0});
				x.prog[1].push_back({'P', 1, id, 0});
			} else
				for (int i = 0; i < n; i++) {
					x.tprog[(size_t)(nid - 100)].push_back({'B', 0, 0, 0});
					x.prog[1].push_back({'P', 1, nid++, 0});
				}
			show = "barrier of " + hs::num(n) + ", initial size " + hs::num(sz[1]);
		} else {
			npool = r.chance(30) ? 2 : 1;
			ncl = 1 + r(c.size == 0 ? 2 : 3);
			for (int p = 1; p <= npool; p++) sz[p] = r.chance(15) ? 0 : 1 + r(c.size == 0 ? 2 : 3);
			int maxid = c.size == 0 ? 106 : 111;
			bool tails = r.chance(15), resizes = r.chance(70);
			std::function<std::vector<Op>(int, int, int)> gen = [&](int k, int depth, int where) {
				std::vector<Op> v;
				for (int i = 0; i < k; i++) {
					int q = r(100);
					Op o{'.', 1 + r(npool), 0, 0};
					if (where && r.chance(60)) o.p = where;
					if (q < 60 && nid <= maxid) {
						o.k = 'P';
						o.id = nid++;
						show += " push#" + hs::num(o.id) + "@" + hs::num(o.p);
						if (depth < 3 && r.chance(45)) {
							show += "(";
							x.tprog[(size_t)(o.id - 100)] = gen(1 + r(2), depth + 1, o.p);
							show += " )";
						}
						if (tails && depth < 2 && r.chance(40)) {
							show += "~(";
							x.dprog[(size_t)(o.id - 100)] = gen(1, 3, o.p);
							show += " )";
						}
					} else if (q < 66) o.k = 'E', show += " empty";
					else if (q < 76) o.k = 'Z', show += " size";
					else if (q < 95 && depth == 0 && resizes) o.k = 'R', o.n = r(4), show += " resize@" + hs::num(o.p) + ":" + hs::num(o.n);
					v.push_back(o);
				}
				return v;
			};
			x.prog.resize((size_t)ncl + 1);
			for (int a = 1; a <= ncl; a++) {
				show += "; " + hs::num(a) + ":";
				x.prog[(size_t)a] = gen(1 + r(c.size == 0 ? 2 : 4), 0, 0);
			}
			show += "; sizes " + hs::num(sz[1]) + " " + hs::num(sz[2]);
		}
		bool plain = npool == 1 || false;
		vs::set_case("{\"sizes\":[" + hs::num(sz[1]) + "," + hs::num(sz[2]) + "]}", show);
		for (int p = 1; p <= npool; p++) x.pool[p] = std::make_unique<thread_pool>((size_t)sz[p]);
		{
			std::vector<vstd::thread> t;
			for (int a = 1; a <= ncl; a++)
				t.emplace_back([a, &x] {
					vs::set_actor(a);
					for (auto o : x.prog[(size_t)a]) op(&x, a, o);
				});
			vs::set_actor(0);
			for (auto& y : t) y.join();
			std::unique_lock l(x.bm); // workers in a barrier need each other
			while (x.bn < x.bneed) x.bc.wait(l);
		}
		if (!plain)
			for (int p = 1; p <= npool; p++) op(&x, 0, {'R', p, 0, 0});
		for (int p = 1; p <= npool; p++) {
			VSEV("call").k("a", 0).k("op", "destroy").k("p", p).k("th", hs::th());
			delete x.pool[p].get(); // tasks may still look at the pool they run on
			(void)x.pool[p].release();
			VSEV("ret").k("a", 0).k("op", "destroy");
		}
		for (int i = 1; i < 16; i++)
			if (x.accepted[i]) x.after[(size_t)i]->read();
		VSEV("quiesce");
	}
	void body(vs::Case& c) {
		// in a thread of its own, so that thread-local state starts afresh in every run
		vstd::thread t([&] { scenario(c); });
		t.join();
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
