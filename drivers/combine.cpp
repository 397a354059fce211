// Conformance driver for P02: promise_first, promise_first_successful and promise_all.
#include "vsched.h"
#define std vstd
#include <asyncpp/promise.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	struct Err { int v; };
	struct Res { int v; explicit Res(int x) : v(x) {} template<typename A> explicit Res(const A& a) requires requires { a.alt; } : v(a.alt) {} };
	struct Alt { int alt; explicit Alt(int x) : alt(x) {} };
	struct Op { char k; int i; bool rej; int v; };
	struct Input { // one of the three is used
		promise<Res> r;
		promise<Alt> a;
		promise<void> w;
		int type = 0;
		bool settle(bool rej, int v) {
			auto e = [v] { return std::make_exception_ptr(Err{v}); };
			switch (type) {
			case 0: return rej ? r.try_reject(e()) : r.try_fulfill(Res(v));
			case 1: return rej ? a.try_reject(e()) : a.try_fulfill(Alt(v));
			default: return rej ? w.try_reject(e()) : w.try_fulfill();
			}
		}
	};
	struct Ctx {
		std::vector<Input> in; // 1-based
		std::vector<int> args;
		int kind = 0;
		std::unique_ptr<promise<Res>> res;
		std::unique_ptr<promise<void>> vres;
		std::vector<std::vector<Op>> prog;
		std::vector<std::unique_ptr<vs::Cell>> cell;
		vs::Raw waiting[12];
		std::vector<int> winner; // of the inputs that only one operation can have settled
	};
	int outcome(const std::exception_ptr& e) {
		try {
			std::rethrow_exception(e);
		} catch (Err& x) { return x.v; } catch (...) {
			return -1;
		}
	}
	void seen(Ctx* x, int v) {
		if (v > 0 && v < (int)x->cell.size() && x->cell[(size_t)v]) x->cell[(size_t)v]->read();
	}
	// everything that was done before any of the inputs settled is visible once promise_all is fulfilled
	void seen_all(Ctx* x) {
		if (x->kind != 2) return;
		for (int i : x->args) seen(x, x->winner[(size_t)i]);
	}
	void do_settle(Ctx* x, int a, Op op) {
		if (x->cell[(size_t)op.v]) x->cell[(size_t)op.v]->write(1);
		VSEV("call").k("a", a).k("op", "settle").k("i", op.i).k("k", op.rej ? "r" : "f").k("v", op.v).k("th", hs::th());
		bool r = x->in[(size_t)op.i].settle(op.rej, op.v);
		VSEV("ret").k("a", a).k("op", "settle").k("r", (int)r);
	}
	void look(Ctx* x, int a, const char* k, int v) {
		VSEV("ret").k("a", a).k("op", "look").k("k", k).k("v", v);
		seen(x, v);
	}
	void observe(Ctx* x, int a, char k) {
		vs::point();
		VSEV("call").k("a", a).k("op", k == 'g' ? "get" : "tryget");
		try {
			if (x->kind == 2) {
				if (k == 'g') {
					x->vres->get();
					look(x, a, "f", 0);
					seen_all(x);
				} else {
					bool f = x->vres->try_get();
					look(x, a, f ? "f" : "p", 0);
					if (f) seen_all(x);
				}
			} else if (k == 'g') look(x, a, "f", x->res->get().v);
			else {
				auto p = x->res->try_get();
				if (p) look(x, a, "f", p->v);
				else look(x, a, "p", 0);
			}
		} catch (Err& e) { look(x, a, "r", e.v); }
	}
	hs::actor waiter(Ctx* x, int a) {
		VSEV("call").k("a", a).k("op", "await").k("q", 1).k("th", hs::th());
		x->waiting[a] = 1;
		const char* k = "f";
		int v = 0;
		try {
			if (x->kind == 2) co_await hs::watch(a, 1, *x->vres);
			else {
				Res& r = co_await hs::watch(a, 1, *x->res);
				v = r.v;
			}
		} catch (Err& e) {
			k = "r";
			v = e.v;
		}
		x->waiting[a] = 0;
		VSEV("res").k("a", a).k("k", k).k("v", v).k("th", hs::th());
		seen(x, v);
		seen_all(x);
		observe(x, a, 'y');
	}
	template<typename... A>
	void combine_all(Ctx* x, A... a) { x->vres = std::make_unique<promise<void>>(promise_all(a...)); }
	template<typename... A>
	void combine_one(Ctx* x, A... a) {
		if (x->kind == 0) x->res = std::make_unique<promise<Res>>(promise_first<Res>(a...));
		else x->res = std::make_unique<promise<Res>>(promise_first_successful<Res>(a...));
	}
	template<typename... A>
	void combine_same(Ctx* x, A... a) {
		if (x->kind == 2) combine_all(x, a...);
		else combine_one(x, a...);
	}
	void do_combine(Ctx* x, int pattern) {
		auto n = x->args.size();
		auto at = [&](size_t i) -> Input& { return x->in[(size_t)x->args[i]]; };
		VSEV("call").k("a", 0).k("op", "combine").k("th", hs::th());
		if (n == 0) x->vres = std::make_unique<promise<void>>(promise_all());
		else if (pattern == 0) {
			if (n == 1) combine_same(x, at(0).r);
			else if (n == 2) combine_same(x, at(0).r, at(1).r);
			else if (n == 3) combine_same(x, at(0).r, at(1).r, at(2).r);
			else combine_same(x, at(0).r, at(1).r, at(2).r, at(3).r);
		} else if (x->kind == 2) { // Res, void, Alt, void
			if (n == 1) combine_all(x, at(0).r);
			else if (n == 2) combine_all(x, at(0).r, at(1).w);
			else if (n == 3) combine_all(x, at(0).r, at(1).w, at(2).a);
			else combine_all(x, at(0).r, at(1).w, at(2).a, at(3).w);
		} else { // Res, Alt, Res, Alt
			if (n == 1) combine_one(x, at(0).r);
			else if (n == 2) combine_one(x, at(0).r, at(1).a);
			else if (n == 3) combine_one(x, at(0).r, at(1).a, at(2).r);
			else combine_one(x, at(0).r, at(1).a, at(2).r, at(3).a);
		}
		VSEV("ret").k("a", 0).k("op", "combine");
	}
	void quiesce(Ctx& x) {
		std::vector<int> s;
		for (int a = 0; a < 12; a++)
			if (x.waiting[a]) s.push_back(a);
		VSEV("quiesce").k("susp", s);
		if (!s.empty()) vs::mark_dirty();
	}
	void body(vs::Case& c) {
		auto& r = c.rng;
		Ctx x;
		x.kind = r(3);
		int pattern = r.chance(30) ? 1 : 0;
		int nin = 1 + r(c.size == 0 ? 2 : 4);
		int narg = x.kind == 2 && r.chance(5) ? 0 : nin;
		x.in.resize((size_t)nin + 1);
		for (int i = 1; i <= nin; i++) x.in[(size_t)i].type = pattern == 0 ? 0 : x.kind == 2 ? (i % 2 == 0 ? 2 : i == 3 ? 1 : 0) : (i % 2 == 0 ? 1 : 0);
		for (int i = 1; i <= narg; i++) x.args.push_back(pattern == 0 && r.chance(15) ? 1 + r(nin) : i);
		x.cell.emplace_back();
		int rejpct = r(3) == 0 ? 20 : r(2) ? 50 : 85;
		auto mkop = [&](int i) {
			bool rej = r.chance(rejpct);
			int v = (int)x.cell.size();
			x.cell.push_back(std::make_unique<vs::Cell>());
			return Op{'S', i, rej, v};
		};
		std::string show = x.kind == 0 ? "first(" : x.kind == 1 ? "first_successful(" : "all(";
		for (int i : x.args) show += hs::num(i) + " ";
		show += pattern ? ") mixed " : ") ";
		std::string ins, as;
		std::vector<bool> settled((size_t)nin + 1);
		for (int i = 1; i <= nin; i++) {
			Op o{'-', i, false, 0};
			if (r.chance(20)) {
				o = mkop(i);
				x.in[(size_t)i].settle(o.rej, o.v);
				x.cell[(size_t)o.v] = nullptr;
			}
			bool p = o.k == '-';
			settled[(size_t)i] = !p;
			ins += std::string(i > 1 ? "," : "") + "{\"k\":\"" + (p ? "p" : o.rej ? "r" : "f") + "\",\"v\":" + hs::num(o.v) + "}";
			if (!p) show += "input " + hs::num(i) + (o.rej ? " rejected " : " fulfilled ") + hs::num(o.v) + " ";
		}
		for (size_t i = 0; i < x.args.size(); i++) as += (i ? "," : "") + hs::num(x.args[i]);
		int nth = 1 + r(c.size == 0 ? 2 : 3);
		x.prog.resize((size_t)nth + 1);
		for (int a = 1; a <= nth; a++) {
			int k = 1 + r(c.size == 0 ? 1 : 3);
			show += "; " + hs::num(a) + ":";
			for (int i = 0; i < k; i++) {
				auto op = mkop(1 + r(nin));
				x.prog[(size_t)a].push_back(op);
				show += std::string(op.rej ? " reject " : " fulfil ") + hs::num(op.i);
			}
		}
		std::vector<Op> fin;
		for (int i = 1; i <= nin; i++) fin.push_back(mkop(i));
		int nobs = r(3);
		std::string obs;
		for (int i = 0; i < nobs; i++) obs += "ay"[r(2)];
		if (r.chance(30)) obs += 'g';
		for (int i = 0; i <= nin; i++) {
			int n = 0, v = i > 0 ? fin[(size_t)i - 1].v : 0;
			for (auto& p : x.prog)
				for (auto& o : p)
					if (o.i == i) {
						n++;
						v = o.v;
					}
			x.winner.push_back(n > (obs.find('g') == std::string::npos ? 1 : 0) || i == 0 || settled[(size_t)i] ? 0 : v);
		}
		bool early = r.chance(30); // combine before any thread starts
		show += "; observers " + obs + (early ? " combine first" : "");
		vs::set_case("{\"kind\":\"" + std::string(x.kind == 0 ? "first" : x.kind == 1 ? "succ" : "all") + "\",\"args\":[" + as + "],\"ins\":[" + ins + "]}", show);
		if (early) do_combine(&x, pattern);
		std::vector<vstd::thread> t;
		for (int a = 1; a <= nth; a++)
			t.emplace_back([a, &x] {
				vs::set_actor(a);
				for (auto op : x.prog[(size_t)a]) {
					vs::point();
					do_settle(&x, a, op);
				}
			});
		vs::set_actor(0);
		if (!early) {
			vs::point();
			do_combine(&x, pattern);
		}
		for (size_t i = 0; i < obs.size(); i++)
			t.emplace_back([i, &x, &obs] {
				int a = 5 + (int)i;
				vs::set_actor(a);
				if (obs[i] == 'a') waiter(&x, a);
				else observe(&x, a, obs[i]);
			});
		if (obs.find('g') == std::string::npos) {
			for (auto& y : t) y.join();
			quiesce(x);
		}
		for (auto op : fin) do_settle(&x, 0, op);
		if (obs.find('g') != std::string::npos)
			for (auto& y : t) y.join();
		quiesce(x);
		observe(&x, 0, 'y');
		waiter(&x, 9);
		quiesce(x);
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
