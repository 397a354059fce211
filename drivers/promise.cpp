// Conformance driver for P01: one promise (of a value or of void), shared by several threads and coroutines.
#include "vsched.h"
#define std vstd
#include <asyncpp/promise.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	struct Err { int v; };
	struct Fail {};
	struct Res {
		int v;
		explicit Res(int x) : v(x) {}
		Res(const Res& o) : v(o.v) {
			if (v == -1) throw Fail{}; // can not be copied
		}
	};
	// S try_settle, X settle (throwing variant), W try to fulfil with a value that can not be copied, s on_settle, t then(both), f then(fulfil only), j then(reject only), a await,
	// g get, G timed get, y try_get, Y try_get(nothrow), p/F/R queries
	struct Op { char k; int v; int id; };
	long now_ms() { return (long)(vs::now_ns() / 1000000); }
	template<typename P> struct Ctx;
	template<typename P> void sync_op(Ctx<P>* x, P& p, int a, Op op);
	template<typename P> struct Ctx {
		std::unique_ptr<P> main;
		std::vector<std::vector<Op>> prog; // per actor
		std::vector<std::vector<Op>> cbprog; // per callback
		std::vector<std::vector<Op>> dropprog; // run when the callback is destroyed
		vs::Raw live[128]; // copies per callback
		vs::Raw waiting[12];
		std::vector<std::unique_ptr<vs::Cell>> cell;
		bool solo = false; // nobody else holds the promise and a callback destroys it
	};
	template<typename P>
	constexpr bool is_void = std::is_same_v<P, promise<void>>;
#define EV(n) VSEV(n).k("t", now_ms())

	// what a registered callback holds: the promise, and something that shows when the callback is gone
	template<typename P> struct Tok {
		Ctx<P>* x;
		int id;
		std::optional<P> p;
		Tok(Ctx<P>* x, int id, P* p) : x(x), id(id) {
			if (p) this->p = *p;
			x->live[id] = x->live[id] + 1;
		}
		Tok(const Tok& o) : x(o.x), id(o.id), p(o.p) { x->live[id] = x->live[id] + 1; }
		~Tok() {
			x->live[id] = x->live[id] - 1;
			if (x->live[id] != 0) return;
			EV("drop").k("id", id);
			if (p)
				for (auto op : x->dropprog[(size_t)(id - 101)]) sync_op(x, *p, id, op);
		}
		P* get() { return p ? &*p : nullptr; }
	};
	int outcome(const std::exception_ptr& e) {
		try {
			std::rethrow_exception(e);
		} catch (Err& x) { return x.v; } catch (...) {
			return -1;
		}
	}
	template<typename P>
	void seen(Ctx<P>* x, int v) {
		if (v > 0 && v < (int)x->cell.size() && x->cell[(size_t)v]) x->cell[(size_t)v]->read();
	}
	// inside callback id: the callback acts as actor id
	template<typename P>
	void callback(Ctx<P>* x, P* p, int id, const char* k, int v) {
		EV("cb").k("id", id).k("k", k).k("v", v).k("th", hs::th());
		seen(x, v);
		if (x->solo) {
			if (id == 101) x->main.reset();
			return;
		}
		for (auto op : x->cbprog[(size_t)(id - 101)]) sync_op(x, *p, id, op);
	}
	template<typename P>
	void settle(Ctx<P>* x, P& p, int a, Op op) {
		bool rej = op.v % 2 != 0; // odd values are rejections
		x->cell[(size_t)op.v]->write(1);
		EV("call").k("a", a).k("op", "settle").k("k", rej ? "r" : "f").k("v", is_void<P> && !rej ? 0 : op.v).k("th", hs::th());
		int r;
		if (op.k == 'S') {
			if (rej) r = p.template try_reject(std::make_exception_ptr(Err{op.v}));
			else if constexpr (is_void<P>) r = p.try_fulfill();
			else r = p.try_fulfill(Res(op.v));
		} else {
			try {
				if (rej) p.template reject<Err>(op.v);
				else if constexpr (is_void<P>) p.fulfill();
				else p.fulfill(Res(op.v));
				r = 1;
			} catch (std::logic_error&) { r = 0; }
		}
		EV("ret").k("a", a).k("op", "settle").k("r", r);
	}
	template<typename P>
	void look(Ctx<P>* x, int a, const char* k, int v) {
		EV("ret").k("a", a).k("op", "look").k("k", k).k("v", v);
		seen(x, v);
	}
	template<typename P>
	void sync_op(Ctx<P>* x, P& p, int a, Op op) {
		vs::point();
		switch (op.k) {
		case 'S':
		case 'X': settle(x, p, a, op); break;
		case 'W':
			if constexpr (!is_void<P>) {
				EV("call").k("a", a).k("op", "settle").k("k", "x").k("v", 0).k("th", hs::th());
				int r;
				Res bad(-1);
				try {
					r = p.try_fulfill(bad);
				} catch (Fail&) { r = 2; }
				EV("ret").k("a", a).k("op", "settle").k("r", r);
			}
			break;
		case 's':
			EV("call").k("a", a).k("op", "reg").k("id", op.id).k("kind", "s").k("th", hs::th());
			p.on_settle([x, t = Tok<P>(x, op.id, x->solo ? nullptr : &p)]() mutable { callback(x, t.get(), t.id, "s", 0); });
			EV("ret").k("a", a).k("op", "reg");
			break;
		case 't':
		case 'f':
		case 'j': {
			EV("call").k("a", a).k("op", "reg").k("id", op.id).k("kind", op.k == 't' ? "tb" : op.k == 'f' ? "tf" : "tr").k("th", hs::th());
			std::function<void(const std::exception_ptr&)> rj;
			{
				Tok<P> t(x, op.id, x->solo ? nullptr : &p);
				if (op.k != 'f') rj = [x, t](const std::exception_ptr& e) mutable { callback(x, t.get(), t.id, "r", outcome(e)); };
				if constexpr (is_void<P>) {
					std::function<void()> fu;
					if (op.k != 'j') fu = [x, t]() mutable { callback(x, t.get(), t.id, "f", 0); };
					p.then(std::move(fu), std::move(rj));
				} else {
					std::function<void(const Res&)> fu;
					if (op.k != 'j') fu = [x, t](const Res& v) mutable { callback(x, t.get(), t.id, "f", v.v); };
					p.then(std::move(fu), std::move(rj));
				}
			}
			EV("ret").k("a", a).k("op", "reg");
			break;
		}
		case 'g':
			EV("call").k("a", a).k("op", "get");
			try {
				if constexpr (is_void<P>) { p.get(); look(x, a, "f", 0); }
				else look(x, a, "f", p.get().v);
			} catch (Err& e) { look(x, a, "r", e.v); }
			break;
		case 'G': {
			auto d = std::chrono::milliseconds(op.v);
			EV("call").k("a", a).k("op", "tget").k("dl", now_ms() + op.v);
			try {
				if constexpr (is_void<P>) look(x, a, p.get(d) ? "f" : "p", 0);
				else {
					auto r = p.get(d);
					if (r) look(x, a, "f", r->v);
					else look(x, a, "p", 0);
				}
			} catch (Err& e) { look(x, a, "r", e.v); }
			break;
		}
		case 'y':
			EV("call").k("a", a).k("op", "tryget");
			try {
				if constexpr (is_void<P>) look(x, a, p.try_get() ? "f" : "p", 0);
				else {
					auto r = p.try_get();
					if (r) look(x, a, "f", r->v);
					else look(x, a, "p", 0);
				}
			} catch (Err& e) { look(x, a, "r", e.v); }
			break;
		case 'Y': {
			EV("call").k("a", a).k("op", "tryget");
			auto r = p.try_get(std::nothrow);
			if (r.second) look(x, a, "r", outcome(r.second));
			else if (!r.first) look(x, a, "p", 0);
			else if constexpr (is_void<P>) look(x, a, "f", 0);
			else look(x, a, "f", r.first->v);
			break;
		}
		case 'p':
		case 'F':
		case 'R': {
			EV("call").k("a", a).k("op", "query").k("k", op.k == 'p' ? "p" : op.k == 'F' ? "f" : "r");
			bool r = op.k == 'p' ? p.is_pending() : op.k == 'F' ? p.is_fulfilled() : p.is_rejected();
			EV("ret").k("a", a).k("op", "query").k("r", r);
			break;
		}
		}
	}
	template<typename P>
	hs::actor client(Ctx<P>* x, int a, P p) {
		int q = 0;
		for (auto op : x->prog[(size_t)a]) {
			if (op.k != 'a') {
				sync_op(x, p, a, op);
				continue;
			}
			vs::point();
			EV("call").k("a", a).k("op", "await").k("q", ++q).k("th", hs::th());
			x->waiting[a] = 1;
			const char* k = "f";
			int v = 0;
			try {
				if constexpr (is_void<P>) co_await hs::watch(a, q, p);
				else {
					Res& rr = co_await hs::watch(a, q, p);
					v = rr.v;
				}
			} catch (Err& e) {
				k = "r";
				v = e.v;
			}
			x->waiting[a] = 0;
			EV("res").k("a", a).k("k", k).k("v", v).k("th", hs::th());
			seen(x, v);
		}
	}
	template<typename P>
	void quiesce(Ctx<P>& x, int n) {
		std::vector<int> s;
		for (int a = 1; a <= n; a++)
			if (x.waiting[a]) s.push_back(a);
		EV("quiesce").k("susp", s);
	}
	template<typename P>
	void run(vs::Case& c) {
		auto& r = c.rng;
		Ctx<P> x;
		int n = 1 + r(c.size == 0 ? 3 : c.size == 1 ? 4 : 5);
		int nid = 101;
		int init = r.chance(12) ? 1 + r(2) : 0;
		x.cell.push_back(nullptr);
		x.cell.push_back(nullptr);
		x.cell.push_back(nullptr);
		x.cell.push_back(nullptr);
		auto value = [&](bool rej) {
			int v = (int)x.cell.size();
			while ((v % 2 != 0) != rej) {
				v++;
				x.cell.push_back(nullptr);
			}
			x.cell.push_back(std::make_unique<vs::Cell>());
			return v;
		};
		std::string show;
		auto gen = [&](int k, bool coro, bool cb, bool blocking) {
			std::vector<Op> p;
			for (int i = 0; i < k; i++) {
				int q = r(100);
				Op o{'S', 0, 0};
				if (q < 2) o.k = 'W';
				else if (q < 25) o.k = r.chance(60) ? 'S' : 'X', o.v = value(r.chance(40));
				else if (q < 50 && nid < 109) o.k = "sstfj"[r(5)], o.id = nid++;
				else if (q < 70 && coro) o.k = 'a';
				else if (q < 78 && blocking) o.k = r.chance(50) ? 'g' : 'G', o.v = r(3);
				else if (q < 86) o.k = r.chance(50) ? 'y' : 'Y';
				else o.k = "pFR"[r(3)];
				p.push_back(o);
				show += std::string(" ") + o.k + (o.v ? hs::num(o.v) : "") + (o.id ? "#" + hs::num(o.id) : "");
			}
			(void)cb;
			return p;
		};
		x.prog.resize((size_t)n + 1);
		x.solo = !init && r.chance(8);
		if (x.solo) {
			n = 0;
			show = "callback 101 destroys the promise:";
			x.prog[0].push_back({'s', 0, nid++});
			show += " s";
			for (int i = 0; i < 1 + r(3); i++) {
				x.prog[0].push_back({"stfj"[r(4)], 0, nid++});
				show += std::string(" ") + x.prog[0].back().k;
			}
			if (is_void<P>)
				for (auto& o : x.prog[0]) o.k = 's';
			x.prog[0].push_back({r.chance(50) ? 'S' : 'X', value(r.chance(50)), 0});
		}
		bool crowd = r.chance(12); // most of them block
		if (!x.solo)
			for (int a = 1; a <= n; a++) {
				show += hs::num(a) + ":";
				if (crowd && r.chance(85)) {
					x.prog[(size_t)a].push_back({r.chance(85) ? 'g' : 'G', 1 + r(3), 0});
					show += "g/G";
				} else
					x.prog[(size_t)a] = gen(1 + r(c.size == 0 ? 2 : 3), true, false, r.chance(40));
				show += "; ";
			}
		// programs of callbacks (each may register further callbacks, up to a bound)
		for (int id = 101; id < 113; id++) {
			if (id < nid && r.chance(30)) {
				show += hs::num(id) + ":";
				x.cbprog.push_back(gen(1 + r(2), false, true, r.chance(20)));
				show += "; ";
			} else x.cbprog.emplace_back();
			if (id < nid && r.chance(20)) {
				show += "~" + hs::num(id) + ":";
				x.dropprog.push_back(gen(1, false, true, r.chance(20)));
				show += "; ";
			} else x.dropprog.emplace_back();
		}
		Op last1{'S', value(r.chance(50)), 0}, last2{'S', value(r.chance(50)), 0};
		bool peek = r.chance(50);
		vs::set_case(std::string("{\"init\":{\"k\":\"") + (init == 0 ? "p" : init == 1 ? "f" : "r") + "\",\"v\":" + (init == 2 ? "3" : init == 1 && !is_void<P> ? "2" : "0") + "}}", show);
		if (init == 0) x.main = std::make_unique<P>();
		else if (init == 2) x.main = std::make_unique<P>(P::template make_rejected<Err>(3));
		else if constexpr (is_void<P>) x.main = std::make_unique<P>(P::make_fulfilled());
		else x.main = std::make_unique<P>(P::make_fulfilled(Res(2)));
		if (x.solo) {
			for (auto op : x.prog[0]) sync_op(&x, *x.main, 0, op);
			quiesce(x, n);
			return;
		}
		// threads that may block are served by a settler (actor 0) that runs last
		{
			std::vector<vstd::thread> t;
			for (int i = 1; i <= n; i++)
				t.emplace_back([i, &x] {
					vs::set_actor(i);
					client<P>(&x, i, *x.main);
				});
			vs::set_actor(0);
			vs::point();
			if (peek) sync_op(&x, *x.main, 0, {'Y', 0, 0});
			sync_op(&x, *x.main, 0, last1);
			for (auto& y : t) y.join();
		}
		quiesce(x, n);
		sync_op(&x, *x.main, 0, {'Y', 0, 0});
		sync_op(&x, *x.main, 0, last2);
		sync_op(&x, *x.main, 0, {'t', 0, 112});
		quiesce(x, n);
	}
	void body(vs::Case& c) {
		if (c.rng.chance(30)) run<promise<void>>(c);
		else run<promise<Res>>(c);
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
