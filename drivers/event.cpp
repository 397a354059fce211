// Conformance driver for E01, E02 (events) and E03 (latch). Variant: sm | mm | sa | ma | latch | "" (all event kinds).
#include "vsched.h"
#define std vstd
#include <asyncpp/event.h>
#include <asyncpp/latch.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	struct Op { char k; int d; }; // w wait, W co_await directly, s set, r reset, q is_set, a is_awaited, d decrement (latch)
	template<typename E>
	struct Ctx {
		E* ev;
		hs::disps* ds;
		std::vector<std::vector<Op>> prog;
		vs::Raw waiting[12];
		vs::Cell cell;
		int setter = 0; // the only actor that sets, 0 if several
		vs::Raw did_set = 0;
		std::vector<std::unique_ptr<vs::Cell>> dcell; // latch: one per decrement
		bool own = false; // the waiter that finishes last destroys the event, maybe while the call that woke it goes on
		std::atomic<int> users{0};
		size_t unit = 1; // latch: what the model counts as one
	};
	template<typename E>
	constexpr bool is_latch = std::is_same_v<E, latch>;

	template<typename E>
	void do_set(Ctx<E>& x, int a, int d) {
		if constexpr (!is_latch<E>) {
			if (x.setter == a && !x.did_set) { x.did_set = 1; x.cell.write(1); }
			vs::point();
			VSEV("call").k("a", a).k("op", "set").k("d", d).k("th", hs::th());
			bool v = x.ev->set(x.ds->get(d));
			VSEV("ret").k("a", a).k("v", v);
		}
	}
	template<typename E>
	hs::actor client(Ctx<E>* x, int a) {
		int q = 0;
		for (auto op : x->prog[(size_t)a]) {
			switch (op.k) {
			case 'w':
			case 'W': {
				vs::point();
				int d = op.k == 'W' ? hs::cur() : op.d;
				VSEV("call").k("a", a).k("op", "wait").k("q", ++q).k("d", d).k("th", hs::th()).k("c", hs::cur());
				x->waiting[a] = 1;
				if (op.k == 'W') co_await hs::watch(a, q, *x->ev);
				else co_await hs::watch(a, q, x->ev->wait(x->ds->get(op.d)));
				x->waiting[a] = 0;
				VSEV("res").k("a", a).k("th", hs::th()).k("c", hs::cur());
				if constexpr (is_latch<E>) {
					for (auto& c : x->dcell) c->read();
				} else if (x->setter) x->cell.read();
				break;
			}
			case 's': do_set(*x, a, op.d); break;
			case 'r':
				if constexpr (!is_latch<E>) {
					vs::point();
					VSEV("call").k("a", a).k("op", "reset");
					x->ev->reset();
					VSEV("ret").k("a", a).k("v", false);
				}
				break;
			case 'q': {
				vs::point();
				VSEV("call").k("a", a).k("op", "isset");
				bool v;
				if constexpr (is_latch<E>) v = x->ev->is_ready();
				else v = x->ev->is_set();
				VSEV("ret").k("a", a).k("v", v);
				break;
			}
			case 'a':
				if constexpr (!is_latch<E>) {
					vs::point();
					VSEV("call").k("a", a).k("op", "isaw");
					bool v = x->ev->is_awaited();
					VSEV("ret").k("a", a).k("v", v);
				}
				break;
			case 'd':
				if constexpr (is_latch<E>) {
					vs::point();
					x->dcell[(size_t)a]->write(1);
					VSEV("call").k("a", a).k("op", "dec").k("d", op.d).k("th", hs::th());
					if (op.d == 1 && x->unit == 1) x->ev->decrement();
					else x->ev->decrement(x->unit * (size_t)op.d);
					VSEV("ret").k("a", a).k("v", false);
				}
				break;
			}
		}
		if (x->own && (x->prog[(size_t)a].back().k == 'w' || x->prog[(size_t)a].back().k == 'W') && x->users.fetch_sub(1) == 1) delete x->ev;
	}
	template<typename E>
	void quiesce(Ctx<E>& x, int n) {
		x.ds->wait_idle();
		std::vector<int> s;
		for (int a = 1; a <= n; a++)
			if (x.waiting[a]) s.push_back(a);
		VSEV("quiesce").k("susp", s);
	}
	std::string show(const std::vector<std::vector<Op>>& p) {
		std::string s;
		for (size_t a = 0; a < p.size(); a++) {
			s += hs::num((long)a) + ":";
			for (auto o : p[a]) { s += ' '; s += o.k; if (o.d) s += hs::num(o.d); }
			s += "; ";
		}
		return s;
	}
	template<typename E>
	void finish(Ctx<E>& x, E* ev, int n) {
		bool left = false;
		for (int a = 1; a <= n; a++) left |= (bool)x.waiting[a];
		x.ds->stop();
		if (!left && !x.own) delete ev;
	}

	template<typename E>
	void run_oneshot(vs::Case& c, const char* kind, bool one);
	template<typename E>
	void run_event(vs::Case& c, const char* kind, bool single, bool automatic) {
		auto& r = c.rng;
		if (r.chance(15)) return run_oneshot<E>(c, kind, single || automatic);
		Ctx<E> x;
		// seq: no client threads; many coroutines are started one after the other
		bool seq = r.chance(35);
		int n = seq ? 3 + r(6) : c.size == 0 ? 2 + r(2) : 2 + r(3);
		int ndisp = c.size == 0 ? r(2) : r(3);
		bool init = r.chance(20);
		int maxops = seq ? 1 + r(3) : c.size == 0 ? 2 : c.size == 1 ? 3 : 5;
		x.prog.resize((size_t)n + 1);
		int waiter = single ? 1 + r(n) : 0;
		bool one_setter = r.chance(seq ? 70 : 50);
		int setter = seq && r.chance(60) ? n : 1 + r(n);
		if (single && setter == waiter) setter = waiter % n + 1;
		bool on_disp = ndisp > 0 && r.chance(30);
		for (int a = 1; a <= n; a++) {
			int k = 1 + r(maxops);
			for (int i = 0; i < k; i++) {
				bool can_wait = single ? a == waiter : true;
				bool can_set = one_setter ? a == setter : (single ? a != waiter || r.chance(30) : true);
				int pick = r(100);
				if (can_wait && pick < (single ? 75 : 50)) x.prog[(size_t)a].push_back({r.chance(30) ? 'W' : 'w', r(ndisp + 1)});
				else if (can_set && pick < 85) x.prog[(size_t)a].push_back({'s', r.chance(30) ? r(ndisp + 1) : 0});
				else if (pick < 90) x.prog[(size_t)a].push_back({'r', 0});
				else if (pick < 95) x.prog[(size_t)a].push_back({'q', 0});
				else x.prog[(size_t)a].push_back({'a', 0});
			}
		}
		if (one_setter && !init) x.setter = setter;
		vs::set_case("{\"k\":\"" + std::string(kind) + "\",\"init\":" + (init ? "true" : "false") + "}", show(x.prog) + (seq ? "sequential" : ""));
		auto ev = new E(init);
		x.ev = ev;
		hs::disps ds(ndisp);
		x.ds = &ds;
		auto start = [&](int a) {
			if (on_disp && a % 2 == 0) ds.get(1 + a % ndisp)->push([&x, a] { client(&x, a); });
			else client(&x, a);
		};
		if (seq)
			for (int a = 1; a <= n; a++) start(a);
		else hs::parallel(n, start);
		quiesce(x, n);
		if (!x.did_set) x.setter = 0;
		for (int i = 0; i < 24; i++) {
			bool left = false;
			for (int a = 1; a <= n; a++) left |= (bool)x.waiting[a];
			if (!left) break;
			do_set(x, 0, 0);
			quiesce(x, n);
		}
		finish(x, ev, n);
	}
	// Every waiter waits once and nobody but the setter (or the last decrement) can wake it.
	template<typename E>
	void run_oneshot(vs::Case& c, const char* kind, bool one) {
		auto& r = c.rng;
		Ctx<E> x;
		x.own = true;
		int nw = one ? 1 : 1 + r(c.size == 0 ? 2 : 3), ns = is_latch<E> ? 1 + r(2) : 1, n = nw + ns;
		int ndisp = r(c.size == 0 ? 2 : 3);
		x.users = nw;
		x.prog.resize((size_t)n + 1);
		if (is_latch<E>)
			for (int i = 0; i <= n; i++) x.dcell.push_back(std::make_unique<vs::Cell>());
		int total = 0, first = r(2) ? nw : 0; // who comes first in the numbering (and starts first)
		for (int i = 0; i < n; i++) {
			int a = 1 + (i + first) % n;
			if (i < nw) x.prog[(size_t)a].push_back({r.chance(30) ? 'W' : 'w', r(ndisp + 1)});
			else if (is_latch<E>) {
				int d = 1 + r(2);
				x.prog[(size_t)a].push_back({'d', d});
				total += d;
			} else {
				x.prog[(size_t)a].push_back({'s', r.chance(30) ? r(ndisp + 1) : 0});
				x.setter = a;
			}
		}
		bool on_disp = ndisp > 0 && r.chance(40), seq = r.chance(20);
		vs::set_case("{\"k\":\"" + std::string(kind) + "\",\"init\":" + (is_latch<E> ? hs::num(total) : "false") + "}", show(x.prog) + "last waiter destroys it");
		if constexpr (is_latch<E>) x.ev = new E((size_t)total);
		else x.ev = new E(false);
		hs::disps ds(ndisp);
		x.ds = &ds;
		auto start = [&](int a) {
			if (on_disp && a % 2 == 0) ds.get(1 + a % ndisp)->push([&x, a] { client(&x, a); });
			else client(&x, a);
		};
		if (seq)
			for (int a = 1; a <= n; a++) start(a);
		else hs::parallel(n, start);
		quiesce(x, n);
		finish(x, x.ev, n);
	}
	void run_latch(vs::Case& c) {
		auto& r = c.rng;
		if (r.chance(15)) return run_oneshot<latch>(c, "latch", false);
		Ctx<latch> x;
		bool seq = r.chance(25);
		int n = seq ? 3 + r(6) : 2 + r(c.size == 0 ? 2 : 3);
		int ndisp = r(c.size == 0 ? 2 : 3);
		x.prog.resize((size_t)n + 1);
		for (int i = 0; i <= n; i++) x.dcell.push_back(std::make_unique<vs::Cell>());
		int total = 0;
		for (int a = 1; a <= n; a++) {
			bool decs = a == 1 || r.chance(45);
			int k = 1 + r(c.size == 0 ? 1 : 2);
			if (decs) {
				if (r.chance(25)) x.prog[(size_t)a].push_back({'q', 0});
				// one decrement per actor so that its cell stands for everything done before it
				int d = r.chance(10) ? 0 : 1 + r(3);
				x.prog[(size_t)a].push_back({'d', d});
				total += d;
				if (r.chance(40)) x.prog[(size_t)a].push_back({'q', 0});
				if (r.chance(30)) x.prog[(size_t)a].push_back({'w', r(ndisp + 1)});
			} else {
				for (int i = 0; i < k; i++) {
					if (r.chance(75)) x.prog[(size_t)a].push_back({r.chance(30) ? 'W' : 'w', r(ndisp + 1)});
					else x.prog[(size_t)a].push_back({'q', 0});
				}
			}
		}
		// some decrements may be missing: the latch then stays closed until the end
		int missing = r.chance(20) ? 1 + r(2) : 0;
		int initial = total + missing;
		bool cells = total > 0;
		constexpr size_t units[] = {1, 256, 65536, size_t{1} << 31, size_t{1} << 32, (size_t{1} << 32) + 1, size_t{1} << 58};
		if (r.chance(30)) x.unit = units[r(7)];
		vs::set_case("{\"k\":\"latch\",\"init\":" + hs::num(initial) + "}", show(x.prog) + (x.unit > 1 ? "times " + std::to_string(x.unit) : ""));
		if (!cells) x.dcell.resize((size_t)n + 1);
		// decrements of zero do not publish anything
		for (int a = 1; a <= n; a++)
			for (auto& o : x.prog[(size_t)a])
				if (o.k == 'd' && o.d == 0) o.k = 'q';
		auto l = new latch(x.unit * (size_t)initial);
		x.ev = l;
		hs::disps ds(ndisp);
		x.ds = &ds;
		bool on_disp = ndisp > 0 && r.chance(40);
		auto start = [&](int a) {
			if (on_disp && a % 2 == 0) ds.get(1 + a % ndisp)->push([&x, a] { client(&x, a); });
			else client(&x, a);
		};
		if (seq)
			for (int a = 1; a <= n; a++) start(a);
		else hs::parallel(n, start);
		quiesce(x, n);
		if (missing) {
			VSEV("call").k("a", 0).k("op", "dec").k("d", missing).k("th", hs::th());
			l->decrement(x.unit * (size_t)missing);
			VSEV("ret").k("a", 0).k("v", false);
			quiesce(x, n);
		}
		finish(x, l, n);
	}

	void body(vs::Case& c) {
		const std::string& v = vs::variant();
		if (v == "latch") return run_latch(c);
		int k = v == "manual" ? c.rng(2) : 2 + c.rng(2);
		switch (k) {
		case 0: return run_event<single_consumer_event>(c, "sm", true, false);
		case 1: return run_event<multi_consumer_event>(c, "mm", false, false);
		case 2: return run_event<single_consumer_auto_reset_event>(c, "sa", true, true);
		default: return run_event<multi_consumer_auto_reset_event>(c, "ma", false, true);
		}
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
