// Conformance driver for T02: one timer, clients scheduling, pushing, waiting and cancelling, callbacks doing the same.
#include "vsched.h"
#define std vstd
#include <asyncpp/timer.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	struct Op { char k; int id; int d; int tok; int var; };
	struct Ctx {
		std::unique_ptr<timer> tm;
		std::vector<asyncpp::stop_source> src;
		std::vector<std::vector<Op>> prog;  // clients
		std::vector<std::vector<Op>> cprog; // callbacks and coroutines
		std::vector<std::vector<Op>> dprog; // when the callback is destroyed
		std::vector<std::unique_ptr<vs::Cell>> before, after;
		vs::Raw ok[16];
	};
	long long unit = 1000000; // of all times of a program: ms, us or ns
	long clamp(long long ns) { return (long)std::min(ns / unit, 2000000000ll); }
	long now_u() { return clamp(vs::now_ns()); }
#define EV(n) VSEV(n).k("t", now_u())
	using SC = vstd::chrono::steady_clock;
	using YC = vstd::chrono::system_clock;
	using MS = std::chrono::milliseconds;
	using NS = std::chrono::nanoseconds;
	NS units(long long d) { return NS(d * unit); }
	long ms(SC::time_point t) { return clamp(t.time_since_epoch().count()); }
	void op(Ctx* x, int a, Op o);
	struct Tail {
		Ctx* x;
		int id;
		Tail(Ctx* c, int i) : x(c), id(i) {}
		Tail(const Tail&) = delete;
		~Tail() {
			try {
				x->tm->push({});
			} catch (std::logic_error&) {}
		}
	};
	void fire(Ctx* x, int id, const char* k, bool res) {
		EV("fire").k("id", id).k("k", k).k("ok", res).k("th", hs::th());
		x->before[(size_t)(id - 100)]->read();
	}
	void finish(Ctx* x, int id) {
		x->after[(size_t)(id - 100)]->write(1);
		EV("end").k("id", id);
	}
	hs::actor waiter(Ctx* x, int id, Op o) {
		int th = hs::th();
		x->before[(size_t)(id - 100)]->write(1);
		auto due = SC::now() + units(o.d);
		EV("call").k("a", id).k("op", "await").k("due", ms(due)).k("tok", o.tok).k("th", th);
		bool res = false, thrown = false;
		x->ok[id - 100] = 1;
		try {
			auto d = units(o.d);
			if (o.tok) {
				auto tk = x->src[(size_t)(o.tok - 11)].get_token();
				if (o.var == 0) res = co_await x->tm->wait(due, tk);
				else if (o.var == 1 && unit == 1000000) res = co_await x->tm->wait(MS(o.d), tk);
				else if (o.var == 1) res = co_await x->tm->wait(d, tk);
				else res = co_await x->tm->wait(YC::now() + d, tk);
			} else {
				if (o.var == 0) res = co_await x->tm->wait(due);
				else if (o.var == 1 && unit == 1000000) res = co_await x->tm->wait(MS(o.d));
				else if (o.var == 1) res = co_await x->tm->wait(d);
				else res = co_await x->tm->wait(YC::now() + d);
			}
		} catch (std::logic_error&) { thrown = true; }
		bool fired = hs::th() != th;
		if (fired) fire(x, id, "a", res);
		else {
			EV("ret").k("a", id).k("op", "await").k("r", !thrown && res ? 1 : 0);
			x->ok[id - 100] = 0;
		}
		for (auto q : x->cprog[(size_t)(id - 100)]) op(x, id, q);
		if (fired) finish(x, id);
	}
	void op(Ctx* x, int a, Op o) {
		vs::point();
		switch (o.k) {
		case 's':
		case 'p': {
			x->before[(size_t)(o.id - 100)]->write(1);
			auto tail = x->dprog[(size_t)(o.id - 100)].empty() ? nullptr : std::make_shared<Tail>(x, o.id);
			int r = 1;
			if (o.k == 'p') {
				EV("call").k("a", a).k("op", "push").k("id", o.id).k("th", hs::th());
				try {
					x->tm->push([x, id = o.id, tail] {
						fire(x, id, "p", true);
						for (auto q : x->cprog[(size_t)(id - 100)]) op(x, id, q);
						finish(x, id);
					});
				} catch (std::logic_error&) { r = 0; }
				EV("ret").k("a", a).k("op", "push").k("r", r);
			} else {
				auto fn = [x, id = o.id, tail](bool ok) {
					fire(x, id, "e", ok);
					for (auto q : x->cprog[(size_t)(id - 100)]) op(x, id, q);
					finish(x, id);
				};
				tail = nullptr;
				auto d = units(o.d);
				auto due = SC::now() + d;
				EV("call").k("a", a).k("op", "sched").k("id", o.id).k("due", ms(due)).k("tok", o.tok).k("th", hs::th());
				try {
					if (o.tok) {
						auto tk = x->src[(size_t)(o.tok - 11)].get_token();
						if (o.var == 0) x->tm->schedule(fn, due, tk);
						else if (o.var == 1) x->tm->schedule(fn, d, tk);
						else x->tm->schedule(fn, YC::now() + d, tk);
					} else {
						if (o.var == 0) x->tm->schedule(fn, due);
						else if (o.var == 1) x->tm->schedule(fn, d);
						else x->tm->schedule(fn, YC::now() + d);
					}
				} catch (std::logic_error&) { r = 0; }
				EV("ret").k("a", a).k("op", "sched").k("r", r);
			}
			x->ok[o.id - 100] = r;
			break;
		}
		case 'e': {
			EV("call").k("a", a).k("op", "empty").k("th", hs::th());
			int r = 1;
			try {
				if (o.var == 0) x->tm->push({});
				else if (o.var == 1) x->tm->schedule(std::function<void(bool)>{}, SC::now() + units(o.d));
				else x->tm->schedule(std::function<void(bool)>{}, SC::now() + units(o.d), x->src[0].get_token());
			} catch (std::logic_error&) { r = 0; }
			EV("ret").k("a", a).k("op", "empty").k("r", r);
			break;
		}
		case 'x': {
			EV("call").k("a", a).k("op", "stop").k("tok", o.tok).k("th", hs::th());
			bool r = x->src[(size_t)(o.tok - 11)].request_stop();
			EV("ret").k("a", a).k("op", "stop").k("r", (int)r);
			break;
		}
		case 'w': waiter(x, o.id, o); break;
		case 'z': vstd::this_thread::sleep_for(units(o.d)); break;
		default: break;
		}
	}
	void body(vs::Case& c) {
		auto& r = c.rng;
		Ctx x;
		for (int i = 0; i < 16; i++) {
			x.before.push_back(std::make_unique<vs::Cell>());
			x.after.push_back(std::make_unique<vs::Cell>());
		}
		x.src.resize(2);
		x.cprog.resize(16);
		x.dprog.resize(16);
		int ncl = 1 + r(c.size == 0 ? 1 : 3);
		int nstop = r(3);
		int nid = 101, maxid = c.size == 0 ? 104 : 111;
		std::string show;
		int span = r.chance(30) ? 1 : r.chance(60) ? 4 : 700;
		bool tails = r.chance(10), strict = r.chance(60);
		std::function<std::vector<Op>(int, int)> gen = [&](int k, int depth) {
			std::vector<Op> v;
			for (int i = 0; i < k; i++) {
				int q = r(100);
				// durations are converted using the current time, so they are only exact in strict runs
				Op o{'.', 0, r(span), r.chance(60) ? 11 + r(2) : 0, strict ? r(3) : 0};
				if (q < 60) {
					if (nid > maxid) continue;
					o.k = q < 40 ? 's' : q < 48 || depth > 0 ? 'p' : 'w';
					if (r.chance(10)) o.d = 0;
					if (q < 60 && o.k != 'p' && r.chance(4)) o.d = 1000000000 + r(3); // never comes
					o.id = nid++;
					show += std::string(" ") + o.k + hs::num(o.id);
					if (o.k != 'p') show += "+" + hs::num(o.d) + (o.tok ? "t" + hs::num(o.tok) : "");
					if (depth < 2 && r.chance(35)) {
						show += "(";
						x.cprog[(size_t)(o.id - 100)] = gen(1 + r(2), depth + 1);
						show += " )";
					}
					if (tails && o.k != 'w') x.dprog[(size_t)(o.id - 100)].push_back(o);
				} else if (q < 66) o.k = 'e', o.var = r(3), show += " empty" + hs::num(o.var);
				else if (q < 84) {
					o.k = 'x';
					o.tok = 11 + r(2);
					show += " stop" + hs::num(o.tok);
				} else o.k = 'z', show += " sleep" + hs::num(o.d);
				v.push_back(o);
			}
			return v;
		};
		x.prog.resize(6);
		for (int a = 1; a <= ncl; a++) {
			show += "; " + hs::num(a) + ":";
			x.prog[(size_t)a] = gen(1 + r(c.size == 0 ? 2 : 4), 0);
		}
		for (int a = 4; a < 4 + nstop; a++) {
			Op s{'x', 0, 0, 11 + r(2), 0}, z{'z', 0, r(span), 0, 0};
			if (r.chance(60)) x.prog[(size_t)a].push_back(z);
			x.prog[(size_t)a].push_back(s);
			show += "; stopper" + std::string(x.prog[(size_t)a].size() > 1 ? " after " + hs::num(z.d) : "") + " stop" + hs::num(s.tok);
		}
		int linger = r.chance(50) ? r(2 * span) : 0;
		show += "; destroy after " + hs::num(linger);
		if (tails) show += "; callbacks push when destroyed";
		if (strict) show += "; strict time";
		unit = r.chance(60) ? 1000000 : r.chance(50) ? 1000 : 1;
		show += unit == 1 ? "; in ns" : unit == 1000 ? "; in us" : "";
		vs::strict_time(strict);
		vs::set_case(strict ? "{\"strict\":true}" : "{\"strict\":false}", show);
		x.tm = std::make_unique<timer>();
		vs::set_actor(0);
		{
			std::vector<vstd::thread> t;
			for (int a = 1; a < 6; a++)
				if (!x.prog[(size_t)a].empty())
					t.emplace_back([a, &x] {
						vs::set_actor(a);
						for (auto o : x.prog[(size_t)a]) op(&x, a, o);
					});
			size_t nc = 0;
			for (int a = 1; a <= ncl; a++) nc += !x.prog[(size_t)a].empty();
			for (size_t i = 0; i < nc; i++) t[i].join();
			if (linger) vstd::this_thread::sleep_for(units(linger));
			EV("call").k("a", 0).k("op", "destroy").k("th", hs::th());
			delete x.tm.get();
			(void)x.tm.release();
			EV("ret").k("a", 0).k("op", "destroy");
			for (size_t i = nc; i < t.size(); i++) t[i].join();
		}
		EV("quiesce");
		for (int i = 1; i < 16; i++)
			if (x.ok[i]) x.after[(size_t)i]->read();
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
