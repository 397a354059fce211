// Conformance driver for K02 (generator, fmap) and K03 (async_generator).
#include "vsched.h"
#define std vstd
#include <asyncpp/async_generator.h>
#include <asyncpp/generator.h>
#undef std
#include "harness.h"
#include <optional>

using namespace asyncpp;
namespace {
	// N create generator v in slot w, I ask slot v for the next value (in a coroutine of its own if w), R read it, S set it to w, T take it (move), E compare with end,
	// D drop slot v, M move slot w to v, Z swap slots v and w, L create generator v in slot w and read all with a range-for loop
	// in bodies: Y yield a local variable v, y yield a temporary v, H hop to dispatcher v, K suspend for good, X throw v
	struct Op { char k; int v = 0; int w = 0; };
	struct Body {
		bool mapped = false;
		int bad = 0; // value at which the mapping function throws
		std::vector<Op> ops;
	};
	struct Witness {
		int g;
		explicit Witness(int g) : g(g) {}
		Witness(Witness&& o) noexcept : g(std::exchange(o.g, 0)) {}
		~Witness() {
			if (g) VSEV("gone").k("g", g).k("th", hs::th());
		}
	};
	struct Local {
		int g;
		~Local() { VSEV("left").k("g", g).k("th", hs::th()); }
	};
	struct Common {
		hs::disps* ds;
		std::map<int, Body> bodies;
		std::vector<std::vector<Op>> prog;
		std::coroutine_handle<> frame[8];
		vs::Raw waiting[8];
	};
	struct HopAw {
		Common* x;
		int g, d;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> h) {
			auto disp = x->ds->get(d);
			VSEV("hop").k("g", g);
			disp->push([h] { h.resume(); });
		}
		void await_resume() { VSEV("back").k("g", g).k("th", hs::th()); }
	};
	struct ParkAw {
		int g;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<>) { VSEV("park").k("g", g); }
		void await_resume() {}
	};
	// a value of the element type, from a number, and back
	int num(int v) { return v; }
	int num(const hs::Val& v) { return v.v; }
	template<typename V>
	void assign(V& x, int v) {
		if constexpr (std::is_same_v<V, int>) x = v;
		else if constexpr (std::is_same_v<V, hs::Val>) x.v = v;
	}
	constexpr int map_by = 500;
	template<typename G, typename T, bool Async>
	struct Prog : Common {
		using V = std::remove_reference_t<T>;
		using MV = std::remove_const_t<V>;
		using GM = generator<int>; // of the mapped ones
		struct Slot {
			std::optional<G> g;
			std::optional<typename G::iterator> it;
			std::optional<GM> m;
			std::optional<typename GM::iterator> mit;
			bool end = false; // no value to be had
			bool began() const { return it || mit; }
		};
		std::map<int, Slot> slots;

		static G body(Prog* x, int g, Witness w) {
			Local l{g};
			VSEV("start").k("g", g).k("th", hs::th());
			for (auto o : x->bodies[g].ops) {
				switch (o.k) {
				case 'Y': {
					MV v{o.v};
					VSEV("yield").k("g", g).k("v", o.v);
					if constexpr (std::is_rvalue_reference_v<T>) co_yield std::move(v);
					else co_yield v;
					VSEV("see").k("g", g).k("v", num(v)).k("th", hs::th());
					break;
				}
				case 'y': {
					VSEV("yield").k("g", g).k("v", o.v);
					MV c{o.v};
					V* p = &c; // the temporary itself can not be seen afterwards
					if constexpr (std::is_same_v<MV, int>) co_yield static_cast<V&&>(*p);
					else co_yield static_cast<V&&>(*p);
					VSEV("see").k("g", g).k("v", num(c)).k("th", hs::th());
					break;
				}
				case 'H':
					if constexpr (Async) co_await HopAw{x, g, o.v};
					break;
				case 'K':
					if constexpr (Async) co_await ParkAw{g};
					break;
				case 'X': VSEV("throw").k("g", g).k("v", o.v); throw o.v;
				}
			}
			VSEV("end").k("g", w.g);
		}
		void create(int a, int g, int h) {
			auto& s = slots.at(h);
			s.it.reset();
			s.mit.reset();
			s.end = false;
			VSEV("create").k("a", a).k("g", g).k("h", h).k("mapped", bodies[g].mapped);
			if constexpr (!Async && std::is_same_v<T, int>)
				if (bodies[g].mapped) {
					s.m.emplace(fmap([this, g](auto&& v) -> int {
						if (v == bodies[g].bad) {
							VSEV("mapthrow").k("g", g).k("v", v);
							throw v;
						}
						int w = v % 3 == 0 ? v + 1000 : v; // some are changed in place
						VSEV("map").k("g", g).k("v", v).k("w", w);
						int r = v + map_by;
						if constexpr (!std::is_const_v<std::remove_reference_t<decltype(v)>>) v = w;
						return r;
					}, body(this, g, Witness{g})));
					return;
				}
			s.g.emplace(body(this, g, Witness{g}));
		}
		// begin() and ++ of the synchronous one
		template<typename GG, typename IT>
		void step(int a, int h, Slot& s, GG& g, IT& it) {
			VSEV("step").k("a", a).k("op", it ? "next" : "begin").k("h", h).k("th", hs::th());
			bool first = !it;
			try {
				if (first) it.emplace(g.begin());
				else if (h & 1) ++*it;
				else (*it)++;
				s.end = *it == g.end();
				res(a, s.end ? "end" : "val", 0);
			} catch (int e) {
				s.end = true;
				res(a, "exc", e);
				if (first) it.emplace(); // there is none; a default constructed iterator is at the end
			}
		}
		void res(int a, const char* r, int v) { VSEV("res").k("a", a).k("r", r).k("v", v).k("th", hs::th()); }
		struct client {
			struct promise_type {
				Prog* x;
				int a;
				promise_type(Prog* x, int a) : x(x), a(a) {}
				VS_NOTSAN client get_return_object() noexcept { return {}; }
				std::suspend_never initial_suspend() noexcept {
					x->frame[a] = std::coroutine_handle<promise_type>::from_promise(*this);
					return {};
				}
				std::suspend_never final_suspend() noexcept {
					x->frame[a] = nullptr;
					return {};
				}
				void return_void() noexcept {}
				void unhandled_exception() noexcept { VSEV("exc"); }
			};
		};
		// a coroutine of its own that makes a single step for a client
		struct stepper {
			struct promise_type {
				std::coroutine_handle<> next;
				VS_NOTSAN stepper get_return_object() noexcept { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
				std::suspend_always initial_suspend() noexcept { return {}; }
				struct final {
					bool await_ready() noexcept { return false; }
					std::coroutine_handle<> await_suspend(std::coroutine_handle<promise_type> h) noexcept { return h.promise().next; }
					void await_resume() noexcept {}
				};
				final final_suspend() noexcept { return {}; }
				void return_void() noexcept {}
				void unhandled_exception() noexcept { VSEV("exc"); }
			};
			std::coroutine_handle<promise_type> coro;
			stepper(std::coroutine_handle<promise_type> coro) : coro(coro) {}
			stepper(const stepper&) = delete;
			~stepper() { coro.destroy(); }
			bool await_ready() { return false; }
			std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) {
				coro.promise().next = h;
				return coro;
			}
			void await_resume() {}
		};
		static stepper step_in(Prog* x, int a, int h, Slot& s) {
			if constexpr (Async) {
		bool first = !s.it;
		VSEV("step").k("a", a).k("op", first ? "begin" : "next").k("h", h).k("th", hs::th());
		x->waiting[a] = 1;
		const char* r = "val";
		int v = 0;
		try {
			if (first) s.it.emplace(co_await s.g->begin());
			else {
				auto& self = co_await ++*s.it;
				if (&self != &*s.it) r = "other";
			}
			s.end = *s.it == s.g->end();
			if (s.end) r = "end";
		} catch (int e) {
			s.end = true;
			r = "exc";
			v = e;
			if (first) s.it.emplace(nullptr); // there is none
		}
		x->waiting[a] = 0;
		x->res(a, r, v);
			}
			co_return;
		}
		static client run(Prog* x, int a) {
			for (auto o : x->prog[(size_t)a]) {
				auto& s = x->slots.at(o.k == 'N' || o.k == 'L' ? o.w : o.v);
				vs::point();
				switch (o.k) {
				case 'N':
				case 'D':
				case 'M':
				case 'Z': x->handle_op(a, o); break;
				case 'L': // an ordinary loop over everything
					if constexpr (!Async) {
						x->handle_op(a, {'N', o.v, o.w});
						VSEV("step").k("a", a).k("op", "begin").k("h", o.w).k("th", hs::th());
						s.end = true;
						auto loop = [&](auto& g) {
							try {
								for (auto&& v : g) {
									x->res(a, "val", 0);
									VSEV("deref").k("a", a).k("h", o.w).k("v", num(v));
									VSEV("step").k("a", a).k("op", "next").k("h", o.w).k("th", hs::th());
								}
								x->res(a, "end", 0);
							} catch (int e) { x->res(a, "exc", e); }
						};
						if (s.m) loop(*s.m);
						else loop(*s.g);
						s.it.reset();
						s.mit.reset();
						x->handle_op(a, {'D', o.w});
					}
					break;
				case 'I': {
					if (s.end || (!s.g && !s.m)) break;
					if constexpr (!Async) {
						if (s.m) x->step(a, o.v, s, *s.m, s.mit);
						else x->step(a, o.v, s, *s.g, s.it);
					} else {
						if (o.w) {
							co_await step_in(x, a, o.v, s);
							break;
						}
						bool first = !s.it;
						VSEV("step").k("a", a).k("op", first ? "begin" : "next").k("h", o.v).k("th", hs::th());
						x->waiting[a] = 1;
						const char* r = "val";
						int v = 0;
						try {
							if (first) s.it.emplace(co_await s.g->begin());
							else {
								auto& self = co_await ++*s.it;
								if (&self != &*s.it) r = "other";
							}
							s.end = *s.it == s.g->end();
							if (s.end) r = "end";
						} catch (int e) {
							s.end = true;
							r = "exc";
							v = e;
							if (first) s.it.emplace(nullptr); // there is none
						}
						x->waiting[a] = 0;
						x->res(a, r, v);
					}
					break;
				}
				case 'R':
				case 'S':
				case 'T':
					if (!s.began() || s.end) break;
					if (o.k == 'R') {
						int v = s.mit ? num(**s.mit) : num(**s.it);
						if constexpr (!Async) {
							int w = v;
							if constexpr (std::is_same_v<MV, hs::Val>) w = (*s.it)->v;
							else if (!s.mit) w = *s.it->operator->();
							if (w != v) v = -2;
						}
						VSEV("deref").k("a", a).k("h", o.v).k("v", v);
					} else if constexpr (!std::is_const_v<V>) {
						if (o.k == 'T' && std::is_same_v<V, hs::Val>) {
							V taken = std::move(**s.it);
							VSEV("deref").k("a", a).k("h", o.v).k("v", num(taken));
							VSEV("set").k("a", a).k("h", o.v).k("v", -1);
						} else {
							VSEV("set").k("a", a).k("h", o.v).k("v", o.w);
							if (s.mit) **s.mit = o.w;
							else {
								auto&& ref = **s.it;
								assign(ref, o.w);
							}
						}
					}
					break;
				case 'E':
					if (s.it && s.g) {
						bool e = *s.it == s.g->end();
						bool ne = *s.it != s.g->end();
						if constexpr (!Async)
							if ((s.g->end() == *s.it) != e || (s.g->end() != *s.it) != ne) VSEV("bad");
						if (e == ne) VSEV("bad");
						VSEV("isend").k("a", a).k("h", o.v).k("v", e);
					}
					break;
				}
			}
		}
		void handle_op(int a, Op o) {
			switch (o.k) {
			case 'N':
				handle_op(a, {'D', o.w});
				create(a, o.v, o.w);
				break;
			case 'D': {
				auto& s = slots.at(o.v);
				if (!s.g && !s.m) break;
				VSEV("call").k("a", a).k("op", "drop").k("h", o.v).k("g", 0).k("th", hs::th());
				s.g.reset();
				s.m.reset();
				s.it.reset();
				s.mit.reset();
				VSEV("ret").k("a", a);
				break;
			}
			case 'M':
			case 'Z': {
				auto &d = slots.at(o.v), &s = slots.at(o.w);
				if (!s.g || d.m || s.m) break;
				if (o.k == 'Z' && !d.g) break;
				VSEV("call").k("a", a).k("op", o.k == 'M' ? "move" : "swap").k("h", o.v).k("g", o.w).k("th", hs::th());
				if (o.k == 'M') {
					d.g = std::move(s.g);
					if (&d != &s) {
						d.it = s.it;
						d.end = s.end;
						// the asynchronous one destroys what it had right away, the other one may leave that to what was moved from
						if (!Async) s.g.reset();
						s.it.reset();
						s.end = false;
					}
				} else {
					if constexpr (Async) {
						if (o.v < o.w) swap(*d.g, *s.g);
						else d.g->swap(*s.g);
					} else {
						G t = std::move(*d.g);
						*d.g = std::move(*s.g);
						*s.g = std::move(t);
					}
					std::swap(d.it, s.it);
					std::swap(d.end, s.end);
				}
				VSEV("ret").k("a", a);
				break;
			}
			}
		}
	};
	std::string show(const std::vector<Op>& p) {
		std::string s;
		for (auto o : p) s += std::string(" ") + o.k + (o.v ? hs::num(o.v) : "") + (o.w ? "," + hs::num(o.w) : "");
		return s;
	}
	template<typename G, typename T, bool Async>
	void program(vs::Case& c, const char* what) {
		auto& r = c.rng;
		Prog<G, T, Async> x;
		int n = 1 + (Async ? r(c.size == 0 ? 2 : 3) : r(2));
		int ndisp = Async ? 1 + r(c.size == 0 ? 1 : 3) : 1;
		int ng = 101, val = 1;
		bool parks = Async && r.chance(20), maps = !Async && std::is_same_v<T, int>;
		auto generator = [&] {
			int g = ng++;
			auto& b = x.bodies[g];
			b.mapped = maps && r.chance(30);
			int m = r(5);
			for (int j = 0; j < m; j++) {
				if (Async && r.chance(45)) b.ops.push_back({'H', 1 + r(ndisp)});
				else {
					b.ops.push_back({"Yy"[r(2)], val});
					if (b.mapped && r.chance(15)) b.bad = val;
					val++;
				}
			}
			if (r.chance(25)) b.ops.push_back({'X', 300 + r(10)});
			else if (parks && r.chance(35)) b.ops.push_back({'K'});
			return g;
		};
		x.prog.resize((size_t)n + 1);
		for (int a = 1; a <= n; a++) {
			auto& p = x.prog[(size_t)a];
			int ns = 1 + r(3);
			auto slot = [&] { return 10 * a + r(ns); };
			int k = 3 + r(c.size == 0 ? 5 : 9);
			for (int j = 0; j < k; j++) {
				int w = r(100);
				if ((j == 0 || w < 12) && ng < 112) p.push_back({!Async && r.chance(15) ? 'L' : 'N', generator(), slot()});
				else if (w < 55) p.push_back({'I', slot(), Async && r.chance(35)});
				else if (w < 68) p.push_back({'R', slot()});
				else if (w < 75) p.push_back({'S', slot(), 100 + r(100)});
				else if (w < 80) p.push_back({'T', slot()});
				else if (w < 88) p.push_back({'E', slot()});
				else if (w < 92) p.push_back({'D', slot()});
				else p.push_back({r.chance(60) ? 'M' : 'Z', slot(), slot()});
			}
		}
		for (int a = 1; a <= n; a++)
			for (int k = 0; k < 3; k++) x.slots[10 * a + k];
		std::string sh = std::string(what) + " ";
		for (int a = 1; a <= n; a++) sh += hs::num(a) + ":" + show(x.prog[(size_t)a]) + "; ";
		for (auto& g : x.bodies) sh += hs::num(g.first) + (g.second.mapped ? "m" : "") + ":" + show(g.second.ops) + "; ";
		vs::set_case("{}", sh);
		hs::disps ds(ndisp);
		x.ds = &ds;
		hs::parallel(n, [&](int a) { x.run(&x, a); });
		ds.wait_idle();
		auto quiet = [&](bool all) {
			std::vector<int> s;
			for (int a = 1; a <= n; a++)
				if (x.waiting[a]) s.push_back(a);
			VSEV("quiesce").k("susp", s).k("all", all);
		};
		quiet(false);
		for (int a = 1; a <= n; a++)
			if (x.waiting[a]) {
				VSEV("call").k("a", 0).k("op", "kill").k("c", a).k("th", hs::th());
				x.waiting[a] = 0;
				std::exchange(x.frame[a], nullptr).destroy();
				VSEV("ret").k("a", 0);
			}
		for (auto& s : x.slots) x.handle_op(0, {'D', s.first});
		quiet(true);
		ds.stop();
	}
	void body(vs::Case& c) {
		int k = c.rng(5);
		if (vs::variant() == "sync") switch (k) {
			case 0: return program<generator<int>, int, false>(c, "int");
			case 1: return program<generator<hs::Val>, hs::Val, false>(c, "Val");
			case 2: return program<generator<int&>, int&, false>(c, "int&");
			case 3: return program<generator<const int&>, const int&, false>(c, "const int&");
			default: return program<generator<hs::Val&&>, hs::Val&&, false>(c, "Val&&");
			}
		switch (k) {
		case 0: return program<async_generator<int>, int, true>(c, "int");
		case 1: return program<async_generator<hs::Val>, hs::Val, true>(c, "Val");
		case 2: return program<async_generator<int&>, int&, true>(c, "int&");
		case 3: return program<async_generator<const int&>, const int&, true>(c, "const int&");
		default: return program<async_generator<hs::Val&&>, hs::Val&&, true>(c, "Val&&");
		}
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
