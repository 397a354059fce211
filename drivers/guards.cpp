// Conformance driver for G01: scope guards in blocks, functions and coroutines that are left in any way.
#include "vsched.h"
#define std vstd
#include <asyncpp/scope_guard.h>
#undef std
#include "harness.h"

using asyncpp::scope_guard;
namespace {
	constexpr int max_scopes = 12, max_items = 20;
	struct AnyGuard {
		int i;
		virtual void set(bool v) = 0;
		virtual bool is() = 0;
		virtual int fn() = 0;
		virtual void setfn(int v) = 0;
	};
	struct Frame {
		std::coroutine_handle<> h;
		std::vector<int> open; // scopes in it, outermost first
		bool destroying = false;
	};
	struct Ctx {
		vs::Rng* r;
		int scopes = 0, items = 0, budget = 0;
		std::vector<AnyGuard*> guards;
		std::vector<Frame*> frames;
		std::map<int, std::function<void(bool)>> self;
	} * x;
	void forget(int i) { std::erase_if(x->guards, [i](AnyGuard* g) { return g->i == i; }); }
	void ops(int depth);
	int number() { return (*x->r)(1000); }
	void act(int i, int v) noexcept {
		forget(i);
		VSEV("run").k("i", i).k("v", v);
		if ((*x->r)(4) == 0) {
			// too late
			bool v = (*x->r)(2);
			x->self[i](v);
			VSEV("set").k("i", i).k("v", v);
		}
		if ((*x->r)(3) == 0) {
			try {
				ops(2);
			} catch (int) {}
		}
		VSEV("ran").k("i", i);
	}
	struct Fn {
		int i, v;
		Fn(int i, int v) : i(i), v(v) {}
		Fn(Fn&& o) noexcept : i(o.i), v(std::exchange(o.v, -1)) {}
		void operator()() noexcept { act(i, v); }
	};
	struct CopyFn { // has only a copy constructor; the call operator is const
		int i;
		int v;
		CopyFn(int i, int v) : i(i), v(v) {}
		CopyFn(const CopyFn& o) : i(o.i), v(o.v) {}
		int operator()() const noexcept {
			act(i, v);
			return 7;
		}
	};
	template<typename F>
	struct G final : AnyGuard {
		scope_guard<F> g;
		G(int i, int v, bool eng) : g(F(i, v), eng) {
			this->i = i;
			x->self[i] = [g = &g](bool v) { v ? g->engage() : g->disengage(); };
			x->guards.push_back(this);
		}
		G(int i, int v) : g(F(i, v)) {
			this->i = i;
			x->self[i] = [g = &g](bool v) { v ? g->engage() : g->disengage(); };
			x->guards.push_back(this);
		}
		~G() { forget(i); }
		void set(bool v) override { v ? g.engage() : g.disengage(); }
		bool is() override { return g.is_engaged(); }
		int fn() override { return std::as_const(g).function().v; }
		void setfn(int v) override { g.function().v = v; }
	};
	struct Obj {
		int i;
		Obj(int i, int s) : i(i) { VSEV("obj").k("i", i).k("s", s); }
		~Obj() {
			VSEV("run").k("i", i).k("v", 0);
			VSEV("ran").k("i", i);
		}
	};
	// first local variable of a scope
	struct Mark {
		int s;
		Frame* f;
		Mark(int s, Frame* f) : s(s), f(f) {
			VSEV("open").k("s", s);
			if (f) f->open.push_back(s);
		}
		~Mark() {
			VSEV("left").k("s", s);
			if (f) {
				f->open.pop_back();
				if (f->destroying && !f->open.empty()) VSEV("leave").k("s", f->open.back());
			}
		}
	};
	void leave(int s) { VSEV("leave").k("s", s); }
	// declares the guard called NAME in scope s, if there are numbers left
#define GUARD(NAME, F)                                                                 \
	const bool NAME##_on = x->items < max_items;                                       \
	const int NAME##_i = NAME##_on ? ++x->items : 0;                                   \
	const bool NAME##_eng = (*x->r)(3) != 0;                                           \
	const int NAME##_v = number();                                                     \
	if (NAME##_on) VSEV("new").k("i", NAME##_i).k("s", s).k("eng", NAME##_eng).k("v", NAME##_v); \
	std::optional<G<F>> NAME;                                                          \
	if (NAME##_on) {                                                                   \
		if (NAME##_eng && (*x->r)(2)) NAME.emplace(NAME##_i, NAME##_v);                \
		else                                                                           \
			NAME.emplace(NAME##_i, NAME##_v, NAME##_eng);                              \
	}
#define OBJ(NAME)               \
	std::optional<Obj> NAME;    \
	if (x->items < max_items) { \
		const int i = ++x->items; \
		NAME.emplace(i, s);     \
	}
#define OPS                                \
	try {                                  \
		ops(depth);                        \
	} catch (int n) {                      \
		leave(s);                          \
		if (n > 0) throw n - 1;            \
		return n;                          \
	}
	// returning from the handler leaves the scope by a return, rethrowing by an exception
	int scope(int depth) {
		if (x->scopes >= max_scopes) return 0;
		const int s = ++x->scopes;
		Mark m(s, nullptr);
		OPS
		GUARD(a, Fn)
		OPS
		OBJ(o)
		GUARD(b, CopyFn)
		OPS
		switch ((*x->r)(5)) {
		case 0: leave(s); throw (*x->r)(3);
		case 1: leave(s); return 1;
		case 2: {
			GUARD(c, Fn)
			OBJ(p)
			OPS
			leave(s);
			return 2;
		}
		default: break;
		}
		GUARD(d, Fn)
		OPS
		leave(s);
		return 3;
	}
	struct co {
		struct promise_type {
			co get_return_object() { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
			std::suspend_always initial_suspend() noexcept { return {}; }
			std::suspend_always final_suspend() noexcept { return {}; }
			void return_void() noexcept {}
			void unhandled_exception() noexcept {}
		};
		std::coroutine_handle<> h;
	};
#undef OPS
#define OPS                                \
	{                                      \
		int caught = -1;                   \
		try {                              \
			ops(depth);                    \
		} catch (int n) { caught = n; }    \
		if (caught >= 0) {                 \
			leave(s);                      \
			if (caught > 0) throw caught;  \
			co_return;                     \
		}                                  \
	}
	co frame(Frame* f, int depth) {
		if (x->scopes + 1 >= max_scopes) co_return;
		const int s = ++x->scopes;
		Mark m(s, f);
		GUARD(a, Fn)
		OBJ(o)
		co_await std::suspend_always{};
		OPS
		GUARD(b, CopyFn)
		co_await std::suspend_always{};
		OPS
		if ((*x->r)(2) && x->scopes < max_scopes) {
			const int s2 = ++x->scopes;
			{
				const int outer = s;
				const int s = s2;
				Mark m(s, f);
				GUARD(c, Fn)
				OBJ(p)
				co_await std::suspend_always{};
				leave(s);
				if ((*x->r)(3) == 0) {
					m.f->destroying = true; // the outer scope is left as soon as this one has been
					co_return;
				}
				(void)outer;
			}
		}
		OPS
		leave(s);
	}
	void end_frame(Frame* f) {
		std::erase(x->frames, f);
		if (!f->h.done() && !f->open.empty()) {
			f->destroying = true;
			leave(f->open.back());
		}
		f->h.destroy();
		delete f;
	}
	void ops(int depth) {
		auto& r = *x->r;
		int n = r(3);
		for (int k = 0; k < n && x->budget > 0; k++) {
			x->budget--;
			AnyGuard* g = x->guards.empty() ? nullptr : x->guards[(size_t)r((int)x->guards.size())];
			Frame* f = x->frames.empty() ? nullptr : x->frames[(size_t)r((int)x->frames.size())];
			switch (r(11)) {
			case 0:
			case 1:
			case 2:
				if (g) {
					bool v = r(2);
					g->set(v);
					VSEV("set").k("i", g->i).k("v", v);
				}
				break;
			case 3:
				if (g) VSEV("is").k("i", g->i).k("v", g->is());
				break;
			case 4:
				if (g) VSEV("fn").k("i", g->i).k("v", g->fn());
				break;
			case 5:
				if (g) {
					int v = number();
					g->setfn(v);
					VSEV("setfn").k("i", g->i).k("v", v);
				}
				break;
			case 6:
			case 7:
				if (depth < 3) scope(depth + 1);
				break;
			case 8:
				if (depth < 2 && x->scopes + 1 < max_scopes) {
					auto f = new Frame;
					f->h = frame(f, depth + 1).h;
					x->frames.push_back(f);
				}
				break;
			case 9:
				if (f && !f->h.done()) {
					std::erase(x->frames, f); // it is not touched while it runs
					f->h.resume();
					x->frames.push_back(f);
				}
				break;
			case 10:
				if (f) end_frame(f);
				break;
			}
		}
	}
	void body(vs::Case& c) {
		vs::set_case("{\"k\":\"guards\"}", "scope guards, seed " + std::to_string(c.rng.s));
		Ctx ctx;
		x = &ctx;
		ctx.r = &c.rng;
		ctx.budget = c.size == 0 ? 15 : 60;
		for (int i = 0; i < 4; i++) {
			try {
				scope(0);
			} catch (int) {}
			try {
				ops(0);
			} catch (int) {}
		}
		while (!ctx.frames.empty()) end_frame(ctx.frames.back());
		vs::Ev("finished");
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
