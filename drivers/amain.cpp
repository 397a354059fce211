// Conformance driver for Y01: main() of async_main.h.
#include "vsched.h"
#define std vstd
#define main asyncpp_main
#include <asyncpp/async_main.h>
#include <asyncpp/defer.h>
#undef main
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	// H hop to dispatcher d (0: that of main), P push a task to main (var: 1 that pushes another one), X throw
	struct Op { char k; int d; };
	struct Boom { int v; };
	struct Ctx {
		hs::disps* ds;
		std::vector<Op> prog;
		int argc;
		const char** argv;
		dispatcher* home = nullptr;
		int result = 0;
	} * x;
	bool home() { return x->home != nullptr && dispatcher::current() == x->home; }
	void push(int id, bool again) {
		VSEV("push").k("id", id).k("th", hs::th());
		x->home->push([id, again] {
			VSEV("run").k("id", id).k("th", hs::th()).k("cur", home());
			vs::point();
			if (again) push(id + 10, false);
			VSEV("ran").k("id", id);
		});
	}
	struct Hop {
		dispatcher* to;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> h) {
			auto d = to;
			VSEV("hop").k("home", d == x->home);
			d->push([h] { h.resume(); });
		}
		void await_resume() { VSEV("back").k("th", hs::th()).k("cur", home()); }
	};
	struct Local {
		~Local() {
			vs::point();
			VSEV("left").k("th", hs::th());
		}
	};
} // namespace
task<int> async_main(int argc, const char** argv) {
	x->home = dispatcher::current();
	VSEV("start").k("th", hs::th()).k("cur", x->home != nullptr).k("args", argc == x->argc && argv == x->argv);
	Local l;
	int id = 0;
	for (auto o : x->prog) {
		if (o.k == 'P') push(++id, o.d);
		else if (o.k == 'H') co_await Hop{o.d == 0 ? x->home : x->ds->get(o.d)};
		else if (o.k == 'X') {
			VSEV("end").k("v", -x->result);
			throw Boom{x->result};
		}
	}
	VSEV("end").k("v", x->result);
	co_return x->result;
}
namespace {
	void body(vs::Case& c) {
		auto& r = c.rng;
		Ctx ctx;
		x = &ctx;
		std::string show;
		int n = r(c.size == 0 ? 5 : 9);
		int nd = 1 + r(2);
		for (int i = 0; i < n; i++) {
			Op o{r(2) ? 'H' : 'P', 0};
			o.d = o.k == 'H' ? r(nd + 1) : r(2);
			show += o.k == 'H' ? " to " + hs::num(o.d) : o.d ? " push2" : " push";
			ctx.prog.push_back(o);
		}
		if (r.chance(25)) ctx.prog.push_back({'X', 0}), show += " throw";
		ctx.result = 1 + r(100);
		const char* argv[] = {"program", "argument", nullptr};
		ctx.argv = argv;
		ctx.argc = 2;
		vs::set_case("{}", show);
		{
			hs::disps ds(nd);
			ctx.ds = &ds;
			VSEV("call");
			int v = 0;
			try {
				v = asyncpp_main(ctx.argc, argv);
			} catch (const Boom& b) { v = -b.v; }
			VSEV("ret").k("v", v).k("th", hs::th()).k("cur", dispatcher::current() != nullptr);
			ds.wait_idle();
			ds.stop();
		}
		VSEV("finished");
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
