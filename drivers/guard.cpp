// Conformance driver for M02: mutex_lock guards over two mutexes, with coroutines waiting behind them.
#include "vsched.h"
#define std vstd
#include <asyncpp/mutex.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	constexpr int NM = 2, NG = 3, NW = 3;
	struct Ctx {
		mutex m[NM];
		std::optional<mutex_lock> g[NG];
		bool raw[NM] = {};
		int wowner[NM] = {}; // waiter that owns m and keeps it
		bool wused[NW] = {};
		std::string prog;
		int idx(mutex* p) { return p == nullptr ? 0 : 1 + (int)(p - m); }
		void done() {
			std::string gm = "[", gh = "[", ml = "[";
			for (int i = 0; i < NG; i++) {
				if (i) gm += ",", gh += ",";
				gm += hs::num(g[i] ? idx(&g[i]->mutex()) : 0);
				gh += g[i] && g[i]->is_locked() ? "true" : "false";
			}
			for (int i = 0; i < NM; i++) {
				if (i) ml += ",";
				ml += m[i].is_locked() ? "true" : "false";
			}
			vs::log("{\"e\":\"done\",\"gm\":" + gm + "],\"gh\":" + gh + "],\"ml\":" + ml + "]}");
		}
	};
	hs::actor waiter(Ctx* x, int i, int m, bool scoped, bool keep) {
		if (scoped) {
			auto g = co_await x->m[m].lock_scoped();
			VSEV("wacq").k("i", i);
			if (keep) {
				// hand the ownership out of the guard: adopt into a guard that leaks it
				x->wowner[m] = i;
				new (operator new(sizeof(mutex_lock))) mutex_lock(std::move(g));
				co_return;
			}
			VSEV("wrel").k("i", i);
		} else {
			co_await x->m[m].lock();
			VSEV("wacq").k("i", i);
			if (keep) { x->wowner[m] = i; co_return; }
			VSEV("wrel").k("i", i);
			x->m[m].unlock();
		}
	}
	hs::actor glock(Ctx* x, int i, bool* done) {
		co_await x->g[i]->lock();
		*done = true;
	}
	hs::actor scoped(Ctx* x, int i, int m, bool* done) {
		x->g[i].emplace(co_await x->m[m].lock_scoped());
		*done = true;
	}
	void step(Ctx& x, vs::Rng& r, bool end) {
		int i = r(NG), j = r(NG), m = r(NM);
		auto show = [&](const std::string& s) { x.prog += s + " "; };
		switch (end ? 100 : r(13)) {
		case 0:
			if (x.g[i]) return;
			VSEV("new").k("i", i + 1).k("m", m + 1);
			x.g[i].emplace(x.m[m]);
			break;
		case 1:
			if (x.g[i] || !x.raw[m]) return;
			VSEV("adopt").k("i", i + 1).k("m", m + 1);
			x.raw[m] = false;
			x.g[i].emplace(x.m[m], std::adopt_lock);
			break;
		case 2: {
			if (!x.g[i] || x.g[i]->is_locked() || x.idx(&x.g[i]->mutex()) == 0) return;
			bool v = x.g[i]->try_lock();
			VSEV("gtry").k("i", i + 1).k("v", v);
			break;
		}
		case 3: {
			bool v = x.m[m].try_lock();
			if (v) x.raw[m] = true;
			VSEV("rtry").k("m", m + 1).k("v", v);
			break;
		}
		case 4: {
			if (!x.g[i] || x.idx(&x.g[i]->mutex()) == 0) return;
			if (!x.g[i]->is_locked() && x.g[i]->mutex().is_locked()) return;
			VSEV("glock").k("i", i + 1);
			bool done = false;
			glock(&x, i, &done);
			if (!done) VSEV("bad").k("what", "lock of a free mutex suspended");
			break;
		}
		case 5: {
			if (x.g[i] || x.m[m].is_locked()) return;
			VSEV("scoped").k("i", i + 1).k("m", m + 1);
			bool done = false;
			scoped(&x, i, m, &done);
			if (!done) VSEV("bad").k("what", "lock of a free mutex suspended");
			break;
		}
		case 6:
			if (!x.g[i] || !x.g[i]->is_locked()) return;
			VSEV("gunlock").k("i", i + 1);
			x.g[i]->unlock();
			break;
		case 7:
			if (!x.raw[m] && !x.wowner[m]) return;
			VSEV("runlock").k("m", m + 1);
			x.raw[m] = false;
			x.wowner[m] = 0;
			x.m[m].unlock();
			break;
		case 8:
			if (!x.g[i]) return;
			VSEV("destroy").k("i", i + 1);
			x.g[i].reset();
			break;
		case 9:
			if (!x.g[i] || x.g[j]) return;
			VSEV("mctor").k("j", j + 1).k("i", i + 1);
			x.g[j].emplace(std::move(*x.g[i]));
			break;
		case 10:
		case 11:
			if (!x.g[i] || !x.g[j]) return;
			VSEV("massign").k("j", j + 1).k("i", i + 1);
			*x.g[j] = std::move(*x.g[i]);
			break;
		case 12: {
			int w = r(NW);
			if (x.wused[w]) return;
			x.wused[w] = true;
			VSEV("spawn").k("i", w + 1).k("m", m + 1);
			waiter(&x, w + 1, m, r.chance(50), r.chance(35));
			break;
		}
		default: return;
		}
		x.done();
	}
	void body(vs::Case& c) {
		auto& r = c.rng;
		auto seed = r.s;
		vs::set_case("{\"k\":\"guard\"}", "guard operations, seed " + std::to_string(seed));
		auto x = new Ctx;
		int n = 10 + r(c.size == 0 ? 12 : 40);
		for (int i = 0; i < n; i++) step(*x, r, false);
		// release everything
		for (int i = 0; i < NG; i++)
			if (x->g[i]) {
				VSEV("destroy").k("i", i + 1);
				x->g[i].reset();
				x->done();
			}
		for (int k = 0; k < NM; k++)
			for (int z = 0; z < 8 && (x->raw[k] || x->wowner[k]); z++) {
				VSEV("runlock").k("m", k + 1);
				x->raw[k] = false;
				x->wowner[k] = 0;
				x->m[k].unlock();
				x->done();
			}
		delete x;
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
