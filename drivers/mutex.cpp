// Conformance driver for M01: one asyncpp::mutex, several client coroutines on several threads and dispatchers.
#include "vsched.h"
#define std vstd
#include <asyncpp/defer.h>
#include <asyncpp/mutex.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	// l lock/unlock, s lock_scoped + guard destructor, g guard.lock() + guard.unlock(), t try_lock, T guard.try_lock, q is_locked
	// inner: what happens while owning: 0 nothing, 1 is_locked, 2 switch to dispatcher d, 3 scheduling point
	struct Op { char k; int inner; int d; };
	struct Ctx {
		mutex* m;
		hs::disps* ds;
		std::vector<std::vector<Op>> prog;
		vs::Raw waiting[12];
		vs::Cell cell;
		vs::Raw done = 0;
		bool own = false; // the client that is the last to own the mutex destroys it, maybe while another unlock still returns
		std::atomic<int> users{0};
	};
	void query(Ctx* x, int a) {
		vs::point();
		VSEV("call").k("a", a).k("op", "query");
		bool v = x->m->is_locked();
		VSEV("ret").k("a", a).k("op", "query").k("v", v);
	}
	void call_lock(Ctx* x, int a, int q) {
		vs::point();
		VSEV("call").k("a", a).k("op", "lock").k("q", q).k("th", hs::th());
		x->waiting[a] = 1;
	}
	void acquired(Ctx* x, int a) {
		x->waiting[a] = 0;
		VSEV("acq").k("a", a).k("th", hs::th());
		x->cell.write(a);
	}
	void call_unlock(Ctx* x, int a) {
		x->cell.write(a);
		VSEV("call").k("a", a).k("op", "unlock").k("th", hs::th());
	}
	void ret_unlock(Ctx* x, int a) { VSEV("ret").k("a", a).k("op", "unlock"); }
	hs::actor client(Ctx* x, int a) {
		int q = 0;
		for (auto& op : x->prog[(size_t)a]) {
			switch (op.k) {
			case 'l': {
				call_lock(x, a, ++q);
				co_await hs::watch(a, q, x->m->lock());
				acquired(x, a);
				if (op.inner == 1) query(x, a);
				else if (op.inner == 2 && op.d) co_await defer{*x->ds->get(op.d)};
				else if (op.inner == 3) vs::point();
				bool last = x->own && &op == &x->prog[(size_t)a].back() && x->users.fetch_sub(1) == 1;
				call_unlock(x, a);
				x->m->unlock();
				ret_unlock(x, a);
				if (last) delete x->m;
				break;
			}
			case 's': {
				call_lock(x, a, ++q);
				{
					auto g = co_await hs::watch(a, q, x->m->lock_scoped());
					acquired(x, a);
					if (!g.is_locked()) VSEV("bad").k("what", "scoped guard does not hold");
					if (op.inner == 1) query(x, a);
					else if (op.inner == 2 && op.d) co_await defer{*x->ds->get(op.d)};
					else if (op.inner == 3) vs::point();
					call_unlock(x, a);
				}
				ret_unlock(x, a);
				break;
			}
			case 'g': {
				mutex_lock g{*x->m};
				call_lock(x, a, ++q);
				co_await hs::watch(a, q, g.lock());
				acquired(x, a);
				if (op.inner == 1) query(x, a);
				else if (op.inner == 2 && op.d) co_await defer{*x->ds->get(op.d)};
				call_unlock(x, a);
				g.unlock();
				ret_unlock(x, a);
				break;
			}
			case 't': {
				vs::point();
				VSEV("call").k("a", a).k("op", "try");
				bool v = x->m->try_lock();
				VSEV("ret").k("a", a).k("op", "try").k("v", v);
				if (v) {
					x->cell.write(a);
					if (op.inner == 1) query(x, a);
					else if (op.inner == 2 && op.d) co_await defer{*x->ds->get(op.d)};
					else if (op.inner == 3) vs::point();
					call_unlock(x, a);
					x->m->unlock();
					ret_unlock(x, a);
				}
				break;
			}
			case 'T': {
				mutex_lock g{*x->m};
				vs::point();
				VSEV("call").k("a", a).k("op", "try");
				bool v = g.try_lock();
				VSEV("ret").k("a", a).k("op", "try").k("v", v);
				if (v) {
					x->cell.write(a);
					call_unlock(x, a);
					g.unlock();
					ret_unlock(x, a);
				}
				break;
			}
			case 'q': query(x, a); break;
			}
		}
		x->done++;
	}
	void quiesce(Ctx& x, int n) {
		x.ds->wait_idle();
		std::vector<int> s;
		for (int a = 1; a <= n; a++)
			if (x.waiting[a]) s.push_back(a);
		VSEV("quiesce").k("susp", s);
	}
	void body(vs::Case& c) {
		auto& r = c.rng;
		Ctx x;
		// seq: no client threads; many coroutines are started one after the other, mostly while the mutex is held
		bool seq = r.chance(30);
		int n = seq ? 3 + r(6) : 2 + r(c.size == 0 ? 2 : c.size == 1 ? 3 : 4);
		int ndisp = r(c.size == 0 ? 2 : 3);
		bool init = r.chance(seq ? 70 : 20);
		int maxops = seq ? 1 + r(2) : c.size == 0 ? 2 : 3;
		x.prog.resize((size_t)n + 1);
		std::string show = std::string(seq ? "sequential; " : "") + (init ? "initially locked; " : "");
		for (int a = 1; a <= n; a++) {
			int k = 1 + r(maxops);
			show += hs::num(a) + ":";
			for (int i = 0; i < k; i++) {
				static const char kinds[] = "llllssgtttTq";
				Op o{kinds[r(12)], r.chance(40) ? 1 + r(3) : 0, ndisp ? 1 + r(ndisp) : 0};
				x.prog[(size_t)a].push_back(o);
				show += std::string(" ") + o.k + (o.inner == 1 ? "?" : o.inner == 2 && o.d ? "@" + hs::num(o.d) : o.inner == 3 ? "." : "");
			}
			show += "; ";
		}
		x.own = r.chance(30);
		x.users = n;
		if (x.own) {
			show += "last owner destroys the mutex";
			for (int a = 1; a <= n; a++) x.prog[(size_t)a].push_back({'l', r.chance(40) ? 1 + r(3) : 0, ndisp ? 1 + r(ndisp) : 0});
		}
		bool on_disp = ndisp > 0 && r.chance(30);
		vs::set_case(std::string("{\"locked\":") + (init ? "true" : "false") + "}", show);
		auto m = init ? new mutex(mutex::construct_locked) : new mutex();
		x.m = m;
		hs::disps ds(ndisp);
		x.ds = &ds;
		if (init) x.cell.write(0);
		auto start = [&](int a) {
			if (on_disp && a % 2 == 0) ds.get(1 + a % ndisp)->push([&x, a] { client(&x, a); });
			else client(&x, a);
		};
		if (seq)
			for (int a = 1; a <= n; a++) start(a);
		else hs::parallel(n, start);
		quiesce(x, n);
		if (init) {
			call_unlock(&x, 0);
			m->unlock();
			ret_unlock(&x, 0);
			quiesce(x, n);
		}
		bool all = x.done == n;
		ds.stop();
		if (all && !x.own) delete m;
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
