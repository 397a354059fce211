// Conformance driver for Q01: two queues, several coroutines on several threads and dispatchers.
#include "vsched.h"
#define std vstd
#include <asyncpp/queue.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	// an element; some of them use a queue when they are destroyed
	struct Ctx;
	struct Val {
		int v;
		Ctx* x;
		explicit Val(int v, Ctx* x = nullptr) : v(v), x(x) {}
		Val(Val&& o) noexcept : v(std::exchange(o.v, -1)), x(std::exchange(o.x, nullptr)) {}
		Val& operator=(Val&& o) noexcept {
			std::swap(v, o.v);
			std::swap(x, o.x);
			return *this;
		}
		Val(const Val&) = delete;
		~Val() { if (x) released(); }
		void released();
	};
	struct Fail {
		operator Val() const { throw 1; }
	};
	using Queue = queue<Val>;
	// o pop, u push, O try_pop, U try_push, E try_emplace, X try_emplace whose element can not be constructed, s size, e empty, c clear, m move-assign from the other queue, M from itself
	struct Op { char k; int d; int v; int q; };
	struct Ctx {
		Queue* q[2];
		hs::disps* ds;
		std::vector<std::vector<Op>> prog;
		vs::Raw waiting[12];
		std::vector<std::unique_ptr<vs::Cell>> cell;
		bool own = false; // the client that finishes last destroys the queue, maybe while the call that woke it goes on
		std::atomic<int> users{0};
		int hooked = 0;	   // the element that uses a queue when it is destroyed
		Op hook{'s', 0, 0, 1};
	};
	hs::actor client(Ctx* x, int a);
	void Val::released() {
		x->prog[9] = {x->hook};
		client(x, 9);
	}
	// moved from by the tested code, or dropped here if it was not taken
	Val make(Ctx* x, int v) { return Val(v, v == x->hooked ? x : nullptr); }
	void seen(Ctx* x, std::optional<Val>& v) {
		if (v && v->v > 0 && v->v < (int)x->cell.size()) x->cell[(size_t)v->v]->read();
	}
	hs::actor client(Ctx* x, int a) {
		int aq = 0;
		for (auto op : x->prog[(size_t)a]) {
			vs::point();
			int d = op.d < 0 ? hs::cur() : op.d;
			Queue& q = *x->q[op.q - 1];
			if (op.v) x->cell[(size_t)op.v]->write(1);
			switch (op.k) {
			case 'o': {
				VSEV("call").k("a", a).k("op", "pop").k("q", ++aq).k("k", op.q).k("d", d).k("th", hs::th()).k("c", hs::cur());
				x->waiting[a] = 1;
				std::optional<Val> v;
				if (op.d < 0) v = co_await hs::watch(a, aq, q.pop());
				else v = co_await hs::watch(a, aq, q.pop().resume_on(x->ds->get(op.d)));
				x->waiting[a] = 0;
				VSEV("res").k("a", a).k("r", v ? v->v : 0).k("th", hs::th()).k("c", hs::cur());
				seen(x, v);
				break;
			}
			case 'u': {
				VSEV("call").k("a", a).k("op", "push").k("q", ++aq).k("k", op.q).k("v", op.v).k("d", d).k("th", hs::th()).k("c", hs::cur());
				x->waiting[a] = 1;
				bool r;
				if (op.d < 0) r = co_await hs::watch(a, aq, q.push(make(x, op.v)));
				else r = co_await hs::watch(a, aq, q.push(make(x, op.v)).resume_on(x->ds->get(op.d)));
				x->waiting[a] = 0;
				VSEV("res").k("a", a).k("r", r ? 1 : 0).k("th", hs::th()).k("c", hs::cur());
				break;
			}
			case 'O': {
				VSEV("call").k("a", a).k("op", "trypop").k("k", op.q).k("v", 0).k("th", hs::th());
				auto v = q.try_pop();
				VSEV("ret").k("a", a).k("op", "trypop").k("r", v ? v->v : 0);
				seen(x, v);
				break;
			}
			case 'U':
			case 'E': {
				VSEV("call").k("a", a).k("op", "trypush").k("k", op.q).k("v", op.v).k("th", hs::th());
				bool r = op.k == 'U' ? q.try_push(make(x, op.v)) : q.try_emplace(op.v, op.v == x->hooked ? x : nullptr);
				VSEV("ret").k("a", a).k("op", "trypush").k("r", r ? 1 : 0);
				break;
			}
			case 'X': {
				VSEV("call").k("a", a).k("op", "tryfail").k("k", op.q).k("th", hs::th());
				int r;
				try {
					r = q.try_emplace(Fail{}) ? 1 : 0;
				} catch (int) {
					r = 2;
				}
				VSEV("ret").k("a", a).k("op", "tryfail").k("r", r);
				break;
			}
			case 's': {
				VSEV("call").k("a", a).k("op", "size").k("k", op.q);
				size_t n = q.size();
				VSEV("ret").k("a", a).k("op", "size").k("r", (long)n);
				break;
			}
			case 'e': {
				VSEV("call").k("a", a).k("op", "empty").k("k", op.q);
				bool n = q.empty();
				VSEV("ret").k("a", a).k("op", "empty").k("r", n ? 1 : 0);
				break;
			}
			case 'c':
				VSEV("call").k("a", a).k("op", "clear").k("k", op.q).k("th", hs::th());
				q.clear();
				VSEV("ret").k("a", a).k("op", "clear").k("r", 0);
				break;
			case 'M': {
				VSEV("call").k("a", a).k("op", "move").k("k", op.q).k("f", op.q).k("th", hs::th());
				Queue& self = q;
				q = std::move(self);
				VSEV("ret").k("a", a).k("op", "move").k("r", 0);
				break;
			}
			case 'm':
				VSEV("call").k("a", a).k("op", "move").k("k", op.q).k("f", 3 - op.q).k("th", hs::th());
				q = std::move(*x->q[2 - op.q]);
				VSEV("ret").k("a", a).k("op", "move").k("r", 0);
				break;
			}
		}
		if (x->own && a != 0 && x->users.fetch_sub(1) == 1) delete x->q[0];
	}
	void quiesce(Ctx& x, int n) {
		x.ds->wait_idle();
		std::vector<int> s;
		for (int a = 1; a <= n; a++)
			if (x.waiting[a]) s.push_back(a);
		VSEV("quiesce").k("susp", s);
	}
	void body(vs::Case& c) {
		auto& r = c.rng;
		Ctx x;
		// seq: no client threads; many coroutines are started one after the other
		bool seq = r.chance(35);
		int n = seq ? 3 + r(6) : 2 + r(c.size == 0 ? 2 : c.size == 1 ? 3 : 4);
		int ndisp = r(c.size == 0 ? 2 : 3);
		int maxops = seq ? 1 + r(2) : c.size == 0 ? 2 : c.size == 1 ? 3 : 4;
		int common = r(3); // seq: a run of readers, then a run of writers or the other way round
		bool two = r.chance(30);
		bool mctor = !two && r.chance(30);
		int mx[2], dd[2];
		for (int k = 0; k < 2; k++) {
			int p = r(100);
			mx[k] = p < 10 ? 0 : p < 60 ? 1 : p < 80 ? 2 : p < 90 ? 3 : 1000;
			dd[k] = r.chance(40) ? r(ndisp + 1) : 0;
		}
		x.prog.resize(10);
		x.cell.push_back(nullptr);
		std::string show = std::string(seq ? "sequential; " : "") + "max " + hs::num(mx[0]) + "," + hs::num(mx[1]) + "; ";
		int tail = 1 + r(6); // operations of the final sequential phase, as actor 0
		for (int a = 0; a <= n; a++) {
			int k = a == 0 ? tail : 1 + r(maxops);
			int bias = seq && r.chance(75) ? (common == 0 ? r(3) : (common == 1) == (a <= (n + 1) / 2) ? 1 : 2) : r(3); // 0 mixed, 1 reader, 2 writer
			show += hs::num(a) + ":";
			for (int i = 0; i < k; i++) {
				int p = r(100);
				char kind;
				if (two && p < 8) kind = 'm';
				else if (p < 12) kind = r.chance(12) ? 'M' : 'c';
				else if (p < 18) kind = 's';
				else if (p < 22) kind = 'e';
				else {
					bool rd = bias == 0 ? r.chance(50) : bias == 1 ? r.chance(85) : r.chance(15);
					kind = r.chance(seq ? 20 : 35) || a == 0 ? (rd ? 'O' : r.chance(15) ? 'X' : r.chance(50) ? 'U' : 'E') : (rd ? 'o' : 'u');
				}
				Op o{kind, r.chance(60) ? -1 : r(ndisp + 1), 0, (two && r.chance(40)) || (mctor && a == 0 && r.chance(60)) ? 2 : 1};
				if (kind == 'u' || kind == 'U' || kind == 'E') {
					o.v = (int)x.cell.size();
					x.cell.push_back(std::make_unique<vs::Cell>());
				}
				x.prog[(size_t)a].push_back(o);
				show += std::string(" ") + kind + (o.q == 2 ? "'" : "") + (o.v ? hs::num(o.v) : "") + (o.d >= 0 ? "@" + hs::num(o.d) : "");
			}
			show += "; ";
		}
		x.own = !two && !mctor && r.chance(40);
		x.users = n;
		if (!x.own && x.cell.size() > 1 && r.chance(50)) {
			x.hooked = 1 + r((int)x.cell.size() - 1);
			x.hook = Op{"seOUE"[r(5)], 0, 0, two && r.chance(40) ? 2 : 1};
			show += "destroying " + hs::num(x.hooked) + " does " + x.hook.k;
			if (x.hook.k == 'U' || x.hook.k == 'E') {
				x.hook.v = (int)x.cell.size();
				x.cell.push_back(std::make_unique<vs::Cell>());
				show += hs::num(x.hook.v);
			}
			show += x.hook.q == 2 ? "'; " : "; ";
		}
		if (x.own) show += "last client destroys the queue";
		bool on_disp = ndisp > 0 && r.chance(30);
		vs::set_case("{\"max\":[" + hs::num(mx[0]) + "," + hs::num(mx[1]) + "],\"dd\":[" + hs::num(dd[0]) + "," + hs::num(dd[1]) + "]}", show);
		hs::disps ds(ndisp);
		x.ds = &ds;
		for (int k = 0; k < 2; k++) x.q[k] = mx[k] == 1000 && c.rng.chance(50) ? new Queue(size_t{1} << (16 + 16 * c.rng(3)), ds.get(dd[k])) : new Queue((size_t)mx[k], ds.get(dd[k]));
		auto start = [&](int a) {
			if (on_disp && a % 2 == 0) ds.get(1 + a % ndisp)->push([&x, a] { client(&x, a); });
			else client(&x, a);
		};
		if (seq)
			for (int a = 1; a <= n; a++) start(a);
		else hs::parallel(n, start);
		quiesce(x, n);
		if (x.own) {
			for (int i = 0; i < 40 && x.users.load() != 0; i++) {
				Op o{"UUEOOcX"[r(7)], 0, 0, 1};
				if (o.k == 'U' || o.k == 'E') {
					o.v = (int)x.cell.size();
					x.cell.push_back(std::make_unique<vs::Cell>());
				}
				x.prog[0] = {o};
				client(&x, 0);
				quiesce(x, n);
			}
			bool gone = x.users.load() == 0;
			ds.stop();
			if (gone) delete x.q[1];
			return;
		}
		if (mctor) {
			// move construction: nobody uses queue 2, so it is replaced by a new queue built from queue 1 and its waiters
			VSEV("call").k("a", 0).k("op", "move").k("k", 2).k("f", 1).k("th", hs::th());
			auto nq = new Queue(std::move(*x.q[0]));
			delete x.q[1];
			x.q[1] = nq;
			VSEV("ret").k("a", 0).k("op", "move").k("r", 0);
			quiesce(x, n);
		}
		client(&x, 0);
		quiesce(x, n);
		// let everybody finish
		for (int k = 1; k <= 2; k++) {
			VSEV("call").k("a", 0).k("op", "clear").k("k", k).k("th", hs::th());
			x.q[k - 1]->clear();
			VSEV("ret").k("a", 0).k("op", "clear").k("r", 0);
			quiesce(x, n);
			VSEV("call").k("a", 0).k("op", "size").k("k", k);
			VSEV("ret").k("a", 0).k("op", "size").k("r", (long)x.q[k - 1]->size());
		}
		VSEV("call").k("a", 0).k("op", "move").k("k", 1).k("f", 2).k("th", hs::th());
		*x.q[0] = std::move(*x.q[1]);
		VSEV("ret").k("a", 0).k("op", "move").k("r", 0);
		quiesce(x, n);
		VSEV("call").k("a", 0).k("op", "move").k("k", 1).k("f", 2).k("th", hs::th());
		*x.q[0] = std::move(*x.q[1]);
		VSEV("ret").k("a", 0).k("op", "move").k("r", 0);
		quiesce(x, n);
		bool left = false;
		for (int a = 1; a <= n; a++) left |= (bool)x.waiting[a];
		ds.stop();
		if (!left) {
			delete x.q[0];
			delete x.q[1];
		}
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
