// Conformance driver for Q02: threadsafe_queue objects shared by several threads.
#include "vsched.h"
#define std vstd
#include <asyncpp/threadsafe_queue.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	struct Ctx;
	// Copyable value; a torn or moved-from one is recognised.
	struct Val {
		int v;
		int check;
		Ctx* x; // set: uses a queue when it is destroyed (copies do not)
		Val(int v = 0, Ctx* x = nullptr) : v(v), check(v * 7), x(x) {}
		Val(const Val& o) : v(o.v), check(o.check), x(nullptr) {}
		Val(Val&& o) noexcept : v(std::exchange(o.v, -1)), check(std::exchange(o.check, -1)), x(std::exchange(o.x, nullptr)) {}
		Val& operator=(const Val& o) { return *this = Val(o); }
		Val& operator=(Val&& o) noexcept {
			std::swap(v, o.v);
			std::swap(check, o.check);
			std::swap(x, o.x);
			return *this;
		}
		~Val() { if (x) released(); }
		void released();
		int get() const { return check == v * 7 ? v : -2; }
	};
	using Queue = threadsafe_queue<Val>;
	// u push, E emplace, o pop, c copy-assign, m move-assign, C copy-construct own slot, M move-construct own slot
	struct Op { char k; int q; int f; int v; };
	struct Ctx {
		Queue* q[7] = {};
		std::vector<std::vector<Op>> prog;
		std::vector<std::unique_ptr<vs::Cell>> cell;
		int hooked = 0; // the element that uses a queue when it is destroyed
		Op hook{'o', 1, 1, 0};
	};
	Ctx* hook(Ctx& x, int v) { return v == x.hooked ? &x : nullptr; }
	void run(Ctx& x, int a, Op op) {
		vs::point();
		if (op.v) x.cell[(size_t)op.v]->write(1);
		switch (op.k) {
		case 'u':
		case 'E':
			VSEV("call").k("a", a).k("op", "push").k("k", op.q).k("v", op.v);
			if (op.k == 'u') x.q[op.q]->push(Val(op.v, hook(x, op.v)));
			else x.q[op.q]->emplace(op.v, hook(x, op.v));
			VSEV("ret").k("a", a).k("r", 0);
			break;
		case 'o': {
			VSEV("call").k("a", a).k("op", "pop").k("k", op.q);
			auto v = x.q[op.q]->pop();
			int r = v ? v->get() : 0;
			VSEV("ret").k("a", a).k("r", r);
			if (r > 0 && r < (int)x.cell.size() && x.cell[(size_t)r]) x.cell[(size_t)r]->read();
			break;
		}
		case 'c':
			VSEV("call").k("a", a).k("op", "copy").k("k", op.q).k("f", op.f);
			*x.q[op.q] = static_cast<const Queue&>(*x.q[op.f]);
			VSEV("ret").k("a", a).k("r", 0);
			break;
		case 'm':
			VSEV("call").k("a", a).k("op", "move").k("k", op.q).k("f", op.f);
			*x.q[op.q] = std::move(*x.q[op.f]);
			VSEV("ret").k("a", a).k("r", 0);
			break;
		case 'C':
			VSEV("call").k("a", a).k("op", "copy").k("k", op.q).k("f", op.f);
			if (op.v % 2) x.q[op.q] = new Queue(static_cast<const Queue&>(*x.q[op.f]));
			else x.q[op.q] = new Queue(*x.q[op.f]);
			VSEV("ret").k("a", a).k("r", 0);
			break;
		case 'M':
			VSEV("call").k("a", a).k("op", "move").k("k", op.q).k("f", op.f);
			x.q[op.q] = new Queue(std::move(*x.q[op.f]));
			VSEV("ret").k("a", a).k("r", 0);
			break;
		}
	}
	void Val::released() { run(*x, 7, x->hook); }
	void body(vs::Case& c) {
		auto& r = c.rng;
		Ctx x;
		int n = 2 + r(c.size == 0 ? 2 : 3);
		int nq = 1 + r(2);
		x.prog.resize((size_t)n + 1);
		x.cell.push_back(nullptr);
		std::string cfg = "{\"q\":[", show;
		std::vector<std::deque<Val>> init;
		for (int k = 1; k <= nq; k++) {
			int m = r(3);
			cfg += k > 1 ? ",[" : "[";
			init.emplace_back();
			for (int i = 0; i < m; i++) {
				int v = (int)x.cell.size();
				x.cell.push_back(nullptr);
				init.back().push_back(Val(v));
				cfg += (i ? "," : "") + hs::num(v);
			}
			cfg += "]";
		}
		cfg += "]}";
		for (int a = 1; a <= n; a++) {
			int k = 1 + r(c.size == 0 ? 2 : 4);
			bool own = false;
			show += hs::num(a) + ":";
			for (int i = 0; i < k; i++) {
				int p = r(100);
				Op o{'o', 1 + r(nq), 1 + r(nq), 0};
				if (p < 35) o.k = r.chance(50) ? 'u' : 'E';
				else if (p < 70) o.k = 'o';
				else if (p < 78) o.k = 'c';
				else if (p < 86) o.k = 'm';
				else if (!own) {
					o.k = r.chance(50) ? 'C' : 'M';
					o.q = 2 + a;
					own = true;
				}
				if (o.k == 'u' || o.k == 'E') {
					o.v = (int)x.cell.size();
					x.cell.push_back(std::make_unique<vs::Cell>());
				}
				x.prog[(size_t)a].push_back(o);
				show += std::string(" ") + o.k + hs::num(o.q) + (strchr("cmCM", o.k) ? "<" + hs::num(o.f) : "") + (o.v ? "=" + hs::num(o.v) : "");
			}
			show += "; ";
		}
		if (x.cell.size() > 1 && r.chance(40)) {
			x.hooked = 1 + r((int)x.cell.size() - 1);
			if (!x.cell[(size_t)x.hooked]) x.hooked = 0;
		}
		if (x.hooked) {
			x.hook = Op{r.chance(50) ? 'u' : 'o', 1 + r(nq), 1, 0};
			show += "destroying " + hs::num(x.hooked) + " does " + x.hook.k + hs::num(x.hook.q);
			if (x.hook.k == 'u') {
				x.hook.v = (int)x.cell.size();
				x.cell.push_back(std::make_unique<vs::Cell>());
				show += "=" + hs::num(x.hook.v);
			}
		}
		vs::set_case(cfg, show);
		for (int k = 1; k <= nq; k++) x.q[k] = r.chance(50) ? new Queue(init[(size_t)k - 1]) : new Queue(std::move(init[(size_t)k - 1]));
		hs::parallel(n, [&](int a) {
			for (auto op : x.prog[(size_t)a]) run(x, a, op);
		});
		VSEV("quiesce");
		// drain everything: what is left must be exactly the specified contents
		for (int i = 0; i < 12; i++) {
			int k = 1 + i % 6; // twice, because the destructor of an element might have added one
			if (x.q[k]) {
				while (true) {
					VSEV("call").k("a", 0).k("op", "pop").k("k", k);
					auto v = x.q[k]->pop();
					VSEV("ret").k("a", 0).k("r", v ? v->get() : 0);
					if (!v) break;
				}
			}
		}
		for (int k = 1; k <= 6; k++) delete x.q[k];
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
