// Conformance driver for C01: one channel, several reading/writing/closing coroutines on several threads and dispatchers.
#include "vsched.h"
#define std vstd
#include <asyncpp/channel.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	using hs::Val;
	// r read, w write, R try_read, W try_write, c close, q is_closed. d: -1 default dispatcher, else resume_on(d)
	struct Op { char k; int d; int v; };
	struct Ctx {
		channel<Val>* ch;
		hs::disps* ds;
		std::vector<std::vector<Op>> prog;
		vs::Raw waiting[16];
		std::vector<std::unique_ptr<vs::Cell>> cell;
		bool own = false; // the client that finishes last destroys the channel
		std::atomic<int> left{0};
	};
	int seen(Ctx* x, std::optional<Val>& v) {
		if (!v) return 0;
		if (v->v > 0 && v->v < (int)x->cell.size()) x->cell[(size_t)v->v]->read();
		return v->v;
	}
	hs::actor client(Ctx* x, int a) {
		int q = 0;
		for (auto op : x->prog[(size_t)a]) {
			vs::point();
			int d = op.d < 0 ? hs::cur() : op.d;
			switch (op.k) {
			case 'r': {
				VSEV("call").k("a", a).k("op", "read").k("q", ++q).k("d", d).k("th", hs::th()).k("c", hs::cur());
				x->waiting[a] = 1;
				std::optional<Val> v;
				if (op.d < 0) v = co_await hs::watch(a, q, x->ch->read());
				else v = co_await hs::watch(a, q, x->ch->read().resume_on(x->ds->get(op.d)));
				x->waiting[a] = 0;
				VSEV("res").k("a", a).k("r", v ? v->v : 0).k("th", hs::th()).k("c", hs::cur());
				seen(x, v);
				break;
			}
			case 'w': {
				x->cell[(size_t)op.v]->write(1);
				VSEV("call").k("a", a).k("op", "write").k("q", ++q).k("v", op.v).k("d", d).k("th", hs::th()).k("c", hs::cur());
				x->waiting[a] = 1;
				bool r;
				if (op.d < 0) r = co_await hs::watch(a, q, x->ch->write(Val(op.v)));
				else r = co_await hs::watch(a, q, x->ch->write(Val(op.v)).resume_on(x->ds->get(op.d)));
				x->waiting[a] = 0;
				VSEV("res").k("a", a).k("r", r ? 1 : 0).k("th", hs::th()).k("c", hs::cur());
				break;
			}
			case 'R': {
				VSEV("call").k("a", a).k("op", "tryr").k("v", 0).k("th", hs::th());
				auto v = x->ch->try_read();
				VSEV("ret").k("a", a).k("op", "tryr").k("r", v ? v->v : 0);
				seen(x, v);
				break;
			}
			case 'W': {
				x->cell[(size_t)op.v]->write(1);
				VSEV("call").k("a", a).k("op", "tryw").k("v", op.v).k("th", hs::th());
				bool r = x->ch->try_write(Val(op.v));
				VSEV("ret").k("a", a).k("op", "tryw").k("r", r ? 1 : 0);
				break;
			}
			case 'c':
				VSEV("call").k("a", a).k("op", "close").k("th", hs::th());
				x->ch->close();
				VSEV("ret").k("a", a).k("op", "close");
				break;
			case 'q': {
				VSEV("call").k("a", a).k("op", "query");
				bool v = x->ch->is_closed();
				VSEV("ret").k("a", a).k("op", "query").k("v", v);
				break;
			}
			}
		}
		if (x->own) {
			if (x->left.fetch_sub(1) == 1) delete x->ch;
		}
	}
	void quiesce(Ctx& x, int n) {
		x.ds->wait_idle();
		std::vector<int> s;
		for (int a = 1; a <= n; a++)
			if (x.waiting[a]) s.push_back(a);
		VSEV("quiesce").k("susp", s);
	}
	void body(vs::Case& c) {
		auto& r = c.rng;
		Ctx x;
		// seq: no client threads; many coroutines are started one after the other
		bool seq = r.chance(35);
		int n = seq ? 3 + r(6) : 2 + r(c.size == 0 ? 2 : c.size == 1 ? 3 : 4);
		int ndisp = r(c.size == 0 ? 2 : 3);
		int maxops = seq ? 1 + r(3) : c.size == 0 ? 2 : c.size == 1 ? 3 : 4;
		int common = r(3); // seq: a run of readers, then a run of writers or the other way round
		x.prog.resize((size_t)n + 1);
		x.cell.push_back(nullptr);
		std::string show;
		bool closing = r.chance(seq ? 30 : 60);
		for (int a = 1; a <= n; a++) {
			int k = 1 + r(maxops);
			int bias = seq && r.chance(75) ? (common == 0 ? r(3) : (common == 1) == (a <= (n + 1) / 2) ? 1 : 2) : r(3); // 0 mixed, 1 reader, 2 writer
			show += hs::num(a) + ":";
			for (int i = 0; i < k; i++) {
				int p = r(100);
				char kind;
				if (closing && p < 12) kind = 'c';
				else if (p < 15) kind = 'q';
				else {
					bool rd = bias == 0 ? r.chance(50) : bias == 1 ? r.chance(90) : r.chance(10);
					kind = r.chance(30) ? (rd ? 'R' : 'W') : (rd ? 'r' : 'w');
				}
				Op o{kind, r.chance(60) ? -1 : r(ndisp + 1), 0};
				if (kind == 'w' || kind == 'W') {
					o.v = (int)x.cell.size();
					x.cell.push_back(std::make_unique<vs::Cell>());
				}
				x.prog[(size_t)a].push_back(o);
				show += std::string(" ") + kind + (o.v ? hs::num(o.v) : "") + (o.d >= 0 ? "@" + hs::num(o.d) : "");
			}
			show += "; ";
		}
		bool on_disp = ndisp > 0 && r.chance(30);
		if (seq) show += "sequential";
		x.own = r.chance(30);
		x.left = n;
		if (x.own) show += " last client destroys the channel";
		vs::set_case("{\"k\":\"channel\"}", show);
		x.ch = new channel<Val>();
		hs::disps ds(ndisp);
		x.ds = &ds;
		if (seq)
			for (int a = 1; a <= n; a++) {
				vs::set_actor(a);
				client(&x, a);
			}
		else hs::parallel(n, [&](int a) {
			if (on_disp && a % 2 == 0) ds.get(1 + a % ndisp)->push([&x, a] { client(&x, a); });
			else client(&x, a);
		});
		quiesce(x, n);
		auto alive = [&] { return !x.own || x.left.load() != 0; };
		// serve whoever is left over, then close
		for (int i = 0; i < 2 && alive() && r.chance(50); i++) {
			VSEV("call").k("a", 0).k("op", "tryr").k("v", 0).k("th", hs::th());
			auto v = x.ch->try_read();
			VSEV("ret").k("a", 0).k("op", "tryr").k("r", v ? v->v : 0);
			quiesce(x, n);
		}
		if (alive()) {
			VSEV("call").k("a", 0).k("op", "close").k("th", hs::th());
			x.ch->close();
			VSEV("ret").k("a", 0).k("op", "close");
		}
		quiesce(x, n);
		bool left = false;
		for (int a = 1; a <= n; a++) left |= (bool)x.waiting[a];
		ds.stop();
		if (!left && !x.own) delete x.ch;
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
