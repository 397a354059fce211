// Conformance driver for X01: asyncpp's own stop_source, stop_token and stop_callback.
#include "vsched.h"
#define ASYNCPP_FORCE_CUSTOM_STOP_TOKEN 1
#define std vstd
#include <asyncpp/stop_token.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	// sources: n new (state v), z none, c copy, m move, x swap, k copy construct and destroy, Q query op v, E compare
	// tokens: g get from source, C copy, M move, X swap, q query op v, e compare
	// r request stop, b register callback v (through token j, moved token if i), d deregister callback v
	struct Op { char k; int i, j, v; };
	struct Ctx;
	struct Fn {
		Ctx* x;
		int c;
		Fn(Ctx* x, int c) : x(x), c(c) {}
		void operator()();
	};
	using Cb = stop_callback<Fn>;
	struct Ctx {
		std::vector<std::unique_ptr<stop_source>> src;
		std::vector<std::unique_ptr<stop_token>> tok;
		std::vector<std::vector<Op>> prog;   // clients
		std::map<int, std::vector<Op>> cprog; // callbacks
		vstd::atomic<Cb*> cb[120]{};   // handed over between threads
		vs::Raw claimed[120], ran[120];
		bool wrote = false;
		std::map<int, std::unique_ptr<vs::Cell>> cell;
		vs::Cell requested; // written before the only client that requests does so
		int requester = 0;
	};
	const char* src_ops = "nzcmx";
	const char* src_names[] = {"new", "none", "copy", "move", "swap"};
	const char* tok_ops = "gCMX";
	const char* tok_names[] = {"get", "copy", "move", "swap"};
	int idx(const char* s, char c) { return (int)(strchr(s, c) - s); }
	void op1(Ctx* x, int a, Op o) {
		vs::point();
		auto& S = x->src;
		auto& T = x->tok;
		switch (o.k) {
		case 'n':
		case 'z':
		case 'c':
		case 'm':
		case 'x':
			VSEV("call").k("a", a).k("op", "src").k("k", src_names[idx(src_ops, o.k)]).k("i", o.i).k("j", o.j).k("t", o.v);
			if (o.k == 'n') *S[o.i] = stop_source();
			else if (o.k == 'z') *S[o.i] = stop_source(nostopstate);
			else if (o.k == 'c') *S[o.i] = *S[o.j];
			else if (o.k == 'm') {
				if (o.i != o.j) *S[o.i] = std::move(*S[o.j]);
			} else if (o.i % 2) S[o.i]->swap(*S[o.j]);
			else { using std::swap; swap(*S[o.i], *S[o.j]); }
			VSEV("ret").k("a", a).k("op", "src");
			break;
		case 'k': {
			// no visible effect
			stop_source t(*S[o.i]);
			stop_source u(std::move(t));
			stop_token v(*T[o.j]), w(std::move(v));
			break;
		}
		case 'g':
		case 'C':
		case 'M':
		case 'X':
			if (o.k == 'g') *T[o.i] = S[o.j]->get_token();
			else if (o.k == 'C') *T[o.i] = *T[o.j];
			else if (o.k == 'M') {
				if (o.i != o.j) *T[o.i] = std::move(*T[o.j]);
			} else { using std::swap; swap(*T[o.i], *T[o.j]); }
			VSEV("tok").k("a", a).k("k", tok_names[idx(tok_ops, o.k)]).k("i", o.i).k("j", o.j);
			break;
		case 'Q':
		case 'q':
		case 'E':
		case 'e': {
			const char* n = o.k == 'E' ? "seq" : o.k == 'e' ? "teq" : o.k == 'Q' ? (o.v ? "spos" : "sreq") : (o.v ? "tpos" : "treq");
			VSEV("call").k("a", a).k("op", "query").k("k", n).k("i", o.i).k("j", o.j);
			bool v = o.k == 'E' ? *S[o.i] == *S[o.j] : o.k == 'e' ? *T[o.i] == *T[o.j]
				: o.k == 'Q' ? (o.v ? S[o.i]->stop_possible() : S[o.i]->stop_requested()) : (o.v ? T[o.i]->stop_possible() : T[o.i]->stop_requested());
			VSEV("ret").k("a", a).k("op", "query").k("v", v);
			if (v && x->requester && !o.v && (o.k == 'Q' || o.k == 'q')) x->requested.read();
			break;
		}
		case 'r': {
			if (x->requester && x->requester == a && !x->wrote) {
				x->wrote = true;
				x->requested.write(1);
			}
			VSEV("call").k("a", a).k("op", "req").k("i", o.i).k("th", hs::th());
			bool v = S[o.i]->request_stop();
			VSEV("ret").k("a", a).k("op", "req").k("v", v);
			break;
		}
		case 'b':
			VSEV("call").k("a", a).k("op", "reg").k("c", o.v).k("i", o.j).k("th", hs::th());
			{
				Cb* p = o.i ? new Cb(stop_token(*T[o.j]), Fn(x, o.v)) : new Cb(*T[o.j], Fn(x, o.v));
				VSEV("ret").k("a", a).k("op", "reg");
				x->cb[o.v].store(p, std::memory_order::release);
			}
			break;
		case 'd': {
			Cb* p = x->claimed[o.v] ? nullptr : x->cb[o.v].load(std::memory_order::acquire);
			if (!p || x->claimed[o.v]) break;
			x->claimed[o.v] = 1;
			bool own = a == o.v;
			VSEV("call").k("a", a).k("op", "dereg").k("c", o.v).k("th", hs::th());
			delete p;
			VSEV("ret").k("a", a).k("op", "dereg");
			if (!own && x->ran[o.v] != 1) x->cell[o.v]->write(2); // over, or never going to run
			break;
		}
		}
	}
	void Fn::operator()() {
		// the callback object may be destroyed while it runs
		Ctx* lx = x;
		int lc = c;
		VSEV("run").k("c", lc).k("th", hs::th());
		lx->ran[lc] = 1;
		lx->cell[lc]->write(1);
		if (lx->requester) lx->requested.read();
		for (auto o : lx->cprog[lc]) op1(lx, lc, o);
		lx->ran[lc] = 2;
		VSEV("end").k("c", lc);
	}
	void body(vs::Case& c) {
		auto& r = c.rng;
		Ctx x;
		int n = 2 + r(c.size == 0 ? 1 : 3);
		bool shared = r.chance(60);   // source 0 exists to the end
		int maxops = c.size == 0 ? 3 : 5;
		int ncb = 101, nst = 2;
		bool one_state = r.chance(50);
		bool one_req = r.chance(30) && one_state;
		int requester = one_req ? 1 + r(n) : 0;
		bool gone = !shared && r.chance(50); // clients drop all they have, nothing else refers to the state
		std::string si = shared ? "1" : "0", ti = gone ? "0" : "1", sh = gone ? "nothing stays; " : shared ? "" : "no source 0; ";
		stop_source first;
		x.src.push_back(std::make_unique<stop_source>(nostopstate));
		if (shared) *x.src[0] = first;
		x.tok.push_back(gone ? std::make_unique<stop_token>() : std::make_unique<stop_token>(first.get_token()));
		for (int a = 1; a <= n; a++)
			for (int k = 0; k < 2; k++) {
				bool has = k == 0 || r.chance(30);
				x.src.push_back(has ? std::make_unique<stop_source>(first) : std::make_unique<stop_source>(nostopstate));
				bool th = k == 0 || r.chance(30);
				x.tok.push_back(th ? std::make_unique<stop_token>(first.get_token()) : std::make_unique<stop_token>());
				si += has ? ",1" : ",0";
				ti += th ? ",1" : ",0";
			}
		first = *x.src[0];
		x.prog.resize((size_t)n + 1);
		std::vector<int> cbs;
		for (int a = 1; a <= n; a++) {
			int k = 1 + r(maxops);
			auto S = [&](bool own = false) { return own || !shared || r.chance(60) ? 2 * a - 1 + r(2) : 0; };
			auto T = [&](bool own = false) { return own || r.chance(60) ? 2 * a - 1 + r(2) : 0; };
			sh += hs::num(a) + ":";
			int left = r.chance(30) ? 1 : 0; // most clients of programs with few sources give theirs up
			for (int i = 0; i < k; i++) {
				int w = r(100);
				Op o{'q', T(), 0, r(2)};
				if (w < 24 && ncb < 109) {
					int j = T();
					o = {'b', r(2), j, ncb};
					cbs.push_back(ncb++);
				} else if (w < 42 && !cbs.empty()) o = {'d', 0, 0, cbs[(size_t)r((int)cbs.size())]};
				else if (w < 62 && (!one_req || a == requester)) o = {'r', S(), 0, 0};
				else if (w < 68) o = {'Q', S(), 0, r(2)};
				else if (w < 74) o = {'q', T(), 0, r(2)};
				else if (w < 77) o = {r.chance(50) ? 'E' : 'e', 2 * a - 1, r.chance(50) ? 2 * a : 0, 0};
				else if (w < 82) o = {tok_ops[r(4)], T(true), 0, 0}, o.j = o.k == 'g' ? S() : T(o.k != 'C');
				else if (w < 87) o = {'z', S(true), 0, 0};
				else if (w < 90) o = {'k', S(), T(), 0};
				else if (w < 97 || one_state || nst > 8) o = {"cmx"[r(3)], S(true), 0, 0}, o.j = S(o.k != 'c');
				else o = {'n', S(true), 0, nst++};
				x.prog[(size_t)a].push_back(o);
				sh += std::string(" ") + o.k + hs::num(o.i) + "," + hs::num(o.j) + "," + hs::num(o.v);
			}
			if (left) x.prog[(size_t)a].push_back({'z', 2 * a - 1, 0, 0}), x.prog[(size_t)a].push_back({'z', 2 * a, 0, 0}), sh += " give up sources";
			if (gone) {
				std::vector<Op> d{{'z', 2 * a - 1, 0, 0}, {'z', 2 * a, 0, 0}, {'C', 2 * a - 1, 0, 0}, {'C', 2 * a, 0, 0}};
				while (!d.empty()) {
					auto k = (size_t)r((int)d.size());
					x.prog[(size_t)a].push_back(d[k]);
					d.erase(d.begin() + (long)k);
				}
			}
			sh += "; ";
		}
		for (int cb : cbs) {
			x.cell[cb] = std::make_unique<vs::Cell>();
			if (r.chance(45)) {
				sh += hs::num(cb) + ":";
				int k = 1 + r(2);
				for (int i = 0; i < k; i++) {
					Op o{'q', 0, 0, r(2)};
					int w = r(100);
					if (w < 70) o = {'d', 0, 0, r.chance(35) ? cb : cb + r(cbs.back() - cb + 1)};
					else if (w < 80 && shared && !one_req) o = {'r', 0, 0, 0};
					else if (w < 90 && shared) o = {'Q', 0, 0, r(2)};
					x.cprog[cb].push_back(o);
					sh += std::string(" ") + o.k + hs::num(o.i) + "," + hs::num(o.j) + "," + hs::num(o.v);
				}
				sh += "; ";
			}
		}
		x.requester = requester;
		for (int cb = 101; cb < ncb; cb++) x.cprog[cb];
		vs::set_case("{\"src\":[" + si + "],\"tok\":[" + ti + "]}", sh);
		first = stop_source(nostopstate);
		hs::parallel(n, [&](int a) {
			for (auto o : x.prog[(size_t)a]) op1(&x, a, o);
		});
		VSEV("quiesce");
		for (int i = 0; i <= 2 * n; i++) {
			op1(&x, 0, {'q', i, 0, 0});
			op1(&x, 0, {'q', i, 0, 1});
		}
		// without sources no stop is possible any more
		for (int i = 0; i <= 2 * n; i++) op1(&x, 0, {'z', i, 0, 0});
		for (int i = 0; i <= 2 * n; i += 2) op1(&x, 0, {'q', i, 0, 1});
		for (int cb : cbs) op1(&x, 0, {'d', 0, 0, cb});
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
