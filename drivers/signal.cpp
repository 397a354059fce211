// Conformance driver for S01-S03: signals and signal managers used from outside and from within slots and from the
// destructors of slots. Variant seq: one thread, both policies; mt: threads share signals; mgr / mgrmt: managers.
#include "vsched.h"
#define std vstd
#include <asyncpp/signal.h>
#undef std
#include "harness.h"
#include <optional>

using namespace asyncpp;
namespace {
	struct Op { char k; int s, x; int var; bool keep; };
	struct slot_error {};
	constexpr int MAXSLOT = 140;
	using H = signal_handle;
	using SH = scoped_signal_handle;

	struct RunBase {
		std::vector<Op> prog[4], sprog[MAXSLOT - 100], dprog[MAXSLOT - 100];
		bool throws[MAXSLOT - 100] = {};
		vs::Raw calls[MAXSLOT - 100] = {}, begun[MAXSLOT - 100] = {};
		H hnd[MAXSLOT - 100];
		vstd::atomic<bool> ready[MAXSLOT - 100] = {};
		vs::Cell made[MAXSLOT - 100];
		vs::Raw next_op = 1, busy[4] = {}, over = 0;
		int nsig = 1;
		virtual ~RunBase() = default;
		virtual void op(Op o) = 0;
	};
	thread_local int g_depth = 0, g_dtor = 0;

	struct Fn {
		RunBase* x;
		int id;
		Fn(RunBase* x, int id) : x(x), id(id) { x->made[id - 100].write(1); }
		Fn(Fn&& o) noexcept : x(std::exchange(o.x, nullptr)), id(o.id) {}
		~Fn() {
			if (x == nullptr) return;
			VSEV("drop").k("x", id);
			x->made[id - 100].write(2);
			if (g_depth > 3 || x->over) return;
			g_depth++, g_dtor++;
			for (auto& o : x->dprog[id - 100]) x->op(o);
			g_depth--, g_dtor--;
		}
		// v: unmovable through the const reference, so every slot sees the same value
		void operator()(const int& o, const hs::Val& v) {
			VSEV("fire").k("o", o).k("x", id).k("arg", v.v);
			x->made[id - 100].read();
			bool first = x->calls[id - 100] < 2;
			x->calls[id - 100]++;
			RunBase* r = x;
			int me = id;
			bool thr = false;
			if (first && g_depth < 4) {
				g_depth++;
				for (auto& p : r->sprog[me - 100]) {
					r->op(p);
				}
				g_depth--;
				thr = r->throws[me - 100];
			}
			r->made[me - 100].read();
			VSEV("fend").k("o", o).k("x", me).k("t", (int)thr);
			if (thr) throw slot_error{};
		}
	};

	template<typename T, bool M>
	struct Run : RunBase {
		using Sig = asyncpp::signal<void(int, hs::Val), T>;
		using Mgr = signal_manager<int, void(int, hs::Val), T>;
		std::optional<Sig> sig[4];
		std::optional<Mgr> mgr;

		H get(int x) {
			if (x == 0 || !ready[x - 100].load(std::memory_order_acquire)) return H{};
			return hnd[x - 100];
		}
		void op(Op o) override {
			vs::point();
			if (o.k == '.') return;
			if (busy[o.s] || ((o.k == 'm' || o.k == 'k') && (M || g_depth || (o.s == o.x && !(o.var & 1))))) return;
			bool slotop = strchr("rdov", o.k) != nullptr;
			// operations on slots need a handle; slot 0 stands for an empty one
			if (slotop && o.x && !ready[o.x - 100].load(std::memory_order_acquire)) return;
			if (o.k == 'f') {
				// the table of handles is only changed while nobody else uses it
				if (o.x && ready[o.x - 100].load(std::memory_order_acquire)) {
					ready[o.x - 100].store(false);
					auto t = std::move(hnd[o.x - 100]);
				}
				return;
			}
			if (o.k == 'c' && begun[o.x - 100] != 0) return;
			if (o.k == 'c') begun[o.x - 100] = 1;
			const char* n = o.k == 'c' ? "connect" : o.k == 'e' ? "emit" : o.k == 'r' ? "remove" : o.k == 'd' ? "disconnect" : o.k == 'o' ? "owns" : o.k == 'v' ? "valid" : o.k == 'z' ? "size" : o.k == 'y' ? "empty" : o.k == 'm' ? "move" : o.k == 'k' ? "destroy" : o.k == 'h' ? "shrink" : nullptr;
			if (n == nullptr) return;
			int id = (int)next_op;
			next_op = id + 1;
			VSEV("call").k("o", id).k("op", n).k("s", o.s).k("x", o.x).k("front", o.k == 'c' ? int(o.var % 3 == 0) : 0);
			int r = 0;
			switch (o.k) {
			case 'c': {
				H h;
				if constexpr (M) {
					if (o.var % 3 == 0) h = mgr->prepend(o.s, Fn(this, o.x));
					else h = mgr->append(o.s, Fn(this, o.x));
				} else {
					if (o.var % 3 == 0) h = sig[o.s]->prepend(Fn(this, o.x));
					else if (o.var % 3 == 1) h = sig[o.s]->append(Fn(this, o.x));
					else h = *sig[o.s] += Fn(this, o.x);
				}
				if (o.keep) {
					hnd[o.x - 100] = std::move(h);
					ready[o.x - 100].store(true, std::memory_order_release);
				}
				break;
			}
			case 'e':
				try {
					hs::Val v(id);
					if constexpr (M) r = (int)(o.var & 1 ? mgr->invoke(o.s, id, v) : (*mgr)(o.s, id, v));
					else r = (int)(*sig[o.s])(id, v);
				} catch (const slot_error&) { r = 1000; }
				break;
			case 'r':
				if constexpr (M) r = mgr->remove(o.s, get(o.x));
				else if (o.var % 3) r = sig[o.s]->remove(get(o.x));
				else *sig[o.s] -= get(o.x), r = 2000;
				break;
			case 'o':
				if constexpr (M) r = mgr->owns_handle(o.s, get(o.x));
				else r = sig[o.s]->owns_handle(get(o.x));
				break;
			case 'd': {
				auto h = get(o.x);
				if (o.var % 5 == 0) h.disconnect();
				else if (o.var % 5 == 1) SH s(std::move(h));
				else if (o.var % 5 == 2) {
					SH s(h);
					s.disconnect();
					if (s || h) r = -1;
				} else if (o.var % 5 == 3) {
					SH s(h);
					static_cast<signal_handle&>(s).disconnect();
				} else {
					auto h2 = h;
					if (!(h2 == h) || h2 != h) r = -1;
					h2.disconnect();
				}
				break;
			}
			case 'v': {
				auto h = get(o.x);
				if (o.var % 5 == 0) r = h.valid();
				else if (o.var % 5 == 1) r = (bool)h;
				else if (o.var % 5 == 2) r = !!h;
				else if (o.var % 5 == 3) {
					SH s(h);
					r = s.valid();
					s.release(); // does not disconnect
				} else {
					SH s(std::move(h));
					r = !!s;
					s.release();
					if (s) r = -1;
				}
				break;
			}
			case 'z':
				if constexpr (!M) r = (int)sig[o.s]->size();
				break;
			case 'y':
				if constexpr (!M) r = sig[o.s]->empty();
				break;
			case 'm':
				if constexpr (!M) {
					busy[o.s] = busy[o.x] = 1;
					if (o.var & 1) {
						auto& from = *sig[o.x]; // maybe the same
						auto& res = (*sig[o.s] = std::move(from));
						if (&res != &*sig[o.s]) r = -1;
					} else {
						sig[o.s].reset();
						sig[o.s].emplace(std::move(*sig[o.x]));
					}
					busy[o.s] = busy[o.x] = 0;
				}
				break;
			case 'k':
				if constexpr (!M) {
					busy[o.s] = 1;
					sig[o.s].reset();
					sig[o.s].emplace();
					busy[o.s] = 0;
				}
				break;
			case 'h':
				if constexpr (M) r = (int)mgr->shrink_to_fit();
				break;
			default: break;
			}
			VSEV("ret").k("o", id).k("op", n).k("r", r);
		}
		void body(vs::Case& c, bool mt, const char* name) {
			auto& r = c.rng;
			nsig = M ? 2 + r(2) : 1 + r(mt ? 2 : 3);
			int nth = mt ? 2 + r(c.size == 0 ? 1 : 2) : 1;
			int nid = 101, maxid = c.size == 0 ? 106 : mt ? 112 : 120;
			bool dtors = r.chance(25), thr = r.chance(20), forget = !mt && r.chance(30), focus = r.chance(60);
			int nest = mt ? r(3) * 12 : 15 + r(35);
			int budget = 26;
			std::string show;
			std::function<Op(int, int)> gen = [&](int self, int depth) {
				Op o{'.', 1 + (focus ? (r.chance(80) ? 0 : r(nsig)) : r(nsig)), 0, r(30), !r.chance(10)};
				int q = r(100);
				auto anyslot = [&] { return nid == 101 || r.chance(3) ? 0 : self && r.chance(25) ? self : 101 + r(nid - 101); };
				if (q < 30 && nid <= maxid) o.k = 'c', o.x = nid++;
				else if (q < 55) o.k = 'e';
				else if (q < 68) o.k = 'r', o.x = anyslot();
				else if (q < 79) o.k = 'd', o.x = anyslot();
				else if (q < 83) o.k = 'o', o.x = anyslot();
				else if (q < 88) o.k = 'v', o.x = anyslot();
				else if (q < 91 && !M) o.k = r.chance(70) ? 'z' : 'y';
				else if (q < 97 && M) o.k = 'h';
				else if (q < 94 && !M && !mt && depth == 0) o.k = 'm', o.x = 1 + r(nsig);
				else if (q < 95 && !M && !mt && depth == 0) o.k = 'k';
				else if (forget && r.chance(60)) o.k = 'f', o.x = anyslot();
				else o.k = 'e';
				show += " ";
				show += o.k;
				show += hs::num(o.s) + (o.x ? "," + hs::num(o.x) : "") + "/" + hs::num(o.var);
				if (o.k == 'c') {
					int i = o.x - 100;
					auto sub = [&](std::vector<Op>& to, int n, const char* t) {
						budget -= n;
						show += t;
						for (int j = 0; j < n; j++) {
							auto p = gen(o.x, depth + 1);
							to.push_back(p);
						}
						show += ")";
					};
					if (budget > 0 && depth < 3 && r.chance(nest)) sub(sprog[i], 1 + r(3), "(");
					if (dtors && budget > 0 && depth < 3 && r.chance(40)) sub(dprog[i], 1 + r(2), "~(");
					if (thr && r.chance(20)) throws[i] = true, show += "!";
				}
				return o;
			};
			std::vector<Op> init;
			int n = mt ? r(4) : r(3);
			for (int i = 0; i < n && nid <= maxid; i++) {
				Op o{'c', 1 + (focus ? 0 : r(nsig)), nid++, 1, true};
				show += " c" + hs::num(o.s) + "," + hs::num(o.x);
				init.push_back(o);
				if (budget > 0 && r.chance(nest)) {
					show += "(";
					budget -= 2;
					for (int j = 0; j < 2; j++) {
						auto p = gen(o.x, 1);
						sprog[o.x - 100].push_back(p);
					}
					show += ")";
				}
			}
			for (int a = 1; a <= nth; a++) {
				show += "; " + hs::num(a) + ":";
				int k = c.size == 0 ? 1 + r(mt ? 2 : 5) : mt ? 2 + r(4) : 4 + r(12);
				for (int i = 0; i < k; i++) {
					auto p = gen(0, 0);
					prog[a].push_back(p);
				}
			}
			bool keep = r.chance(50);
			vs::set_case("{}", show + "; " + name + (keep ? "; handles outlive signals" : ""));
			if constexpr (M) mgr.emplace();
			else
				for (int i = 1; i <= 3; i++) sig[i].emplace();
			for (auto& o : init) op(o);
			if (mt) hs::parallel(nth, [this](int a) {
				for (auto& o : prog[a]) op(o);
			});
			else
				for (auto& o : prog[1]) op(o);
			auto drop = [&] {
				for (int i = 0; i < MAXSLOT - 100; i++) {
					ready[i].store(false);
					auto t = std::move(hnd[i]);
				}
			};
			if (!keep) drop();
			over = 1;
			for (int i = 1; i <= 3; i++) {
				int id = (int)next_op;
				next_op = id + 1;
				VSEV("call").k("o", id).k("op", "destroy").k("s", i).k("x", 0).k("front", 0);
				if constexpr (M) {
					if (i == 3) mgr.reset();
				} else
					sig[i].reset();
				if constexpr (!M) VSEV("ret").k("o", id).k("op", "destroy").k("r", 0);
			}
			if constexpr (M)
				for (int i = 3; i >= 1; i--) VSEV("ret").k("o", (int)next_op - i).k("op", "destroy").k("r", 0);
			for (int i = 101; i < MAXSLOT; i++)
				if (ready[i - 100].load()) {
					int id = (int)next_op;
					next_op = id + 1;
					VSEV("call").k("o", id).k("op", "valid").k("s", 1).k("x", i).k("front", 0);
					VSEV("ret").k("o", id).k("op", "valid").k("r", (int)hnd[i - 100].valid());
				}
			drop();
			VSEV("quiesce");
		}
	};
	void body(vs::Case& c) {
		auto v = vs::variant();
		g_depth = g_dtor = 0;
		auto go = [&](auto* p, bool mt, const char* n) {
			std::unique_ptr<std::remove_pointer_t<decltype(p)>> x(p);
			x->body(c, mt, n);
		};
		bool st = c.rng.chance(50);
		if (v == "seq") {
			if (st) go(new Run<signal_traits_st, false>, false, "signal_st");
			else go(new Run<signal_traits_mt, false>, false, "signal_mt");
		} else if (v == "mt") go(new Run<signal_traits_mt, false>, true, "signal_mt");
		else if (v == "mgr") go(new Run<signal_traits_mt, true>, false, "signal_manager");
		else go(new Run<signal_traits_mt, true>, true, "signal_manager");
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
