// Conformance driver for R01 and R02: references in local slots, in fields of objects and in atomic cells.
// Variant seq: one actor, objects with fields, destructors that use references themselves; mt: objects shared between
// threads; atomic: threads using atomic cells.
#include "vsched.h"
#define std vstd
#include <asyncpp/ref.h>
#undef std
#include "harness.h"

using namespace asyncpp;
namespace {
	// l: local slot (or -1 for a cell f), f: field (0: the slot itself)
	struct Loc { int l = 0, f = 0; };
	struct Op { char k; Loc d, s; int id; int var; };
	thread_local int g_a = 0;

	template<typename C>
	struct Run {
		struct Obj;
		struct Base : intrusive_refcount<Base, C> {
			virtual ~Base() = default;
			using intrusive_refcount<Base, C>::use_count;
		};
		struct Other : Base {};
		using R = ref<Obj>;
		struct Obj : Base {
			Run* x;
			int id;
			vs::Cell init, w[4];
			R f[2];
			Obj(Run* x, int id) : x(x), id(id) { init.write(1); }
			~Obj() {
				VSEV("drop").k("o", id).k("a", g_a);
				init.read();
				for (auto& c : w) c.read();
				int old = g_a;
				g_a = id;
				for (auto o : x->dprog[(size_t)(id - 100)]) x->op(o);
				g_a = old;
				VSEV("dropend").k("o", id);
			}
		};
		std::vector<std::vector<Op>> prog, dprog;
		R slot[40];
		atomic_ref<Obj> cell[2];
		bool quiet = false;

		R* at(Loc l) {
			if (l.f == 0) return &slot[l.l];
			if (!slot[l.l]) return nullptr;
			return &slot[l.l]->f[l.f - 1];
		}
		int name(Loc l) { return l.l < 0 ? 900 + l.f : l.f == 0 ? l.l : 10 * slot[l.l]->id + l.f; }
		void touch(R* r) {
			if (r != nullptr && *r && g_a < 4) {
				(*r)->init.read();
				(*r)->w[g_a].write(1);
			}
		}
		static int rid(const R& r) { return r ? r->id : 0; }
		void op(Op o) {
			vs::point();
			bool dc = o.d.l < 0, sc = o.s.l < 0;
			R* d = dc ? nullptr : at(o.d);
			R* s = sc ? nullptr : at(o.s);
			if ((!dc && d == nullptr) || (!sc && s == nullptr)) return;
			touch(d);
			touch(s);
			atomic_ref<Obj>* cd = dc ? &cell[o.d.f - 1] : nullptr;
			atomic_ref<Obj>* cs = sc ? &cell[o.s.f - 1] : nullptr;
			const char* n = nullptr;
			int oid = 0;
			switch (o.k) {
			case 'n': n = "new"; oid = o.id; break;
			case 's': n = "set"; break;
			case 'm': n = "move"; break;
			case 'w': n = "swap"; break;
			case 'c': n = "clear"; break;
			case '#': n = "count"; break;
			case 'g': n = "get"; break;
			case 'e': n = "eq"; oid = rid(*s); break;
			case '=': n = "eqs"; break;
			case 'b': n = "bool"; break;
			case 'x': n = "xchg"; break;
			case 'C': n = "copyc"; break;
			case 'M': n = "movec"; break;
			default: return;
			}
			int a = g_a;
			VSEV("call").k("a", a).k("op", n).k("d", name(o.d)).k("s", name(o.s)).k("o", oid);
			int r = -1;
			switch (o.k) {
			case 'n':
				if (dc) *cd = make_ref<Obj>(this, o.id);
				else if (o.var == 0) *d = make_ref<Obj>(this, o.id);
				else if (o.var == 1) d->reset(new Obj(this, o.id));
				else if (o.var == 2) *d = R(new Obj(this, o.id));
				else {
					auto p = new Obj(this, o.id);
					refcounted_add_ref(p);
					d->reset(p, adopt_ref);
				}
				break;
			case 's':
				if (dc) {
					if (o.var == 0) *cd = *s;
					else if (o.var == 1) cd->store(*s);
					else if (o.var == 2) cd->exchange(*s);
					else {
						R t(*s);
						cd->store(std::move(t));
					}
				} else if (sc) {
					if (o.var < 2) *d = cs->load();
					else {
						R t = cs->load();
						touch(&t);
						*d = std::move(t);
					}
				} else if (o.var == 0) *d = *s;
				else if (o.var == 1) d->reset(s->get());
				else if (o.var == 2) {
					R t(*s);
					*d = std::move(t);
				} else if (o.var == 3) *d = static_ref_cast<Obj>(static_ref_cast<Base>(*s));
				else if (o.var == 4) {
					R t(s->get());
					d->reset(t.release(), adopt_ref);
				} else if (o.var == 5) *d = dynamic_ref_cast<Obj>(static_ref_cast<Base>(*s));
				else *d = const_ref_cast<Obj>(const_ref_cast<const Obj>(*s));
				break;
			case 'm':
				if (dc) {
					if (o.var == 0) *cd = std::move(*s);
					else if (o.var == 1) cd->store(std::move(*s));
					else cd->exchange(std::move(*s));
				} else if (sc) {
					if (o.var == 0) d->reset(cs->release(), adopt_ref);
					else if (o.var == 1) *d = cs->exchange(R{});
					else {
						R t(cs->release(), adopt_ref);
						*d = std::move(t);
					}
				} else if (o.var == 0 || d == s) *d = std::move(*s);
				else if (o.var == 1) {
					R t(std::move(*s));
					*d = std::move(t);
				} else if (o.var == 2) *d = static_ref_cast<Obj>(static_ref_cast<Base>(std::move(*s)));
				else if (o.var == 3) *d = dynamic_ref_cast<Obj>(dynamic_ref_cast<Base>(std::move(*s)));
				else if (o.var == 4) *d = const_ref_cast<Obj>(std::move(*s));
				else d->reset(s->release(), adopt_ref);
				break;
			case 'w': std::swap(*d, *s); break;
			case 'c':
				if (dc) {
					if (o.var == 0) cd->reset();
					else if (o.var == 1) cd->store(R{});
					else if (o.var == 2) R(cd->release(), adopt_ref);
					else if (o.var == 3) *cd = R{};
					else cd->exchange(R{});
				} else if (o.var == 0) d->reset();
				else if (o.var == 1) *d = R{};
				else if (o.var == 2) d->reset(nullptr);
				else if (o.var == 3) R(d->release(), adopt_ref);
				else d->reset(nullptr, adopt_ref);
				break;
			case '#': r = *d ? (int)(*d)->use_count() : 0; break;
			case 'g':
				if (dc) {
					R t = o.var < 2 ? cd->load() : cd->operator->();
					touch(&t);
					r = rid(t);
				} else if (o.var == 0) r = *d ? (**d).id : 0;
				else if (o.var == 1) r = d->get() ? d->get()->id : 0;
				else if (o.var == 2) r = dynamic_ref_cast<Other>(static_ref_cast<Base>(*d)) ? -5 : rid(*d);
				else if (o.var == 3) {
					auto t = static_ref_cast<Base>(*d);
					auto u = dynamic_ref_cast<Other>(std::move(t));
					r = u ? -5 : (bool)t != (bool)*d ? -6 : rid(*d);
				} else r = rid(*d);
				break;
			case 'e':
				if (dc) r = *cd == (const Obj*)s->get();
				else if (o.var == 0) r = *d == (const Obj*)s->get();
				else if (o.var == 1) r = !(*d != (const Obj*)s->get());
				else r = (const Obj*)s->get() == *d;
				break;
			case '=':
				if (dc && sc) r = o.var == 0 ? *cd == *cs : o.var == 1 ? !(*cd != *cs) : std::hash<atomic_ref<Obj>>{}(*cd) == std::hash<atomic_ref<Obj>>{}(*cs);
				else if (o.var == 0) r = *d == *s;
				else if (o.var == 1) r = !(*d != *s);
				else if (o.var == 2) r = (*d <=> *s) == std::strong_ordering::equal;
				else r = std::hash<R>{}(*d) == std::hash<R>{}(*s);
				break;
			case 'b':
				if (dc) r = o.var < 2 ? (bool)*cd : !!*cd;
				else r = o.var < 2 ? (bool)*d : !!*d;
				break;
			case 'x': *s = cd->exchange(std::move(*s)); break;
			case 'C':
				if (o.var == 0 && cd != cs) *cd = *cs;
				else if (o.var == 1) cd->store(*cs);
				else cd->exchange(*cs);
				break;
			case 'M': *cd = std::move(*cs); break;
			default: break;
			}
			VSEV("ret").k("a", a).k("op", n).k("r", r);
		}
		static std::string locname(Loc l) { return l.l < 0 ? "A" + hs::num(l.f) : hs::num(l.l) + (l.f ? "." + hs::num(l.f) : ""); }
		void body(vs::Case& c, const char* cname) {
			auto& r = c.rng;
			prog.resize(5);
			dprog.resize(16);
			bool seq = vs::variant() == "seq", atomics = vs::variant() == "atomic";
			int nth = seq ? 1 : 2 + r(c.size == 0 ? 1 : 2);
			int nid = 101, maxid = c.size == 0 ? 104 : 110;
			int ncell = atomics ? 1 + r(2) : seq && r.chance(25) ? 2 : 0;
			bool fields = seq && r.chance(70), dtors = seq && r.chance(30);
			std::string show;
			int budget = 60;
			std::function<Op(int, bool)> gen = [&](int a, bool init) {
				Op o{'.', {}, {}, 0, r(7)};
				auto local = [&] { return Loc{10 * a + 1 + r(3), 0}; };
				auto loc = [&](bool write) {
					Loc l = local();
					if ((fields || (!write && !atomics && !seq)) && r.chance(45)) l.f = 1 + r(2);
					return l;
				};
				auto acell = [&] { return Loc{-1, 1 + r(ncell)}; };
				o.d = loc(true);
				o.s = loc(false);
				int q = r(100);
				if (ncell && r.chance(65)) {
					if (q < 20) o.k = 's', o.d = acell(), o.s = local();
					else if (q < 42) o.k = 's', o.d = local(), o.s = acell();
					else if (q < 50) o.k = 'm', o.d = acell(), o.s = local();
					else if (q < 56) o.k = 'm', o.d = local(), o.s = acell();
					else if (q < 66) o.k = 'x', o.d = acell(), o.s = local();
					else if (q < 74) o.k = 'c', o.d = acell();
					else if (q < 82) o.k = 'g', o.d = acell();
					else if (q < 86) o.k = 'b', o.d = acell();
					else if (q < 89) o.k = 'e', o.d = acell(), o.s = local();
					else if (q < 91 && seq) o.k = '=', o.d = acell(), o.s = acell();
					else if (q < 96) o.k = 'C', o.d = acell(), o.s = acell();
					else if (q < 98) o.k = 'M', o.d = acell(), o.s = acell();
					else if (nid <= maxid) o.k = 'n', o.d = acell(), o.id = nid++;
				} else if (q < 30 && nid <= maxid && (init || !atomics || r.chance(40))) o.k = 'n', o.id = nid++;
				else if (q < 55) o.k = 's';
				else if (q < 70) {
					o.k = 'm';
					if (!seq) o.s.f = 0;
				} else if (q < 75) {
					o.k = 'w';
					if (!seq) o.s.f = 0;
				} else if (q < 87) o.k = 'c';
				else if (q < 90 && seq) o.k = '#';
				else if (q < 94) o.k = 'g';
				else if (q < 96) o.k = 'e', o.s.f = 0;
				else if (q < 98) o.k = '=';
				else o.k = 'b';
				if (o.k == '.') o.k = 'g', o.d = local(), o.s = local();
				if (o.d.l >= 0 && o.s.l < 0 && o.k != 's' && o.k != 'm') o.s = local();
				if (o.k == 'm' && o.s.l >= 0 && o.d.l >= 0 && o.d.f == 0 && r.chance(30) && fields) o.s = {o.d.l, 1 + r(2)}; // head = move(head->next)
				if (o.k == 's' && o.s.l >= 0 && o.d.l >= 0 && o.d.f == 0 && r.chance(30) && fields) o.s = {o.d.l, 1 + r(2)};
				if (o.k == 'm' && o.d.l >= 0 && o.s.l >= 0 && o.var > 5) o.var = 0;
				show += " ";
				show += o.k;
				show += locname(o.d) + "," + locname(o.s) + (o.id ? "#" + hs::num(o.id) : "") + "/" + hs::num(o.var);
				if (o.id && dtors && budget > 0 && r.chance(50)) {
					show += "~(";
					int n = 1 + r(2), id = o.id;
					budget -= n;
					for (int i = 0; i < n; i++) {
						auto q2 = gen(a, false);
						dprog[(size_t)(id - 100)].push_back(q2);
					}
					show += ")";
				}
				return o;
			};
			std::vector<Op> init;
			if (!seq) {
				// shared objects, linked by fields that are never changed
				int n = 1 + r(3);
				for (int i = 1; i <= n; i++) init.push_back({'n', {i, 0}, {}, nid++, 0});
				for (int i = 1; i < n; i++)
					if (r.chance(50)) init.push_back({'s', {i, 1 + r(2)}, {i + 1, 0}, 0, 0});
				for (int a = 1; a <= nth; a++)
					for (int i = 1; i <= 3; i++)
						if (r.chance(60)) init.push_back({'s', {10 * a + i, 0}, {1 + r(n), 0}, 0, 0});
				for (int i = 1; i <= ncell; i++)
					if (r.chance(70)) init.push_back({'s', {-1, i}, {1 + r(n), 0}, 0, 0});
				for (auto& o : init) show += std::string(" ") + o.k + locname(o.d) + "," + locname(o.s);
			}
			for (int a = 1; a <= nth; a++) {
				show += "; " + hs::num(a) + ":";
				int n = c.size == 0 ? 1 + r(seq ? 6 : 2) : 2 + r(seq ? 12 : 4);
				for (int i = 0; i < n; i++) {
					auto o = gen(a, i < 2);
					prog[(size_t)a].push_back(o);
				}
			}
			bool keep = r.chance(50);
			for (int a = 0; a <= nth; a++)
				for (int i = 1; i <= 3; i++) prog[(size_t)a].push_back({'c', {10 * a + i, 0}, {10 * a + 1, 0}, 0, r(5)});
			vs::set_case("{}", show + "; " + cname + (keep ? "; keep" : ""));
			vs::set_actor(0);
			g_a = 0;
			for (auto o : init) op(o);
			if (!keep)
				for (auto o : prog[0]) op(o);
			std::vector<vstd::thread> t;
			for (int a = 1; a <= nth; a++)
				t.emplace_back([this, a] {
					vs::set_actor(a);
					g_a = a;
					for (auto o : prog[(size_t)a]) op(o);
				});
			if (keep)
				for (auto o : prog[0]) op(o);
			for (auto& y : t) y.join();
			for (int i = 1; i <= 2; i++) op({'c', {-1, i}, {1, 0}, 0, 0});
			// a destructor may have filled them again
			for (int k = 0; k < 3; k++)
				for (int i = 1; i <= 33; i++)
					if (slot[i]) op({'c', {i, 0}, {i, 0}, 0, 0});
			for (int i = 1; i <= 2; i++)
				if (cell[i - 1]) op({'c', {-1, i}, {1, 0}, 0, 0});
			for (auto& y : slot)
				if (y) return vs::mark_dirty();
			for (auto& y : cell)
				if (y) return vs::mark_dirty();
			VSEV("quiesce");
		}
	};
	void body(vs::Case& c) {
		bool unsafe = vs::variant() == "seq" && c.rng.chance(40);
		if (unsafe) {
			auto x = std::make_unique<Run<thread_unsafe_refcount>>();
			x->body(c, "thread_unsafe_refcount");
		} else {
			auto x = std::make_unique<Run<thread_safe_refcount>>();
			x->body(c, "thread_safe_refcount");
		}
	}
} // namespace
int main(int argc, char** argv) { return vs::driver_main(argc, argv, body); }
