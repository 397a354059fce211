// Conformance driver for A01: the memory of coroutine frames.
#include "vsched.h"
namespace al {
	struct Ctx;
	Ctx* ctx;
	std::byte* allocate(int arena, size_t n);
	void deallocate(int arena, std::byte* p, size_t n) noexcept;
	int instances = 0;
	// the default allocator
	struct Stateless {
		using value_type = std::byte;
		using pointer = std::byte*;
		using is_always_equal = std::true_type;
		std::byte* allocate(size_t n) { return al::allocate(0, n); }
		void deallocate(std::byte* p, size_t n) noexcept { al::deallocate(0, p, n); }
		bool operator==(const Stateless&) const = default;
	};
} // namespace al
#define ASYNCPP_DEFAULT_ALLOCATOR al::Stateless
#define std vstd
#include <asyncpp/async_generator.h>
#include <asyncpp/fire_and_forget.h>
#include <asyncpp/generator.h>
#include <asyncpp/launch.h>
#include <asyncpp/task.h>
#undef std
#include "harness.h"
#include <variant>

using namespace asyncpp;
namespace al {
	constexpr int max_frames = 16;
	struct Arena {
		int id = 0;
		int offset = 0;
		bool fail = false;
	};
	// stateful allocators: a big one, a tiny one, one constructed from a reference to its arena, and one that says it is empty
	template<typename Id>
	struct Stateful {
		using value_type = std::byte;
		using pointer = std::byte*;
		using is_always_equal = std::false_type;
		Id id;
		explicit Stateful(int i) noexcept : id((Id)i) { instances++; }
		// one of them can be made from nothing too, and then stands for a different arena (like std::pmr::polymorphic_allocator)
		Stateful() noexcept requires std::same_as<Id, char> : id((Id)97) { instances++; }
		Stateful(const Stateful& o) noexcept : id(o.id) { instances++; }
		Stateful(Stateful&& o) noexcept : id(std::exchange(o.id, (Id)99)) { instances++; }
		Stateful& operator=(const Stateful& o) = default;
		~Stateful() {
			id = (Id)98;
			instances--;
		}
		std::byte* allocate(size_t n) { return al::allocate((int)id, n); }
		void deallocate(std::byte* p, size_t n) noexcept { al::deallocate((int)id, p, n); }
		bool operator==(const Stateful& o) const { return id == o.id; }
	};
	using Tiny = Stateful<char>;
	struct alignas(16) Wide {
		long v, w;
		Wide(int x = 0) : v(x), w(0) {}
		explicit operator int() const { return (int)v; }
		bool operator==(const Wide& o) const { return v == o.v; }
	};
	using Big = Stateful<Wide>;
	struct Ref {
		using value_type = std::byte;
		using pointer = std::byte*;
		using is_always_equal = std::false_type;
		Arena* a;
		Ref(Arena& x) noexcept : a(&x) {}
		std::byte* allocate(size_t n) { return al::allocate(a->id, n); }
		void deallocate(std::byte* p, size_t n) noexcept { al::deallocate(a->id, p, n); }
		bool operator==(const Ref& o) const { return a == o.a; }
	};

	enum Kind { k_task, k_gen, k_agen, k_lazy, k_eager, k_launch, k_scope, k_tuple, k_join, k_invoke };
	// P suspend, X throw, N create a task and await it, C create a coroutine that is dropped with the frame
	struct Def {
		Kind k;
		int type;  // of the allocator: 0 stateless, 1 big, 2 tiny, 3 from a reference
		int arena;
		std::string ops;
		bool argthrow;
	};
	struct Block {
		int b;
		void* base;
	};
	struct Holder {
		virtual ~Holder() = default;
		virtual void step() = 0; // start, or continue
		std::coroutine_handle<> driver{}; // awaits it
		bool handed = false;
	};
	struct Ctx {
		Arena ar[4];
		Def def[max_frames + 1];
		std::unique_ptr<Holder> h[max_frames + 1];
		std::coroutine_handle<> cont[max_frames + 1];
		bool alive[max_frames + 1] = {}, begun[max_frames + 1] = {}, over[max_frames + 1] = {};
		std::map<std::byte*, Block> mem;
		int blocks = 0, frames = 0, top = 0;
		vs::Rng* r;
		std::optional<async_launch_scope> scope;
		bool joining = false;
	};
	std::byte* allocate(int arena, size_t n) {
		if (arena >= 0 && arena <= 3 && ctx->ar[arena].fail) {
			VSEV("nomem").k("ar", arena);
			throw std::bad_alloc();
		}
		size_t off = arena > 0 && arena <= 3 ? (size_t)ctx->ar[arena].offset : 0;
		auto base = malloc(n + off);
		auto p = static_cast<std::byte*>(base) + off;
		ctx->mem[p] = {++ctx->blocks, base};
		VSEV("alloc").k("ar", arena).k("n", n).k("b", ctx->blocks);
		return p;
	}
	void deallocate(int arena, std::byte* p, size_t n) noexcept {
		auto it = ctx->mem.find(p);
		VSEV("free").k("ar", arena).k("n", n).k("b", it == ctx->mem.end() ? 0 : it->second.b);
		if (it == ctx->mem.end()) return;
		free(it->second.base);
		ctx->mem.erase(it);
	}
	struct Witness {
		int f;
		explicit Witness(int f) : f(f) {}
		Witness(Witness&& o) noexcept : f(std::exchange(o.f, 0)) {}
		~Witness() {
			if (f && ctx->alive[f]) VSEV("args").k("f", f);
		}
	};
	struct arg_error {};
	struct Thrower {
		int f;
		Thrower(int f) : f(f) {}
		Thrower(Thrower&& o) : f(o.f) {
			if (f) {
				VSEV("argthrow").k("f", f);
				throw arg_error{};
			}
		}
	};
	struct Suspend {
		int f;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> h) {
			VSEV("park").k("f", f);
			ctx->cont[f] = h;
		}
		void await_resume() { VSEV("back").k("f", f); }
	};
	// something awaitable that owns its arguments
	struct Aw {
		int f;
		bool park;
		Witness w;
		alignas(16) int v = 0;
		Aw(int f, bool park) : f(f), park(park), w(f) {}
		Aw(Aw&&) = default;
		bool await_ready() {
			VSEV("start").k("f", f).k("al", reinterpret_cast<uintptr_t>(&v) % 16 == 0).k("loc", false);
			ctx->alive[f] = ctx->begun[f] = true;
			return !park;
		}
		void await_suspend(std::coroutine_handle<> h) {
			VSEV("park").k("f", f);
			ctx->cont[f] = h;
		}
		void await_resume() {
			if (park) VSEV("back").k("f", f);
			ctx->over[f] = true;
			VSEV("end").k("f", f);
		}
	};
	// a coroutine that awaits on behalf of the client; it is destroyed by its holder
	struct pump {
		struct promise_type {
			std::coroutine_handle<>* where;
			template<typename H>
			promise_type(H& h) : where(&h.driver) {}
			pump get_return_object() noexcept {
				*where = std::coroutine_handle<promise_type>::from_promise(*this);
				return {};
			}
			std::suspend_never initial_suspend() noexcept { return {}; }
			std::suspend_always final_suspend() noexcept { return {}; }
			void return_void() noexcept {}
			void unhandled_exception() noexcept {}
		};
	};
	void go_on(int f) { std::exchange(ctx->cont[f], nullptr).resume(); }

	template<typename A>
	struct TaskHolder : Holder {
		int f;
		task<int, A> t;
		TaskHolder(int f, task<int, A> t) : f(f), t(std::move(t)) {}
		~TaskHolder() {
			if (driver) driver.destroy();
		}
		static pump drive(TaskHolder& h) { co_await h.t; }
		void step() override {
			if (!ctx->begun[f]) drive(*this);
			else
				go_on(f);
		}
	};
	template<typename A>
	struct GenHolder : Holder {
		generator<int, A> g;
		std::optional<decltype(g.begin())> it;
		explicit GenHolder(generator<int, A> g) : g(std::move(g)) {}
		void step() override {
			try {
				if (!it) it.emplace(g.begin());
				else
					++*it;
			} catch (const arg_error&) {}
		}
	};
	template<typename A>
	struct AgenHolder : Holder {
		int f;
		async_generator<int, A> g;
		AgenHolder(int f, async_generator<int, A> g) : f(f), g(std::move(g)) {}
		~AgenHolder() {
			if (driver) driver.destroy();
		}
		struct Wait {
			int f;
			bool await_ready() { return false; }
			void await_suspend(std::coroutine_handle<> h) { ctx->cont[f] = h; }
			void await_resume() {}
		};
		static pump drive(AgenHolder& h) {
			auto it = co_await h.g.begin();
			while (it != h.g.end()) {
				co_await Wait{h.f};
				co_await ++it;
			}
		}
		void step() override {
			if (!ctx->begun[f]) drive(*this);
			else
				go_on(f);
		}
	};
	template<typename T>
	struct FfHolder : Holder {
		int f;
		T t;
		FfHolder(int f, T t) : f(f), t(std::move(t)) {}
		void step() override {
			if constexpr (requires { t.start(); }) {
				if (!ctx->begun[f]) {
					VSEV("handed").k("f", f);
					handed = true;
					t.start();
					return;
				}
			}
			go_on(f);
		}
	};

	int create(Kind k, int type);
	void drop(int f) {
		if (!ctx->h[f]) return;
		if (!ctx->h[f]->handed) VSEV("drop").k("f", f);
		if (ctx->def[f].k <= k_agen) ctx->cont[f] = nullptr;
		ctx->h[f].reset();
	}
	// the local variables of a coroutine
	struct Local {
		int f;
		int child = 0;
		alignas(16) volatile int v[4];
		bool kept = false;
		explicit Local(int f) : f(f) {
			VSEV("start").k("f", f).k("al", reinterpret_cast<uintptr_t>(&v) % 16 == 0).k("loc", true);
			ctx->alive[f] = ctx->begun[f] = true;
			v[0] = f;
		}
		Local(const Local&) = delete;
		void end() {
			ctx->over[f] = true;
			VSEV("end").k("f", f);
		}
		~Local() {
			if (child) drop(child);
			VSEV("left").k("f", f);
			ctx->cont[f] = nullptr;
		}
	};
	template<typename A>
	task<int, A>* task_of(int f) {
		if (!ctx->h[f]) return nullptr;
		auto h = dynamic_cast<TaskHolder<A>*>(ctx->h[f].get());
		return h ? &h->t : nullptr;
	}
	// one step of the body; R: the awaiting coroutine
#define BODY(ALLOW_AWAIT, YIELD, RETURN)                                                     \
	Local l{f};                                                                              \
	for (char c : ctx->def[f].ops) {                                                         \
		if (c == 'P') {                                                                      \
			YIELD;                                                                           \
		} else if (c == 'X') {                                                               \
			l.end();                                                                         \
			throw arg_error{};                                                               \
		} else if (c == 'C' && !l.child) {                                                   \
			l.child = create((Kind)(*ctx->r)(3), (*ctx->r)(4));                              \
		} else if (c == 'N' && !l.child) {                                                   \
			ALLOW_AWAIT;                                                                     \
		}                                                                                    \
	}                                                                                        \
	l.end();                                                                                 \
	RETURN;
#define AWAIT_CHILD                                                                          \
	l.child = create(k_task, (*ctx->r)(4));                                                  \
	if (l.child) {                                                                           \
		VSEV("park").k("f", f);                                                              \
		try {                                                                                \
			if (auto t = task_of<Stateless>(l.child)) co_await *t;                           \
			else if (auto t = task_of<Big>(l.child)) co_await *t;                            \
			else if (auto t = task_of<Tiny>(l.child)) co_await *t;                           \
			else if (auto t = task_of<Ref>(l.child)) co_await *t;                            \
		} catch (const arg_error&) {}                                                        \
		VSEV("back").k("f", f);                                                              \
	}
	template<typename R, typename A>
	R task_body(int f, Thrower, Witness, A) {
		BODY(AWAIT_CHILD, co_await Suspend{f}, co_return f)
	}
	template<typename R, typename A>
	R ff_body(int f, Thrower, Witness, A) {
		BODY(AWAIT_CHILD, co_await Suspend{f}, co_return)
	}
	struct Backing {
		int f;
		Backing(int f) : f(f) { VSEV("park").k("f", f); }
	};
	template<typename R, typename A>
	R gen_body(int f, Thrower, Witness, A) {
		BODY((void)0, VSEV("park").k("f", f); co_yield f; VSEV("back").k("f", f), co_return)
	}
	template<typename R, typename A>
	R agen_body(int f, Thrower, Witness, A) {
		BODY(AWAIT_CHILD, if (c == 'P' && (*ctx->r)(2)) co_await Suspend{f}; else {
			VSEV("park").k("f", f);
			co_yield f;
			VSEV("back").k("f", f);
		},
			 co_return)
	}
	// the same coroutines without an allocator argument
	template<typename R>
	R task_plain(int f, Thrower, Witness) {
		BODY(AWAIT_CHILD, co_await Suspend{f}, co_return f)
	}
	template<typename R>
	R gen_plain(int f, Thrower, Witness) {
		BODY((void)0, VSEV("park").k("f", f); co_yield f; VSEV("back").k("f", f), co_return)
	}

	// A: type of the allocator, arg: what is passed
	template<typename A, typename P>
	void make(int f, P&& arg) {
		auto& d = ctx->def[f];
		int t = d.argthrow ? f : 0;
		switch (d.k) {
		case k_task:
			if constexpr (std::is_same_v<A, Stateless>)
				if (f % 2) {
					ctx->h[f] = std::make_unique<TaskHolder<A>>(f, task_plain<task<int>>(f, t, Witness(f)));
					break;
				}
			ctx->h[f] = std::make_unique<TaskHolder<A>>(f, task_body<task<int, A>, P>(f, t, Witness(f), static_cast<P>(arg)));
			break;
		case k_gen:
			if constexpr (std::is_same_v<A, Stateless>)
				if (f % 2) {
					ctx->h[f] = std::make_unique<GenHolder<A>>(gen_plain<generator<int>>(f, t, Witness(f)));
					break;
				}
			ctx->h[f] = std::make_unique<GenHolder<A>>(gen_body<generator<int, A>, P>(f, t, Witness(f), static_cast<P>(arg)));
			break;
		case k_agen:
			ctx->h[f] = std::make_unique<AgenHolder<A>>(f, agen_body<async_generator<int, A>, P>(f, t, Witness(f), static_cast<P>(arg)));
			break;
		case k_lazy: {
			using T = fire_and_forget_task<A>;
			ctx->h[f] = std::make_unique<FfHolder<T>>(f, ff_body<T, P>(f, t, Witness(f), static_cast<P>(arg)));
			break;
		}
		case k_eager: {
			using T = eager_fire_and_forget_task<A>;
			ctx->h[f] = std::make_unique<FfHolder<T>>(f, ff_body<T, P>(f, t, Witness(f), static_cast<P>(arg)));
			break;
		}
		case k_launch: {
			bool park = d.ops.find('P') != std::string::npos;
			if constexpr (std::is_same_v<A, Stateless>) launch(Aw(f, park));
			else
				launch(Aw(f, park), A(arg));
			break;
		}
		case k_scope: {
			bool park = d.ops.find('P') != std::string::npos;
			if constexpr (std::is_same_v<A, Stateless>) ctx->scope->launch(Aw(f, park));
			else
				ctx->scope->launch(Aw(f, park), A(arg));
			break;
		}
		case k_tuple: {
			auto fn = [w = Witness(f), park = d.ops.find('P') != std::string::npos](int f) mutable {
				Aw a(f, park);
				a.w.f = 0;
				return a;
			};
			ctx->scope->invoke_tuple(std::move(fn), std::tuple<int>(f), A(arg));
			break;
		}
		case k_invoke: {
			auto fn = [w = Witness(f), park = d.ops.find('P') != std::string::npos](int f) mutable {
				Aw a(f, park);
				a.w.f = 0;
				return a;
			};
			ctx->scope->invoke(std::move(fn), (int)f);
			break;
		}
		case k_join:
			if constexpr (std::is_same_v<A, Stateless>) (void)ctx->scope->join_future();
			else
				(void)ctx->scope->join_future(A(arg));
			break;
		}
	}
	bool is_lazy(Kind k) { return k == k_task || k == k_gen || k == k_agen || k == k_lazy; }
	const char* kind_name(Kind k) {
		return k <= k_agen ? "own" : k <= k_eager ? "ff" : k == k_launch ? "launch" : k == k_join ? "join" : "scope";
	}
	// returns 0 if it could not be created
	int create(Kind k, int type) {
		auto& r = *ctx->r;
		if (ctx->frames == max_frames) return 0;
		int f = ++ctx->frames;
		auto& d = ctx->def[f];
		d.k = k;
		d.type = k == k_invoke ? 0 : type;
		d.arena = d.type == 0 ? 0 : 1 + r(3);
		d.ops = "";
		int n = r(4);
		for (int i = 0; i < n; i++) d.ops += r.chance(60) ? 'P' : "NC"[r(2)];
		if (k <= k_agen && r.chance(20)) d.ops += 'X';
		d.argthrow = k <= k_eager && r.chance(8);
		ctx->ar[d.arena].fail = k != k_join && r.chance(8);
		VSEV("create").k("f", f).k("k", kind_name(k)).k("ar", d.arena).k("lazy", is_lazy(k)).k("args", k != k_join);
		if (k == k_join) ctx->begun[f] = true;
		bool ok = true;
		try {
			switch (d.type) {
			case 0: make<Stateless>(f, Stateless{}); break;
			case 1: make<Big>(f, Big(d.arena)); break;
			case 2: make<Tiny>(f, Tiny(d.arena)); break;
			case 3: make<Ref, Arena&>(f, ctx->ar[d.arena]); break;
			}
		} catch (const std::bad_alloc&) {
			ok = false;
		} catch (const arg_error&) {
			ok = false;
		}
		ctx->ar[d.arena].fail = false;
		if (!ok) {
			VSEV("failed").k("f", f);
			ctx->over[f] = ctx->begun[f] = true;
			return 0;
		}
		ctx->alive[f] = true;
		VSEV("created").k("f", f);
		return f;
	}
	void quiet() {
		std::vector<int> b;
		for (auto& [p, x] : ctx->mem) b.push_back(x.b);
		VSEV("quiet").k("b", b);
	}
	void body(vs::Case& c) {
		auto& r = c.rng;
		vs::set_case("{\"k\":\"alloc\"}", "coroutine kinds and allocators, seed " + std::to_string(r.s));
		Ctx x;
		ctx = &x;
		x.r = &r;
		instances = 0;
		for (int i = 0; i < 4; i++) {
			x.ar[i].id = i;
			x.ar[i].offset = r.chance(50) ? r(16) : 0;
		}
		x.scope.emplace();
		int n = c.size == 0 ? 4 + r(6) : 8 + r(20);
		auto join_over = [&] {
			if (x.scope->all_done()) x.joining = false;
		};
		// children of coroutines are left alone
		bool top[max_frames + 1] = {};
		auto act = [&](bool end) {
			std::vector<int> can, held;
			for (int f = 1; f <= x.frames; f++) {
				if (x.cont[f] && (x.def[f].k > k_agen || top[f])) can.push_back(f);
				else if (top[f] && x.h[f] && !x.over[f] && (!x.begun[f] || x.def[f].k == k_gen))
					can.push_back(f);
				else if (x.cont[f])
					can.push_back(f);
				if (top[f] && x.h[f]) held.push_back(f);
			}
			int what = end ? 4 + r(2) : r(8);
			if (what < 4) {
				auto k = (Kind)r(10);
				if (k == k_join && x.joining) return true;
				int f = create(k, r(4));
				if (f) top[f] = true;
				if (f && k == k_join) x.joining = true;
			} else if (what == 5 && !held.empty()) {
				drop(held[(size_t)r((int)held.size())]);
			} else if (!can.empty()) {
				int f = can[(size_t)r((int)can.size())];
				if (x.h[f] && top[f]) x.h[f]->step();
				else
					go_on(f);
			} else if (end && held.empty())
				return false;
			else
				return true;
			join_over();
			quiet();
			return true;
		};
		for (int i = 0; i < n; i++) act(false);
		for (int i = 0; i < 400 && act(true); i++) {}
		VSEV("finished").k("i", instances + (int)x.scope->inflight_coroutines());
		ctx = nullptr;
		x.r = nullptr;
		for (int f = 1; f <= max_frames; f++) x.h[f].release();
	}
} // namespace al
int main(int argc, char** argv) { return vs::driver_main(argc, argv, al::body); }
