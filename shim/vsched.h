// Controlled scheduler ("vsched") and replacements for the std synchronisation types.
//
// The asyncpp headers are compiled with `#define std vstd`; namespace vstd is std with the synchronisation types
// replaced. Every operation on a replaced type is a scheduling point; exactly one thread of a run executes at a time and
// the scheduler decides which one (random walk, PCT, or depth-first with a preemption bound). Happens-before is tracked
// with vector clocks following the memory orders that the code passes, so publication errors are visible although the
// interleavings explored are sequentially consistent. Time is virtual.
#pragma once
#include <bits/stdc++.h>
#include <coroutine>
#include <unistd.h>

#define VS_NOTSAN __attribute__((no_sanitize("thread")))

namespace vs {
	// ---------------------------------------------------------------- runtime (vsched.cpp, never instrumented)
	struct Sync;    // per-location clocks
	struct Task;    // a thread of the run
	Task* self() noexcept;
	int self_id() noexcept; // 0.. within a run, -1 outside
	void point() noexcept;  // scheduling point
	void yield() noexcept;  // scheduling point that prefers somebody else
	bool spurious_cas() noexcept;
	bool spurious_wake() noexcept;
	int rnd(int n) noexcept;                // scheduler choice (recorded)
	void block_on(const void* obj) noexcept; // block until wake_all/wake_one(obj)
	bool block_until(const void* obj, long long deadline_ns) noexcept; // true: timed out
	void wake_all(const void* obj) noexcept;
	void wake_one(const void* obj) noexcept;
	long long now_ns() noexcept;
	void advance_ns(long long d) noexcept;
	// happens-before
	void hb_load(Sync*& s, int order) noexcept;
	void hb_store(Sync*& s, int order) noexcept;
	void hb_rmw(Sync*& s, int order) noexcept;
	void hb_fence(int order) noexcept;
	void hb_acquire(Sync*& s) noexcept;
	void hb_release(Sync*& s) noexcept; // joins
	void hb_free(Sync*& s) noexcept;
	// threads
	Task* spawn(std::function<void()> fn);
	void join(Task* t);
	void detach(Task* t);
	int task_id(Task* t);
	// log of the run (one JSON object per event, in execution order)
	void log(std::string ev);
	void abort_run(const char* kind, const std::string& why) noexcept; // log a crash/hang event and leave the process
	void strict_time(bool on) noexcept; // for this run: time passes only when no thread can run
	unsigned salt() noexcept; // differs between programs; seeds pseudo random choices of the code under test
	void mark_dirty(); // objects of this run are in a bad state (somebody is still suspended): do not destroy them
	bool aborting() noexcept;

	// Race-checked plain cell: harness data whose publication the code under test has to provide.
	struct Cell {
		void* impl = nullptr;
		Cell();
		~Cell();
		void write(int v); // logs {"e":"race"} if not ordered after every previous access
		int read();
	};
	// Harness bookkeeping without any synchronisation effect.
	struct Raw {
		volatile long v;
		VS_NOTSAN Raw(long x = 0) : v(x) {}
		VS_NOTSAN operator long() const { return v; }
		VS_NOTSAN long operator=(long x) { v = x; return x; }
		VS_NOTSAN long operator++(int) { long o = v; v = o + 1; return o; }
		VS_NOTSAN long operator--(int) { long o = v; v = o - 1; return o; }
	};

	// program randomness (independent of scheduling choices)
	struct Rng {
		uint64_t s;
		explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
		uint64_t next() {
			s ^= s << 13; s ^= s >> 7; s ^= s << 17;
			return s * 0x2545F4914F6CDD1Dull;
		}
		int operator()(int n) { return n <= 1 ? 0 : (int)((next() >> 33) % (uint64_t)n); } // 0..n-1
		bool chance(int pct) { return (*this)(100) < pct; }
	};

	// ---------------------------------------------------------------- event builder
	struct Ev {
		std::string s;
		explicit Ev(const char* e) { s = "{\"e\":\""; s += e; s += "\""; }
		Ev& k(const char* key, long v) { s += ",\""; s += key; s += "\":"; s += std::to_string(v); return *this; }
		Ev& k(const char* key, int v) { return k(key, (long)v); }
		Ev& k(const char* key, size_t v) { return k(key, (long)v); }
		Ev& k(const char* key, bool v) { s += ",\""; s += key; s += v ? "\":true" : "\":false"; return *this; }
		Ev& k(const char* key, const char* v) { s += ",\""; s += key; s += "\":\""; s += v; s += "\""; return *this; }
		Ev& k(const char* key, const std::string& v) { return k(key, v.c_str()); }
		Ev& k(const char* key, const std::vector<int>& v) {
			s += ",\""; s += key; s += "\":[";
			for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); }
			s += "]"; return *this;
		}
		~Ev() { s += "}"; log(std::move(s)); }
		Ev(const Ev&) = delete;
	};
	#define VSEV(name) ::vs::Ev(name)

	// ---------------------------------------------------------------- driver entry
	struct Case {
		Rng rng;       // program randomness
		int size;      // 0 small (for depth-first exploration), 1 normal, 2 large
	};
	// cfg: JSON object describing the configuration (becomes "cfg" of the trace); program: human readable, for replay files
	void set_case(const std::string& cfg, const std::string& program);
	void set_actor(int a); // logical name of the calling thread, used when the run gets stuck
	using Body = void (*)(Case&);
	int driver_main(int argc, char** argv, Body body);
	const std::string& variant(); // --variant argument of the driver
} // namespace vs

// ================================================================== namespace vstd
namespace vstd {
	using namespace std;

	inline void atomic_thread_fence(std::memory_order o) noexcept { vs::hb_fence((int)o); }

	template<typename T>
	class vs_atomic_base {
	protected:
		alignas(sizeof(T) == 8 ? 8 : alignof(T)) T m_v;
		mutable vs::Sync* m_s = nullptr;
		using O = std::memory_order;
		static constexpr O fail_of(O o) {
			return o == O::acq_rel ? O::acquire : o == O::release ? O::relaxed : o;
		}
		VS_NOTSAN bool same(const T& a, const T& b) const noexcept { return __builtin_memcmp(&a, &b, sizeof(T)) == 0; }

	public:
		using value_type = T;
		static constexpr bool is_always_lock_free = true;
		constexpr vs_atomic_base() noexcept : m_v{} {}
		constexpr vs_atomic_base(T v) noexcept : m_v(v) {}
		vs_atomic_base(const vs_atomic_base&) = delete;
		vs_atomic_base& operator=(const vs_atomic_base&) = delete;
		constexpr ~vs_atomic_base() {
			if (!std::is_constant_evaluated()) vs::hb_free(m_s);
		}
		bool is_lock_free() const noexcept { return true; }
		VS_NOTSAN T load(O o = O::seq_cst) const noexcept {
			vs::point();
			T r = m_v;
			vs::hb_load(m_s, (int)o);
			return r;
		}
		VS_NOTSAN void store(T v, O o = O::seq_cst) noexcept {
			vs::point();
			m_v = v;
			vs::hb_store(m_s, (int)o);
		}
		VS_NOTSAN T exchange(T v, O o = O::seq_cst) noexcept {
			vs::point();
			T r = m_v;
			m_v = v;
			vs::hb_rmw(m_s, (int)o);
			return r;
		}
		VS_NOTSAN bool compare_exchange_strong(T& e, T d, O s, O f) noexcept {
			vs::point();
			if (same(m_v, e)) {
				m_v = d;
				vs::hb_rmw(m_s, (int)s);
				return true;
			}
			e = m_v;
			vs::hb_load(m_s, (int)f);
			return false;
		}
		VS_NOTSAN bool compare_exchange_weak(T& e, T d, O s, O f) noexcept {
			vs::point();
			if (same(m_v, e) && !vs::spurious_cas()) {
				m_v = d;
				vs::hb_rmw(m_s, (int)s);
				return true;
			}
			e = m_v;
			vs::hb_load(m_s, (int)f);
			return false;
		}
		bool compare_exchange_strong(T& e, T d, O o = O::seq_cst) noexcept {
			return compare_exchange_strong(e, d, o, fail_of(o));
		}
		bool compare_exchange_weak(T& e, T d, O o = O::seq_cst) noexcept {
			return compare_exchange_weak(e, d, o, fail_of(o));
		}
		operator T() const noexcept { return load(); }
		T operator=(T v) noexcept { store(v); return v; }
		void wait(T old, O o = O::seq_cst) const noexcept {
			while (true) {
				T cur = load(o);
				if (!same(cur, old)) return;
				vs::block_on(this);
			}
		}
		void notify_one() noexcept { vs::point(); vs::wake_one(this); }
		void notify_all() noexcept { vs::point(); vs::wake_all(this); }
	};
	template<typename T>
	class vs_atomic_int : public vs_atomic_base<T> {
		using B = vs_atomic_base<T>;
		using O = std::memory_order;
		template<typename F>
		VS_NOTSAN T rmw(F f, O o) noexcept {
			vs::point();
			T r = this->m_v;
			this->m_v = f(r);
			vs::hb_rmw(this->m_s, (int)o);
			return r;
		}
	public:
		using difference_type = T;
		using B::B;
		using B::operator=;
		constexpr vs_atomic_int() noexcept = default;
		T fetch_add(T a, O o = O::seq_cst) noexcept { return rmw([a](T x) VS_NOTSAN { return (T)(x + a); }, o); }
		T fetch_sub(T a, O o = O::seq_cst) noexcept { return rmw([a](T x) VS_NOTSAN { return (T)(x - a); }, o); }
		T fetch_and(T a, O o = O::seq_cst) noexcept { return rmw([a](T x) VS_NOTSAN { return (T)(x & a); }, o); }
		T fetch_or(T a, O o = O::seq_cst) noexcept { return rmw([a](T x) VS_NOTSAN { return (T)(x | a); }, o); }
		T fetch_xor(T a, O o = O::seq_cst) noexcept { return rmw([a](T x) VS_NOTSAN { return (T)(x ^ a); }, o); }
		T operator++() noexcept { return fetch_add(1) + 1; }
		T operator--() noexcept { return fetch_sub(1) - 1; }
		T operator++(int) noexcept { return fetch_add(1); }
		T operator--(int) noexcept { return fetch_sub(1); }
		T operator+=(T a) noexcept { return fetch_add(a) + a; }
		T operator-=(T a) noexcept { return fetch_sub(a) - a; }
		T operator&=(T a) noexcept { return fetch_and(a) & a; }
		T operator|=(T a) noexcept { return fetch_or(a) | a; }
		T operator^=(T a) noexcept { return fetch_xor(a) ^ a; }
	};
	template<typename T>
	class vs_atomic_ptr : public vs_atomic_base<T> {
		using B = vs_atomic_base<T>;
		using O = std::memory_order;
	public:
		using difference_type = std::ptrdiff_t;
		using B::B;
		using B::operator=;
		constexpr vs_atomic_ptr() noexcept = default;
		VS_NOTSAN T fetch_add(std::ptrdiff_t a, O o = O::seq_cst) noexcept {
			vs::point();
			T r = this->m_v;
			this->m_v = r + a;
			vs::hb_rmw(this->m_s, (int)o);
			return r;
		}
		T fetch_sub(std::ptrdiff_t a, O o = O::seq_cst) noexcept { return fetch_add(-a, o); }
	};
	template<typename T>
	using vs_atomic_sel = std::conditional_t<std::is_pointer_v<T>, vs_atomic_ptr<T>,
		std::conditional_t<std::is_integral_v<T> && !std::is_same_v<T, bool>, vs_atomic_int<T>, vs_atomic_base<T>>>;
	template<typename T>
	class atomic : public vs_atomic_sel<T> {
	public:
		using vs_atomic_sel<T>::vs_atomic_sel;
		using vs_atomic_sel<T>::operator=;
		constexpr atomic() noexcept = default;
		constexpr atomic(T v) noexcept : vs_atomic_sel<T>(v) {}
	};
	using atomic_bool = atomic<bool>;
	using atomic_int = atomic<int>;
	using atomic_uint = atomic<unsigned>;
	using atomic_long = atomic<long>;
	using atomic_size_t = atomic<std::size_t>;
	using atomic_uintptr_t = atomic<std::uintptr_t>;
	using atomic_uint32_t = atomic<uint32_t>;
	using atomic_uint64_t = atomic<uint64_t>;
	using atomic_int64_t = atomic<int64_t>;
	class atomic_flag {
		atomic<bool> m_f{false};
	public:
		constexpr atomic_flag() noexcept = default;
		bool test_and_set(std::memory_order o = std::memory_order::seq_cst) noexcept { return m_f.exchange(true, o); }
		void clear(std::memory_order o = std::memory_order::seq_cst) noexcept { m_f.store(false, o); }
		bool test(std::memory_order o = std::memory_order::seq_cst) const noexcept { return m_f.load(o); }
		void wait(bool old, std::memory_order o = std::memory_order::seq_cst) const noexcept { m_f.wait(old, o); }
		void notify_one() noexcept { m_f.notify_one(); }
		void notify_all() noexcept { m_f.notify_all(); }
	};

	namespace chrono {
		using namespace std::chrono;
		struct steady_clock {
			using duration = std::chrono::nanoseconds;
			using rep = duration::rep;
			using period = duration::period;
			using time_point = std::chrono::time_point<steady_clock>;
			static constexpr bool is_steady = true;
			static time_point now() noexcept {
				vs::point();
				return time_point(duration(vs::now_ns()));
			}
		};
		struct system_clock {
			using duration = std::chrono::nanoseconds;
			using rep = duration::rep;
			using period = duration::period;
			using time_point = std::chrono::time_point<system_clock>;
			static constexpr bool is_steady = false;
			static time_point now() noexcept {
				vs::point();
				return time_point(duration(vs::now_ns() + 1000000000000ll));
			}
		};
		using high_resolution_clock = steady_clock;
		template<typename C, typename D>
		long long vs_deadline(const std::chrono::time_point<C, D>& tp) {
			auto left = std::chrono::ceil<std::chrono::nanoseconds>(tp - time_point_cast<typename C::duration>(
				std::chrono::time_point<C>(typename C::duration(C::now().time_since_epoch()))));
			if (left.count() > (1ll << 60)) return (1ll << 61);
			return vs::now_ns() + left.count();
		}
		template<typename R, typename P>
		long long vs_deadline(const std::chrono::duration<R, P>& d) {
			auto left = std::chrono::ceil<std::chrono::nanoseconds>(d).count();
			if (left > (1ll << 60)) return (1ll << 61);
			return vs::now_ns() + left;
		}
	} // namespace chrono

	class mutex {
	protected:
		bool m_locked = false;
		int m_owner = -1;
		mutable vs::Sync* m_s = nullptr;

	public:
		constexpr mutex() noexcept = default;
		mutex(const mutex&) = delete;
		mutex& operator=(const mutex&) = delete;
		constexpr ~mutex() {
			if (!std::is_constant_evaluated()) {
				if (vs_locked() && !vs::aborting()) vs::abort_run("crash", "mutex destroyed while locked");
				vs::hb_free(m_s);
			}
		}
		VS_NOTSAN bool vs_locked() const noexcept { return m_locked; }
		VS_NOTSAN void lock() {
			vs::point();
			vs_lock_nopoint();
		}
		VS_NOTSAN void vs_lock_nopoint() {
			while (m_locked) {
				if (m_owner == vs::self_id()) vs::abort_run("hang", "thread locks a std::mutex it already holds");
				vs::block_on(this);
			}
			m_locked = true;
			m_owner = vs::self_id();
			vs::hb_acquire(m_s);
		}
		VS_NOTSAN bool try_lock() {
			vs::point();
			if (m_locked) return false;
			m_locked = true;
			m_owner = vs::self_id();
			vs::hb_acquire(m_s);
			return true;
		}
		VS_NOTSAN void unlock() {
			vs::point();
			vs_unlock_nopoint();
		}
		VS_NOTSAN void vs_unlock_nopoint() {
			if (!m_locked || m_owner != vs::self_id()) vs::abort_run("crash", "unlock of a std::mutex not held");
			m_locked = false;
			m_owner = -1;
			vs::hb_release(m_s);
			vs::wake_all(this);
		}
		template<typename R, typename P>
		VS_NOTSAN bool try_lock_for(const std::chrono::duration<R, P>& d) { return vs_try_until(chrono::vs_deadline(d)); }
		template<typename C, typename D>
		VS_NOTSAN bool try_lock_until(const std::chrono::time_point<C, D>& d) { return vs_try_until(chrono::vs_deadline(d)); }
		VS_NOTSAN bool vs_try_until(long long dl) {
			vs::point();
			while (m_locked) {
				if (vs::block_until(this, dl)) return false;
			}
			m_locked = true;
			m_owner = vs::self_id();
			vs::hb_acquire(m_s);
			return true;
		}
	};
	using timed_mutex = mutex;
	class recursive_mutex {
		mutex m_m;
		int m_owner = -1, m_n = 0;
	public:
		VS_NOTSAN void lock() {
			if (m_n && m_owner == vs::self_id()) { m_n++; return; }
			m_m.lock(); m_owner = vs::self_id(); m_n = 1;
		}
		VS_NOTSAN bool try_lock() {
			if (m_n && m_owner == vs::self_id()) { m_n++; return true; }
			if (!m_m.try_lock()) return false;
			m_owner = vs::self_id(); m_n = 1; return true;
		}
		VS_NOTSAN void unlock() { if (--m_n == 0) { m_owner = -1; m_m.unlock(); } }
	};
	class shared_mutex {
		bool m_w = false;
		int m_r = 0;
		mutable vs::Sync* m_s = nullptr;  // released by writers, acquired by all
		mutable vs::Sync* m_rs = nullptr; // released by readers, acquired by writers
		int m_owner = -1;
	public:
		constexpr shared_mutex() noexcept = default;
		shared_mutex(const shared_mutex&) = delete;
		constexpr ~shared_mutex() {
			if (!std::is_constant_evaluated()) { vs::hb_free(m_s); vs::hb_free(m_rs); }
		}
		VS_NOTSAN void lock() {
			vs::point();
			while (m_w || m_r) vs::block_on(this);
			m_w = true;
			vs::hb_acquire(m_s);
			vs::hb_acquire(m_rs);
		}
		VS_NOTSAN bool try_lock() {
			vs::point();
			if (m_w || m_r) return false;
			m_w = true;
			vs::hb_acquire(m_s);
			vs::hb_acquire(m_rs);
			return true;
		}
		VS_NOTSAN void unlock() {
			vs::point();
			if (!m_w) vs::abort_run("crash", "unlock of a std::shared_mutex not held");
			m_w = false;
			vs::hb_release(m_s);
			vs::wake_all(this);
		}
		VS_NOTSAN void lock_shared() {
			vs::point();
			while (m_w) vs::block_on(this);
			m_r++;
			vs::hb_acquire(m_s);
		}
		VS_NOTSAN bool try_lock_shared() {
			vs::point();
			if (m_w) return false;
			m_r++;
			vs::hb_acquire(m_s);
			return true;
		}
		VS_NOTSAN void unlock_shared() {
			vs::point();
			if (m_r <= 0) vs::abort_run("crash", "unlock_shared of a std::shared_mutex not held");
			m_r--;
			vs::hb_release(m_rs);
			vs::wake_all(this);
		}
	};
	using shared_timed_mutex = shared_mutex;

	class condition_variable_any {
		char m_id = 0;
		template<typename L>
		bool wait_dl(L& l, long long dl) {
			// unlocking and starting to wait is one atomic step (no scheduling point in between)
			if constexpr (std::is_same_v<L, std::unique_lock<mutex>>) {
				vs::point();
				l.mutex()->vs_unlock_nopoint();
			} else {
				l.unlock();
			}
			bool to = false;
			if (vs::spurious_wake()) vs::point();
			else if (dl < 0) vs::block_on(this);
			else to = vs::block_until(this, dl);
			if constexpr (std::is_same_v<L, std::unique_lock<mutex>>) l.mutex()->vs_lock_nopoint();
			else l.lock();
			return to;
		}
	public:
		condition_variable_any() = default;
		condition_variable_any(const condition_variable_any&) = delete;
		void notify_one() noexcept { vs::point(); vs::wake_one(this); touch(); }
		void notify_all() noexcept { vs::point(); vs::wake_all(this); touch(); }
		// lets ASAN and the race detection see use after destruction (a read: notifications do not conflict with each other)
		void touch() const noexcept { static_cast<void>(*static_cast<const volatile char*>(&m_id)); }
		template<typename L> void wait(L& l) { wait_dl(l, -1); }
		template<typename L, typename P> void wait(L& l, P p) { while (!p()) wait(l); }
		template<typename L, typename C, typename D>
		std::cv_status wait_until(L& l, const std::chrono::time_point<C, D>& t) {
			return wait_dl(l, chrono::vs_deadline(t)) ? std::cv_status::timeout : std::cv_status::no_timeout;
		}
		template<typename L, typename R, typename P>
		std::cv_status wait_for(L& l, const std::chrono::duration<R, P>& d) {
			return wait_dl(l, chrono::vs_deadline(d)) ? std::cv_status::timeout : std::cv_status::no_timeout;
		}
		template<typename L, typename C, typename D, typename P>
		bool wait_until(L& l, const std::chrono::time_point<C, D>& t, P p) {
			long long dl = chrono::vs_deadline(t);
			while (!p()) if (wait_dl(l, dl)) return p();
			return true;
		}
		template<typename L, typename R, typename Pe, typename P>
		bool wait_for(L& l, const std::chrono::duration<R, Pe>& d, P p) {
			long long dl = chrono::vs_deadline(d);
			while (!p()) if (wait_dl(l, dl)) return p();
			return true;
		}
	};
	using condition_variable = condition_variable_any;

	class thread {
		vs::Task* m_t = nullptr;
	public:
		class id {
			int m_i = -1;
			friend class thread;
		public:
			constexpr id() noexcept = default;
			constexpr explicit id(int i) noexcept : m_i(i) {}
			auto operator<=>(const id&) const noexcept = default;
			int vs_id() const noexcept { return m_i; }
			friend std::ostream& operator<<(std::ostream& o, id i) { return o << i.m_i; }
		};
		using native_handle_type = int;
		thread() noexcept = default;
		template<typename F, typename... A>
			requires(!std::is_same_v<std::remove_cvref_t<F>, thread>)
		explicit thread(F&& f, A&&... a) {
			auto sp = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
			m_t = vs::spawn([sp = std::move(sp)]() mutable {
				std::apply([](auto&& fn, auto&&... args) { std::invoke(std::move(fn), std::move(args)...); }, *sp);
				sp.reset();
			});
		}
		thread(thread&& o) noexcept : m_t(std::exchange(o.m_t, nullptr)) {}
		thread& operator=(thread&& o) noexcept {
			if (m_t) std::terminate();
			m_t = std::exchange(o.m_t, nullptr);
			return *this;
		}
		~thread() {
			if (m_t) std::terminate();
		}
		bool joinable() const noexcept { return m_t != nullptr; }
		id get_id() const noexcept { return m_t ? id(vs::task_id(m_t)) : id(); }
		void join() {
			if (!m_t) throw std::system_error(std::make_error_code(std::errc::invalid_argument));
			if (vs::task_id(m_t) == vs::self_id())
				throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur));
			vs::join(m_t);
			m_t = nullptr;
		}
		void detach() { vs::detach(m_t); m_t = nullptr; }
		void swap(thread& o) noexcept { std::swap(m_t, o.m_t); }
		static unsigned hardware_concurrency() noexcept { return 2; }
		native_handle_type native_handle() { return 0; }
	};
	namespace this_thread {
		inline thread::id get_id() noexcept { return thread::id(vs::self_id()); }
		inline void yield() noexcept { vs::yield(); }
		template<typename R, typename P>
		void sleep_for(const std::chrono::duration<R, P>& d) { static char c; vs::block_until(&c, chrono::vs_deadline(d)); }
		template<typename C, typename D>
		void sleep_until(const std::chrono::time_point<C, D>& d) { static char c; vs::block_until(&c, chrono::vs_deadline(d)); }
	} // namespace this_thread

	template<std::ptrdiff_t Max = std::numeric_limits<std::ptrdiff_t>::max()>
	class counting_semaphore {
		mutex m; condition_variable_any c; std::ptrdiff_t n;
	public:
		explicit counting_semaphore(std::ptrdiff_t d) : n(d) {}
		void release(std::ptrdiff_t u = 1) { std::unique_lock l(m); n += u; c.notify_all(); }
		void acquire() { std::unique_lock l(m); c.wait(l, [&] { return n > 0; }); n--; }
		bool try_acquire() { std::unique_lock l(m); if (n <= 0) return false; n--; return true; }
		template<typename D> bool try_acquire_for(const D& d) { std::unique_lock l(m); if (!c.wait_for(l, d, [&] { return n > 0; })) return false; n--; return true; }
	};
	using binary_semaphore = counting_semaphore<1>;
	struct once_flag { mutex m; bool done = false; };
	template<typename F, typename... A>
	void call_once(once_flag& o, F&& f, A&&... a) { std::unique_lock l(o.m); if (!o.done) { std::invoke(std::forward<F>(f), std::forward<A>(a)...); o.done = true; } }

	// stop_token: the behaviour the standard documents, built on the primitives above
	struct nostopstate_t { explicit nostopstate_t() = default; };
	inline constexpr nostopstate_t nostopstate{};
	struct vs_stop_cb {
		bool* gone = nullptr;
		virtual void vs_run() noexcept = 0;
	protected:
		~vs_stop_cb() = default;
	};
	struct vs_stop_state {
		mutex m;
		condition_variable_any cv;
		bool req = false;
		int sources = 1;
		int who = -1;
		std::vector<vs_stop_cb*> cbs;
		vs_stop_cb* running = nullptr;
		bool request() noexcept {
			std::unique_lock l(m);
			if (req) return false;
			req = true;
			who = vs::self_id();
			while (!cbs.empty()) {
				auto it = cbs.begin() + vs::rnd((int)cbs.size());
				auto cb = *it;
				cbs.erase(it);
				bool gone = false;
				running = cb;
				cb->gone = &gone;
				l.unlock();
				cb->vs_run();
				l.lock();
				if (!gone) cb->gone = nullptr;
				running = nullptr;
				cv.notify_all();
			}
			return true;
		}
		// false: not registered (ran already, or nothing will ever stop)
		bool add(vs_stop_cb* cb) noexcept {
			{
				std::unique_lock l(m);
				if (!req) {
					if (sources == 0) return false;
					cbs.push_back(cb);
					return true;
				}
			}
			cb->vs_run();
			return false;
		}
		void remove(vs_stop_cb* cb) noexcept {
			std::unique_lock l(m);
			auto it = std::find(cbs.begin(), cbs.end(), cb);
			if (it != cbs.end()) {
				cbs.erase(it);
				return;
			}
			if (running != cb) return;
			if (who == vs::self_id()) {
				if (cb->gone) *cb->gone = true;
				return;
			}
			while (running == cb) cv.wait(l);
		}
	};
	class stop_source;
	template<typename C> class stop_callback;
	class stop_token {
		std::shared_ptr<vs_stop_state> m_s;
		friend class stop_source;
		template<typename C> friend class stop_callback;
	public:
		stop_token() noexcept = default;
		bool stop_requested() const noexcept { if (!m_s) return false; std::unique_lock l(m_s->m); return m_s->req; }
		bool stop_possible() const noexcept { if (!m_s) return false; std::unique_lock l(m_s->m); return m_s->req || m_s->sources > 0; }
		void swap(stop_token& o) noexcept { m_s.swap(o.m_s); }
		friend bool operator==(const stop_token& a, const stop_token& b) noexcept { return a.m_s == b.m_s; }
	};
	class stop_source {
		std::shared_ptr<vs_stop_state> m_s;
		void add(int n) noexcept { if (m_s) { std::unique_lock l(m_s->m); m_s->sources += n; } }
	public:
		stop_source() : m_s(std::make_shared<vs_stop_state>()) {}
		explicit stop_source(nostopstate_t) noexcept {}
		stop_source(const stop_source& o) noexcept : m_s(o.m_s) { add(1); }
		stop_source(stop_source&& o) noexcept : m_s(std::move(o.m_s)) {}
		stop_source& operator=(const stop_source& o) noexcept { stop_source(o).swap(*this); return *this; }
		stop_source& operator=(stop_source&& o) noexcept { stop_source(std::move(o)).swap(*this); return *this; }
		~stop_source() { add(-1); }
		void swap(stop_source& o) noexcept { m_s.swap(o.m_s); }
		bool stop_possible() const noexcept { return m_s != nullptr; }
		bool stop_requested() const noexcept { return get_token().stop_requested(); }
		bool request_stop() const noexcept { return m_s && m_s->request(); }
		stop_token get_token() const noexcept { stop_token t; t.m_s = m_s; return t; }
		friend bool operator==(const stop_source& a, const stop_source& b) noexcept { return a.m_s == b.m_s; }
	};
	template<typename C>
	class [[nodiscard]] stop_callback : vs_stop_cb {
		C m_c;
		std::shared_ptr<vs_stop_state> m_s;
		void vs_run() noexcept override { std::forward<C>(m_c)(); }
	public:
		using callback_type = C;
		template<typename F>
			requires(std::is_constructible_v<C, F>)
		explicit stop_callback(stop_token t, F&& f) : m_c(std::forward<F>(f)) {
			if (t.m_s && t.m_s->add(this)) m_s = std::move(t.m_s);
		}
		~stop_callback() { if (m_s) m_s->remove(this); }
		stop_callback(const stop_callback&) = delete;
		stop_callback& operator=(const stop_callback&) = delete;
	};
	template<typename C> stop_callback(stop_token, C) -> stop_callback<C>;

	// promise/future
	class jthread {
		stop_source m_stop{nostopstate};
		thread m_t;
		void vs_end() { if (m_t.joinable()) { m_stop.request_stop(); m_t.join(); } }
	public:
		using id = thread::id;
		using native_handle_type = thread::native_handle_type;
		jthread() noexcept = default;
		template<typename F, typename... A>
			requires(!std::is_same_v<std::remove_cvref_t<F>, jthread>)
		explicit jthread(F&& f, A&&... a) : m_stop() {
			if constexpr (std::is_invocable_v<std::decay_t<F>, stop_token, std::decay_t<A>...>)
				m_t = thread(std::forward<F>(f), m_stop.get_token(), std::forward<A>(a)...);
			else
				m_t = thread(std::forward<F>(f), std::forward<A>(a)...);
		}
		jthread(jthread&&) noexcept = default;
		jthread& operator=(jthread&& o) noexcept {
			if (&o != this) { vs_end(); m_stop = std::move(o.m_stop); m_t = std::move(o.m_t); }
			return *this;
		}
		~jthread() { vs_end(); }
		bool joinable() const noexcept { return m_t.joinable(); }
		void join() { m_t.join(); }
		void detach() { m_t.detach(); }
		id get_id() const noexcept { return m_t.get_id(); }
		native_handle_type native_handle() { return m_t.native_handle(); }
		stop_source get_stop_source() noexcept { return m_stop; }
		stop_token get_stop_token() const noexcept { return m_stop.get_token(); }
		bool request_stop() noexcept { return m_stop.request_stop(); }
		void swap(jthread& o) noexcept { std::swap(m_stop, o.m_stop); m_t.swap(o.m_t); }
		static unsigned hardware_concurrency() noexcept { return thread::hardware_concurrency(); }
	};
	class latch {
		mutable mutex m;
		mutable condition_variable_any c;
		std::ptrdiff_t n;
	public:
		explicit latch(std::ptrdiff_t d) : n(d) {}
		latch(const latch&) = delete;
		void count_down(std::ptrdiff_t u = 1) { std::unique_lock l(m); n -= u; c.notify_all(); }
		bool try_wait() const noexcept { std::unique_lock l(m); return n == 0; }
		void wait() const { std::unique_lock l(m); c.wait(l, [&] { return n == 0; }); }
		void arrive_and_wait(std::ptrdiff_t u = 1) { count_down(u); wait(); }
	};

	template<typename T> class promise;
	template<typename T>
	struct vs_fut_state {
		mutex m; condition_variable_any c; bool ready = false;
		std::conditional_t<std::is_void_v<T>, std::monostate, std::optional<std::conditional_t<std::is_void_v<T>, int, T>>> val;
		std::exception_ptr ex;
	};
	template<typename T>
	class future {
		std::shared_ptr<vs_fut_state<T>> s;
		friend class promise<T>;
	public:
		future() = default;
		future(future&&) = default;
		future& operator=(future&&) = default;
		bool valid() const { return (bool)s; }
		void wait() const { std::unique_lock l(s->m); s->c.wait(l, [&] { return s->ready; }); }
		template<typename D> std::future_status wait_for(const D& d) const { std::unique_lock l(s->m); return s->c.wait_for(l, d, [&] { return s->ready; }) ? std::future_status::ready : std::future_status::timeout; }
		template<typename D> std::future_status wait_until(const D& d) const { std::unique_lock l(s->m); return s->c.wait_until(l, d, [&] { return s->ready; }) ? std::future_status::ready : std::future_status::timeout; }
		T get() {
			if (!s) throw std::future_error(std::future_errc::no_state);
			auto st = std::move(s);
			std::unique_lock l(st->m);
			st->c.wait(l, [&] { return st->ready; });
			if (st->ex) std::rethrow_exception(st->ex);
			if constexpr (!std::is_void_v<T>) return std::move(*st->val);
		}
	};
	template<typename T>
	class promise {
		std::shared_ptr<vs_fut_state<T>> s = std::make_shared<vs_fut_state<T>>();
		bool got = false;
	public:
		promise() = default;
		promise(promise&&) = default;
		promise& operator=(promise&&) = default;
		~promise() { if (s) { std::unique_lock l(s->m); if (!s->ready) { s->ex = std::make_exception_ptr(std::future_error(std::future_errc::broken_promise)); s->ready = true; s->c.notify_all(); } } }
		future<T> get_future() { if (!s) throw std::future_error(std::future_errc::no_state); if (got) throw std::future_error(std::future_errc::future_already_retrieved); got = true; future<T> f; f.s = s; return f; }
		template<typename... U>
		void set_value(U&&... u) {
			if (!s) throw std::future_error(std::future_errc::no_state);
			std::unique_lock l(s->m);
			if (s->ready) throw std::future_error(std::future_errc::promise_already_satisfied);
			if constexpr (!std::is_void_v<T>) s->val.emplace(std::forward<U>(u)...);
			s->ready = true; s->c.notify_all();
		}
		void set_exception(std::exception_ptr e) {
			if (!s) throw std::future_error(std::future_errc::no_state);
			std::unique_lock l(s->m);
			if (s->ready) throw std::future_error(std::future_errc::promise_already_satisfied);
			s->ex = e; s->ready = true; s->c.notify_all();
		}
	};
} // namespace vstd
template<>
struct std::hash<vstd::thread::id> {
	std::size_t operator()(vstd::thread::id i) const noexcept { return (unsigned)(i.vs_id() + 2) * 2654435761u ^ vs::salt(); }
};
