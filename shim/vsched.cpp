// Runtime of the controlled scheduler; see vsched.h. Never instrumented.
#include "vsched.h"
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <thread>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace vs {
	constexpr int MAXT = 24;
	struct VC {
		uint32_t c[MAXT] = {};
		void join(const VC& o) {
			for (int i = 0; i < MAXT; i++)
				if (o.c[i] > c[i]) c[i] = o.c[i];
		}
	};
	struct Sync {
		VC rel;
		uint32_t run;
	};
	enum St { RUNNABLE, BLOCKED, DONE };
	struct Task {
		int id = 0;
		int go = 0;
		St st = RUNNABLE;
		const void* obj = nullptr;
		long long deadline = -1;
		bool timed_out = false;
		bool detached = false;
		int actor = -1;
		long prio = 0;
		VC vc, acq, relf;
		std::function<void()> fn;
	};

	namespace {
		struct Choice { short n, c; bool costly; };
		enum Mode { RANDOM, PCT, DFS };
		struct State {
			bool in_run = false;
			uint32_t run_no = 0;
			std::vector<Task*> tasks;
			Task* cur = nullptr;
			long steps = 0, max_steps = 15000;
			long long now = 1000000;
			Mode mode = RANDOM;
			Rng rng{1};
			int p_stay = 50, p_spur = 0, p_time = 0, p_wake = 0;
			std::vector<long> change; // pct change points
			long low_prio = -1;
			double est = 60;
			// dfs
			std::vector<Choice> path;
			size_t pos = 0;
			int bound = 2;
			// trace
			std::vector<std::string> ev;
			std::string cfg, program, notes;
			bool raced = false, dirty = false, aborting = false;
			// output
			FILE* out = nullptr;
			std::unordered_map<uint64_t, char> seen;
			long runs = 0, distinct = 0, total_steps = 0, nev = 0, switches = 0, prog_no = 0;
			std::string variant, idx;
			unsigned salt = 0;
			bool strict = false;
			std::string last_run;
		};
		bool g_dying = false;
		std::unordered_set<void*> quarantined;
		bool g_in_run = false; // usable before the dynamic initialisation of S
		State& S = *new State;
		thread_local Task* tl_self = nullptr;
		thread_local int tl_rt = 0;
		struct Rt {
			Rt() { tl_rt++; }
			~Rt() { tl_rt--; }
		};
		void futex_wait(int* p, int v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
		void futex_wake(int* p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

		void emit_trace(bool fatal) {
			std::string s = "{\"cfg\":" + S.cfg + ",\"ev\":[";
			for (size_t i = 0; i < S.ev.size(); i++) {
				if (i) s += ",";
				s += S.ev[i];
			}
			s += "]";
			uint64_t h = std::hash<std::string>{}(s);
			h ^= std::hash<std::string>{}(s + "#") * 31;
			S.nev += S.ev.size();
			if (fatal || S.seen.emplace(h, 1).second) {
				S.distinct++;
				std::string prog;
				for (char c : S.program) {
					if (c == '"' || c == '\\') prog += '\\';
					if (c == '\n') prog += "\\n";
					else prog += c;
				}
				std::string notes;
				for (char c : S.notes) {
					if (c == '"' || c == '\\') notes += '\\';
					if (c == '\n') notes += "\\n";
					else if ((unsigned char)c >= 32) notes += c;
				}
				s += ",\"idx\":\"" + S.idx + "\",\"program\":\"" + prog + "\",\"notes\":\"" + notes + "\"}\n";
				fwrite(s.data(), 1, s.size(), S.out);
			}
			S.ev.clear();
		}
		void write_stats(const char* status) {
			fprintf(S.out, "{\"stats\":{\"status\":\"%s\",\"runs\":%ld,\"distinct\":%ld,\"steps\":%ld,\"events\":%ld,\"switches\":%ld,\"idx\":\"%s\",\"progs\":%ld}}\n",
				status, S.runs, S.distinct, S.total_steps + S.steps, S.nev, S.switches, S.idx.c_str(), S.prog_no);
			fflush(S.out);
		}
		// Without memory allocation and locks: for when the heap is broken, or die() was called inside of it.
		const char* volatile g_kind = "crash";
		void raw(const char* p, size_t n) {
			while (n > 0) {
				auto k = ::write(fileno(S.out), p, n);
				if (k <= 0) return;
				p += k;
				n -= (size_t)k;
			}
		}
		void raw(const char* p) { raw(p, strlen(p)); }
		void raw(const std::string& s) { raw(s.data(), s.size()); }
		void emergency() {
			static volatile sig_atomic_t once = 0;
			if (once) _exit(98);
			once = 1;
			if (!S.in_run || S.out == nullptr) _exit(99);
			raw("\n{\"cfg\":");
			raw(S.cfg);
			raw(",\"ev\":[");
			bool marked = false;
			for (auto& e : S.ev) {
				if (&e != &S.ev[0]) raw(",");
				raw(e);
				marked = e.size() > 6 && (e[6] == 'c' || e[6] == 'h') && (!strncmp(e.c_str() + 5, "\"crash\"", 7) || !strncmp(e.c_str() + 5, "\"hang\"", 6));
			}
			if (!marked) {
				raw(S.ev.empty() ? "{\"e\":\"" : ",{\"e\":\"");
				raw(g_kind);
				raw("\"}");
			}
			raw("],\"idx\":\"");
			raw(S.idx);
			raw("\",\"program\":\"");
			for (char& c : S.program) {
				if (c == '\n') { raw("\\n"); continue; }
				if (c == '"' || c == '\\') raw("\\");
				raw(&c, 1);
			}
			raw("\",\"notes\":\"reported without use of the heap\"}\n{\"stats\":{\"status\":\"");
			raw(g_kind);
			char b[256];
			snprintf(b, sizeof b, "\",\"runs\":%ld,\"distinct\":%ld,\"steps\":%ld,\"events\":%ld,\"switches\":%ld,\"idx\":\"", S.runs, S.distinct, S.total_steps + S.steps,
				S.nev, S.switches);
			raw(b);
			raw(S.idx);
			snprintf(b, sizeof b, "\",\"progs\":%ld}}\n", S.prog_no);
			raw(b);
			_exit(90);
		}
		void on_alarm(int) { emergency(); }
		void die(const char* kind, const char* why) {
			tl_rt++;
			g_dying = true;
			static bool once = false;
			if (once) emergency();
			once = true;
			g_kind = kind;
			{
				struct sigaction sa{};
				sa.sa_handler = on_alarm;
				sa.sa_flags = SA_ONSTACK;
				sigaction(SIGALRM, &sa, nullptr);
				itimerval it{{0, 0}, {20, 0}};
				setitimer(ITIMER_REAL, &it, nullptr); // should this thread already own a lock that it needs now
			}
			S.aborting = true;
			S.notes += why;
			if (S.in_run) {
				if (S.ev.size() > 3000) S.ev.resize(3000);
				S.ev.push_back(std::string("{\"e\":\"") + kind + "\"}");
				emit_trace(true);
				write_stats(kind);
				_exit(90);
			}
			fprintf(stderr, "vsched: %s outside of a run: %s\n", kind, why);
			fflush(stderr);
			_exit(99);
		}

		int choose(int n, bool costly) { // dfs choice point, also used by random modes
			if (n <= 1) return 0;
			if (S.mode == DFS) {
				if (S.pos < S.path.size()) {
					if (S.path[S.pos].n != n) { // must not happen: replay is deterministic
						S.path.resize(S.pos);
						S.path.push_back({(short)n, 0, costly});
					}
				} else S.path.push_back({(short)n, 0, costly});
				return S.path[S.pos++].c;
			}
			return S.rng(n);
		}
		void switch_to(Task* self, Task* next) {
			if (self == next) return;
			S.switches++;
			S.cur = next;
			__atomic_store_n(&next->go, 1, __ATOMIC_SEQ_CST);
			futex_wake(&next->go);
			if (self->st == DONE) return;
			while (__atomic_load_n(&self->go, __ATOMIC_SEQ_CST) == 0) futex_wait(&self->go, 0);
			self->go = 0;
		}
		void timed_wake(Task* t) {
			if (t->deadline > S.now) S.now = t->deadline;
			t->st = RUNNABLE;
			t->timed_out = true;
			t->obj = nullptr;
			t->deadline = -1;
		}
		void stuck() {
			std::string a;
			std::vector<int> ids;
			for (auto t : S.tasks)
				if (t->st == BLOCKED) ids.push_back(t->actor);
			std::sort(ids.begin(), ids.end());
			for (size_t i = 0; i < ids.size(); i++) a += (i ? "," : "") + std::to_string(ids[i]);
			S.ev.push_back("{\"e\":\"stuck\",\"blocked\":[" + a + "]}");
			S.aborting = true;
			emit_trace(true);
			write_stats("stuck");
			_exit(91);
		}
		// pick the next task to run. self may be runnable (a preemption) or not.
		Task* pick(Task* self, bool avoid_self) {
			static std::vector<Task*> cand;
			bool self_ok = self->st == RUNNABLE;
			bool fair = S.steps > S.max_steps;
			if (S.steps > S.max_steps * 5) die("hang", "step limit reached under fair scheduling");
			cand.clear();
			for (auto t : S.tasks)
				if (t != self && t->st == RUNNABLE) cand.push_back(t);
			// let time pass at an arbitrary moment
			if (S.mode != DFS && S.p_time > 0 && !S.strict && S.rng(1000) < S.p_time) {
				std::vector<Task*> timed;
				for (auto t : S.tasks)
					if (t->st == BLOCKED && t->deadline >= 0) timed.push_back(t);
				if (!timed.empty()) {
					Task* t = timed[S.rng((int)timed.size())];
					timed_wake(t);
					cand.push_back(t);
				}
			}
			if (cand.empty() && !self_ok) {
				Task* best = nullptr;
				long long d = 0;
				int ties = 0;
				for (auto t : S.tasks) {
					if (t->st != BLOCKED || t->deadline < 0) continue;
					if (t->deadline >= (1ll << 61)) continue;
					if (!best || t->deadline < d) { best = t; d = t->deadline; ties = 1; }
					else if (t->deadline == d && S.rng(++ties) == 0) best = t;
				}
				if (!best) stuck();
				timed_wake(best);
				return best;
			}
			if (cand.empty()) return self;
			if (fair) {
				int n = (int)cand.size() + (self_ok ? 1 : 0);
				int k = S.rng(n);
				return k < (int)cand.size() ? cand[k] : self;
			}
			if (S.mode == DFS) {
				if (avoid_self || !self_ok) {
					std::vector<Task*> c = cand;
					return c[choose((int)c.size(), false)];
				}
				int k = choose((int)cand.size() + 1, true);
				return k == 0 ? self : cand[k - 1];
			}
			if (S.mode == PCT) {
				for (long c : S.change)
					if (c == S.steps) self->prio = S.low_prio--;
				if (avoid_self) self->prio = S.low_prio--;
				Task* b = self_ok ? self : nullptr;
				for (auto t : cand)
					if (!b || t->prio > b->prio) b = t;
				return b;
			}
			if (self_ok && !avoid_self && S.rng(100) < S.p_stay) return self;
			int n = (int)cand.size() + (self_ok && !avoid_self ? 1 : 0);
			int k = S.rng(n);
			return k < (int)cand.size() ? cand[k] : self;
		}
		Sync* sync_of(Sync*& s) {
			if (!s) s = new Sync{{}, S.run_no};
			if (s->run != S.run_no) { s->rel = VC{}; s->run = S.run_no; }
			return s;
		}
		bool is_acq(int o) { return o == (int)std::memory_order::acquire || o == (int)std::memory_order::consume || o == (int)std::memory_order::acq_rel || o == (int)std::memory_order::seq_cst; }
		bool is_rel(int o) { return o == (int)std::memory_order::release || o == (int)std::memory_order::acq_rel || o == (int)std::memory_order::seq_cst; }
		void note_race(const std::string& what) {
			if (S.raced) return;
			S.raced = true;
			S.ev.push_back("{\"e\":\"race\"}");
			S.notes += what + "; ";
		}
	} // namespace

	Task* self() noexcept { return tl_self; }
	int self_id() noexcept { return tl_self ? tl_self->id : -1; }
	void set_actor(int a) { if (tl_self) tl_self->actor = a; }
	bool aborting() noexcept { return S.aborting; }
	void point() noexcept {
		Task* s = tl_self;
		if (!s || !S.in_run) return;
		Rt rt;
		S.steps++;
		switch_to(s, pick(s, false));
	}
	void yield() noexcept {
		Task* s = tl_self;
		if (!s || !S.in_run) return;
		Rt rt;
		S.steps++;
		switch_to(s, pick(s, true));
	}
	bool spurious_cas() noexcept {
		if (!tl_self || !S.in_run || S.steps > S.max_steps) return false;
		if (S.mode == DFS) return S.bound > 1 && choose(2, true) == 1;
		return S.p_spur > 0 && S.rng(100) < S.p_spur;
	}
	bool spurious_wake() noexcept {
		if (!tl_self || !S.in_run || S.mode == DFS || S.steps > S.max_steps) return false;
		return S.p_wake > 0 && S.rng(100) < S.p_wake;
	}
	int rnd(int n) noexcept { return choose(n, true); }
	void block_on(const void* obj) noexcept {
		Task* s = tl_self;
		if (!s) { fprintf(stderr, "vsched: blocking outside of a run\n"); _exit(99); }
		Rt rt;
		S.steps++;
		s->st = BLOCKED;
		s->obj = obj;
		s->deadline = -1;
		switch_to(s, pick(s, false));
	}
	bool block_until(const void* obj, long long dl) noexcept {
		Task* s = tl_self;
		if (!s) return true;
		Rt rt;
		S.steps++;
		if (dl <= S.now) {
			switch_to(s, pick(s, false));
			return true;
		}
		s->st = BLOCKED;
		s->obj = obj;
		s->deadline = dl;
		s->timed_out = false;
		switch_to(s, pick(s, false));
		return s->timed_out;
	}
	void wake_all(const void* obj) noexcept {
		if (!tl_self) return;
		for (auto t : S.tasks)
			if (t->st == BLOCKED && t->obj == obj) { t->st = RUNNABLE; t->obj = nullptr; t->deadline = -1; }
	}
	void wake_one(const void* obj) noexcept {
		if (!tl_self) return;
		Rt rt;
		std::vector<Task*> c;
		for (auto t : S.tasks)
			if (t->st == BLOCKED && t->obj == obj) c.push_back(t);
		if (c.empty()) return;
		Task* t = c[choose((int)c.size(), true)];
		t->st = RUNNABLE; t->obj = nullptr; t->deadline = -1;
	}
	long long now_ns() noexcept { return S.now; }
	void advance_ns(long long d) noexcept { S.now += d; }

	void hb_load(Sync*& s, int o) noexcept {
		Task* t = tl_self;
		if (!t) return;
		Rt rt;
		Sync* y = sync_of(s);
		if (is_acq(o)) t->vc.join(y->rel);
		else t->acq.join(y->rel);
	}
	void hb_store(Sync*& s, int o) noexcept {
		Task* t = tl_self;
		if (!t) return;
		Rt rt;
		Sync* y = sync_of(s);
		if (is_rel(o)) { y->rel = t->vc; t->vc.c[t->id]++; }
		else y->rel = t->relf;
	}
	void hb_rmw(Sync*& s, int o) noexcept {
		Task* t = tl_self;
		if (!t) return;
		Rt rt;
		Sync* y = sync_of(s);
		if (is_acq(o)) t->vc.join(y->rel);
		else t->acq.join(y->rel);
		if (is_rel(o)) { y->rel.join(t->vc); t->vc.c[t->id]++; }
		else y->rel.join(t->relf);
	}
	void hb_fence(int o) noexcept {
		Task* t = tl_self;
		if (!t) return;
		point();
		if (is_acq(o)) t->vc.join(t->acq);
		if (is_rel(o)) { t->relf = t->vc; t->vc.c[t->id]++; }
	}
	void hb_acquire(Sync*& s) noexcept {
		if (!tl_self) return;
		Rt rt;
		tl_self->vc.join(sync_of(s)->rel);
	}
	void hb_release(Sync*& s) noexcept {
		if (!tl_self) return;
		Rt rt;
		sync_of(s)->rel.join(tl_self->vc);
		tl_self->vc.c[tl_self->id]++;
	}
	void hb_free(Sync*& s) noexcept {
		Rt rt;
		delete s;
		s = nullptr;
	}

	// ---------------------------------------------------------------- races
	namespace {
		struct Acc { // access history of one location
			VC w, r;
			uint32_t run = 0;
		};
		bool conflicts(const VC& hist, const Task* t) {
			for (int i = 0; i < MAXT; i++)
				if (hist.c[i] > t->vc.c[i] && i != t->id) return true;
			return false;
		}
	} // namespace
	// kept until the end of the run, in case a broken object is used after its end
	static std::deque<Acc> accs;
	Cell::Cell() { Rt rt; impl = &accs.emplace_back(); }
	Cell::~Cell() {}
	void release_cells() { accs.clear(); }
	void Cell::write(int) {
		if (!tl_self) return;
		Rt rt;
		Acc* a = (Acc*)impl;
		if (conflicts(a->w, tl_self) || conflicts(a->r, tl_self)) note_race("unordered write of published data");
		a->w.c[tl_self->id] = tl_self->vc.c[tl_self->id];
	}
	int Cell::read() {
		if (!tl_self) return 0;
		Rt rt;
		Acc* a = (Acc*)impl;
		if (conflicts(a->w, tl_self)) note_race("unordered read of published data");
		a->r.c[tl_self->id] = tl_self->vc.c[tl_self->id];
		return 0;
	}

	// ---------------------------------------------------------------- threads
	namespace {
		void finish(Task* t) {
			t->st = DONE;
			for (auto o : S.tasks)
				if (o->st == BLOCKED && o->obj == t) { o->st = RUNNABLE; o->obj = nullptr; o->deadline = -1; }
			Task* n = pick(t, false);
			tl_self = nullptr;
			S.switches++;
			S.cur = n;
			__atomic_store_n(&n->go, 1, __ATOMIC_SEQ_CST);
			futex_wake(&n->go);
		}
		// OS threads are reused between tasks; the thread-local storage of this program is reset to its initial image so
		// that a task cannot tell.
		struct Worker { Task* task = nullptr; int go = 0; };
		std::vector<Worker*>& workers = *new std::vector<Worker*>;
		char* tls_image = nullptr;
		size_t tls_filesz = 0, tls_memsz = 0, tls_align = 1;
		int find_tls(dl_phdr_info* i, size_t, void*) {
			for (int k = 0; k < i->dlpi_phnum; k++)
				if (i->dlpi_phdr[k].p_type == PT_TLS) {
					tls_image = (char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
					tls_filesz = i->dlpi_phdr[k].p_filesz;
					tls_memsz = i->dlpi_phdr[k].p_memsz;
					tls_align = i->dlpi_phdr[k].p_align;
				}
			return 1; // the first object is the executable
		}
		__attribute__((noinline)) void reset_tls() {
			size_t blk = (tls_memsz + tls_align - 1) & ~(tls_align - 1);
			char* base = (char*)__builtin_thread_pointer() - blk;
			memcpy(base, tls_image, tls_filesz);
			memset(base + tls_filesz, 0, tls_memsz - tls_filesz);
		}
		void worker_loop(Worker* w) {
			stack_t ss{};
			ss.ss_sp = malloc(1 << 16);
			ss.ss_size = 1 << 16;
			sigaltstack(&ss, nullptr);
			while (true) {
				reset_tls();
				asm volatile("" ::: "memory");
				tl_rt = 1;
				Task* t = w->task;
				while (__atomic_load_n(&t->go, __ATOMIC_SEQ_CST) == 0) futex_wait(&t->go, 0);
				t->go = 0;
				tl_self = t;
				tl_rt = 0;
				t->fn();
				t->fn = nullptr;
				tl_rt = 1;
				finish(t);
				while (__atomic_load_n(&w->go, __ATOMIC_SEQ_CST) == 0) futex_wait(&w->go, 0);
				w->go = 0;
			}
		}
	} // namespace
	Task* spawn(std::function<void()> fn) {
		point();
		Rt rt;
		Task* p = tl_self;
		if (!p) { fprintf(stderr, "vsched: thread outside of a run\n"); _exit(99); }
		Task* t = new Task;
		t->id = (int)S.tasks.size();
		if (t->id >= MAXT) { fprintf(stderr, "vsched: too many threads\n"); _exit(99); }
		t->vc = p->vc;
		t->vc.c[t->id] = 1;
		p->vc.c[p->id]++;
		t->prio = S.mode == PCT ? 1000 + S.rng(1000) : 0;
		t->fn = std::move(fn);
		S.tasks.push_back(t);
		Worker* w = nullptr;
		for (auto x : workers)
			if (__atomic_load_n(&x->task, __ATOMIC_SEQ_CST) == nullptr) { w = x; break; }
		if (!w) {
			w = new Worker;
			workers.push_back(w);
			w->task = t;
			std::thread(worker_loop, w).detach();
		} else {
			__atomic_store_n(&w->task, t, __ATOMIC_SEQ_CST);
			__atomic_store_n(&w->go, 1, __ATOMIC_SEQ_CST);
			futex_wake(&w->go);
		}
		return t;
	}
	void join(Task* t) {
		point();
		Rt rt;
		Task* s = tl_self;
		while (t->st != DONE) {
			s->st = BLOCKED;
			s->obj = t;
			s->deadline = -1;
			S.steps++;
			switch_to(s, pick(s, false));
		}
		s->vc.join(t->vc);
	}
	void detach(Task* t) { t->detached = true; }
	int task_id(Task* t) { return t->id; }
	void log(std::string e) {
		if (!S.in_run) return;
		Rt rt;
		S.ev.push_back(std::move(e));
	}
	void abort_run(const char* kind, const std::string& why) noexcept { die(kind, why.c_str()); }
	void strict_time(bool on) noexcept { S.strict = on; }
	unsigned salt() noexcept { return S.salt; }
	void mark_dirty() { S.dirty = true; }
	const std::string& variant() { return S.variant; }

	namespace {
#ifdef VS_TSAN
		void clear_range(uintptr_t a, size_t n);
		void release_quarantine() {
			for (auto p : quarantined) {
				clear_range((uintptr_t)p, malloc_usable_size(p));
				free(p);
			}
			quarantined.clear();
		}
#else
		void release_quarantine() {}
#endif
		} void release_cells(); namespace {
		void run_once(Body body, uint64_t pseed, int size) {
			{
				Rt rt;
				S.run_no++;
				S.runs++;
				for (auto t : S.tasks) delete t;
				S.tasks.clear();
				Task* t = new Task;
				t->id = 0;
				t->vc.c[0] = 1;
				t->prio = 1000 + S.rng(1000);
				S.tasks.push_back(t);
				S.cur = t;
				S.steps = 0;
				S.now = 1000000;
				S.ev.clear();
				S.notes.clear();
				S.cfg = "{}";
				S.program.clear();
				S.raced = S.dirty = false;
				S.pos = 0;
				tl_self = t;
			}
			Case c{Rng(pseed), size};
			S.strict = false;
			S.salt = (unsigned)(pseed * 0x9E3779B1u);
			S.in_run = g_in_run = true;
			body(c);
			{
				Rt rt;
				// wait for detached threads, then collect
				Task* s = tl_self;
				for (size_t i = 1; i < S.tasks.size(); i++) {
					Task* t = S.tasks[i];
					while (t->st != DONE) {
						s->st = BLOCKED; s->obj = t; s->deadline = -1;
						switch_to(s, pick(s, false));
					}
				}
				S.in_run = g_in_run = false;
				tl_self = nullptr;
				release_quarantine();
				release_cells();
				// a worker serves one task per run, so that no two tasks of a run share a stack
				for (auto w : workers) __atomic_store_n(&w->task, (Task*)nullptr, __ATOMIC_SEQ_CST);
				emit_trace(false);
				S.est = S.est * 0.9 + 0.1 * (double)S.steps;
				S.total_steps += S.steps;
				S.steps = 0;
			}
		}
		volatile long wd_run = -1;
		volatile int wd_ticks = 0;
		void on_vtalrm(int) {
			if (wd_run == S.runs) {
				wd_ticks = wd_ticks + 1;
				if (wd_ticks >= 4 && S.in_run) die("hang", "run uses more than 20 s of processor time");
			} else { wd_run = S.runs; wd_ticks = 0; }
		}
		// a run that neither ends nor uses any processor time waits for something that the scheduler does not know of
		void on_ralrm(int) {
			timespec t;
			clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
			static long last_run = -1, ticks = 0;
			static long long last = 0;
			long long now = t.tv_sec * 1000000000ll + t.tv_nsec;
			if (last_run == S.runs && now - last < 10000000) {
				if (++ticks >= 4 && S.in_run) {
					g_kind = "hang";
					emergency();
				}
			} else ticks = 0;
			last_run = S.runs;
			last = now;
		}
		void on_fatal(int sig) {
			g_dying = true;
			char b[] = "signal ??";
			b[7] = (char)('0' + sig / 10);
			b[8] = (char)('0' + sig % 10);
			die("crash", b);
		 }
		std::string asan_text;
#if defined(__SANITIZE_ADDRESS__)
		void on_asan_report(const char* txt) { asan_text = std::string(txt).substr(0, 1800); }
		void on_death() { die("crash", ("AddressSanitizer: " + asan_text).c_str()); }
#endif
	} // namespace
	void set_case(const std::string& cfg, const std::string& program) { Rt rt; S.cfg = cfg; S.program = program; }

	int driver_main(int argc, char** argv, Body body) {
		uint64_t seed = 1;
		long start = 0, count = 1000000000, per = 6;
		double seconds = 5;
		std::string out = "/dev/stdout", modes = "rpd";
		long dfs_limit = 400;
		int only_size = -1;
		long max_distinct = 1000000000;
		for (int i = 1; i + 1 < argc; i += 2) {
			std::string a = argv[i], v = argv[i + 1];
			if (a == "--seed") seed = std::stoull(v);
			else if (a == "--start") start = std::stol(v);
			else if (a == "--count") count = std::stol(v);
			else if (a == "--seconds") seconds = std::stod(v);
			else if (a == "--out") out = v;
			else if (a == "--variant") S.variant = v;
			else if (a == "--modes") modes = v;
			else if (a == "--per") per = std::stol(v);
			else if (a == "--dfs-limit") dfs_limit = std::stol(v);
			else if (a == "--size") only_size = std::stoi(v);
			else if (a == "--max-distinct") max_distinct = std::stol(v);
			else if (a == "--max-steps") S.max_steps = std::stol(v);
			else if (a == "--cpu") { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(std::stoi(v), &cs); sched_setaffinity(0, sizeof cs, &cs); }
		}
		dl_iterate_phdr(find_tls, nullptr);
		S.out = fopen(out.c_str(), "a");
		static char outbuf[1 << 16];
		if (S.out) setvbuf(S.out, outbuf, _IOFBF, sizeof outbuf);
		if (!S.out) { perror("out"); return 99; }
#if defined(__SANITIZE_ADDRESS__)
		__asan_set_error_report_callback(on_asan_report);
		__sanitizer_set_death_callback(on_death);
#endif
		static char altstack[1 << 16];
		stack_t ss{};
		ss.ss_sp = altstack;
		ss.ss_size = sizeof altstack;
		sigaltstack(&ss, nullptr);
		for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) {
			struct sigaction sa{};
			sa.sa_handler = on_fatal;
			sa.sa_flags = SA_ONSTACK | SA_NODEFER;
			sigaction(s, &sa, nullptr);
		}
		{
			struct sigaction sa{};
			sa.sa_handler = on_vtalrm;
			sa.sa_flags = SA_RESTART;
			sigaction(SIGVTALRM, &sa, nullptr);
			itimerval it{{5, 0}, {5, 0}};
			setitimer(ITIMER_VIRTUAL, &it, nullptr);
			sa.sa_handler = on_ralrm;
			sa.sa_flags = SA_RESTART | SA_ONSTACK;
			sigaction(SIGALRM, &sa, nullptr);
			itimerval ir{{15, 0}, {15, 0}};
			setitimer(ITIMER_REAL, &ir, nullptr);
		}
		std::set_terminate([] { die("crash", "std::terminate"); });
		auto t0 = std::chrono::steady_clock::now();
		auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < seconds; };
		// Program number p is explored with one mode; modes are assigned round robin.
		for (long p = start; p < start + count && left() && S.distinct < max_distinct; p++) {
			S.prog_no++;
			uint64_t ps = seed * 1000003ull + (uint64_t)p;
			char m = modes[p % modes.size()];
			if (m == 'd') {
				S.mode = DFS;
				S.path.clear();
				for (long k = 0; k < dfs_limit && left() && S.distinct < max_distinct; k++) {
					S.idx = std::to_string(seed) + ":" + std::to_string(p) + ":d" + std::to_string(k);
					S.rng = Rng(ps * 7919);
					run_once(body, ps, only_size >= 0 ? only_size : 0);
					// next path: last position with an untried alternative within the preemption bound
					bool found = false;
					while (!S.path.empty()) {
						Choice& c = S.path.back();
						int cost = 0;
						for (size_t i = 0; i + 1 < S.path.size(); i++)
							if (S.path[i].costly && S.path[i].c) cost++;
						if (c.c + 1 < c.n && (!c.costly || cost + 1 <= S.bound)) { c.c++; found = true; break; }
						S.path.pop_back();
					}
					if (!found) break;
				}
			} else {
				for (long k = 0; k < per && left(); k++) {
					S.idx = std::to_string(seed) + ":" + std::to_string(p) + ":" + m + std::to_string(k);
					S.rng = Rng(ps * 7919 + (uint64_t)k * 104729 + 13);
					S.mode = m == 'p' ? PCT : RANDOM;
					static const int stay[] = {0, 30, 50, 70, 85, 95};
					S.p_stay = stay[S.rng(6)];
					S.p_spur = S.rng(3) == 0 ? 15 : 0;
					S.p_wake = S.rng(3) == 0 ? 15 : 0;
					static const int tm[] = {0, 0, 5, 20, 80};
					S.p_time = tm[S.rng(5)];
					S.change.clear();
					S.low_prio = -1;
					int d = S.rng(4);
					for (int i = 0; i < d; i++) S.change.push_back(1 + S.rng((int)S.est + 1));
					run_once(body, ps, only_size >= 0 ? only_size : (p % 5 == 0 ? 2 : p % 5 < 3 ? 1 : 0));
				}
			}
		}
		write_stats("ok");
		fclose(S.out);
		_exit(0);
	}
} // namespace vs

// ==================================================================================== race detection for plain accesses
namespace vs {
	namespace {
#ifdef VS_TSAN
		constexpr uintptr_t TB = 1 << 16;
		struct Rec { uint32_t clk; uint8_t tid, mask; bool wr; };
		struct Gran { uintptr_t addr; uint32_t run; uint8_t n; Rec r[6]; const void* pc[6]; };
		Gran* shadow = (Gran*)calloc(TB, sizeof(Gran));
		inline Gran& slot(uintptr_t a8) { return shadow[(a8 * 0x9E3779B97F4A7C15ull >> 40) & (TB - 1)]; }
		void access1(uintptr_t a8, uint8_t mask, bool wr, const void* pc) {
			Task* t = tl_self;
			Gran& g = slot(a8);
			if (g.addr != a8 || g.run != S.run_no) { g.addr = a8; g.run = S.run_no; g.n = 0; }
			for (int i = 0; i < g.n;) {
				Rec& r = g.r[i];
				if ((r.mask & mask) && (r.wr || wr) && r.tid != t->id && r.clk > t->vc.c[r.tid]) {
					char b[200];
					Dl_info di{}, dj{};
					dladdr(pc, &di); dladdr(g.pc[i], &dj);
					snprintf(b, sizeof b, "data race: %s by thread %d at +%lx, earlier %s by thread %d at +%lx", wr ? "write" : "read", t->id,
						(long)((uintptr_t)pc - (uintptr_t)di.dli_fbase), r.wr ? "write" : "read", r.tid, (long)((uintptr_t)g.pc[i] - (uintptr_t)dj.dli_fbase));
					note_race(b);
				}
				// drop what the new access subsumes
				if (r.tid == t->id && (r.mask & ~mask) == 0 && (wr || !r.wr)) { g.r[i] = g.r[g.n - 1]; g.pc[i] = g.pc[g.n - 1]; g.n--; continue; }
				i++;
			}
			int k = g.n < 6 ? g.n++ : (int)(t->vc.c[t->id] % 6);
			g.r[k] = Rec{t->vc.c[t->id], (uint8_t)t->id, mask, wr};
			g.pc[k] = pc;
		}
		inline void access(const volatile void* p, size_t n, bool wr, const void* pc) {
			if (!tl_self || tl_rt || !S.in_run) return;
			tl_rt++;
			uintptr_t a = (uintptr_t)p, e = a + n;
			while (a < e) {
				uintptr_t b = a & ~7ull;
				uintptr_t hi = std::min(e, b + 8);
				uint8_t m = (uint8_t)(((1u << (hi - a)) - 1) << (a - b));
				access1(b, m, wr, pc);
				a = hi;
			}
			tl_rt--;
		}
		void clear_range(uintptr_t a, size_t n) {
			if (!g_in_run) return;
			if (n > (1 << 20)) n = 1 << 20;
			for (uintptr_t b = a & ~7ull; b < a + n; b += 8) {
				Gran& g = slot(b);
				if (g.addr == b) g.n = 0;
			}
		}
#endif
	} // namespace
} // namespace vs
#ifdef VS_TSAN
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
	void __tsan_read##n(void* p) { vs::access(p, n, false, PC); } \
	void __tsan_write##n(void* p) { vs::access(p, n, true, PC); } \
	void __tsan_unaligned_read##n(void* p) { vs::access(p, n, false, PC); } \
	void __tsan_unaligned_write##n(void* p) { vs::access(p, n, true, PC); } \
	void __tsan_volatile_read##n(void* p) { (void)p; } \
	void __tsan_volatile_write##n(void* p) { (void)p; } \
	void __tsan_unaligned_volatile_read##n(void* p) { (void)p; } \
	void __tsan_unaligned_volatile_write##n(void* p) { (void)p; } \
	void __tsan_read_write##n(void* p) { vs::access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { vs::access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { vs::access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) vs::access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { vs::access(p, 8, false, PC); }
// real atomics (inside libstdc++ headers, e.g. shared_ptr): pass through, with a happens-before edge per location
}
namespace vs {
	namespace {
		Sync*& global_sync(const volatile void* p) {
			static auto& m = *new std::unordered_map<const volatile void*, Sync*>;
			return m[p];
		}
		struct AtomHB {
			AtomHB(const volatile void* p, bool acq, bool rel) {
				if (!tl_self || tl_rt || !S.in_run) return;
				Rt rt;
				Sync*& s = global_sync(p);
				if (acq) hb_acquire(s);
				if (rel) hb_release(s);
			}
		};
	}
}
extern "C" {
#define ATOM(b, T) \
	T __tsan_atomic##b##_load(const volatile T* p, int o) { if (o) vs::AtomHB h(p, true, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##b##_store(volatile T* p, T v, int o) { if (o) vs::AtomHB h(p, false, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##b##_exchange(volatile T* p, T v, int o) { if (o) vs::AtomHB h(p, true, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int o) { if (o) vs::AtomHB h(p, true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int o) { if (o) vs::AtomHB h(p, true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int o) { if (o) vs::AtomHB h(p, true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int o) { if (o) vs::AtomHB h(p, true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int o) { if (o) vs::AtomHB h(p, true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T d, int o, int) { if (o) vs::AtomHB h(p, true, true); return __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T d, int o, int) { if (o) vs::AtomHB h(p, true, true); return __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// fibers switch stacks themselves; the race detector needs no notion of them
static thread_local void* vs_cur_fiber = (void*)1;
static char vs_fiber_no[1];
void* __tsan_get_current_fiber() { return vs_cur_fiber; }
void* __tsan_create_fiber(unsigned) { static size_t n = 0; return vs_fiber_no + 8 * ++n; }
void __tsan_destroy_fiber(void*) {}
void __tsan_switch_to_fiber(void* f, unsigned) { vs_cur_fiber = f; }
void __tsan_set_fiber_name(void*, const char*) {}
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}
}
namespace {
	// the heap may be broken when the process dies
	alignas(16) char last_heap[64 << 20];
	size_t last_used = 0;
	void* vs_alloc(size_t n) {
		if (vs::g_dying) {
			n = (n + 31) & ~(size_t)15;
			if (last_used + n > sizeof last_heap) _exit(97);
			last_used += n;
			return last_heap + last_used - n;
		}
		void* p = malloc(n ? n : 1);
		if (!p) throw std::bad_alloc();
		// all that vs_free is going to look at: the run time library frees without telling (exceptions)
		vs::clear_range((uintptr_t)p, malloc_usable_size(p));
		return p;
	}
	// What is freed during a run stays allocated until its end: a second free is recognised and broken code can not
	// destroy the heap of the process. (The AddressSanitizer flavour recognises accesses to freed memory.)
	void vs_free(void* p, const void* pc) {
		if (!p || vs::g_dying) return;
		size_t n = malloc_usable_size(p);
		if (vs::g_in_run && vs::tl_self && !vs::tl_rt) {
			// freeing conflicts with every access that is not ordered before it
			vs::tl_rt++;
			if (!vs::quarantined.insert(p).second) vs::die("crash", "freed twice");
			uintptr_t a = (uintptr_t)p;
			for (uintptr_t b = a; b < a + std::min<size_t>(n, 1 << 16); b += 8) {
				vs::Gran& g = vs::slot(b);
				if (g.addr == b && g.run == vs::S.run_no && g.n) vs::access1(b, 0xff, true, pc);
			}
			vs::tl_rt--;
			return;
		}
		vs::clear_range((uintptr_t)p, n);
		free(p);
	}
}
// initialisation of function statics
extern "C" int __cxa_guard_acquire(long long* g) {
	static int (*real)(long long*) = nullptr;
	if (!real) real = (int (*)(long long*))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
	int r = real(g);
	vs::AtomHB h(g, true, false);
	return r;
}
extern "C" void __cxa_guard_release(long long* g) {
	static void (*real)(long long*) = nullptr;
	if (!real) real = (void (*)(long long*))dlsym(RTLD_NEXT, "__cxa_guard_release");
	{ vs::AtomHB h(g, false, true); }
	real(g);
}
// unmapping memory conflicts with every access that is not ordered before it; what is mapped there later is new
extern "C" int munmap(void* p, size_t n) noexcept {
	if (vs::g_in_run && vs::tl_self && !vs::tl_rt) {
		vs::tl_rt++;
		uintptr_t a = (uintptr_t)p;
		for (uintptr_t b = a; b < a + std::min<size_t>(n, 1 << 20); b += 8) {
			vs::Gran& g = vs::slot(b);
			if (g.addr == b && g.run == vs::S.run_no && g.n) {
				vs::access1(b, 0xff, true, PC);
				g.n = 0;
			}
		}
		vs::tl_rt--;
	}
	return (int)syscall(SYS_munmap, p, n);
}
void* operator new(size_t n) { return vs_alloc(n); }
void* operator new[](size_t n) { return vs_alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vs_alloc(n); }
// over-aligned memory is not quarantined: what was there before is forgotten
void* operator new(size_t n, std::align_val_t a) {
	void* p = nullptr;
	if (posix_memalign(&p, std::max((size_t)a, sizeof(void*)), n ? n : 1)) throw std::bad_alloc();
	vs::clear_range((uintptr_t)p, malloc_usable_size(p));
	return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p, std::align_val_t) noexcept { if (!vs::g_dying) free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { if (!vs::g_dying) free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { if (!vs::g_dying) free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { if (!vs::g_dying) free(p); }
void operator delete(void* p) noexcept { vs_free(p, PC); }
void operator delete[](void* p) noexcept { vs_free(p, PC); }
void operator delete(void* p, size_t) noexcept { vs_free(p, PC); }
void operator delete[](void* p, size_t) noexcept { vs_free(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vs_free(p, PC); }
// The memory of exceptions is managed by the (not instrumented) run time library: what was there before is forgotten.
extern "C" void* __cxa_allocate_exception(size_t n) noexcept {
	static auto real = (void* (*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception");
	void* p = real(n);
	vs::clear_range((uintptr_t)p, n);
	return p;
}
#endif
