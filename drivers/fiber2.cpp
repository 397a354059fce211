// The part of the fiber driver that lives in a second translation unit.
#include "vsched.h"
#define std vstd
#include <asyncpp/fiber.h>
#undef std
#include "fiber2.h"
namespace {
	struct Ref {
		far_awaiter* f;
		bool await_ready() { return false; }
		void await_suspend(std::coroutine_handle<> h) { f->suspend(h); }
		int await_resume() { return f->resume(); }
	};
} // namespace
int far_await(far_awaiter& f) { return fib_await Ref{&f}; }
asyncpp::fiber<int> far_make(std::unique_ptr<far_body> b) {
	return asyncpp::fiber<int>([b = std::move(b)]() { return b->run(); });
}
