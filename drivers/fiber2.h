#pragma once
#include <coroutine>
struct far_awaiter {
	virtual void suspend(std::coroutine_handle<>) = 0;
	virtual int resume() = 0;
};
int far_await(far_awaiter& f);
#include <memory>
struct far_body {
	virtual ~far_body() = default;
	virtual int run() = 0;
};
asyncpp::fiber<int> far_make(std::unique_ptr<far_body> b);
