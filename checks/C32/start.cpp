// C32: a pool whose k-th thread cannot be started (the system is out of threads). The constructor must report that with the
// system's exception, after the workers already running have been stopped and joined; the process and later pools are unaffected.
#include "mon.h"
#include <vector>
#include <queue>
#include <deque>
#include <list>
#include <memory>
#include <thread>
#include <mutex>
#include <shared_mutex>
#include <condition_variable>
#include <functional>
#include <future>
#include <atomic>
#include <exception>
#include <stdexcept>
#include <system_error>
#include <chrono>
#include <utility>
static std::atomic<int> g_left{-1}, g_live{0}, g_started{0}; static std::atomic<int> g_pause{0};
namespace std { // std::thread as the pool sees it, with a start that can fail
struct FThread : thread {
	FThread() noexcept = default; FThread(FThread&&) noexcept = default; FThread& operator=(FThread&&) noexcept = default;
	template<class F, class... A, class = enable_if_t<!is_same_v<decay_t<F>, FThread>>> explicit FThread(F&& f, A&&... a) : thread() {
		if (g_left >= 0 && g_left-- == 0) throw system_error(make_error_code(errc::resource_unavailable_try_again), "thread start (injected)");
		++g_live; ++g_started; int us = g_pause;
		static_cast<thread&>(*this) = thread([us](auto fn, auto... b) { if (us) this_thread::sleep_for(chrono::microseconds(us)); struct D { ~D() { --g_live; } } d; std::invoke(std::move(fn), std::move(b)...); }, std::forward<F>(f), std::forward<A>(a)...);
	}
};
}
#define thread FThread
#include "tools/ThreadPool.h"
#undef thread
using MML::ThreadPool; using mon::Case;
FAMILY(start_failure, 300) {
	int n = c.r.i(1, 8), k = c.r.i(0, n); c.in("workers", n); c.in("fails_at", k); g_pause = c.r.pick({0, 0, 30, 300}); g_started = 0; c.check(g_live == 0, "no worker left from before");
	g_left = k; bool threw = false; std::atomic<int> ran{0};
	try { ThreadPool p(n); g_left = -1; for (int i = 0; i < 20; ++i) p.enqueue([&] { ++ran; }); p.wait_for_tasks(); c.check(ran == 20, "a pool that started runs its tasks"); }
	catch (const std::system_error& e) { threw = true; c.check(e.code() == std::errc::resource_unavailable_try_again, "the system's error is reported"); }
	g_left = -1;
	if (threw) { c.ev("start_failures"); c.ev("workers_unwound", g_started); } else c.ev("started");
	c.check(threw == (g_started < n), "a missing worker is reported, and nothing else is"); c.check(g_live == 0, "every started worker is gone when the constructor has failed or the pool is destroyed");
	ThreadPool q(c.r.i(1, 3)); std::atomic<int> again{0}; for (int i = 0; i < 5; ++i) q.enqueue([&] { ++again; }); q.wait_for_tasks(); c.check(again == 5, "a later pool works");
}
MON_MAIN()
