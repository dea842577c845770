// Points at which the schedule of the threads is disturbed and observed: every function of a library compiled
// with -finstrument-functions.
#pragma once
#include "vh.h"
#include <atomic>
#include <sched.h>
#include <time.h>
#define NOHOOK __attribute__((no_instrument_function))

namespace sched
{
// Relaxed accesses only: the monitor must not order anything that the code does not.
static std::atomic<unsigned> next{0};
static std::atomic<unsigned> mode{0};       // 0 off, otherwise how eagerly to disturb
static std::atomic<unsigned> epoch{0};
static std::atomic<uint64_t> seed{0}, switches{0}, points{0}, signature{0}, delays{0};
static std::atomic<unsigned> lastThread{~0u};
static thread_local unsigned id = ~0u, myEpoch = ~0u;
static thread_local uint64_t rng = 0;
static thread_local unsigned budget = 0;

NOHOOK static inline void point()
{
	unsigned m = mode.load(std::memory_order_relaxed);
	if (!m) return;
	unsigned e = epoch.load(std::memory_order_relaxed);
	if (id == ~0u || myEpoch != e)
	{
		id = next.fetch_add(1, std::memory_order_relaxed);
		myEpoch = e;
		budget = 250;
		rng = seed.load(std::memory_order_relaxed) + id*0x9E3779B97F4A7C15ull + 1;
	}
	if (lastThread.load(std::memory_order_relaxed) != id)
	{
		lastThread.store(id, std::memory_order_relaxed);
		switches.store(switches.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
		signature.store(signature.load(std::memory_order_relaxed)*1099511628211ull + id + 1, std::memory_order_relaxed);
	}
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	unsigned every = m == 1 ? 4096 : m == 2 ? 600 : 60;
	if (rng % every == 0 && budget)
	{
		--budget;
		delays.store(delays.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
		if ((rng >> 40) % 3)
			sched_yield();
		else
		{
			timespec t{0, (long)((rng >> 20) % 40000)};
			nanosleep(&t, nullptr);
		}
	}
}
}

extern "C"
{
NOHOOK __attribute__((no_sanitize("thread"))) void __cyg_profile_func_enter(void*, void*) {sched::point();}
NOHOOK __attribute__((no_sanitize("thread"))) void __cyg_profile_func_exit(void*, void*) {sched::point();}
}

struct Arm
{
	Arm(unsigned m, uint64_t s)
	{
		sched::seed.store(s, std::memory_order_relaxed);
		sched::next.store(0, std::memory_order_relaxed);
		sched::signature.store(0, std::memory_order_relaxed);
		sched::switches.store(0, std::memory_order_relaxed);
		sched::delays.store(0, std::memory_order_relaxed);
		sched::lastThread.store(~0u, std::memory_order_relaxed);
		sched::epoch.fetch_add(1, std::memory_order_relaxed);
		sched::mode.store(m, std::memory_order_relaxed);
	}
	~Arm() {sched::mode.store(0, std::memory_order_relaxed);}
};
