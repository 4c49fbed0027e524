#pragma once
// the event loop of the case's task runs on a virtual clock: time moves when the loop is about to sleep
#include <stdatomic.h>
#include <sys/epoll.h>
static Task*    vloop_task;                // task on the virtual clock
static uint64_t vclock_ns = 1700000000000000000ull;
static int      vloop_zero;                // consecutive polls without sleep
static void   (*vloop_check)(int timeout); // loop is going to sleep
static Event*   vloop_quiet;               // signalled when nothing can happen any more
int __real_clock_gettime(clockid_t id, struct timespec* t);
int __wrap_clock_gettime(clockid_t id, struct timespec* t)
{
	if (vloop_task && am_task == vloop_task && (id == CLOCK_REALTIME_COARSE || id == CLOCK_REALTIME)) {
		t->tv_sec = vclock_ns / 1000000000; t->tv_nsec = vclock_ns % 1000000000;
		return 0;
	}
	return __real_clock_gettime(id, t);
}
int __real_epoll_wait(int fd, struct epoll_event* l, int n, int timeout);
int __wrap_epoll_wait(int fd, struct epoll_event* l, int n, int timeout)
{
	if (! vloop_task || am_task != vloop_task) return __real_epoll_wait(fd, l, n, timeout);
	int r = __real_epoll_wait(fd, l, n, 0);
	if (r > 0) { vloop_zero = 0; return r; }
	if (timeout == 0) {
		pbt_check(++vloop_zero < 100000, "event loop spins without sleeping");
		return 0;
	}
	vloop_zero = 0;
	if (vloop_check) vloop_check(timeout);
	if (timeout > 0) { vclock_ns += (uint64_t)timeout * 1000000; return 0; }
	pbt_check(vloop_quiet && vloop_quiet->wait, "event loop sleeps forever, but the case is not complete");
	event_signal_local(vloop_quiet);
	return 0;
}
// waits until no coroutine can run
static Event vloop_quiet_event;
static void quiet_wait(void)
{
	event_init(&vloop_quiet_event);
	vloop_quiet = &vloop_quiet_event;
	wait_event(&vloop_quiet_event, am_self());
	vloop_quiet = NULL;
}
static uint64_t vnow_ms(void) { return vclock_ns / 1000000; }
static void vloop_enter(void)
{
	vloop_task = am_task;
	vloop_check = NULL;
	vloop_zero = 0;
	am_task->timer_mgr.time_cached = false;
}
