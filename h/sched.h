#pragma once
// controlled scheduler: the threads of a case run one at a time and are switched at memory accesses,
// branches and blocking calls, by a generated seed; time is virtual. A schedule is a function of the seed,
// so it can be replayed. Needs: cflags of SCHED_CFLAGS and ldflags of SCHED_LDFLAGS (see py/registry.py)
#include <pthread.h>
#include <sys/poll.h>
#include <errno.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/epoll.h>
#define SCH __attribute__((no_sanitize("coverage"), noinline))

enum { S_RUN, S_MUTEX, S_COND, S_EPOLL, S_JOIN, S_SLEEP, S_DONE };
typedef struct SchT SchT;
struct SchT {
	int       go, state, no, fd, weight;
	void*     obj;
	bool      timed;
	uint64_t  deadline;          // virtual ns
	pthread_t id;
	void*     (*main)(void*);
	void*     arg;
};
#define SCH_MAX 64
static SchT*    sch_list[SCH_MAX];
static int      sch_n;
static bool     sch_on;
static int      sch_quiet_n;                 // >0: no preemption (bookkeeping of the harness)
static int64_t  sch_budget, sch_quantum, sch_steps, sch_limit;
static int      sch_fine;                    // short cases: switch more often
static int      sch_mean, sch_switches, sch_preempts, sch_style;
static uint64_t sch_rng, sch_ns = 1700000000000000000ull;
static _Thread_local SchT* sch_me;

SCH static uint64_t sch_rnd(uint64_t n) { sch_rng ^= sch_rng << 13; sch_rng ^= sch_rng >> 7; sch_rng ^= sch_rng << 17; return (sch_rng * 0x2545f4914f6cdd1dull >> 20) % n; }
SCH static void sch_refill(void)
{
	uint64_t m = sch_mean;
	if (sch_rnd(8) == 0) m *= 10;
	sch_budget = sch_quantum = 1 + sch_rnd(2 * m);
}
SCH static bool sch_enabled(SchT* t)
{
	switch (t->state) {
	case S_RUN: return true;
	case S_EPOLL: {
		if (t->timed && sch_ns >= t->deadline) return true;
		struct pollfd p = { .fd = t->fd, .events = POLLIN };
		return poll(&p, 1, 0) > 0;
	}
	case S_SLEEP: return sch_ns >= t->deadline;
	case S_COND: return t->timed && sch_ns >= t->deadline;
	case S_JOIN: return ((SchT*)t->obj)->state == S_DONE;
	}
	return false;
}
SCH static void sch_wait(SchT* t) { while (! __atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) syscall(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0); t->go = 0; }
SCH static void sch_wake(SchT* t) { __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); syscall(SYS_futex, &t->go, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }
SCH static void sch_states(char* out, int n)
{
	static const char* name[] = { "run", "mutex", "condition", "poll", "join", "sleep", "done" };
	int at = 0;
	for (int i = 0; i < sch_n && at < n - 20; i++) at += snprintf(out + at, n - at, "%s%d:%s", i ? " " : "", i, name[sch_list[i]->state]);
}
SCH static SchT* sch_choose(void)
{
	char st[512];
	for (;;) {
		SchT* can[SCH_MAX]; int n = 0, total = 0;
		for (int i = 0; i < sch_n; i++) if (sch_enabled(sch_list[i])) { can[n++] = sch_list[i]; total += sch_list[i]->weight; }
		if (n) {
			int64_t k = sch_rnd(total);
			for (int i = 0; i < n; i++) if ((k -= can[i]->weight) < 0) return can[i];
		}
		uint64_t min = UINT64_MAX;
		for (int i = 0; i < sch_n; i++) { SchT* t = sch_list[i]; if ((t->state == S_SLEEP || ((t->state == S_EPOLL || t->state == S_COND) && t->timed)) && t->deadline < min) min = t->deadline; }
		if (min == UINT64_MAX) { sch_states(st, sizeof(st)); pbt_fail("no thread can run (%s)", st); }
		sch_ns = min;
	}
}
// gives the processor to another thread (or to itself)
SCH static void sch_switch(void)
{
	SchT* me = sch_me;
	char st[512];
	sch_switches++;
	sch_steps += sch_quantum - sch_budget + 1;
	if (sch_style && sch_rnd(64) == 0) for (int i = 0; i < sch_n; i++) sch_list[i]->weight = sch_rnd(3) ? 64 : (sch_rnd(2) ? 8 : 1);
	if (sch_rnd(50) == 0) sch_ns += 1 + sch_rnd(1500000);
	if (sch_steps > sch_limit) { sch_states(st, sizeof(st)); pbt_fail("no end after %" PRIi64 " steps and %d switches (%s)", sch_steps, sch_switches, st); }
	SchT* next = sch_choose();
	sch_refill();
	if (next == me) { if (me->state != S_DONE) me->state = S_RUN; return; }
	bool done = me->state == S_DONE;
	sch_wake(next);
	if (done) return;
	sch_wait(me);
	me->state = S_RUN;
}
__attribute__((no_sanitize("coverage"))) static inline void sch_step(void)
{
	if (! sch_on || ! sch_me || sch_quiet_n) return;
	if (--sch_budget > 0) return;
	sch_preempts++;
	sch_me->state = S_RUN;
	sch_switch();
}
#define QUIET_BEGIN do { sch_quiet_n++
#define QUIET_END sch_quiet_n--; } while (0)

// instrumentation
#define SCB(name, T) SCH void name(T p); SCH void name(T p) { (void)p; sch_step(); }
// a loop that only reads the same memory waits for another thread
static void* sch_last[4]; static int sch_repeat, sch_last_at;
SCH static void sch_load(void* p)
{
	if (! sch_on || ! sch_me || sch_quiet_n) return;
	if (p == sch_last[0] || p == sch_last[1] || p == sch_last[2] || p == sch_last[3]) {
		if (++sch_repeat > 100) { sch_repeat = 0; sch_quantum -= sch_budget - 1; sch_budget = 1; }
	} else { sch_last[sch_last_at++ & 3] = p; sch_repeat = 0; }
	sch_step();
}
#define LCB(name, T) SCH void name(T p); SCH void name(T p) { sch_load(p); }
LCB(__sanitizer_cov_load1, uint8_t*) LCB(__sanitizer_cov_load2, uint16_t*) LCB(__sanitizer_cov_load4, uint32_t*) LCB(__sanitizer_cov_load8, uint64_t*) LCB(__sanitizer_cov_load16, __int128*)
#define TCB(name, T) SCH void name(T p); SCH void name(T p) { (void)p; sch_repeat = 0; sch_step(); }
TCB(__sanitizer_cov_store1, uint8_t*) TCB(__sanitizer_cov_store2, uint16_t*) TCB(__sanitizer_cov_store4, uint32_t*) TCB(__sanitizer_cov_store8, uint64_t*) TCB(__sanitizer_cov_store16, __int128*)
SCB(__sanitizer_cov_trace_pc_guard, uint32_t*)
SCH void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b);
SCH void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { (void)a; (void)b; }

// threads
SCH static void* sch_main(void* arg)
{
	SchT* t = arg;
	sch_wait(t);
	sch_me = t;
	t->state = S_RUN;
	void* r = t->main(t->arg);
	t->state = S_DONE;
	sch_switch();
	sch_me = NULL;
	return r;
}
int __real_pthread_create(pthread_t* id, const pthread_attr_t* a, void* (*f)(void*), void* arg);
SCH int __wrap_pthread_create(pthread_t* id, const pthread_attr_t* a, void* (*f)(void*), void* arg)
{
	if (! sch_me) return __real_pthread_create(id, a, f, arg);
	pbt_check(sch_n < SCH_MAX, "harness: too many threads");
	SchT* t = calloc(1, sizeof(*t));
	t->no = sch_n; t->main = f; t->arg = arg; t->weight = 64;
	int rc = __real_pthread_create(id, a, sch_main, t);
	if (rc) { free(t); return rc; }
	t->id = *id;
	sch_list[sch_n++] = t;
	sch_step();
	return 0;
}
int __real_pthread_join(pthread_t id, void** r);
SCH int __wrap_pthread_join(pthread_t id, void** r)
{
	if (! sch_me) return __real_pthread_join(id, r);
	for (int i = 0; i < sch_n; i++) {
		SchT* t = sch_list[i];
		if (! t->id || ! pthread_equal(t->id, id)) continue;
		if (t->state != S_DONE) { sch_me->state = S_JOIN; sch_me->obj = t; sch_switch(); }
		t->id = 0;
		break;
	}
	return __real_pthread_join(id, r);
}
SCH int __wrap_pthread_mutex_lock(pthread_mutex_t* m);
int __real_pthread_mutex_lock(pthread_mutex_t* m);
SCH int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	if (! sch_me) return __real_pthread_mutex_lock(m);
	sch_step();
	while (pthread_mutex_trylock(m)) { sch_me->state = S_MUTEX; sch_me->obj = m; sch_switch(); }
	return 0;
}
int __real_pthread_mutex_unlock(pthread_mutex_t* m);
SCH static void sch_unlock(pthread_mutex_t* m)
{
	__real_pthread_mutex_unlock(m);
	for (int i = 0; i < sch_n; i++) if (sch_list[i]->state == S_MUTEX && sch_list[i]->obj == m) sch_list[i]->state = S_RUN;
}
SCH int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (! sch_me) return __real_pthread_mutex_unlock(m);
	sch_unlock(m);
	sch_step();
	return 0;
}
int __real_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m);
SCH int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (! sch_me) return __real_pthread_cond_wait(c, m);
	sch_unlock(m);
	sch_me->state = S_COND; sch_me->obj = c; sch_me->timed = false;
	sch_switch();
	return __wrap_pthread_mutex_lock(m);
}
int __real_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts);
SCH int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	if (! sch_me) return __real_pthread_cond_timedwait(c, m, ts);
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
	sch_unlock(m);
	sch_me->state = S_COND; sch_me->obj = c; sch_me->timed = true; sch_me->deadline = ts->tv_sec * 1000000000ull + ts->tv_nsec;
	sch_switch();
	bool signalled = sch_me->obj == NULL;
	__wrap_pthread_mutex_lock(m);
	return signalled ? 0 : ETIMEDOUT;
}
SCH static bool sch_signal(pthread_cond_t* c)
{
	SchT* can[SCH_MAX]; int n = 0;
	for (int i = 0; i < sch_n; i++) if (sch_list[i]->state == S_COND && sch_list[i]->obj == c) can[n++] = sch_list[i];
	if (! n) return false;
	SchT* t = can[sch_rnd(n)];
	t->state = S_RUN; t->obj = NULL;
	return true;
}
int __real_pthread_cond_signal(pthread_cond_t* c);
SCH int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
	if (! sch_me) return __real_pthread_cond_signal(c);
	sch_signal(c);
	sch_step();
	return 0;
}
int __real_pthread_cond_broadcast(pthread_cond_t* c);
SCH int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
	if (! sch_me) return __real_pthread_cond_broadcast(c);
	while (sch_signal(c));
	sch_step();
	return 0;
}
// blocking calls
int __real_epoll_wait(int fd, struct epoll_event* l, int n, int timeout);
SCH int __wrap_epoll_wait(int fd, struct epoll_event* l, int n, int timeout)
{
	if (! sch_me) return __real_epoll_wait(fd, l, n, timeout);
	sch_step();
	uint64_t deadline = timeout > 0 ? sch_ns + timeout * 1000000ull : 0;
	for (;;) {
		int r = __real_epoll_wait(fd, l, n, 0);
		if (r != 0 || timeout == 0) return r;
		if (timeout > 0 && sch_ns >= deadline) return 0;
		sch_me->state = S_EPOLL; sch_me->fd = fd; sch_me->timed = timeout > 0; sch_me->deadline = deadline;
		sch_switch();
	}
}
int __real_usleep(useconds_t us);
SCH int __wrap_usleep(useconds_t us)
{
	if (! sch_me) return __real_usleep(us);
	sch_me->state = S_SLEEP; sch_me->deadline = sch_ns + us * 1000ull;
	sch_switch();
	return 0;
}
int __real_sched_yield(void);
SCH int __wrap_sched_yield(void)
{
	if (! sch_me) return __real_sched_yield();
	sch_me->state = S_RUN;
	sch_switch();
	return 0;
}
int __real_clock_gettime(clockid_t id, struct timespec* t);
SCH int __wrap_clock_gettime(clockid_t id, struct timespec* t)
{
	if (! sch_me) return __real_clock_gettime(id, t);
	t->tv_sec = sch_ns / 1000000000; t->tv_nsec = sch_ns % 1000000000;
	return 0;
}
int __real_gettimeofday(struct timeval* t, void* z);
SCH int __wrap_gettimeofday(struct timeval* t, void* z)
{
	if (! sch_me) return __real_gettimeofday(t, z);
	t->tv_sec = sch_ns / 1000000000; t->tv_usec = sch_ns % 1000000000 / 1000;
	return 0;
}

// the calling thread becomes the first thread of the schedule
SCH static void sch_begin(int64_t limit)
{
	static SchT self;
	memset(&self, 0, sizeof(self));
	static const int means[2][4] = { { 3000, 20000, 400, 60 }, { 60, 400, 12, 3000 } };
	sch_mean  = means[sch_fine][pbt_pick(4)];
	sch_style = pbt_pick(2);
	sch_rng   = pbt_pick(1u << 30) * 2 + 0x9e3779b97f4a7c15ull;
	for (int i = 0; i < 8; i++) sch_rnd(2);
	sch_n = 0; sch_quiet_n = 0; sch_steps = 0; sch_switches = sch_preempts = 0;
	sch_limit = limit;
	self.weight = 64;
	sch_list[sch_n++] = &self;
	sch_ns = 1700000000000000000ull;
	sch_me = &self;
	sch_refill();
	am_task->timer_mgr.time_cached = false;
	sch_on = true;
}
SCH static void sch_end(void)
{
	for (int i = 1; i < sch_n; i++) pbt_check(sch_list[i]->state == S_DONE, "thread %d is still running", i);
	sch_on = false;
	sch_me = NULL;
	for (int i = 1; i < sch_n; i++) { free(sch_list[i]); sch_list[i] = NULL; }
	sch_n = 0;
	am_task->timer_mgr.time_cached = false;
}
