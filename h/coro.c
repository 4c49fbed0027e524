// C21: coroutines, events, timers, joins, cancellation, errors and cleanups
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "vloop.h"

// ---------------------------------------------------------------- programs of coroutines
enum { RUN, WAITING, SLEEPING, JOINING, POPPING };
typedef struct Ev Ev;
struct Ev { Event e; bool attached; Ev* parent; bool raised; };
typedef struct Co Co;
struct Co {
	uint64_t id; int no;
	bool     started, done, cancelled, clean;
	int      pause, recv;       // cancellation is postponed
	int      state;
	Ev*      ev;
	uint64_t deadline;          // 0: none
	Co*      joins;
	Co*      joiner;
	int      box;
};
typedef struct { Mailbox box; int sent[400], head, tail; } Box;
typedef struct { Msg msg; int v; } BoxMsg;
#define EVS 6
#define COS 24
#define BOXES 2
static Ev  evs[EVS]; static int evs_n;
static Co  crs[COS]; static int crs_n;
static Box boxes[BOXES]; static BoxMsg box_msg[800]; static int box_msg_n;
static bool closing;
static int  ops, running_no;
static uint64_t switches;

static bool alive(Co* c) { return coroutine_mgr_find(&am_task->coroutine_mgr, c->id) != NULL; }
static bool in_flight(Ev* e)
{
	// its signal or one of its children is on the way
	for (int i = 0; i < evs_n; i++) {
		if (! evs[i].attached || ! evs[i].e.ipc.refs) continue;
		for (Ev* p = &evs[i]; p; p = p->parent) if (p == e) return true;
	}
	return false;
}
static void resync(Ev* e) { e->raised = e->e.signal || in_flight(e); }
static void consume(Ev* e) { e->raised = in_flight(e); }

static void loop_check(int timeout)
{
	uint64_t now = vnow_ms();
	for (int i = 0; i < crs_n; i++) {
		Co* c = &crs[i];
		if (c->done) continue;
		if (! c->started) { pbt_check(! alive(c), "coroutine %d is never started", i); continue; }
		switch (c->state) {
		case RUN: if (alive(c)) pbt_fail("coroutine %d can run, but the loop goes to sleep", i); break;
		case WAITING: case SLEEPING:
			if (c->state == WAITING) pbt_check(! c->ev->raised, "coroutine %d sleeps on event %d which is signalled", i, (int)(c->ev - evs));
			pbt_check(! c->cancelled, "coroutine %d sleeps although it is cancelled", i);
			if (c->deadline) {
				pbt_check(c->deadline > now, "coroutine %d sleeps past its time", i);
				pbt_check(timeout > 0 && now + timeout <= c->deadline, "the loop sleeps for %d ms, coroutine %d has to wake up in %d ms", timeout, i, (int)(c->deadline - now));
			}
			break;
		case JOINING: pbt_check(alive(c->joins), "coroutine %d waits for %d which has exited", i, c->joins->no); break;
		case POPPING: pbt_check(boxes[c->box].head == boxes[c->box].tail, "coroutine %d waits for a message of mailbox %d which is not empty", i, c->box); break;
		}
	}
}
static void ran(Co* c) { if (running_no != c->no) switches++; running_no = c->no; }
static void expect_cancel(Co* c, bool err, const char* what)
{
	if (err) {
		auto e = &am_self()->error;
		pbt_check(e->code == CANCEL, "%s of coroutine %d: unexpected error: %.*s", what, c->no, (int)buf_size(&e->text), buf_cstr(&e->text));
		pbt_check(c->cancelled, "%s of coroutine %d is cancelled, but nobody has cancelled it", what, c->no);
	} else pbt_check(! c->cancelled, "%s of coroutine %d does not report its cancel", what, c->no);
}
// cancellation as seen by its target
static void cancel_of(Co* c)
{
	int pause = c->pause + (c->state == JOINING);
	if (pause > 0) c->recv++; else { c->recv = 0; c->cancelled = true; }
}
static void raise_of(Ev* e) { for (; e; e = e->parent) e->raised = true; }

static void co_main(void* arg);
static Co* co_create(void)
{
	Co* c = &crs[crs_n];
	memset(c, 0, sizeof(*c));
	c->no = crs_n++;
	c->id = coroutine_create(co_main, c);
	for (int i = 0; i < c->no; i++) pbt_check(crs[i].id < c->id, "coroutine id %d is used again", (int)c->id);
	pbt_note("create %d", c->no);
	return c;
}
static bool do_wait(Co* c, Ev* e, int t)
{
	pbt_note("%d: wait event %d for %d", c->no, (int)(e - evs), t);
	bool pre = e->raised && e->e.signal;
	uint64_t start = time_ms(), sw = switches;
	c->state = WAITING; c->ev = e; c->deadline = t >= 0 ? start + t : 0;
	volatile bool timedout = false;
	bool err = error_catch( timedout = event_wait(&e->e, t) );
	c->state = RUN; ran(c);
	pbt_note("%d: event %d: %s", c->no, (int)(e - evs), err ? "error" : timedout ? "timeout" : "signalled");
	expect_cancel(c, err, "wait");
	if (err) { pbt_class("wait cancelled"); resync(e); return false; }
	if (pre) pbt_check(sw == switches && ! timedout, "event %d is signalled, but wait does not return at once", (int)(e - evs));
	if (t == 0) { resync(e); return true; }
	if (timedout) {
		pbt_class("wait timed out");
		pbt_check(t > 0, "wait without a timeout has timed out");
		pbt_check(vnow_ms() >= start + t, "wait for %d ms has timed out after %d ms", t, (int)(vnow_ms() - start));
		if (e->raised) {
			pbt_class("signalled and timed out");
			pbt_check(e->e.signal || in_flight(e), "event %d was signalled, wait returned a timeout and the signal is lost", (int)(e - evs));
		}
	} else {
		pbt_class("wait signalled");
		pbt_check(e->raised, "coroutine %d woke up on event %d which was not signalled", c->no, (int)(e - evs));
		consume(e);
	}
	return true;
}
static bool joinable(Co* c, Co* t)
{
	// two coroutines never wait for one, waits only go to later coroutines
	return t->no > c->no && ! t->joiner && ! t->done && alive(t);
}
static bool do_join(Co* c, Co* t, bool kill)
{
	pbt_note("%d: %s %d", c->no, kill ? "kill" : "join", t->no);
	if (kill) cancel_of(t);
	c->state = JOINING; c->joins = t; t->joiner = c;
	bool err = error_catch( if (kill) coroutine_kill(t->id); else coroutine_wait(t->id); );
	c->state = RUN; t->joiner = NULL; ran(c);
	pbt_check(! alive(t), "%s returned, but coroutine %d has not exited", kill ? "kill" : "join", t->no);
	pbt_check(t->done || (! t->started && t->cancelled), "coroutine %d is gone, but it did not complete", t->no);
	bool expect = ! c->pause && c->recv > 0;
	if (expect) { c->recv = 0; c->cancelled = true; }
	pbt_check(err == expect, "join of coroutine %d %s", c->no, err ? "fails" : "does not report the cancel which came meanwhile");
	if (err) pbt_check(am_self()->error.code == CANCEL, "join: unexpected error");
	pbt_class(kill ? "killed" : "joined");
	return ! err;
}
static void do_signal(const char* who, int no, Ev* e)
{
	pbt_note("%s %d: signal event %d", who, no, (int)(e - evs));
	raise_of(e);
	event_signal(&e->e);
}
static void do_push(int b)
{
	Box* x = &boxes[b];
	if (box_msg_n == 800 || x->tail == 400) return;
	BoxMsg* m = &box_msg[box_msg_n++];
	msg_init(&m->msg, MSG_CLIENT);
	m->v = box_msg_n;
	x->sent[x->tail++] = m->v;
	mailbox_append(&x->box, &m->msg);
	event_signal(&x->box.event);
}
// one step of a coroutine, false: leave
static bool step(Co* c)
{
	int what = PICK(16);
	switch (what) {
	case 0: case 1: case 2: {
		Ev* e = &evs[PICK(evs_n)];
		if (e->e.wait) break;
		static const int times[] = { -1, -1, 1, 5, 10, 0 };
		return do_wait(c, e, times[PICK(6)]);
	}
	case 3: case 4: case 5:
		do_signal("coroutine", c->no, &evs[PICK(evs_n)]);
		break;
	case 6: {
		int t = PICK(12);
		pbt_note("%d: sleep %d", c->no, t);
		uint64_t start = time_ms();
		c->state = SLEEPING; c->deadline = start + t;
		bool err = error_catch( if (t || PICK(2)) coroutine_sleep(t); else coroutine_yield(); );
		c->state = RUN; ran(c);
		expect_cancel(c, err, "sleep");
		if (! err) pbt_check(vnow_ms() >= start + t, "sleep of %d ms took %d ms", t, (int)(vnow_ms() - start));
		return ! err;
	}
	case 7: if (crs_n < COS) co_create(); break;
	case 8: case 9: {
		// mostly the one created last
		int n = 0, at[COS];
		for (int i = crs_n - 1; i > c->no; i--) if (joinable(c, &crs[i])) at[n++] = i;
		if (n) return do_join(c, &crs[at[PICK(n)]], what == 9 && PICK(2));
		break;
	}
	case 10: {
		Co* t = &crs[PICK(crs_n)];
		pbt_note("%d: cancel %d", c->no, t->no);
		if (t == c || ! alive(t)) { if (t != c) coroutine_kill_nowait(t->id); break; }
		cancel_of(t);
		pbt_class("cancelled");
		coroutine_kill_nowait(t->id);
		break;
	}
	case 11:
		if (c->pause < 3) { cancel_pause(); c->pause++; }
		break;
	case 12: {
		if (! c->pause) break;
		c->pause--;
		bool expect = ! c->pause && c->recv > 0;
		if (expect) { c->recv = 0; c->cancelled = true; pbt_class("postponed cancel"); }
		bool err = error_catch( cancel_resume() );
		pbt_check(err == expect, "cancel resume of coroutine %d: %s", c->no, err ? "cancelled without a reason" : "postponed cancel is lost");
		return ! err;
	}
	case 13: vclock_ns += (uint64_t)PICK(9) * 1000000; break;
	case 14: do_push(PICK(BOXES)); break;
	case 15: {
		int b = PICK(BOXES);
		Box* x = &boxes[b];
		if (x->box.event.wait) break;
		pbt_note("%d: pop %d", c->no, b);
		c->state = POPPING; c->box = b;
		auto m = (BoxMsg*)mailbox_pop(&x->box, am_self());
		c->state = RUN; ran(c);
		pbt_check(x->head < x->tail && m->v == x->sent[x->head], "mailbox returned message %d, expected %d", m->v, x->head < x->tail ? x->sent[x->head] : -1);
		x->head++;
		pbt_class("received");
		break;
	}
	}
	return true;
}
static void co_main(void* arg)
{
	Co* c = arg;
	c->started = true; ran(c);
	pbt_check(! c->cancelled, "coroutine %d is cancelled before its start, but it runs", c->no);
	pbt_check(! coroutine_cancelled(am_self()) && am_self()->cancel_pause == 0 && am_self()->cancel_pause_recv == 0, "coroutine %d starts as cancelled", c->no);
	pbt_check(list_empty(&am_self()->locks), "coroutine %d starts with locks", c->no);
	while (! closing && ops > 0 && pbt_more(8)) {
		ops--;
		bool ok = step(c);
		if (! ok && (PICK(4) || c->cancelled)) break;
	}
	// leave: by return or by an error
	bool leave = c->pause && PICK(4) == 3; // ends with the cancels still postponed
	if (leave) { pbt_class("ended while paused"); c->pause = 0; }
	while (c->pause) {
		c->pause--;
		bool expect = ! c->pause && c->recv > 0;
		if (expect) { c->recv = 0; c->cancelled = true; }
		bool err = error_catch( cancel_resume() );
		pbt_check(err == expect, "cancel resume of coroutine %d: %s", c->no, err ? "cancelled without a reason" : "postponed cancel is lost");
	}
	c->done = true;
	pbt_note("%d: exits", c->no);
	if (c->cancelled && PICK(2)) error_as(CANCEL, "cancelled");
}
static void programs(void)
{
	auto mgr = &am_task->coroutine_mgr;
	int count = mgr->count;
	crs_n = 0; closing = false; ops = 30 + PICK(170); box_msg_n = 0; switches = 0; running_no = -1;
	evs_n = 1 + PICK(EVS);
	for (int i = 0; i < evs_n; i++) {
		memset(&evs[i], 0, sizeof(Ev));
		event_init(&evs[i].e);
		if (PICK(3) == 0) { event_attach(&evs[i].e); evs[i].attached = true; }
		if (i && PICK(3) == 0) { evs[i].parent = &evs[PICK(i)]; event_set_parent(&evs[i].e, &evs[i].parent->e); }
	}
	for (int i = 0; i < BOXES; i++) { mailbox_init(&boxes[i].box); boxes[i].head = boxes[i].tail = 0; if (PICK(2)) event_attach(&boxes[i].box.event); }
	int n = 2 + PICK(6);
	for (int i = 0; i < n; i++) co_create();
	vloop_check = loop_check;
	quiet_wait();
	while (ops > 0 && PICK(4)) {
		// the rest is waiting for somebody
		ops--;
		if (PICK(2)) do_signal("main", 0, &evs[PICK(evs_n)]);
		else {
			Co* t = &crs[PICK(crs_n)];
			if (alive(t)) { pbt_note("main: cancel %d", t->no); cancel_of(t); coroutine_kill_nowait(t->id); }
		}
		quiet_wait();
	}
	closing = true;
	for (int round = 0; ; round++) {
		int left = 0;
		for (int i = 0; i < crs_n; i++) {
			Co* c = &crs[i];
			if (! alive(c)) continue;
			left++;
			if (c->state == WAITING) do_signal("end", 0, c->ev);
			if (c->state == POPPING) do_push(c->box);
		}
		if (! left) break;
		pbt_check(round < 200, "coroutines do not exit");
		quiet_wait();
	}
	vloop_check = NULL;
	for (int i = 0; i < crs_n; i++) pbt_check(crs[i].done || (! crs[i].started && crs[i].cancelled), "coroutine %d did not complete", i);
	pbt_check(mgr->count == count && mgr->count_ready == 0, "%d coroutines are left", mgr->count - count);
	pbt_check(am_task->timer_mgr.timers_count == 0, "%d timers are left", am_task->timer_mgr.timers_count);
	pbt_count("switches", switches);
	if (switches > 8) pbt_nontrivial();
}

// ---------------------------------------------------------------- timers
typedef struct { Timer t; bool on; uint64_t timeout, seq; int fired; } Tm;
#define TMS 60
static Tm tms[TMS];
static int fired[4096], fired_n;
static void on_timer(Timer* t) { Tm* m = t->function_arg; pbt_check(&m->t == t, "timer runs with a wrong argument"); if (fired_n < 4096) fired[fired_n++] = m - tms; }
static int tm_cmp(const void* a, const void* b)
{
	Tm* x = &tms[*(int*)a]; Tm* y = &tms[*(int*)b];
	return x->timeout != y->timeout ? (x->timeout > y->timeout) - (x->timeout < y->timeout) : (x->seq > y->seq) - (x->seq < y->seq);
}
static void timers(void)
{
	TimerMgr mgr;
	timer_mgr_init(&mgr);
	mgr.time_ms = 1000 + PICK(5); mgr.time_cached = true;
	int n = 1 + PICK(TMS);
	for (int i = 0; i < n; i++) { memset(&tms[i], 0, sizeof(Tm)); timer_init(&tms[i].t, on_timer, &tms[i], 0); }
	uint64_t seq = 0; int total = 0;
	while (pbt_more(60) && ! pbt_exhausted()) {
		int i = PICK(n);
		Tm* m = &tms[i];
		switch (PICK(6)) {
		case 0: case 1: case 2:
			if (m->on) break;
			static const int lim[] = { 3, 10, 100, 2000000000 };
			timer_init(&m->t, on_timer, m, PICK(lim[PICK(4)]));
			m->timeout = mgr.time_ms + m->t.interval; m->seq = seq++; m->on = true;
			pbt_note("start %d for %d", i, m->t.interval);
			timer_start(&mgr, &m->t);
			break;
		case 3:
			pbt_note("stop %d", i);
			timer_stop(&m->t);
			m->on = false;
			break;
		case 4: mgr.time_ms += PICK(2) ? PICK(8) : PICK(120); break;
		case 5: {
			int exp[TMS], e = 0;
			for (int k = 0; k < n; k++) if (tms[k].on && tms[k].timeout <= mgr.time_ms) exp[e++] = k;
			qsort(exp, e, sizeof(int), tm_cmp);
			fired_n = 0;
			int r = timer_mgr_step(&mgr);
			pbt_note("step: %d of %d", fired_n, e);
			pbt_check(r == e && fired_n == e, "%d timers fired (returned %d), expected %d", fired_n, r, e);
			for (int k = 0; k < e; k++) {
				pbt_check(fired[k] == exp[k], "timer %d fired at place %d, expected %d", fired[k], k, exp[k]);
				tms[exp[k]].on = false;
			}
			total += e;
			break;
		}
		}
		int on = 0, min = -1;
		for (int k = 0; k < n; k++) {
			pbt_check(tms[k].t.active == tms[k].on, "timer %d is %s", k, tms[k].on ? "not active" : "active");
			if (! tms[k].on) continue;
			on++;
			if (min < 0 || tm_cmp(&k, &min) < 0) min = k;
		}
		pbt_check(mgr.timers_count == on && timer_mgr_has_timers(&mgr) == (on > 0), "%d timers, expected %d", mgr.timers_count, on);
		pbt_check(timer_mgr_timer_min(&mgr) == (min < 0 ? NULL : &tms[min].t), "next timer is wrong");
	}
	timer_mgr_free(&mgr);
	if (total > 3) pbt_nontrivial();
}

// ---------------------------------------------------------------- errors and cleanups
enum { LOG_, DEFER_, ERRDEFER_, CALL_, CATCH_, THROW_, YIELD_, RETHROW_ };
typedef struct Node Node;
struct Node { int kind, id; bool inner; Node* body; Node* handler; Node* next; };
typedef struct { int t[3000]; int n; } Trace;
typedef struct { Node* prog; Trace real, exp; int real_err, exp_err; bool done; char text[64]; } Ex;
static Node  nodes[4000]; static int nodes_n, next_id;
static Ex    exs[4];
static __thread Ex* cur;
static Node* gen_block(int depth)
{
	Node* first = NULL; Node** tail = &first;
	while (pbt_more(3) && nodes_n < 500) {
		Node* x = &nodes[nodes_n++];
		memset(x, 0, sizeof(*x));
		x->id = ++next_id;
		static const int w[] = { 2, 5, 4, 3, 4, 2, 2, 1 };
		x->kind = pbt_weighted(w, 8);
		if (depth > 6 && (x->kind == CALL_ || x->kind == CATCH_)) x->kind = LOG_;
		if (x->kind == CALL_ || x->kind == CATCH_) x->body = gen_block(depth + 1);
		if (x->kind == CATCH_) x->handler = gen_block(depth + 1);
		if (x->kind == DEFER_ || x->kind == ERRDEFER_) x->inner = PICK(4) == 0;
		*tail = x; tail = &x->next;
		if (x->kind == THROW_ || x->kind == RETHROW_) break;
	}
	return first;
}
// the model, true: throws
static void put(Trace* t, int v) { if (t->n < 3000) t->t[t->n++] = v; }
static bool model(Ex* x, Node* n, bool can_rethrow)
{
	for (; n; n = n->next) {
		switch (n->kind) {
		case LOG_: case YIELD_: put(&x->exp, n->id); break;
		case DEFER_: case ERRDEFER_: {
			bool r = model(x, n->next, can_rethrow);
			if (r || n->kind == DEFER_) { put(&x->exp, -n->id); if (n->inner) { put(&x->exp, 100000 + n->id); x->exp_err = 50000 + n->id; } }
			return r;
		}
		case CALL_: if (model(x, n->body, can_rethrow)) return true; break;
		case CATCH_:
			if (model(x, n->body, can_rethrow)) {
				put(&x->exp, 200000 + n->id); put(&x->exp, x->exp_err);
				if (model(x, n->handler, true)) return true;
			} else put(&x->exp, 300000 + n->id);
			break;
		case THROW_: x->exp_err = n->id; return true;
		case RETHROW_: if (can_rethrow) return true; put(&x->exp, n->id); break;
		}
	}
	return false;
}
static int err_id(void)
{
	auto e = &am_self()->error;
	int v = -1;
	char t[64];
	snprintf(t, sizeof(t), "%.*s", (int)buf_size(&e->text), buf_cstr(&e->text));
	if (e->code != ERROR || sscanf(t, "e%d.", &v) != 1) return -1;
	return v;
}
// a coroutine finds its own state by its argument
static Ex* self_ex(void) { return am_self()->main_arg; }
static Ex* ex_of(void) { return cur ? cur : self_ex(); }
static void on_defer(void* arg)
{
	Node* n = arg; Ex* x = ex_of();
	put(&x->real, -n->id);
	if (n->inner && error_catch( error("e%d.", 50000 + n->id) )) put(&x->real, 100000 + n->id);
}
static void __attribute__((noinline)) execute(Ex* x, Node* n, bool can_rethrow)
{
	for (; n; n = n->next) {
		switch (n->kind) {
		case LOG_: put(&x->real, n->id); break;
		case YIELD_: put(&x->real, n->id); if (PICK(2)) coroutine_yield(); else coroutine_sleep(1 + PICK(3)); break;
		case DEFER_: { defer(on_defer, n); execute(x, n->next, can_rethrow); return; }
		case ERRDEFER_: { errdefer(on_defer, n); execute(x, n->next, can_rethrow); return; }
		case CALL_: execute(x, n->body, can_rethrow); break;
		case CATCH_: {
			if (error_catch( execute(x, n->body, can_rethrow) )) {
				put(&x->real, 200000 + n->id); put(&x->real, err_id());
				execute(x, n->handler, true);
			} else put(&x->real, 300000 + n->id);
			break;
		}
		case THROW_: error("e%d.%s", n->id, n->id % 3 ? "" : " a longer text of the error");
		case RETHROW_: if (can_rethrow) rethrow(); put(&x->real, n->id); break;
		}
	}
}
static void ex_main(void* arg)
{
	Ex* x = arg;
	if (error_catch( execute(x, x->prog, false) )) { put(&x->real, 999999); put(&x->real, err_id()); }
	x->done = true;
}
static void exceptions(void)
{
	nodes_n = 0; next_id = 0;
	int n = 1 + PICK(4), throws = 0;
	uint64_t ids[4];
	for (int i = 0; i < n; i++) {
		memset(&exs[i], 0, sizeof(Ex));
		exs[i].prog = gen_block(0);
		if (model(&exs[i], exs[i].prog, false)) { put(&exs[i].exp, 999999); put(&exs[i].exp, exs[i].exp_err); throws++; }
	}
	cur = NULL;
	auto last = am_self()->exception_mgr.last;
	for (int i = 0; i < n; i++) ids[i] = coroutine_create(ex_main, &exs[i]);
	quiet_wait();
	unused(ids);
	pbt_check(am_self()->exception_mgr.last == last, "exception scope of the case is changed");
	int defers = 0;
	for (int i = 0; i < n; i++) {
		Ex* x = &exs[i];
		pbt_check(x->done, "program %d did not complete", i);
		for (int k = 0; k < x->exp.n || k < x->real.n; k++) {
			if (k < x->exp.n && x->exp.t[k] < 0) defers++;
			pbt_check(k < x->exp.n && k < x->real.n && x->real.t[k] == x->exp.t[k], "program %d, step %d: %d, expected %d",
			          i, k, k < x->real.n ? x->real.t[k] : 0, k < x->exp.n ? x->exp.t[k] : 0);
		}
	}
	if (defers > 2 && nodes_n > 8) pbt_nontrivial();
	pbt_class("errors");
}
static void run_case(void)
{
	vloop_enter();
	static const int w[] = { 6, 2, 2 };
	switch (pbt_weighted(w, 3)) {
	case 0: programs(); break;
	case 1: timers(); break;
	case 2: exceptions(); break;
	}
}
PbtHarness pbt_harness = { .name = "coro", .run = run_case };
