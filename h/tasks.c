// C23: messages, calls, jobs, events and locks between tasks on several threads, under a controlled scheduler
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "sched.h"

#define TASKS   5
#define CLIENTS 6
#define OPS     14
#define RELS    3
enum { OP_SEND, OP_BLAST, OP_RPC, OP_SET, OP_JOB, OP_PING, OP_LOCK, OP_SLEEP, OP_YIELD, OP_KILL, OP_BUSY, OP_HANG };
enum { FN_OK, FN_ERROR, FN_SLOW, FN_SLOW_ERROR, FN_KINDS };
typedef struct { int kind, to, n, fn, ms, modes[RELS], inner; } Op;
typedef struct { int task, no; Op ops[OPS]; int ops_n; uint64_t id; volatile bool started, done, cancelled, killed; volatile int at; } Cl;
typedef struct {
	int no; Task task; bool target, inline_rpc, tries;
	Cl clients[CLIENTS]; int clients_n; int early_ms; bool early;
	uint64_t sent[TASKS];                 // messages to each task
	uint64_t got[TASKS];                  // messages from each task
	bool stopped; bool main_done;
} T;
typedef struct { Msg msg; int from, to; uint64_t seq, sum; int pad_n; uint8_t pad[]; } Tm;
typedef struct { Msg msg; Event event; volatile int tokens; Cl* c; } Ping;
typedef struct { Rpc* rpc; uint64_t x; int fn, task; volatile int runs; volatile uint64_t result; } Call;
static T    ts[TASKS]; static int ts_n;
static Relation rels[RELS]; static char rel_name[RELS][8]; static Str rel_str[RELS]; static Str db_str;
static int  held[RELS][8];
static volatile int clients_left, main_over;
static Event all_done;
static Ping* pings[4096]; static int pings_n;
static int  n_msgs, n_calls, n_jobs, n_pings, n_locks, n_cancels, n_full, n_waits;

static uint64_t hash64(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ (x >> 33); }
static bool fits(int a, int b)
{
	if (a == LOCK_EXCLUSIVE || b == LOCK_EXCLUSIVE) return false;
	return ! ((a == LOCK_SHARED_RW && b == LOCK_EXCLUSIVE_RO) || (b == LOCK_SHARED_RW && a == LOCK_EXCLUSIVE_RO));
}
static int self_no(void) { for (int i = 0; i < ts_n; i++) if (am_task == &ts[i].task) return i; return -1; }

static void send_one(int to, int size)
{
	int from = self_no();
	Tm* m = malloc(sizeof(Tm) + size);
	static const int id[] = { MSG_CLIENT, MSG_LTR, MSG_DTR, MSG_RESOLVE, MSG_SYNC_USERS };
	msg_init(&m->msg, id[ts[from].sent[to] % NELEM(id)]);
	m->from = from; m->to = to; m->pad_n = size;
	m->seq = ++ts[from].sent[to];
	m->sum = hash64(m->seq * 31 + from * 7 + to);
	memset(m->pad, (uint8_t)m->sum, size);
	task_send(&ts[to].task, &m->msg);
}
// the callee
static void call_main(Rpc* rpc, void* arg)
{
	(void)rpc;
	Call* c = arg;
	pbt_check(self_no() == c->task, "call is executed by task %d, sent to task %d", self_no(), c->task);
	c->runs++;
	if (c->fn == FN_SLOW || c->fn == FN_SLOW_ERROR) { if (c->x & 1) coroutine_yield(); else coroutine_sleep(1 + c->x % 5); }
	if (c->fn == FN_ERROR || c->fn == FN_SLOW_ERROR) error("call failed %" PRIu64, c->x);
	c->result = hash64(c->x);
}
static void call_coroutine(void* arg)
{
	Rpc* rpc = arg;
	// the caller waits for completion in any case
	cancel_pause();
	rpc_execute(rpc, call_main, rpc->arg);
	if (error_catch( cancel_resume() )) {}
}
static bool error_is(const char* fmt, uint64_t x)
{
	char t[64];
	int n = snprintf(t, sizeof(t), fmt, x);
	auto b = &am_self()->error.text;
	return buf_size(b) >= n && ! memcmp(b->start, t, n);
}
static void call_done(Call* c, bool err, const char* what)
{
	bool cancelled = err && am_self()->error.code == CANCEL;
	pbt_check(c->runs == 1, "%s returned, executed %d times", what, c->runs);
	if (cancelled) return;
	bool fails = c->fn == FN_ERROR || c->fn == FN_SLOW_ERROR;
	if (err) {
		pbt_check(fails, "%s failed: %.*s", what, (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		pbt_check(error_is("call failed %" PRIu64, c->x), "%s: other error: %.*s", what, (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		return;
	}
	pbt_check(! fails, "%s: error of the callee is lost", what);
	pbt_check(c->result == hash64(c->x), "%s: wrong result", what);
}
static void job_main(intptr_t* argv)
{
	Call* c = (Call*)argv[0];
	pbt_check((uint64_t)argv[1] == c->x && argv[2] == -(intptr_t)c->fn, "job got other arguments");
	pbt_check(self_no() == -1, "job runs on a task of its caller");
	c->runs++;
	if (c->fn == FN_SLOW || c->fn == FN_SLOW_ERROR) coroutine_sleep(1 + c->x % 5);
	if (c->fn == FN_ERROR || c->fn == FN_SLOW_ERROR) error("call failed %" PRIu64, c->x);
	c->result = hash64(c->x);
}
static uint64_t x_seq;
static void rethrow_cancel(bool err) { if (err && am_self()->error.code == CANCEL) rethrow(); }
static void do_rpc(Cl* self, Op* op)
{
	(void)self;
	Call c = { .x = ++x_seq, .fn = op->fn, .task = op->to };
	n_calls++;
	bool err = error_catch( rpc(&ts[op->to].task, MSG_REQ, &c) );
	call_done(&c, err, "remote call");
	rethrow_cancel(err);
}
static void do_set(Cl* self, Op* op)
{
	(void)self;
	int n = op->n;
	Call* c = calloc(n, sizeof(Call));
	RpcSet set;
	rpc_set_init(&set);
	rpc_set_prepare(&set, n);
	for (int i = 0; i < n; i++) { c[i].x = ++x_seq; c[i].fn = (op->fn >> i & 1) ? (i & 1 ? FN_SLOW_ERROR : FN_ERROR) : (i & 1 ? FN_SLOW : FN_OK); c[i].task = (op->to + i) % ts_n; while (! ts[c[i].task].target) c[i].task = (c[i].task + 1) % ts_n; }
	for (int i = 0; i < n; i++) { rpc_set_add(&set, i, MSG_REQ, &c[i]); n_calls++; }
	for (int i = 0; i < n; i++) rpc_send(rpc_set_at(&set, i), &ts[c[i].task].task);
	bool err = error_catch( rpc_set_wait(&set) );
	bool cancelled = err && am_self()->error.code == CANCEL;
	int first = -1;
	for (int i = 0; i < n; i++) {
		pbt_check(c[i].runs == 1 && (c[i].result || c[i].fn == FN_ERROR || c[i].fn == FN_SLOW_ERROR), "set of calls returned, call %d executed %d times", i, c[i].runs);
		if (c[i].fn == FN_ERROR || c[i].fn == FN_SLOW_ERROR) { if (first == -1) first = i; } else pbt_check(c[i].result == hash64(c[i].x), "set of calls: wrong result");
	}
	if (! cancelled) {
		pbt_check(err == (first >= 0), "set of calls: %s", err ? "failed without an error of a callee" : "error of a callee is lost");
		if (err) pbt_check(error_is("call failed %" PRIu64, c[first].x), "set of calls: other error: %.*s", (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
	}
	rpc_set_free(&set);
	free(c);
	rethrow_cancel(err);
}
static void do_job(Cl* self, Op* op)
{
	(void)self;
	Call c = { .x = ++x_seq, .fn = op->fn };
	n_jobs++;
	bool err = error_catch( run(job_main, 3, (intptr_t)&c, (intptr_t)c.x, -(intptr_t)c.fn) );
	call_done(&c, err, "job");
	rethrow_cancel(err);
}
static void do_ping(Cl* self, Op* op)
{
	Ping* p = calloc(1, sizeof(Ping));
	p->c = self;
	msg_init(&p->msg, MSG_NATIVE);
	event_init(&p->event);
	event_attach(&p->event);
	QUIET_BEGIN; pbt_check(pings_n < 4096, "harness: pings"); pings[pings_n++] = p; n_pings++; QUIET_END;
	p->msg.link.next = NULL;
	task_send(&ts[op->to].task, &p->msg);
	while (! p->tokens) {
		bool timedout = event_wait(&p->event, op->ms ? op->ms : -1);
		if (! timedout) pbt_check(p->tokens, "event is received, but it was not signalled");
		n_waits++;
	}
}
static void do_inner(Cl* self, Op* op)
{
	if (op->inner & 1) coroutine_yield();
	if (op->inner & 2) coroutine_sleep(1 + op->ms);
	if (op->inner & 4) { Op o = { .fn = FN_SLOW, .to = op->to }; do_rpc(self, &o); }
	if (op->inner & 8) { Op o = { .fn = FN_OK }; do_job(self, &o); }
}
static void unlock_list(Lock** list)
{
	for (int i = RELS - 1; i >= 0; i--) if (list[i]) lock_mgr_unlock(&runtime()->lock_mgr, list[i]);
}
static void do_lock(Cl* self, Op* op)
{
	Lock* list[RELS] = { NULL };
	int   mode[RELS] = { 0 };
	bool  err = false;
	for (int i = 0; i < RELS && ! err; i++) {
		if (! op->modes[i]) continue;
		Lock* l = NULL;
		err = error_catch( l = lock_mgr_lock(&runtime()->lock_mgr, &rels[i], op->modes[i], NULL, "test") );
		if (err) break;
		list[i] = l; mode[i] = op->modes[i];
		QUIET_BEGIN;
		n_locks++;
		for (int m = 1; m < 8; m++) if (held[i][m] && ! fits(m, mode[i])) pbt_fail("lock of mode %d of relation %d is taken while it is held in mode %d", mode[i], i, m);
		held[i][mode[i]]++;
		QUIET_END;
	}
	if (! err) err = error_catch( do_inner(self, op) );
	QUIET_BEGIN;
	for (int i = 0; i < RELS; i++) if (list[i]) held[i][mode[i]]--;
	QUIET_END;
	if (op->ms & 1) unlock_all(); else unlock_list(list);
	pbt_check(list_empty(&am_self()->locks), "coroutine still owns locks");
	if (err) rethrow();
}
static void client_run(Cl* self)
{
	for (int i = 0; i < self->ops_n; i++) {
		Op* op = &self->ops[i];
		self->at = i;
		switch (op->kind) {
		case OP_SEND: for (int k = 0; k < op->n; k++) { n_msgs++; send_one(op->to, k % 3 ? 0 : 40); } break;
		case OP_BLAST: for (int k = 0; k < op->n; k++) { n_msgs++; send_one(op->to, 0); } n_full++; break;
		case OP_RPC: do_rpc(self, op); break;
		case OP_SET: do_set(self, op); break;
		case OP_JOB: do_job(self, op); break;
		case OP_PING: do_ping(self, op); break;
		case OP_LOCK: do_lock(self, op); break;
		case OP_SLEEP: coroutine_sleep(1 + op->ms); break;
		case OP_YIELD: coroutine_yield(); break;
		case OP_KILL: {
			Cl* c = &ts[self->task].clients[op->to % ts[self->task].clients_n];
			if (c == self || c->done || ! c->started) break;
			c->killed = true;
			coroutine_kill_nowait(c->id);
			break;
		}
		case OP_HANG: { Event e; event_init(&e); event_wait(&e, -1); pbt_fail("event without a signal: the wait is over"); }
		case OP_BUSY: for (volatile int k = 0; k < op->n * 10; k++); break;
		}
	}
}
static void client_main(void* arg)
{
	Cl* self = arg;
	self->started = true;
	bool err = error_catch( client_run(self) );
	if (err) {
		pbt_check(am_self()->error.code == CANCEL, "client failed: %.*s", (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		pbt_check(self->killed || ts[self->task].stopped, "client is cancelled by nobody");
		self->cancelled = true;
		n_cancels++;
	}
	self->done = true;
	__atomic_fetch_sub(&clients_left, 1, __ATOMIC_SEQ_CST);
	event_signal(&all_done);
}
static void take(T* self, Msg* msg)
{
	switch ((int)msg->id) {
	case MSG_CLIENT: case MSG_LTR: case MSG_DTR: case MSG_RESOLVE: case MSG_SYNC_USERS: {
		Tm* m = (Tm*)msg;
		pbt_check(m->to == self->no, "message to task %d is received by task %d", m->to, self->no);
		pbt_check(m->sum == hash64(m->seq * 31 + m->from * 7 + m->to), "message is received twice or damaged");
		pbt_check(m->seq == self->got[m->from] + 1, "message %d of task %d is received by task %d after message %d", (int)m->seq, m->from, self->no, (int)self->got[m->from]);
		self->got[m->from] = m->seq;
		m->sum = 0;
		free(m);
		break;
	}
	case MSG_REQ: {
		Rpc* rpc = rpc_of(msg);
		Call* c = rpc->arg;
		if (self->inline_rpc && (c->fn == FN_OK || c->fn == FN_ERROR)) rpc_execute(rpc, call_main, c);
		else coroutine_create(call_coroutine, rpc);
		break;
	}
	case MSG_NATIVE: {
		Ping* p = (Ping*)msg;
		p->tokens++;
		event_signal(&p->event);
		break;
	}
	default:
		pbt_fail("unknown message %d is received", (int)msg->id);
	}
}
static void t_main(void* arg)
{
	T* self = arg;
	for (int i = 0; i < self->clients_n; i++) self->clients[i].id = coroutine_create(client_main, &self->clients[i]);
	cond_signal(&am_task->status, 1000 + self->no);
	for (;;) {
		Msg* msg = self->tries ? task_recv_try() : NULL;
		if (! msg) msg = task_recv();
		if (msg->id == MSG_STOP) { free(msg); break; }
		take(self, msg);
	}
	self->stopped = true;
	self->main_done = true;
}
static void failing_main(void* arg) { volatile int* n = arg; (*n)++; error("main failed"); }
static void send_stop(T* t) { Msg* m = malloc(sizeof(Msg)); msg_init(m, MSG_STOP); task_send(&t->task, m); }

static bool sink;
static void gen_op(Cl* c, Op* op, bool target)
{
	static const int kinds[] = { OP_SEND, OP_RPC, OP_YIELD, OP_SLEEP, OP_JOB, OP_PING, OP_LOCK, OP_SET, OP_KILL, OP_BUSY, OP_BLAST };
	memset(op, 0, sizeof(*op));
	op->kind = kinds[PICK(NELEM(kinds))];
	do op->to = PICK(ts_n); while (! ts[op->to].target && ! pbt_exhausted());
	while (! ts[op->to].target) op->to = (op->to + 1) % ts_n;
	switch (op->kind) {
	case OP_SEND: op->n = 1 + PICK(8); break;
	case OP_BLAST:
		// a task which sends to itself or in a circle while the queue is full never continues, the target must only receive
		op->n = 900 + PICK(600); op->to = ts_n - 1;
		if (! sink) { op->kind = OP_SEND; op->n = 5; op->to = 0; }
		break;
	case OP_RPC: case OP_JOB: op->fn = PICK(FN_KINDS); break;
	case OP_SET: op->n = PICK(6); op->fn = PICK(4) ? 0 : PICK(64); break;
	case OP_PING: op->ms = PICK(3) ? 0 : 1 + PICK(5); break;
	case OP_LOCK: {
		bool any = false;
		for (int i = 0; i < RELS; i++) { static const int m[] = { 0, LOCK_SHARED, LOCK_SHARED_RW, LOCK_EXCLUSIVE_RO, LOCK_EXCLUSIVE, LOCK_CALL }; op->modes[i] = m[PICK(6)]; any |= op->modes[i]; }
		if (! any) op->modes[PICK(RELS)] = LOCK_EXCLUSIVE;
		op->inner = PICK(16); op->ms = PICK(4);
		break;
	}
	case OP_SLEEP: op->ms = PICK(5); break;
	case OP_KILL: op->to = PICK(CLIENTS); break;
	case OP_BUSY: op->n = PICK(50); break;
	}
}
static void run_case(void)
{
	ts_n = 1 + PICK(TASKS);
	int jobs = 1 + PICK(3), detached = PICK(3) ? 0 : PICK(40), clients = 0, blasts = 0, sends = 0, fails = PICK(6) == 0;
	pings_n = 0; x_seq = 0; n_msgs = n_calls = n_jobs = n_pings = n_locks = n_cancels = n_full = n_waits = 0;
	memset(ts, 0, sizeof(ts)); memset(held, 0, sizeof(held));
	for (int i = 0; i < ts_n; i++) { ts[i].no = i; ts[i].target = i == 0 || PICK(4) != 3; ts[i].inline_rpc = PICK(2); ts[i].tries = PICK(2); }
	sink = ts_n > 1 && PICK(3) == 2;
	if (sink) ts[ts_n - 1].target = true;
	for (int i = 0; i < ts_n; i++) {
		T* t = &ts[i];
		t->clients_n = sink && i == ts_n - 1 ? 0 : PICK(CLIENTS);
		if (! t->target && ! t->clients_n) t->clients_n = 1;
		if (! t->target && PICK(2)) { t->early = true; t->early_ms = PICK(8); }
		for (int k = 0; k < t->clients_n; k++) {
			Cl* c = &t->clients[k];
			c->task = i; c->no = k;
			while (c->ops_n < OPS && pbt_more(4)) {
				gen_op(c, &c->ops[c->ops_n], t->target);
				if (t->early && PICK(6) == 5) c->ops[c->ops_n].kind = OP_HANG;
				if (c->ops[c->ops_n].kind == OP_BLAST && ++blasts > 2) continue;
				if (c->ops[c->ops_n].kind == OP_SEND && (sends += c->ops[c->ops_n].n) > 600) continue; // not able to fill a queue
				c->ops_n++;
			}
			clients++;
		}
	}
	str_set_cstr(&db_str, "db");
	for (int i = 0; i < RELS; i++) {
		snprintf(rel_name[i], 8, "rel%d", i); str_set_cstr(&rel_str[i], rel_name[i]);
		relation_init(&rels[i]); relation_set_db(&rels[i], &db_str); relation_set_name(&rels[i], &rel_str[i]); relation_set_rsn(&rels[i], i + 1);
	}
	clients_left = clients;
	event_init(&all_done); event_attach(&all_done);

	sch_begin(40000000);
	job_mgr_start(&runtime()->job_mgr, jobs);
	if (fails) {
		volatile int ran = 0;
		Task t; task_init(&t);
		task_create(&t, "fails", failing_main, (void*)&ran);
		int status = cond_wait(&t.status);
		pbt_check(status == -1, "status of a failed task is %d", status);
		task_wait(&t);
		pbt_check(ran == 1, "main of a task ran %d times", ran);
		task_free(&t);
	}
	for (int i = 0; i < ts_n; i++) task_init(&ts[i].task);
	for (int i = 0; i < ts_n; i++) { char name[16]; snprintf(name, sizeof(name), "t%d", i); task_create(&ts[i].task, name, t_main, &ts[i]); }
	for (int i = 0; i < ts_n; i++) {
		int st = cond_wait(&ts[i].task.status);
		pbt_check(st == 1000 + i, "status of task %d is %d", i, st);
	}
	for (int i = 0; i < ts_n; i++) if (ts[i].early) { coroutine_sleep(ts[i].early_ms); ts[i].stopped = true; send_stop(&ts[i]); }
	while (clients_left > 0) event_wait(&all_done, -1);
	for (int i = 0; i < ts_n; i++) if (! ts[i].early) send_stop(&ts[i]);
	for (int i = 0; i < ts_n; i++) { task_wait(&ts[i].task); pbt_check(ts[i].main_done, "task %d did not finish", i); }
	// jobs queued before the stop are executed
	static Job dj[64]; static Call dc[64]; static intptr_t da[64][3]; static Error de[64];
	for (int i = 0; i < detached; i++) {
		dc[i] = (Call) { .x = ++x_seq, .fn = i % 4 };
		da[i][0] = (intptr_t)&dc[i]; da[i][1] = dc[i].x; da[i][2] = -dc[i].fn;
		error_init(&de[i]);
		job_init(&dj[i], &de[i], job_main, da[i]);
		event_attach(&dj[i].on_complete);
		job_mgr_add(&runtime()->job_mgr, &dj[i]);
	}
	job_mgr_stop(&runtime()->job_mgr);
	for (int i = 0; i < detached; i++) {
		event_wait(&dj[i].on_complete, -1);
		error_copy(&am_self()->error, &de[i]);
		bool failed = de[i].code != ERROR_NONE;
		pbt_check(dc[i].runs == 1, "queued job executed %d times", dc[i].runs);
		pbt_check(failed == (dc[i].fn == FN_ERROR || dc[i].fn == FN_SLOW_ERROR), "queued job: %s", failed ? "failed" : "error is lost");
		if (failed) pbt_check(error_is("call failed %" PRIu64, dc[i].x), "queued job: other error"); else pbt_check(dc[i].result == hash64(dc[i].x), "queued job: wrong result");
		error_free(&de[i]);
	}
	error_reset(&am_self()->error);
	sch_end();

	for (int i = 0; i < ts_n; i++)
		for (int k = 0; k < ts_n; k++) pbt_check(ts[i].sent[k] == ts[k].got[i], "task %d sent %d messages to task %d, %d are received", i, (int)ts[i].sent[k], k, (int)ts[k].got[i]);
	for (int i = 0; i < ts_n; i++) {
		for (int k = 0; k < ts[i].clients_n; k++) pbt_check(ts[i].clients[k].done, "coroutine %d of task %d did not finish", k, i);
		pbt_check(ts[i].task.coroutine_mgr.count == 0, "coroutines of an exited task");
		task_free(&ts[i].task);
	}
	for (int i = 0; i < RELS; i++) {
		for (int m = 0; m < LOCK_MAX; m++) pbt_check(! rels[i].lock_set[m], "relation %d is locked at the end", i);
		pbt_check(! rels[i].lock_wait_count && list_empty(&rels[i].lock_wait), "relation %d has waiters at the end", i);
	}
	pbt_check(! runtime()->lock_mgr.list_count, "locks are left");
	for (int i = 0; i < pings_n; i++) free(pings[i]);
	event_init(&all_done);

	pbt_note("%d tasks, %d clients, %d messages, %d calls, %d jobs, %d events, %d locks, %d cancelled; %d switches, %d preemptions, %lld steps",
	         ts_n, clients, n_msgs, n_calls, n_jobs, n_pings, n_locks, n_cancels, sch_switches, sch_preempts, (long long)sch_steps);
	pbt_count("switches", sch_switches); pbt_count("preemptions", sch_preempts); pbt_count("messages", n_msgs);
	if (n_calls) pbt_class("calls");
	if (n_jobs) pbt_class("jobs");
	if (n_pings) pbt_class("events");
	if (n_locks) pbt_class("locks");
	if (n_cancels) pbt_class("cancelled");
	if (n_full) pbt_class("full queue");
	if (ts_n > 1 && n_msgs + n_calls + n_jobs + n_pings + n_locks > 4 && sch_preempts > 4) pbt_nontrivial();
}
static void setup(void) { job_mgr_stop(&runtime()->job_mgr); }
PbtHarness pbt_harness = { .name = "tasks", .setup = setup, .run = run_case };
