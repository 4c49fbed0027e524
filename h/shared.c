// C18: counters, generators, caches, id lists and request queues used by several threads, under a controlled scheduler
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "sched.h"
#include "client/amelie_client.h"

#define TH    5
#define OPS   48
#define SV    2
enum { SEQ_NEXT, SEQ_SYNC, SEQ_ADD, SEQ_GET, OPT_NEXT, OPT_FOLLOW, OPT_GET, CNT_ADD, CNT_SUB, RND, UUID, ALNUM,
       BUF_NEW, BUF_DROP, BUF_SHARE, BUF_TAKE, COD_POP, COD_PUSH, ID_ADD, ID_DEL, ID_COPY, ID_MIN, ID_MAX, ID_FIND, ID_NEXT, ID_STATS, LIM, REQ, REQ_BATCH, REQ_WAIT, BP, OP_MAX };
static const char* op_name[] = { "next", "sync", "add", "get", "next", "follow", "get", "add", "sub", "random", "uuid", "alnum", "buf", "drop", "share", "take", "pop", "push",
       "id_add", "id_del", "id_copy", "id_min", "id_max", "id_find", "id_next", "id_stats", "limit", "request", "requests", "wait", "bp" };
typedef struct { int kind, obj, n, ms; uint64_t v; } Op;
typedef struct { uint64_t seq; int from; Request req; volatile bool got, done; volatile uint64_t done_at; volatile int notified, completed; int to, slow; bool execute; } Rq;
typedef struct { Buf* buf; int size; uint8_t fill; } Held;
typedef struct { int no; Task task; Op ops[OPS]; int ops_n; Held held[16]; int held_n; Held inbox[16]; int inbox_n; struct Co* co[8]; int co_n; Rq* rq[64]; int rq_n; volatile bool over; } Th;
// history of one object
typedef struct { int kind, th; uint64_t v, r, s, e; } Ev;
static Ev   ev[3][TH * OPS * 2]; static int ev_n[3];            // 0,1: sequences, 2: option
static Ev   idev[TH * OPS * 2]; static int idev_n;
typedef struct { uint64_t id, as, ae, ds, de; } Num;
static Num   ids[TH * OPS]; static int ids_n;
typedef struct { uint64_t s, e, limit; int n; uint64_t list[TH * OPS]; } Cp;
static Cp*  cps[TH * OPS]; static int cps_n;
static Th   ths[TH]; static int th_n;
typedef struct { int no; Task task; RequestQueue queue; uint64_t last[TH]; bool yields; volatile bool over; } Sv;
static Sv   svs[SV]; static int sv_n;
static Sequence seqs[2]; static Opt opt, cnt; static Random rnd; static BufMgr bufs; static CodecCache codecs; static IdMgr idm; static Limit lim; static LockableMgr lks;
static uint64_t clock_n, rnd_list[TH * OPS * 4]; static int rnd_n;
static int64_t cnt_want, lim_sum, bp_want; static int lim_errors;
static uint64_t seq0[2], opt0;
typedef struct Co { Codec codec; int owner; bool freed; } Co;
static int codecs_made, codecs_freed, n_shared, n_req, n_timeouts;
static Co* co_list[TH * OPS];

static uint64_t tick(void) { uint64_t r; QUIET_BEGIN; r = ++clock_n; QUIET_END; return r; }
static Codec* co_allocate(CodecIf* i) { (void)i; return NULL; }
static void co_free(Codec* c) { Co* o = (Co*)c; pbt_check(! o->freed, "codec is freed twice"); o->freed = true; codecs_freed++; }
static CodecIf co_if[2] = { { .id = 1, .allocate = co_allocate, .free = co_free }, { .id = 2, .allocate = co_allocate, .free = co_free } };
static bool same(uint8_t* p, int n, uint8_t c) { for (int i = 0; i < n; i++) if (p[i] != c) return false; return true; }
static void held_check(Held* h)
{
	bool ok;
	QUIET_BEGIN;
	ok = buf_size(h->buf) == h->size && same(h->buf->start, h->size, h->fill);
	QUIET_END;
	pbt_check(ok, "buffer of %d bytes is changed by another user", h->size);
}
static void drop(Held* h)
{
	held_check(h);
	buf_free(h->buf);
}
static void rq_notify(void* arg) { Rq* r = arg; r->notified++; }
static void rq_push(Th* self, Op* op, bool signal)
{
	if (self->rq_n == NELEM(self->rq)) return;
	Rq* r = calloc(1, sizeof(*r));
	r->from = self->no; r->to = op->obj % sv_n;
	static uint64_t seq;
	QUIET_BEGIN; r->seq = ++seq; n_req++; QUIET_END;
	r->slow = op->ms;
	request_init(&r->req);
	r->req.on_complete = rq_notify; r->req.on_complete_arg = r;
	self->rq[self->rq_n++] = r;
	request_queue_push(&svs[r->to].queue, &r->req, signal);
}
static void rq_finish(Th* self, int i, bool timed, int ms)
{
	Rq* r = self->rq[i];
	if (timed) {
		bool was = r->done; uint64_t from = sch_ns;
		bool ok = request_wait(&r->req, ms);
		if (! ok) {
			pbt_check(! was, "request is complete, but the wait returned early");
			// the clock is read in microseconds
			pbt_check(sch_ns - from + 1000 >= ms * 1000000ull, "wait for a request of %d ms returned after %" PRIu64 " ns", ms, sch_ns - from);
			n_timeouts++;
			return;
		}
	} else
		pbt_check(request_wait(&r->req, UINT32_MAX), "wait for a request without a limit timed out");
	mutex_lock(&r->req.lock); mutex_unlock(&r->req.lock);
	pbt_check(r->got, "request is complete, but was not executed");
	pbt_check(r->notified == 1, "completion of a request is notified %d times", r->notified);
	pbt_check(r->req.code == (int)(r->seq % 1000) && r->req.complete, "request got code %d", r->req.code);
	while (! r->done) coroutine_yield(), sched_yield(); // the server still looks at it
	request_free(&r->req);
	free(r);
	self->rq[i] = self->rq[--self->rq_n];
}
static void record(int list, int kind, int th, uint64_t v, uint64_t r, uint64_t s)
{
	QUIET_BEGIN;
	ev[list][ev_n[list]++] = (Ev){ kind, th, v, r, s, ++clock_n };
	QUIET_END;
}
static void id_record(int kind, int th, uint64_t v, uint64_t r, uint64_t s)
{
	QUIET_BEGIN;
	idev[idev_n++] = (Ev){ kind, th, v, r, s, ++clock_n };
	QUIET_END;
}
static Num* num_find(uint64_t v) { for (int i = 0; i < ids_n; i++) if (ids[i].id == v) return &ids[i]; return NULL; }
static void op_execute(Th* self, Op* op)
{
	uint64_t s = tick(), r;
	switch (op->kind) {
	case SEQ_NEXT: r = sequence_next(&seqs[op->obj]); record(op->obj, op->kind, self->no, 0, r, s); break;
	case SEQ_ADD:  r = sequence_add(&seqs[op->obj], op->n); record(op->obj, op->kind, self->no, op->n, r, s); break;
	case SEQ_SYNC: sequence_sync(&seqs[op->obj], op->v); record(op->obj, op->kind, self->no, op->v, 0, s); break;
	case SEQ_GET:  r = sequence_get(&seqs[op->obj]); record(op->obj, op->kind, self->no, 0, r, s); break;
	case OPT_NEXT: r = opt_int_set_next(&opt); record(2, SEQ_NEXT, self->no, 0, r - 1, s); break;
	case OPT_FOLLOW: opt_int_follow(&opt, op->v); record(2, SEQ_SYNC, self->no, op->v - 1, 0, s); break;
	case OPT_GET:  r = opt_int_of(&opt); record(2, SEQ_GET, self->no, 0, r, s); break;
	case CNT_ADD:  opt_int_add(&cnt, op->n); QUIET_BEGIN; cnt_want += op->n; QUIET_END; break;
	case CNT_SUB:  opt_int_sub(&cnt, op->n); QUIET_BEGIN; cnt_want -= op->n; QUIET_END; break;
	case RND: r = random_generate(&rnd); QUIET_BEGIN; rnd_list[rnd_n++] = r; QUIET_END; break;
	case UUID: {
		Uuid u; uuid_init(&u);
		uuid_generate(&u, &rnd);
		QUIET_BEGIN; rnd_list[rnd_n++] = u.a; rnd_list[rnd_n++] = u.b; QUIET_END;
		break;
	}
	case ALNUM: {
		uint8_t d[40]; memset(d, 0, sizeof(d));
		random_generate_alnum(&rnd, d, 12);
		for (int i = 0; i < 12; i++) pbt_check(isalnum(d[i]), "random text has byte %d", d[i]);
		pbt_check(! d[12], "random text is longer than asked");
		memcpy(&r, d, 8);
		QUIET_BEGIN; rnd_list[rnd_n++] = r; QUIET_END;
		break;
	}
	case BUF_NEW: {
		if (self->held_n == NELEM(self->held)) break;
		Held h = { .size = op->n, .fill = (uint8_t)(self->no * 50 + self->held_n + 1) };
		h.buf = buf_mgr_create(&bufs, op->n);
		pbt_check(buf_size(h.buf) == 0 && buf_size_unused(h.buf) >= op->n, "new buffer has %d bytes and %d left, asked for %d", buf_size(h.buf), buf_size_unused(h.buf), op->n);
		pbt_check(h.buf->refs == 0 && ! h.buf->cache_next, "new buffer is in use");
		for (int at = 0; at < h.size; ) {
			int n = h.size - at < 700 ? h.size - at : 700;
			uint8_t tmp[700];
			QUIET_BEGIN; memset(tmp, h.fill, n); QUIET_END;
			buf_write(h.buf, tmp, n);
			at += n;
		}
		self->held[self->held_n++] = h;
		break;
	}
	case BUF_DROP:
		if (! self->held_n) break;
		drop(&self->held[--self->held_n]);
		break;
	case BUF_SHARE: {
		if (! self->held_n) break;
		Held h = self->held[op->n % self->held_n];
		Th* to = &ths[op->obj % th_n];
		bool room;
		QUIET_BEGIN; room = to->inbox_n < NELEM(to->inbox); QUIET_END;
		if (! room) break;
		buf_ref(h.buf);
		QUIET_BEGIN; room = to->inbox_n < NELEM(to->inbox); if (room) { to->inbox[to->inbox_n++] = h; n_shared++; } QUIET_END;
		if (! room) buf_free(h.buf);
		break;
	}
	case BUF_TAKE: {
		Held h; bool any;
		QUIET_BEGIN; any = self->inbox_n > 0; if (any) h = self->inbox[--self->inbox_n]; QUIET_END;
		if (any) drop(&h);
		break;
	}
	case COD_POP: {
		if (self->co_n == NELEM(self->co)) break;
		Co* c = (Co*)codec_cache_pop(&codecs, op->obj + 1);
		if (! c) {
			c = calloc(1, sizeof(*c)); c->codec.iface = &co_if[op->obj]; list_init(&c->codec.link); c->owner = -1;
			QUIET_BEGIN; co_list[codecs_made++] = c; QUIET_END;
		}
		pbt_check(c->codec.iface->id == op->obj + 1, "codec of another kind");
		pbt_check(c->owner == -1, "codec of thread %d is given to thread %d", c->owner, self->no);
		c->owner = self->no;
		self->co[self->co_n++] = c;
		break;
	}
	case COD_PUSH: {
		if (! self->co_n) break;
		int i = op->n % self->co_n;
		Co* c = self->co[i];
		self->co[i] = self->co[--self->co_n];
		pbt_check(c->owner == self->no, "codec of thread %d is used by thread %d", self->no, c->owner);
		c->owner = -1;
		codec_cache_push(&codecs, &c->codec);
		break;
	}
	case ID_ADD: {
		Num* i;
		QUIET_BEGIN; i = num_find(op->v); if (! i) { i = &ids[ids_n++]; *i = (Num){ .id = op->v, .as = ++clock_n }; } else i = NULL; QUIET_END;
		if (! i) break;
		id_mgr_add(&idm, op->v);
		QUIET_BEGIN; i->ae = ++clock_n; QUIET_END;
		break;
	}
	case ID_DEL: {
		// an id added by this thread
		Num* i = NULL;
		QUIET_BEGIN;
		for (int k = 0, m = op->n; k < ids_n; k++) if (ids[k].id % TH == (uint64_t)self->no && ids[k].ae && ! ids[k].ds && m-- == 0) { i = &ids[k]; i->ds = ++clock_n; break; }
		QUIET_END;
		if (! i) { id_mgr_delete(&idm, 1000000 + self->no); break; }
		id_mgr_delete(&idm, i->id);
		QUIET_BEGIN; i->de = ++clock_n; QUIET_END;
		break;
	}
	case ID_COPY: {
		Cp* c = calloc(1, sizeof(*c));
		Buf b; buf_init(&b);
		c->limit = op->v; c->s = s;
		int n = id_mgr_copy(&idm, &b, op->v);
		pbt_check(buf_size(&b) == n * 8 && n <= TH * OPS, "copy of %d ids has %d bytes", n, buf_size(&b));
		c->n = n; memcpy(c->list, b.start, n * 8);
		buf_free_memory(&b);
		QUIET_BEGIN; c->e = ++clock_n; cps[cps_n++] = c; QUIET_END;
		break;
	}
	case ID_MIN: r = id_mgr_min(&idm); id_record(ID_MIN, self->no, 0, r, s); break;
	case ID_MAX: r = id_mgr_max(&idm); id_record(ID_MAX, self->no, 0, r, s); break;
	case ID_FIND: r = id_mgr_find(&idm, op->v); id_record(ID_FIND, self->no, op->v, r, s); break;
	case ID_NEXT: r = id_mgr_next(&idm, op->v); id_record(ID_NEXT, self->no, op->v, r, s); break;
	case ID_STATS: {
		int n; id_mgr_stats(&idm, &n, &r);
		pbt_check((r == UINT64_MAX) == (n == 0), "%d ids with the first %" PRIu64, n, r);
		id_record(ID_MIN, self->no, 0, r, s);
		break;
	}
	case LIM: {
		uint8_t row[64]; row_init((Row*)row, 1, 1, op->n);
		bool err = error_catch( limit_ensure(&lim, (Row*)row) );
		QUIET_BEGIN; if (err) lim_errors++; else if (lim.log_size_limit) lim_sum += op->n; QUIET_END;
		break;
	}
	case BP: {
		Lockable* l = &lks.list[REL_BP_QUERY + op->obj];
		lockable_breakpoint_ref(l);
		pbt_check(l->bp_refs > 0 && l->bp_refs <= (uint32_t)TH * 2, "breakpoint has %u references", l->bp_refs);
		if (op->n) lockable_breakpoint_unref(l); else { coroutine_yield(); lockable_breakpoint_unref(l); }
		break;
	}
	case REQ: rq_push(self, op, true); break;
	case REQ_BATCH: for (int i = 0; i < op->n; i++) rq_push(self, op, i == op->n - 1); break;
	case REQ_WAIT: if (self->rq_n) rq_finish(self, op->obj % self->rq_n, op->n, op->ms); break;
	}
}
static void th_main(void* arg)
{
	Th* self = arg;
	cond_signal(&am_task->status, 1);
	for (int i = 0; i < self->ops_n; i++) op_execute(self, &self->ops[i]);
	while (self->rq_n) rq_finish(self, 0, false, 0);
	while (self->held_n) drop(&self->held[--self->held_n]);
	while (self->co_n) { Op op = { COD_PUSH }; op_execute(self, &op); }
	self->over = true;
}
static void sv_main(void* arg)
{
	Sv* self = arg;
	request_queue_attach(&self->queue);
	cond_signal(&am_task->status, 1);
	for (;;) {
		Request* req = request_queue_pop(&self->queue);
		if (req->type == REQUEST_DISCONNECT) { request_complete(req, 0); break; }
		Rq* r = container_of(req, Rq, req);
		pbt_check(! r->got, "request is received twice");
		pbt_check(r->to == self->no, "request is received from another queue");
		pbt_check(r->seq > self->last[r->from], "requests of a thread are reordered");
		self->last[r->from] = r->seq;
		r->got = true;
		if (r->slow) { if (self->yields) coroutine_sleep(r->slow); else usleep(r->slow * 1000); }
		request_complete(req, r->seq % 1000);
		r->done = true;
	}
	self->over = true;
}
static int ev_cmp(const void* a, const void* b) { const Ev* x = a, *y = b; return x->s < y->s ? -1 : x->s > y->s; }
// values handed out by a counter which is also moved forward
static void check_counter(const char* what, Ev* l, int n, uint64_t first, uint64_t last)
{
	qsort(l, n, sizeof(Ev), ev_cmp);
	uint64_t bound = first, sum = 0;
	for (int i = 0; i < n; i++) {
		Ev* a = &l[i];
		uint64_t an = a->kind == SEQ_NEXT ? 1 : a->kind == SEQ_ADD ? a->v : 0;
		sum += an;
		if (a->kind == SEQ_SYNC && (int64_t)(a->v + 1) > (int64_t)bound) bound = a->v + 1;
		if (a->kind == SEQ_SYNC) { pbt_check((int64_t)last >= (int64_t)(a->v + 1), "%s is %" PRIu64 " at the end, it was moved to %" PRIu64, what, last, a->v + 1); }
		else pbt_check(a->r >= first && a->r + an <= last, "%s returned %" PRIu64 "+%" PRIu64 ", it was %" PRIu64 " at first and is %" PRIu64, what, a->r, an, first, last);
		for (int k = 0; k < n; k++) {
			Ev* b = &l[k];
			uint64_t bn = b->kind == SEQ_NEXT ? 1 : b->kind == SEQ_ADD ? b->v : 0;
			if (k > i && an && bn) pbt_check(a->r + an <= b->r || b->r + bn <= a->r, "%s gave %" PRIu64 "+%" PRIu64 " and %" PRIu64 "+%" PRIu64 " (threads %d and %d)", what, a->r, an, b->r, bn, a->th, b->th);
			if (a->e < b->s && b->kind != SEQ_SYNC) {
				if (a->kind == SEQ_SYNC) pbt_check((int64_t)b->r >= (int64_t)(a->v + 1), "%s gave %" PRIu64 " after %" PRIu64 " was stored (threads %d and %d)", what, b->r, a->v, a->th, b->th);
				else pbt_check(b->r >= a->r + an, "%s gave %" PRIu64 "+%" PRIu64 " and later %" PRIu64 " (threads %d and %d)", what, a->r, an, b->r, a->th, b->th);
			}
		}
	}
	pbt_check(last - first <= bound - first + sum, "%s is %" PRIu64 " at the end, at most %" PRIu64 " is expected", what, last, bound + sum);
	bool moved = false; for (int i = 0; i < n; i++) moved |= l[i].kind == SEQ_SYNC;
	if (! moved) pbt_check(last == first + sum, "%s is %" PRIu64 " at the end, expected %" PRIu64, what, last, first + sum);
}
static bool id_sure(Num* i, uint64_t s, uint64_t e) { return i->ae && i->ae < s && (! i->ds || i->ds > e); }
static bool id_maybe(Num* i, uint64_t s, uint64_t e) { return i->as < e && (! i->de || i->de > s); }
static void check_ids(void)
{
	for (int k = 0; k < cps_n; k++) {
		Cp* c = cps[k];
		for (int i = 0; i < c->n; i++) {
			Num* x = num_find(c->list[i]);
			pbt_check(! i || c->list[i - 1] < c->list[i], "copy of ids is not ordered");
			pbt_check(c->list[i] <= c->limit, "copy has an id over the limit");
			pbt_check(x && id_maybe(x, c->s, c->e), "copy has id %" PRIu64 " which is not in the list", c->list[i]);
		}
		for (int i = 0; i < ids_n; i++) if (ids[i].id <= c->limit && id_sure(&ids[i], c->s, c->e)) {
			bool found = false; for (int j = 0; j < c->n; j++) found |= c->list[j] == ids[i].id;
			pbt_check(found, "copy misses id %" PRIu64, ids[i].id);
		}
		free(c);
	}
	for (int k = 0; k < idev_n; k++) {
		Ev* x = &idev[k];
		if (x->r != UINT64_MAX) {
			Num* i = num_find(x->r);
			pbt_check(i && id_maybe(i, x->s, x->e), "%s returned %" PRIu64 " which is not in the list", op_name[x->kind], x->r);
			if (x->kind == ID_FIND) pbt_check(x->r <= x->v, "find %" PRIu64 " returned %" PRIu64, x->v, x->r);
			if (x->kind == ID_NEXT) pbt_check(x->r > x->v, "next of %" PRIu64 " returned %" PRIu64, x->v, x->r);
		}
		for (int i = 0; i < ids_n; i++) {
			if (! id_sure(&ids[i], x->s, x->e)) continue;
			uint64_t id = ids[i].id;
			bool bad = false;
			switch (x->kind) {
			case ID_MIN: bad = id < x->r; break;
			case ID_MAX: bad = x->r == UINT64_MAX || id > x->r; break;
			case ID_FIND: bad = id <= x->v && (x->r == UINT64_MAX || id > x->r); break;
			case ID_NEXT: bad = id > x->v && id < x->r; break;
			}
			pbt_check(! bad, "%s (%" PRIu64 ") returned %" PRIu64 " while %" PRIu64 " was in the list", op_name[x->kind], x->v, x->r, id);
		}
	}
}
static int u64_cmp(const void* a, const void* b) { uint64_t x = *(uint64_t*)a, y = *(uint64_t*)b; return x < y ? -1 : x > y; }

static void run_case(void)
{
	static const int groups[][12] = {
		{ SEQ_NEXT, SEQ_SYNC, SEQ_NEXT, SEQ_GET, SEQ_ADD, -1 }, { OPT_NEXT, OPT_FOLLOW, OPT_GET, -1 }, { RND, UUID, ALNUM, -1 },
		{ BUF_NEW, BUF_DROP, BUF_SHARE, BUF_TAKE, BUF_NEW, -1 }, { COD_POP, COD_PUSH, -1 }, { ID_ADD, ID_DEL, ID_COPY, ID_MIN, ID_MAX, ID_FIND, ID_NEXT, ID_STATS, -1 },
		{ REQ, REQ_WAIT, REQ_BATCH, REQ_WAIT, -1 }, { CNT_ADD, CNT_SUB, LIM, BP, -1 } };
	int sel[40], sel_n = 0;
	int n_groups = 1 + PICK(3);
	for (int g = 0; g < n_groups; g++) { const int* x = groups[PICK(NELEM(groups))]; for (int i = 0; x[i] != -1; i++) sel[sel_n++] = x[i]; }
	th_n = 1 + (PICK(8) ? 1 + PICK(TH - 1) : 0); sv_n = 1 + PICK(SV);
	memset(ths, 0, sizeof(ths)); memset(svs, 0, sizeof(svs));
	ev_n[0] = ev_n[1] = ev_n[2] = idev_n = ids_n = cps_n = rnd_n = codecs_made = codecs_freed = n_shared = n_req = n_timeouts = lim_errors = 0;
	clock_n = 0; cnt_want = lim_sum = bp_want = 0;
	uint64_t max_id = 0;
	bool used[OP_MAX] = { 0 };
	int total = 0, objs = 1 + PICK(2);
	seq0[0] = PICK(3) * 7; seq0[1] = 1ull << 40; opt0 = PICK(5);
	for (int t = 0; t < th_n; t++) {
		Th* th = &ths[t];
		th->no = t;
		while (th->ops_n < OPS && pbt_more(14)) {
			Op* op = &th->ops[th->ops_n++];
			op->kind = sel[PICK(sel_n)];
			used[op->kind] = true; total++;
			op->obj = PICK(objs);
			switch (op->kind) {
			case SEQ_SYNC: op->v = seq0[op->obj] + PICK(40); break;
			case OPT_FOLLOW: op->v = opt0 + PICK(40); break;
			case SEQ_ADD: op->n = 1 + PICK(5); break;
			case CNT_ADD: case CNT_SUB: op->n = PICK(1000); break;
			case BUF_NEW: op->n = PICK(4) ? PICK(200) : PICK(3) ? PICK(6000) : 30000 + PICK(8000); break;
			case BUF_SHARE: op->n = PICK(16); op->obj = PICK(TH); break;
			case COD_PUSH: op->n = PICK(8); break;
			case ID_ADD: op->v = PICK(60) * TH + t; break;
			case ID_DEL: op->n = PICK(6); break;
			case ID_COPY: op->v = PICK(3) ? UINT64_MAX : PICK(60 * TH); break;
			case ID_FIND: case ID_NEXT: op->v = PICK(60 * TH); break;
			case LIM: op->n = 1 + PICK(300); break;
			case REQ: op->ms = PICK(5) ? 0 : PICK(30); break;
			case REQ_BATCH: op->n = 1 + PICK(6); op->ms = PICK(8) ? 0 : PICK(5); break;
			case REQ_WAIT: op->n = PICK(2); op->obj = PICK(64); op->ms = PICK(3) ? PICK(40) : PICK(3000); break;
			case BP: op->n = PICK(2); break;
			}
		}
	}
	uint64_t limit = PICK(3) == 2 ? PICK(5000) : 0;
	for (int i = 0; i < sv_n; i++) { svs[i].no = i; svs[i].yields = PICK(2); request_queue_init(&svs[i].queue); }
	for (int i = 0; i < 2; i++) { sequence_init(&seqs[i]); sequence_set(&seqs[i], seq0[i]); }
	opt_init(&opt, "opt", OPT_INT, 0); opt_int_set(&opt, opt0);
	opt_init(&cnt, "cnt", OPT_INT, 0); opt_int_set(&cnt, 1ull << 32);
	random_init(&rnd); rnd.seed[0] = 1 + pbt_pick(1u << 30); rnd.seed[1] = 99991;
	buf_mgr_init(&bufs); codec_cache_init(&codecs); id_mgr_init(&idm); limit_init(&lim, limit); lockable_mgr_init(&lks);
	for (int t = 0; t < th_n; t++) for (int i = 0; i < ths[t].ops_n; i++) if (ths[t].ops[i].kind == ID_ADD && ths[t].ops[i].v > max_id) max_id = ths[t].ops[i].v;

	bool serve = used[REQ] || used[REQ_BATCH];
	sch_fine = 1;
	sch_begin(40000000);
	for (int i = 0; i < sv_n && serve; i++) { task_init(&svs[i].task); char name[16]; snprintf(name, sizeof(name), "s%d", i); task_create(&svs[i].task, name, sv_main, &svs[i]); pbt_check(cond_wait(&svs[i].task.status) == 1, "status of a task"); }
	for (int i = 0; i < th_n; i++) { task_init(&ths[i].task); char name[16]; snprintf(name, sizeof(name), "t%d", i); task_create(&ths[i].task, name, th_main, &ths[i]); }
	for (int i = 0; i < th_n; i++) cond_wait(&ths[i].task.status);
	for (int i = 0; i < th_n; i++) { task_wait(&ths[i].task); pbt_check(ths[i].over, "thread %d did not finish", i); task_free(&ths[i].task); }
	for (int i = 0; i < sv_n && serve; i++) {
		Request r; request_init(&r); r.type = REQUEST_DISCONNECT;
		request_queue_push(&svs[i].queue, &r, true);
		request_wait(&r, UINT32_MAX);
		task_wait(&svs[i].task); pbt_check(svs[i].over, "server %d did not finish", i); task_free(&svs[i].task);
		request_free(&r);
	}
	sch_end();
	for (int i = 0; i < sv_n; i++) request_queue_free(&svs[i].queue);

	check_counter("sequence", ev[0], ev_n[0], seq0[0], sequence_get(&seqs[0]));
	check_counter("sequence", ev[1], ev_n[1], seq0[1], sequence_get(&seqs[1]));
	check_counter("option", ev[2], ev_n[2], opt0, opt_int_of(&opt));
	pbt_check((int64_t)opt_int_of(&cnt) == (1ll << 32) + cnt_want, "counter is %" PRIi64 ", expected %" PRIi64, opt_int_of(&cnt), (1ll << 32) + cnt_want);
	qsort(rnd_list, rnd_n, 8, u64_cmp);
	for (int i = 1; i < rnd_n; i++) pbt_check(rnd_list[i - 1] != rnd_list[i], "random value %016" PRIx64 " is generated twice", rnd_list[i]);
	// buffers
	for (int i = 0; i < th_n; i++) while (ths[i].inbox_n) drop(&ths[i].inbox[--ths[i].inbox_n]);
	for (int i = 0; i < 8; i++) {
		int n = 0;
		for (Buf* b = bufs.cache[i].cache; b; b = b->cache_next) { pbt_check(++n <= TH * OPS, "list of free buffers is circular"); pbt_check(b->refs == 0 && b->cache == &bufs.cache[i], "free buffer has %u references", b->refs); }
	}
	buf_mgr_free(&bufs);
	codec_cache_free(&codecs);
	pbt_check(codecs_made == codecs_freed, "%d codecs are made, %d are in the cache", codecs_made, codecs_freed);
	for (int i = 0; i < codecs_made; i++) free(co_list[i]);
	check_ids();
	{
		Buf b; buf_init(&b);
		int n = id_mgr_copy(&idm, &b, UINT64_MAX), want = 0;
		for (int i = 0; i < ids_n; i++) want += ! ids[i].ds;
		pbt_check(n == want, "list has %d ids, expected %d", n, want);
		for (int i = 0; i < n; i++) { Num* x = num_find(buf_u64(&b)[i]); pbt_check(x && ! x->ds, "deleted id is in the list"); }
		buf_free_memory(&b);
	}
	id_mgr_free(&idm);
	pbt_check((int64_t)lim.log_size == lim_sum, "size of the log is %" PRIu64 ", expected %" PRIi64, (uint64_t)lim.log_size, lim_sum);
	if (! limit) pbt_check(! lim_errors, "limit is reached without one");
	for (int i = 0; i < REL_MAX; i++) pbt_check(lks.list[i].bp_refs == 0, "breakpoint has %u references at the end", lks.list[i].bp_refs);
	lockable_mgr_free(&lks);
	opt_free(&opt); opt_free(&cnt); sequence_free(&seqs[0]); sequence_free(&seqs[1]);

	static const char* gname[] = { "sequence", "option", "random", "buffers", "codecs", "ids", "requests", "counters" };
	for (int g = 0; g < NELEM(groups); g++) if (used[groups[g][0]]) pbt_class(gname[g]);
	if (n_timeouts) pbt_class("timed out waits");
	if (n_shared) pbt_class("shared buffers");
	pbt_count("operations", total); pbt_count("preemptions", sch_preempts);
	pbt_note("%d threads, %d operations, %d requests, %d switches, %d preemptions", th_n, total, n_req, sch_switches, sch_preempts);
	if (th_n > 1 && total > 8 && sch_preempts > 3) pbt_nontrivial();
}
PbtHarness pbt_harness = { .name = "shared", .run = run_case };
