// C42: several sessions of the whole database execute generated transactions over the same rows at once; a serial order of the
// acknowledged ones which respects real time and explains every result and the final contents must exist.
#define _GNU_SOURCE
#include "db.h"
#include <sys/stat.h>
#include <sys/uio.h>
#include <errno.h>
#include <time.h>
#include <stdatomic.h>

// delays and faults -------------------------------------------------------------------------------
static atomic_uint Rnd = 1;
static atomic_int  Delay;      // one of so many operations is delayed
static atomic_int  Fail = -1;  // the log write which fails
static atomic_int  Failed;
static void jitter(void)
{
	int d = Delay;
	if (! d) return;
	unsigned r = Rnd = Rnd * 1103515245u + 12345u;
	if ((r >> 16) % d == 0) usleep((r >> 8) % 400);
}
static bool regular(int fd)
{
	struct stat st;
	return fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
}
static bool faulty(int fd)
{
	if (Fail < 0 || ! regular(fd)) return false;
	if (Fail-- != 0) return false;
	Failed++;
	errno = ENOSPC;
	return true;
}
ssize_t __real_write(int, const void*, size_t); ssize_t __real_writev(int, const struct iovec*, int); ssize_t __real_read(int, void*, size_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t); int __real_fsync(int); int __real_fdatasync(int);
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (faulty(fd)) return -1; jitter(); return __real_write(fd, b, n); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { if (faulty(fd)) return -1; jitter(); return __real_pwrite(fd, b, n, o); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { if (faulty(fd)) return -1; jitter(); return __real_writev(fd, v, n); }
ssize_t __wrap_read(int fd, void* b, size_t n) { ssize_t rc = __real_read(fd, b, n); int e = errno; jitter(); errno = e; return rc; }
int __wrap_fsync(int fd) { jitter(); return 0; }
int __wrap_fdatasync(int fd) { jitter(); return 0; }

// model -------------------------------------------------------------------------------------------
#define PICK(n) ((int)pbt_pick(n))
enum { NT = 2, NK = 6, NS = 5, NO = 7, NSTEP = 5, SLEN = 40 };
typedef struct { bool on; int v; char s[SLEN]; } Row;
typedef struct { bool exists; Row r[NK]; } Tbl;
typedef struct { Tbl t[NT]; } State;

enum { INC, RANGE, EVERY, APPEND, INSERT, UPSERT, DELETE, COPY, VAR, COND, LOOP, ABORT, READ, POINT, SUMS, JOIN, TRUNCATE, CHECKPOINT, INDEX, UNINDEX, DROP, CREATE };
typedef struct { int id, n, m, k, l, d; char c; } Step;
typedef struct {
	Step  s[NSTEP];
	int   ns;
	bool  ddl, block;
	char* sql;
	// history
	int   code;
	char* res;
	int   call, ret;
	bool  excused;
} Op;
static Op  H[NS][NO];
static int HN[NS], Sess;
static State Cur;

static bool failed(Op* o) { return ! (o->code == 200 || o->code == 204); }
static int  sum_of(Tbl* t) { int s = 0; for (int k = 0; k < NK; k++) if (t->r[k].on) s += t->r[k].v; return s; }
static void app(Row* r, char c) { int n = strlen(r->s); if (n + 1 < SLEN) { r->s[n] = c; r->s[n + 1] = 0; } }

static char Expect[4096];
static int  En;
static void e_f(const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	En += vsnprintf(Expect + En, sizeof(Expect) - En, fmt, ap);
	va_end(ap);
}
// the sum of no rows in a subquery is null
static void e_sum(Tbl* t)
{
	bool any = false;
	for (int k = 0; k < NK; k++) any |= t->r[k].on;
	if (any) e_f("%d", sum_of(t)); else e_f("null");
}
static bool has_result(Step* s) { return s->id >= READ && s->id <= JOIN; }
// false: fails
static bool step_apply(State* st, Step* s)
{
	Tbl* t = &st->t[s->n];
	Tbl* u = &st->t[s->m];
	if (s->id != ABORT && s->id != CHECKPOINT && s->id != CREATE && ! t->exists) return false;
	bool two = s->id == COPY || s->id == VAR || s->id == COND || s->id == LOOP || s->id == SUMS || s->id == JOIN;
	if (two && ! u->exists) return false;
	switch (s->id) {
	case INC: if (t->r[s->k].on) t->r[s->k].v += s->d; break;
	case RANGE: for (int k = s->k; k < s->l; k++) if (t->r[k].on) t->r[k].v += s->d; break;
	case EVERY: for (int k = 0; k < NK; k++) if (t->r[k].on) t->r[k].v = t->r[k].v + s->d; break;
	case APPEND: for (int k = s->k; k < s->l; k++) if (t->r[k].on) app(&t->r[k], s->c); break;
	case INSERT: for (int k = s->k; k < s->l; k++) { if (t->r[k].on) return false; t->r[k] = (Row){ true, s->d, { s->c } }; } break;
	case UPSERT: for (int k = s->k; k < s->l; k++) { if (t->r[k].on) { t->r[k].v += s->d; app(&t->r[k], s->c); } else t->r[k] = (Row){ true, s->d, { s->c } }; } break;
	case DELETE: for (int k = s->k; k < s->l; k++) t->r[k].on = false; break;
	case COPY: for (int k = 0; k < NK; k++) if (t->r[k].on && t->r[k].v > s->d) { if (u->r[k].on) return false; u->r[k] = t->r[k]; } break;
	case VAR: { int x = sum_of(t); if (u->r[s->k].on) { u->r[s->k].v = x % 1000; } break; }
	case COND: {
		int x = sum_of(t);
		if (x > s->d) { for (int k = s->k; k < s->l; k++) if (u->r[k].on) app(&u->r[k], s->c); }
		else { if (u->r[s->k].on) { u->r[s->k].v += 7; } }
		break;
	}
	case LOOP: for (int k = 0; k < NK; k++) if (t->r[k].on && u->r[k].on) { u->r[k].v = t->r[k].v + 1; } break;
	case ABORT: return false;
	case READ: {
		e_f("[");
		bool f = true;
		for (int k = 0; k < NK; k++) if (t->r[k].on) { e_f("%s[%d, %d, \"%s\"]", f ? "" : ", ", k, t->r[k].v, t->r[k].s); f = false; }
		e_f("]");
		break;
	}
	case POINT: if (t->r[s->k].on) e_f("[[%d, \"%s\"]]", t->r[s->k].v, t->r[s->k].s); else e_f("[]"); break;
	case SUMS: e_f("[["); e_sum(t); e_f(", "); e_sum(u); e_f("]]"); break;
	case JOIN: {
		e_f("[");
		bool f = true;
		for (int k = 0; k < NK; k++) if (t->r[k].on && u->r[k].on) { e_f("%s[%d, %d, %d]", f ? "" : ", ", k, t->r[k].v, u->r[k].v); f = false; }
		e_f("]");
		break;
	}
	case TRUNCATE: memset(t->r, 0, sizeof(t->r)); break;
	case DROP: memset(t, 0, sizeof(*t)); break;
	case CREATE: if (t->exists) return false; memset(t, 0, sizeof(*t)); t->exists = true; break;
	}
	return true;
}
// the effect of the operation; false: it fails
static bool op_apply(State* st, Op* o)
{
	En = 0;
	Expect[0] = 0;
	for (int i = 0; i < o->ns; i++) {
		if (has_result(&o->s[i])) { En = 0; Expect[0] = 0; }
		if (! step_apply(st, &o->s[i])) return false;
	}
	return true;
}

// statements --------------------------------------------------------------------------------------
static void table_create(Tx* t, int n, int parts) { tx_f(t, "create table t%d (k int primary key, v int, s text, g int not null) partitions %d", n, parts); }
static int Parts[NT];
static void step_sql(Tx* t, Step* s)
{
	const char* where = s->l == s->k + 1 ? "k = %d" : "k >= %d and k < %d";
	char w[64];
	snprintf(w, sizeof(w), where, s->k, s->l);
	switch (s->id) {
	case INC: tx_f(t, "update t%d set v = v + %d where k = %d", s->n, s->d, s->k); break;
	case RANGE: tx_f(t, "update t%d set v = v + %d where %s", s->n, s->d, w); break;
	case EVERY: tx_f(t, "update t%d set v = v + %d", s->n, s->d); break;
	case APPEND: tx_f(t, "update t%d set s = concat(s, '%c') where %s", s->n, s->c, w); break;
	case INSERT: case UPSERT:
		tx_f(t, "insert into t%d values ", s->n);
		for (int k = s->k; k < s->l; k++) tx_f(t, "%s(%d, %d, '%c', %d)", k > s->k ? ", " : "", k, s->d, s->c, k % 3);
		if (s->id == UPSERT) tx_f(t, " on conflict do update set v = v + %d, s = concat(s, '%c')", s->d, s->c);
		break;
	case DELETE: tx_f(t, "delete from t%d where %s", s->n, w); break;
	case COPY: tx_f(t, "insert into t%d select k, v, s, g from t%d where v > %d", s->m, s->n, s->d); break;
	case VAR: tx_f(t, "select sum(v) into x from t%d; update t%d set v = coalesce(x, 0) %% 1000 where k = %d", s->n, s->m, s->k); break;
	case COND: tx_f(t, "select sum(v) into x from t%d; if coalesce(x, 0) > %d then update t%d set s = concat(s, '%c') where %s; else update t%d set v = v + 7 where k = %d; end", s->n, s->d, s->m, s->c, w, s->m, s->k); break;
	case LOOP: tx_f(t, "for it in (select k as a, v as b from t%d) do update t%d set v = it.b::int + 1 where k = it.a::int; end", s->n, s->m); break;
	case ABORT: tx_f(t, "select error('abort')"); break;
	case READ: tx_f(t, "select k, v, s from t%d order by k", s->n); break;
	case POINT: tx_f(t, "select v, s from t%d where k = %d", s->n, s->k); break;
	case SUMS: tx_f(t, "select (select sum(v) from t%d), (select sum(v) from t%d)", s->n, s->m); break;
	case JOIN: tx_f(t, "select a.k, a.v, b.v from t%d a join t%d b on a.k = b.k order by a.k", s->n, s->m); break;
	case TRUNCATE: tx_f(t, "truncate t%d", s->n); break;
	case CHECKPOINT: tx_f(t, "checkpoint"); break;
	case INDEX: tx_f(t, "create index i%d on t%d (g)", s->n, s->n); break;
	case UNINDEX: tx_f(t, "drop index i%d on t%d", s->n, s->n); break;
	case DROP: tx_f(t, "drop table t%d", s->n); break;
	case CREATE: table_create(t, s->n, Parts[s->n]); break;
	}
}
static void gen_step(Step* s, char c)
{
	memset(s, 0, sizeof(*s));
	static const uint8_t w[] = { INC, INC, APPEND, APPEND, RANGE, UPSERT, UPSERT, EVERY, INSERT, DELETE, COPY, VAR, COND, LOOP };
	s->id = w[PICK((int)sizeof(w))];
	s->n = PICK(NT); s->m = s->id == COPY || PICK(3) ? 1 - s->n : s->n;
	s->k = PICK(NK);
	s->l = PICK(2) ? s->k + 1 : s->k + 1 + PICK(NK - s->k);
	s->d = s->id == COPY ? PICK(40) : s->id == COND ? PICK(200) : 1 + PICK(9);
	s->c = c;
}
static void gen_read(Step* s)
{
	memset(s, 0, sizeof(*s));
	s->id = READ + PICK(4);
	s->n = PICK(NT); s->m = 1 - s->n; s->k = PICK(NK);
}
static bool Indexed[NT], Exists[NT];
static void gen_op(Op* o, char c, bool ddl)
{
	memset(o, 0, sizeof(*o));
	Tx t = { 0 };
	if (ddl) {
		o->ddl = true;
		o->ns = 1;
		Step* s = &o->s[0];
		s->n = PICK(NT);
		switch (PICK(2)) {
		case 0: s->id = TRUNCATE; break;
		case 1: s->n = 1; s->id = Exists[1] ? DROP : CREATE; Exists[1] = ! Exists[1]; Indexed[1] = false; break;
		}
		if (s->id == TRUNCATE && ! Exists[s->n]) s->n = 0;
		step_sql(&t, s);
	} else {
		int k = PICK(6);
		if (k == 5) { gen_read(&o->s[o->ns++]); }
		else if (k < 2) {
			gen_step(&o->s[0], c);
			o->ns = 1;
			if (o->s[0].id == VAR || o->s[0].id == COND || o->s[0].id == LOOP) o->block = true;
		} else {
			o->block = true;
			int n = 1 + PICK(3);
			for (int i = 0; i < n; i++) gen_step(&o->s[o->ns++], c);
			if (PICK(3) == 2) gen_read(&o->s[o->ns++]);
			else if (PICK(10) == 9) o->s[o->ns++].id = ABORT;
		}
		if (o->block) {
			bool var = false;
			for (int i = 0; i < o->ns; i++) var |= o->s[i].id == VAR || o->s[i].id == COND;
			tx_f(&t, var ? "begin declare x int; " : "begin ");
		}
		for (int i = 0; i < o->ns; i++) { step_sql(&t, &o->s[i]); if (o->block) tx_f(&t, "; "); }
		if (o->block) tx_f(&t, "end;");
	}
	o->sql = t.p;
}

// the check ---------------------------------------------------------------------------------------
typedef struct { uint64_t a, b; } Key;
static Key* Memo; static int MemoN, MemoCap; static long Steps;
static bool seen(State* st, int* pos)
{
	Key k = { 1469598103934665603ull, 88172645463325252ull };
	uint8_t* p = (uint8_t*)st;
	for (size_t i = 0; i < sizeof(*st); i++) { k.a = (k.a ^ p[i]) * 1099511628211ull; k.b = (k.b + p[i]) * 6364136223846793005ull + 1; }
	for (int s = 0; s < Sess; s++) { k.a = (k.a ^ (pos[s] + 77)) * 1099511628211ull; k.b = (k.b + pos[s]) * 6364136223846793005ull + 1; }
	if (! k.a) k.a = 1;
	if (MemoN * 2 >= MemoCap) {
		int oc = MemoCap; Key* old = Memo;
		MemoCap = oc ? oc * 2 : 4096; Memo = calloc(MemoCap, sizeof(Key));
		for (int i = 0; i < oc; i++) if (old[i].a) { int h = old[i].a % MemoCap; while (Memo[h].a) h = (h + 1) % MemoCap; Memo[h] = old[i]; }
		free(old);
	}
	int h = k.a % MemoCap;
	while (Memo[h].a) { if (Memo[h].a == k.a && Memo[h].b == k.b) return true; h = (h + 1) % MemoCap; }
	Memo[h] = k;
	MemoN++;
	return false;
}
static State Final;
static bool normal_eq(State* a, State* b)
{
	for (int n = 0; n < NT; n++) {
		if (a->t[n].exists != b->t[n].exists) return false;
		for (int k = 0; k < NK; k++) {
			Row* x = &a->t[n].r[k], *y = &b->t[n].r[k];
			if (x->on != y->on || (x->on && (x->v != y->v || strcmp(x->s, y->s)))) return false;
		}
	}
	return true;
}
static bool search(State* st, int* pos)
{
	Steps++;
	// failed operations which need no explanation
	for (int s = 0; s < Sess; s++) while (pos[s] < HN[s] && H[s][pos[s]].excused) pos[s]++;
	int end = 0, first = INT_MAX;
	for (int s = 0; s < Sess; s++) {
		if (pos[s] == HN[s]) { end++; continue; }
		for (int i = pos[s]; i < HN[s]; i++) if (! H[s][i].excused) { if (H[s][i].ret < first) first = H[s][i].ret; }
	}
	if (end == Sess) return normal_eq(st, &Final);
	if (seen(st, pos)) return false;
	for (int s = 0; s < Sess; s++) {
		if (pos[s] == HN[s]) continue;
		Op* o = &H[s][pos[s]];
		if (o->call > first) continue;
		State next = *st;
		bool ok = op_apply(&next, o);
		if (failed(o)) { if (ok) continue; next = *st; }
		else {
			if (! ok) continue;
			if (En && strcmp(Expect, o->res)) continue;
		}
		// absent rows do not differ
		for (int n = 0; n < NT; n++) for (int k = 0; k < NK; k++) if (! next.t[n].r[k].on) memset(&next.t[n].r[k], 0, sizeof(Row)); else { Row* r = &next.t[n].r[k]; int l = strlen(r->s); memset(r->s + l, 0, SLEN - l); }
		int p[NS];
		memcpy(p, pos, sizeof(p));
		p[s]++;
		if (search(&next, p)) return true;
	}
	return false;
}
static void history(void)
{
	for (int s = 0; s < Sess; s++)
		for (int i = 0; i < HN[s]; i++) { Op* o = &H[s][i]; pbt_note("   [%d] %d..%d %.200s => %d %.150s", s, o->call, o->ret, o->sql, o->code, o->res ? o->res : ""); }
}
static void read_final(State* st, const char* when)
{
	memset(st, 0, sizeof(*st));
	for (int n = 0; n < NT; n++) {
		char b[128];
		snprintf(b, sizeof(b), "select k, v, s from t%d order by k", n);
		if (db_exec(b) != 200) {
			if (! strstr(Db.out.p, "not found")) { history(); pbt_fail("%s: '%s' fails: %d %s", when, b, Db.code, Db.out.p); }
			continue;
		}
		st->t[n].exists = true;
		char* p = Db.out.p;
		int k, v, m;
		char s[64];
		if (*p == '[') p++;
		while (*p == '[') {
			s[0] = 0;
			m = 0;
			if (sscanf(p, "[%d, %d, \"%60[^\"]\"]%n", &k, &v, s, &m) != 3 || ! m) { m = 0; if (sscanf(p, "[%d, %d, \"\"]%n", &k, &v, &m) != 2 || ! m) pbt_fail("%s: not understood: %s", when, Db.out.p); }
			if (k < 0 || k >= NK || st->t[n].r[k].on) { history(); pbt_fail("%s: t%d: %s", when, n, Db.out.p); }
			Row* r = &st->t[n].r[k];
			r->on = true; r->v = v; snprintf(r->s, SLEN, "%s", s);
			p += m;
			while (*p == ',' || *p == ' ') p++;
		}
		// by the index and in another way
		snprintf(b, sizeof(b), "select g, k, v, s from t%d where g >= 0", n);
		int rows = 0;
		for (int i = 0; i < NK; i++) rows += st->t[n].r[i].on;
		db_exec(b);
		int got = 0;
		for (char* q = Db.out.p; *q; q++) got += *q == '[';
		if (got - 1 != rows) { history(); pbt_fail("%s: %d rows of t%d, by another query: %s", when, rows, n, Db.out.p); }
	}
}
static bool overlap(Op* a, Op* b) { return a->call < b->ret && b->call < a->ret; }

static amelie_session_t* Se[NS];
static char Dir[PATH_MAX];
static bool Opened;
static int Clock;
static int64_t now_ms(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000LL + t.tv_nsec / 1000000; }
static void epoch_run(void)
{
	amelie_request_t* req[NS] = { 0 };
	int at[NS] = { 0 };
	int64_t since = now_ms();
	for (;;) {
		int left = 0;
		bool any = false;
		for (int s = 0; s < Sess; s++) {
			if (! req[s] && at[s] < HN[s]) {
				Op* o = &H[s][at[s]];
				o->call = Clock++;
				req[s] = amelie_execute(Se[s], o->sql, 0, NULL, NULL, NULL);
				any = true;
			}
			if (req[s]) {
				left++;
				amelie_arg_t res = { 0 };
				int code = amelie_wait(req[s], 0, &res);
				if (code == 408) continue;
				Op* o = &H[s][at[s]++];
				o->ret = Clock++;
				o->code = code;
				o->res = res.data ? strndup(res.data, res.data_size) : strdup("");
				amelie_free(req[s]);
				req[s] = NULL;
				any = true;
			}
		}
		if (! left) break;
		if (any) since = now_ms();
		else {
			if (now_ms() - since > 20000) {
				for (int s = 0; s < Sess; s++) if (req[s]) pbt_note("   [%d] waits for: %s", s, H[s][at[s]].sql);
				pbt_fail("statements of %d sessions do not return", left);
			}
			usleep(20);
		}
	}
}
static void ops_free(void)
{
	for (int s = 0; s < NS; s++) {
		for (int i = 0; i < HN[s]; i++) { free(H[s][i].sql); free(H[s][i].res); }
		HN[s] = 0;
	}
}
static void sessions_close(void) { for (int s = 0; s < NS; s++) if (Se[s]) { amelie_free(Se[s]); Se[s] = NULL; } }
static void sessions_open(void) { for (int s = 0; s < Sess; s++) Se[s] = amelie_connect(Db.env, "amelie://"); }

static void case_run(void)
{
	bool fresh = PICK(6) == 5;
	int backends = 1 + PICK(4), frontends = 1 + PICK(3);
	Delay = 0;
	Fail = -1;
	if (Opened) sessions_close();
	if (! Opened) snprintf(Dir, sizeof(Dir), "%s/db", pbt_dir());
	if (fresh || ! Opened) {
		if (Opened) db_close();
		db_open(Dir, backends, frontends);
		Opened = true;
	}
	Sess = 2 + PICK(NS - 1);
	memset(&Cur, 0, sizeof(Cur));
	for (int n = 0; n < NT; n++) {
		Parts[n] = 1 + PICK(4);
		Tx t = { 0 };
		db_must("drop table if exists t%d", n);
		table_create(&t, n, Parts[n]);
		db_must("%s", t.p);
		pbt_note("%s", t.p);
		tx_free(&t);
		Cur.t[n].exists = Exists[n] = true;
		Indexed[n] = false;
	}
	pbt_note("%d sessions, %d backends, %d frontends%s", Sess, backends, frontends, fresh ? "" : " (of the first case)");
	sessions_open();
	int epochs = 1 + PICK(4), total = 0, conflicts = 0;
	for (int e = 0; e < epochs; e++) {
		bool ddl = PICK(3) == 2;
		for (int n = 0; n < NT; n++) {
			if (! Exists[n]) continue;
			Op o = { 0 };
			Step* s = &o.s[0];
			s->id = UPSERT; s->n = n; s->k = PICK(3); s->l = s->k + 1 + PICK(NK - s->k); s->d = 10 * (1 + PICK(4)); s->c = '.';
			// strings start again
			db_must("update t%d set s = '' where k >= 0", n);
			for (int k = 0; k < NK; k++) Cur.t[n].r[k].s[0] = 0;
			Tx t = { 0 };
			step_sql(&t, s);
			db_must("%s", t.p);
			pbt_note("%s", t.p);
			tx_free(&t);
			step_apply(&Cur, s);
		}
		for (int s = 0; s < Sess; s++) {
			HN[s] = 1 + PICK(NO);
			for (int i = 0; i < HN[s]; i++) {
				gen_op(&H[s][i], 'a' + s * NO + i > 'z' ? 'A' + (s * NO + i - 26) : 'a' + s * NO + i, ddl && s == 0 && PICK(2));
				pbt_note("  [%d] %.400s", s, H[s][i].sql);
			}
			total += HN[s];
		}
		Rnd = 1 + PICK(1000000);
		Delay = PICK(3) ? 1 + PICK(20) : 0;
		bool fault = ! ddl && PICK(5) == 4;
		Failed = 0;
		int fail_at = fault ? PICK(8) : -1;
		if (fault) { pbt_note("log write %d fails", fail_at); pbt_class("failing log write"); }
		Fail = fail_at;
		epoch_run();
		Fail = -1;
		Delay = 0;
		// failures which may be consequences of others
		for (int s = 0; s < Sess; s++) for (int i = 0; i < HN[s]; i++) {
			Op* o = &H[s][i];
			for (int r = 0; r < Sess; r++) for (int j = 0; j < HN[r]; j++) {
				Op* p = &H[r][j];
				if (r == s || ! overlap(o, p)) continue;
				if (r < s && ! o->ddl && ! p->ddl) conflicts++;
				if (failed(o) && (failed(p) || p->ddl)) o->excused = true;
			}
			if (failed(o) && fault && Failed) o->excused = true;
			if (failed(o)) pbt_class(o->excused ? "failed with others" : "failed");
			else if (o->ddl) pbt_class("ddl at the same time");
			if (failed(o) && o->ddl && ! fault) { history(); pbt_fail("'%s' fails: %d %s", o->sql, o->code, o->res); }
			if (failed(o) && o->code == 500 && strstr(o->res, "lex")) pbt_fail("%s", o->res);
		}
		read_final(&Final, "after the transactions");
		MemoN = 0; MemoCap = 0; free(Memo); Memo = NULL; Steps = 0;
		int pos[NS] = { 0 };
		State st = Cur;
		if (! search(&st, pos)) {
			history();
			for (int n = 0; n < NT; n++) for (int k = 0; k < NK; k++) if (Final.t[n].r[k].on) pbt_note("   finally t%d %d: %d '%s'", n, k, Final.t[n].r[k].v, Final.t[n].r[k].s);
			pbt_fail("no serial order of the transactions gives their results and the final contents");
		}
		pbt_count("orders explored", Steps);
		Cur = Final;
		for (int n = 0; n < NT; n++) if (! (Exists[n] = Cur.t[n].exists)) Indexed[n] = false;
		ops_free();
		int n = PICK(NT);
		if (PICK(5) == 4) { pbt_note("checkpoint"); db_must("checkpoint"); }
		else if (PICK(5) == 4 && Exists[n]) {
			if (Indexed[n]) db_must("drop index i%d on t%d", n, n); else db_must("create index i%d on t%d (g)", n, n);
			pbt_note("%s index i%d", Indexed[n] ? "drop" : "create", n);
			Indexed[n] = ! Indexed[n];
			read_final(&Final, "after the change of an index");
			if (! normal_eq(&Cur, &Final)) pbt_fail("the contents after the change of an index differ");
		}
		if (PICK(6) == 5) {
			pbt_note("restart");
			pbt_class("restart");
			sessions_close();
			db_close();
			int b = 1 + PICK(4);
			db_open(Dir, b, 1 + PICK(3));
			read_final(&Final, "after a restart");
			if (! normal_eq(&Cur, &Final)) pbt_fail("the contents after the restart differ: t0 %d t1 %d", sum_of(&Final.t[0]), sum_of(&Final.t[1]));
			sessions_open();
		}
	}
	pbt_count("transactions", total);
	pbt_count("overlapping pairs", conflicts);
	if (conflicts > 3) pbt_nontrivial();
}
PbtHarness pbt_harness = { .name = "conc", .run = case_run, .no_runtime = true };
