// C22: relation locks of coroutines, against a model of holders and a queue for each relation
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "vloop.h"

#define RELS 5
#define LCOS 20
#define MODES 5
static const char* mode_name[] = { "none", "shared", "shared_rw", "exclusive_ro", "exclusive", "call" };
// who can hold a relation together
static bool compatible(int a, int b)
{
	if (a == LOCK_EXCLUSIVE || b == LOCK_EXCLUSIVE) return false;
	if ((a == LOCK_SHARED_RW && b == LOCK_EXCLUSIVE_RO) || (b == LOCK_SHARED_RW && a == LOCK_EXCLUSIVE_RO)) return false;
	return true;
}
// what a statement holds which names a relation twice
static int both(int a, int b)
{
	if ((a == LOCK_SHARED_RW && b == LOCK_EXCLUSIVE_RO) || (b == LOCK_SHARED_RW && a == LOCK_EXCLUSIVE_RO)) return LOCK_EXCLUSIVE;
	return a > b ? a : b;
}
typedef struct Lco Lco;
typedef struct { Lco* co; int mode; int refs; Lock* lock; int named; } Hold;
typedef struct { Lco* co; int mode; int named; } Wait;
typedef struct { Relation rel; Str name, db; char text[16]; Hold hold[64]; int hold_n; Wait wait[64]; int wait_n; } Rl;
struct Lco {
	uint64_t id; int no; bool started, done, cancelled;
	Rl*  wait_rel; int wait_mode;     // waits for a lock
	bool granted, sleeping, settled;
	int  wait_named;
};
static Rl   rls[RELS]; static int rls_n;
static Lco  lcos[LCOS]; static int lcos_n;
static int  ops, named_seq, waits, grants_late;
static uint64_t turn; static int turn_no;
static LockMgr* mgr(void) { return &runtime()->lock_mgr; }
static void ran(Lco* c) { if (turn_no != c->no) turn++; turn_no = c->no; }

static bool fits(Rl* r, int mode) { for (int i = 0; i < r->hold_n; i++) if (! compatible(r->hold[i].mode, mode)) return false; return true; }
static Hold* hold_add(Rl* r, Lco* c, int mode, int named)
{
	pbt_check(fits(r, mode), "harness: grant");
	pbt_check(r->hold_n < 64, "harness: holders");
	r->hold[r->hold_n] = (Hold) { c, mode, 1, NULL, named };
	return &r->hold[r->hold_n++];
}
static Hold* hold_find(Rl* r, Lco* c, int mode) { for (int i = 0; i < r->hold_n; i++) if (r->hold[i].co == c && r->hold[i].mode == mode && ! r->hold[i].named) return &r->hold[i]; return NULL; }
static void wake(Rl* r)
{
	while (r->wait_n && fits(r, r->wait[0].mode)) {
		Wait w = r->wait[0];
		memmove(r->wait, r->wait + 1, sizeof(Wait) * --r->wait_n);
		hold_add(r, w.co, w.mode, w.named);
		w.co->granted = true;
		grants_late++;
	}
}
static void hold_del(Rl* r, Hold* h) { *h = r->hold[--r->hold_n]; wake(r); }

// a cancelled coroutine leaves its wait at some moment before its lock call returns
static bool leaves(Lco* c, Rl* r) { return c->cancelled && c->wait_rel == r && ! c->settled; }
static bool unsettled(Rl* r) { for (int i = 0; i < lcos_n; i++) if (lcos[i].cancelled && lcos[i].wait_rel == r) return true; return false; }
static void settle_one(Lco* c, Rl* r)
{
	c->settled = true;
	if (c->granted) {
		for (int i = 0; i < r->hold_n; i++) if (r->hold[i].co == c && r->hold[i].mode == c->wait_mode && r->hold[i].named == c->wait_named) { hold_del(r, &r->hold[i]); break; }
	} else {
		for (int i = 0; i < r->wait_n; i++) if (r->wait[i].co == c) { memmove(r->wait + i, r->wait + i + 1, sizeof(Wait) * (--r->wait_n - i)); break; }
		wake(r);
	}
}
// lock tables agree with the model
static void verify(const char* when)
{
	int total = 0;
	for (int i = 0; i < rls_n; i++) {
		Rl* r = &rls[i];
		if (unsettled(r)) { total = -100000; continue; }
		int set[LOCK_MAX] = { 0 };
		for (int k = 0; k < r->hold_n; k++) set[r->hold[k].mode]++;
		for (int m = 0; m < LOCK_MAX; m++)
			pbt_check(r->rel.lock_set[m] == set[m], "%s: relation %d is locked as %s by %d, expected %d", when, i, mode_name[m], r->rel.lock_set[m], set[m]);
		pbt_check(r->rel.lock_wait_count == r->wait_n, "%s: %d wait for relation %d, expected %d", when, r->rel.lock_wait_count, i, r->wait_n);
		pbt_check(lock_mgr_count(mgr(), &r->name) == r->hold_n + r->wait_n, "%s: %d locks of relation %d, expected %d", when, lock_mgr_count(mgr(), &r->name), i, r->hold_n + r->wait_n);
		total += r->hold_n + r->wait_n;
	}
	Buf* buf = buf_create();
	lock_mgr_list(mgr(), buf);
	uint8_t* pos = buf->start;
	int n = 0;
	json_read_array(&pos);
	while (! json_read_array_end(&pos)) { json_skip(&pos); n++; }
	buf_free(buf);
	pbt_check(total < 0 || n == total, "%s: %d locks are listed, expected %d", when, n, total);
}
// the loop sleeps: nobody may sleep without a reason
static void loop_check(int timeout)
{
	unused(timeout);
	for (int i = 0; i < lcos_n; i++) {
		Lco* c = &lcos[i];
		if (c->done || ! coroutine_mgr_find(&am_task->coroutine_mgr, c->id)) continue;
		pbt_check(c->started, "coroutine %d never starts", i);
		if (c->sleeping) continue;
		pbt_check(c->wait_rel, "coroutine %d can run, but the loop sleeps", i);
		pbt_check(! c->granted, "coroutine %d sleeps, but its %s lock of relation %d has to be granted", i, mode_name[c->wait_mode], (int)(c->wait_rel - rls));
		pbt_check(! c->cancelled, "coroutine %d is cancelled, but it still waits for relation %d", i, (int)(c->wait_rel - rls));
	}
}
// before the call: register, after: compare
static bool lock_begin(Lco* c, Rl* r, int mode, int named)
{
	Hold* h = named ? NULL : hold_find(r, c, mode);
	if (h) { h->refs++; return true; }
	if (! r->wait_n && fits(r, mode)) { hold_add(r, c, mode, named); return true; }
	pbt_check(r->wait_n < 64, "harness: waiters");
	r->wait[r->wait_n++] = (Wait) { c, mode, named };
	waits++;
	c->wait_rel = r; c->wait_mode = mode; c->wait_named = named; c->granted = false; c->settled = false;
	return false;
}
static Lock* take(Lco* c, Rl* r, int mode, Str* name, int named, bool* failed)
{
	bool now = lock_begin(c, r, mode, named);
	uint64_t before = turn;
	Lock* volatile lock = NULL;
	bool pre_cancelled = c->cancelled;
	bool err = error_catch( lock = lock_mgr_lock(mgr(), &r->rel, mode, name, "test") );
	ran(c);
	*failed = err;
	if (now) {
		pbt_check(! err, "lock which is free fails");
		pbt_check(before == turn, "coroutine %d had to wait for %s lock of relation %d which is free", c->no, mode_name[mode], (int)(r - rls));
		return lock;
	}
	if (err) {
		pbt_check(am_self()->error.code == CANCEL && c->cancelled, "lock fails without a reason: %.*s", (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		pbt_class(c->granted ? "cancelled after the grant" : pre_cancelled ? "cancelled before the wait" : "cancelled in the wait");
		if (! c->settled) settle_one(c, r);
		c->wait_rel = NULL;
		return NULL;
	}
	for (int i = 0; i < lcos_n && ! c->granted; i++) if (&lcos[i] != c && leaves(&lcos[i], r)) settle_one(&lcos[i], r);
	c->wait_rel = NULL;
	pbt_check(c->granted, "coroutine %d got the %s lock of relation %d too early", c->no, mode_name[mode], (int)(r - rls));
	pbt_check(! c->cancelled, "coroutine %d is cancelled, but its wait for a lock does not fail", c->no);
	return lock;
}
static void release(Lco* c, Rl* r, Hold* h)
{
	Lock* lock = h->lock;
	pbt_note("%d: unlock %s of %d", c->no, mode_name[h->mode], (int)(r - rls));
	if (--h->refs == 0) hold_del(r, h);
	lock_mgr_unlock(mgr(), lock);
}
static void release_all(Lco* c)
{
	pbt_note("%d: unlock all", c->no);
	// one unlock for each lock
	for (int i = 0; i < rls_n; i++)
		for (int k = 0; k < rls[i].hold_n; )
			if (rls[i].hold[k].co == c && ! rls[i].hold[k].named) { if (rls[i].hold[k].refs == 1) { hold_del(&rls[i], &rls[i].hold[k]); k = 0; } else k++; } else k++;
	unlock_all();
}
static int relock(Lco* c) { int n = 0; for (int i = 0; i < rls_n; i++) for (int k = 0; k < rls[i].hold_n; k++) if (rls[i].hold[k].co == c && ! rls[i].hold[k].named) n += rls[i].hold[k].refs > 1; return n; }
static bool pause_some(Lco* c)
{
	c->sleeping = true;
	bool err = error_catch( if (PICK(2)) coroutine_yield(); else coroutine_sleep(1 + PICK(5)); );
	c->sleeping = false; ran(c);
	pbt_check(err == c->cancelled, "sleep: wrong cancel");
	return ! err;
}
static int cmp_order(const void* a, const void* b) { uint64_t x = rls[*(int*)a].rel.lock_order, y = rls[*(int*)b].rel.lock_order; return (x > y) - (x < y); }
static Lco* lco_create(void);
static void lco_main(void* arg)
{
	Lco* c = arg;
	c->started = true; ran(c);
	bool ok = true;
	while (ok && ops-- > 0 && pbt_more(5)) {
		if (lcos_n < LCOS && PICK(5) == 0) lco_create();
		if (PICK(5) == 0) {
			Lco* t = &lcos[PICK(lcos_n)];
			if (t != c && ! t->done && coroutine_mgr_find(&am_task->coroutine_mgr, t->id)) {
				pbt_note("%d: cancel %d", c->no, t->no);
				t->cancelled = true;
				coroutine_kill_nowait(t->id);
			}
		}
		if (PICK(6) == 0) {
			// lock by name, it does not belong to the coroutine
			char t[32]; snprintf(t, sizeof(t), "lock_%d", ++named_seq);
			Str name; str_set_cstr(&name, t);
			Rl* r = &rls[PICK(rls_n)];
			int mode = 1 + PICK(4);
			pbt_note("%d: lock '%s' %s of %d", c->no, t, mode_name[mode], (int)(r - rls));
			bool failed;
			Lock* lock = take(c, r, mode, &name, named_seq, &failed);
			if (failed) break;
			for (int i = 0; i < r->hold_n; i++) if (r->hold[i].named && r->hold[i].co == c && ! r->hold[i].lock) { r->hold[i].lock = lock; }
			pbt_check(lock_mgr_find(mgr(), &name) == lock, "named lock is not found");
			pbt_class("named");
			continue;
		}
		// access of a statement: relations in any order, maybe several times
		Access access, more;
		access_init(&access); access_init(&more);
		int list[RELS], want[RELS] = { 0 }, n = 0, k = 1 + PICK(5);
		while (k-- > 0) {
			int r = PICK(rls_n), mode = 1 + PICK(MODES);
			access_add(&more, &rls[r].rel, mode);
			pbt_note("%d: access %s of %d", c->no, mode_name[mode], r);
			if (! want[r]) list[n++] = r;
			want[r] = both(want[r], mode);
		}
		access_merge(&access, &more);
		qsort(list, n, sizeof(int), cmp_order);
		pbt_check(access.list_count == n, "access has %d relations, expected %d", access.list_count, n);
		for (int i = 0; i < n; i++) {
			auto rec = access_at_ordered(&access, i);
			pbt_check(rec->rel == &rls[list[i]].rel && (int)rec->lock == want[list[i]], "access record %d is %s of a relation %d, expected %s of relation %d", i,
			          mode_name[rec->lock], (int)((Rl*)rec->rel - rls), mode_name[want[list[i]]], list[i]);
			auto f = access_find(&access, &rls[list[i]].db, &rls[list[i]].name);
			pbt_check(f == rec, "access of relation %d is not found", list[i]);
		}
		int held = 0;
		for (; held < n && ok; held++) {
			Rl* r = &rls[list[held]];
			bool failed;
			Lock* lock = take(c, r, want[list[held]], NULL, 0, &failed);
			if (failed) { ok = false; break; }
			Hold* h = hold_find(r, c, want[list[held]]);
			pbt_check(h, "harness: lost hold");
			h->lock = lock;
			pbt_check(lock->rel == &r->rel && lock->rel_lock == want[list[held]] && ! lock->waiting, "lock is wrong");
			verify("locked");
			if (PICK(8) == 0) ok = pause_some(c);
		}
		if (n > 1) pbt_class("several relations");
		while (ok && PICK(3)) {
			if (PICK(3) == 0) ok = pause_some(c);
			else if (PICK(4) == 3 && n) {
				// in another mode
				Rl* r = &rls[list[PICK(n)]];
				int mode = 1 + PICK(MODES);
				if (r->wait_n || ! fits(r, mode) || hold_find(r, c, mode) || r->hold_n > 60) continue;
				bool failed;
				Lock* lock = take(c, r, mode, NULL, 0, &failed);
				pbt_check(! failed && lock->rel == &r->rel && (int)lock->rel_lock == mode && ! lock->waiting, "lock in another mode is wrong");
				hold_find(r, c, mode)->lock = lock;
				verify("locked in another mode");
				pbt_class("several modes");
			}
			else if (PICK(2) && n) {
				// again
				Rl* r = &rls[list[PICK(n)]];
				Hold* h = NULL;
				for (int i = 0; i < r->hold_n; i++) if (r->hold[i].co == c && ! r->hold[i].named) h = &r->hold[i];
				if (! h) continue;
				Lock* was = h->lock; int refs = h->refs, mode = h->mode; bool failed;
				Lock* lock = take(c, r, mode, NULL, 0, &failed);
				pbt_check(! failed && lock == was, "lock taken again is another one");
				unused(refs);
				pbt_class("reentrant");
			} else {
				Rl* r = &rls[list[PICK(n)]];
				Hold* h = NULL;
				for (int i = 0; i < r->hold_n; i++) if (r->hold[i].co == c && ! r->hold[i].named) h = &r->hold[i];
				if (h) { release(c, r, h); verify("unlocked"); }
			}
		}
		// everything taken again is released first
		for (int i = 0; i < rls_n; i++)
			for (int k = 0; k < rls[i].hold_n; k++)
				while (rls[i].hold[k].co == c && ! rls[i].hold[k].named && rls[i].hold[k].refs > 1) release(c, &rls[i], &rls[i].hold[k]);
		pbt_check(relock(c) == 0, "harness: relock");
		release_all(c);
		verify("unlocked all");
		access_free(&access); access_free(&more);
		palloc_reset();
		if (ok && PICK(3) == 0) ok = pause_some(c);
	}
	c->done = true;
	pbt_note("%d: exits", c->no);
}
static Lco* lco_create(void)
{
	Lco* c = &lcos[lcos_n];
	memset(c, 0, sizeof(*c));
	c->no = lcos_n++;
	c->id = coroutine_create(lco_main, c);
	return c;
}
// whole access at once, as statements do; order of waits is what matters
static void simple_main(void* arg)
{
	Lco* c = arg;
	c->started = true;
	while (ops-- > 0 && pbt_more(5)) {
		Access access; access_init(&access);
		Access more; access_init(&more);
		int k = 1 + PICK(6), want[RELS] = { 0 };
		while (k-- > 0) { int r = PICK(rls_n), m = 1 + PICK(4); access_add(&more, &rls[r].rel, m); want[r] = both(want[r], m); }
		access_merge(&access, &more);
		c->wait_rel = rls; c->granted = false;
		lock_access(&access);
		c->wait_rel = NULL;
		for (int r = 0; r < rls_n; r++) {
			if (! want[r]) continue;
			for (int i = 0; i < rls[r].hold_n; i++) pbt_check(compatible(rls[r].hold[i].mode, want[r]), "relation %d is locked as %s and %s", r, mode_name[rls[r].hold[i].mode], mode_name[want[r]]);
			pbt_check(rls[r].hold_n < 64, "harness: holders");
			rls[r].hold[rls[r].hold_n++] = (Hold) { c, want[r], 1 };
		}
		c->sleeping = true;
		while (PICK(2)) { if (PICK(2)) coroutine_yield(); else coroutine_sleep(1 + PICK(4)); }
		c->sleeping = false;
		for (int r = 0; r < rls_n; r++)
			for (int i = 0; i < rls[r].hold_n; i++) if (rls[r].hold[i].co == c) { rls[r].hold[i] = rls[r].hold[--rls[r].hold_n]; break; }
		unlock_all();
		access_free(&access); access_free(&more);
		palloc_reset();
	}
	c->done = true;
}
static void simple_check(int timeout)
{
	if (timeout > 0) return;
	for (int i = 0; i < lcos_n; i++) pbt_check(lcos[i].done, "coroutine %d waits for locks forever (deadlock)", i);
}
static void run_case(void)
{
	vloop_enter();
	rls_n = 1 + PICK(RELS); lcos_n = 0; ops = 10 + PICK(120); named_seq = 0; waits = 0; grants_late = 0; turn = 0; turn_no = -1;
	uint64_t orders[RELS];
	for (int i = 0; i < rls_n; i++) {
		Rl* r = &rls[i];
		memset(r, 0, sizeof(*r));
		snprintf(r->text, sizeof(r->text), "rel_%d", i);
		str_set_cstr(&r->name, r->text); str_set_cstr(&r->db, "db");
		relation_init(&r->rel);
		relation_set_name(&r->rel, &r->name); relation_set_db(&r->rel, &r->db);
		// any distinct orders
		bool again = true;
		while (again) {
			static const uint64_t base[] = { 0, 0xfffffff0ull, 0x7ffffffffffffff0ull, 0xfffffffffffffff0ull };
			orders[i] = base[PICK(4)] + PICK(12); again = false;
			for (int k = 0; k < i; k++) if (orders[k] == orders[i]) again = true;
			if (again) { orders[i] = 1000 + i; again = false; for (int k = 0; k < i; k++) if (orders[k] == orders[i]) again = true; }
		}
		relation_set_rsn(&r->rel, orders[i]);
	}
	bool simple = PICK(4) == 0;
	int n = 2 + PICK(8);
	if (simple) {
		for (int i = 0; i < n; i++) {
			Lco* c = &lcos[lcos_n]; memset(c, 0, sizeof(*c)); c->no = lcos_n++;
			c->id = coroutine_create(simple_main, c);
		}
		vloop_check = simple_check;
		quiet_wait();
		pbt_class("access");
	} else {
		for (int i = 0; i < n; i++) lco_create();
		vloop_check = loop_check;
		for (int round = 0; ; round++) {
			quiet_wait();
			verify("everybody waits");
			// locks by name are released by somebody else
			Hold* h = NULL; Rl* hr = NULL;
			for (int i = 0; i < rls_n; i++) for (int k = 0; k < rls[i].hold_n; k++) if (rls[i].hold[k].named && (! h || PICK(2))) { h = &rls[i].hold[k]; hr = &rls[i]; }
			if (! h) break;
			char t[32]; snprintf(t, sizeof(t), "lock_%d", h->named);
			Str name; str_set_cstr(&name, t);
			pbt_note("unlock '%s'", t);
			Lock* lock = lock_mgr_find(mgr(), &name);
			pbt_check(lock && (! h->lock || h->lock == lock), "named lock is not found");
			hold_del(hr, h);
			lock_mgr_unlock(mgr(), lock);
			pbt_check(! lock_mgr_find(mgr(), &name), "released lock is still found");
			verify("unlock by name");
		}
		for (int i = 0; i < lcos_n; i++)
			pbt_check(! coroutine_mgr_find(&am_task->coroutine_mgr, lcos[i].id), "coroutine %d waits forever (deadlock)", i);
		if (waits > 2 && grants_late) pbt_nontrivial();
		pbt_count("waits", waits);
	}
	vloop_check = NULL;
	if (simple) pbt_nontrivial();
	for (int i = 0; i < rls_n; i++) {
		rls[i].hold_n = rls[i].wait_n = 0;
	}
	verify("end");
	for (int i = 0; i < rls_n; i++) relation_free(&rls[i].rel);
}
PbtHarness pbt_harness = { .name = "locks", .run = run_case };
