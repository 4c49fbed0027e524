// C01, C02: writers, a live reader with a slot, gc and the wal worker running at the same time
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "rows.h"
#include "store.h"
#include <stdatomic.h>
#include <sys/uio.h>
#ifdef WAL_SCHED
#include "sched.h"
#endif

// delays at the system calls make interleavings more different
static atomic_int delays;
static _Thread_local uint64_t rnd;
static void delay(void)
{
	int level = atomic_load(&delays);
	if (! level) return;
#ifdef WAL_SCHED
	if (sch_me && sch_rnd(4) == 0) usleep(sch_rnd(level));
	return;
#endif
	if (! rnd) rnd = (uint64_t)&rnd * 0x9e3779b97f4a7c15ull + time(NULL);
	rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
	if (rnd % 4 == 0) usleep((rnd >> 8) % level);
}
typedef struct { uint64_t ino; int64_t size; } Synced;
static Synced synced[65536];
static atomic_int synced_n;
static void sync_seen(int fd)
{
	struct stat st;
	if (fstat(fd, &st) || S_ISDIR(st.st_mode)) return;
	int i = atomic_fetch_add(&synced_n, 1);
	if (i < 65536) { synced[i].ino = st.st_ino; synced[i].size = st.st_size; }
}
ssize_t __real_writev(int fd, const struct iovec* v, int n);
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { delay(); ssize_t r = __real_writev(fd, v, n); delay(); return r; }
int __wrap_fdatasync(int fd) { sync_seen(fd); delay(); return 0; }
int __wrap_fsync(int fd) { sync_seen(fd); delay(); return 0; }
int __real_lstat(const char* p, struct stat* st);
int __wrap_lstat(const char* p, struct stat* st) { delay(); int r = __real_lstat(p, st); delay(); return r; }
int __real_open(const char* p, int flags, int mode);
int __wrap_open(const char* p, int flags, int mode) { delay(); int r = __real_open(p, flags, mode); delay(); return r; }

#define LSN_MAX 6000
static WalMgr mgr;
static atomic_ullong tags[LSN_MAX];     // what a writer stored, by lsn
static Schema schema;
static atomic_int writers_on, reader_bad;
static char reader_error[400];
static int  lists_n;

static uint64_t tag_of(Record* r)
{
	uint64_t tag;
	Row* row = (Row*)record_data(r);
	memcpy(&tag, row_at(row, 0), 8);
	return tag;
}
typedef struct { int id; uint64_t seed; Task task; } WriterTask;
static void writer_main(void* arg)
{
	WriterTask* self = arg;
	uint64_t x = self->seed * 2 + 1;
	uint64_t tag = (uint64_t)self->id << 32;
	enum { N = 3 };
	Write w[N]; WriteLog l[N];
	for (int i = 0; i < N; i++) { write_init(&w[i]); write_log_init(&l[i]); }
	for (int k = 0; k < lists_n; k++) {
		WriteList list; write_list_init(&list);
		Row* rows[N];
		x = x * 6364136223846793005ull + 1442695040888963407ull;
		int count = 1 + (x >> 40) % N;
		uint64_t first = tag;
		for (int i = 0; i < count; i++) {
			Cell c[2]; memset(c, 0, sizeof(c));
			c[0].i = tag++;
			char body[400]; memset(body, 'a' + (tag & 15), sizeof(body));
			c[1].p = (uint8_t*)body; c[1].n = (x >> 20) % 400;
			rows[i] = row_build(&schema, c);
			write_reset(&w[i]); write_log_reset(&l[i]);
			write_begin(&w[i]);
			Uuid id; uuid_init(&id); id.a = 1;
			write_log_add(&l[i], CMD_REPLACE, &id, rows[i]);
			write_add(&w[i], &l[i]);
			write_list_add(&list, &w[i]);
		}
		if (error_catch( wal_mgr_write(&mgr, &list) )) {
			snprintf(reader_error, sizeof(reader_error), "write error: %.*s", (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
			atomic_store(&reader_bad, 1);
		} else
			for (int i = 0; i < count; i++) atomic_store(&tags[list.lsn - count + 1 + i], first + i + 1);
		for (int i = 0; i < count; i++) free(rows[i]);
	}
	for (int i = 0; i < N; i++) { write_free(&w[i]); write_log_free(&l[i]); }
	atomic_fetch_sub(&writers_on, 1);
}
// follows the log as the replication does: a slot, a cursor, waiting for writes
static WalSlot slot;
static uint64_t reader_last;
static uint64_t reader_tags[LSN_MAX];
static atomic_int reader_stop;
static int reader_mode;
static void reader_fail(const char* fmt, ...)
{
	va_list a; va_start(a, fmt);
	vsnprintf(reader_error, sizeof(reader_error), fmt, a);
	va_end(a);
	atomic_store(&reader_bad, 1);
}
static void reader_main(void* arg)
{
	(void)arg;
	uint64_t expect = 1;
	bool failed = error_catch (
		wal_attach(&mgr.wal, &slot);
		WalCursor c; wal_cursor_init(&c);
		defer(wal_cursor_close, &c);
		wal_cursor_open(&c, &mgr.wal, 1, true, true);
		for (;;) {
			uint64_t limit = state_lsn();
			if (reader_mode == 2) {
				// up to the end of the log, whatever is there
				while (wal_cursor_next(&c)) {
					auto r = wal_cursor_at(&c);
					if (r->lsn != expect) { reader_fail("live reader: record %" PRIu64 " instead of %" PRIu64, r->lsn, expect); break; }
					reader_tags[expect] = tag_of(r);
					wal_slot_set(&slot, expect++);
				}
				if (atomic_load(&reader_bad)) break;
				if (limit >= expect) { reader_fail("live reader: no record %" PRIu64 ", the log is at %" PRIu64, expect, limit); break; }
				if (state_lsn() >= expect) continue;
			}
			if (limit >= expect) {
				// everything up to the limit is acknowledged
				while (expect <= limit) {
					if (reader_mode == 0) {
						if (! wal_cursor_next(&c)) { reader_fail("live reader: no record %" PRIu64 ", the log is at %" PRIu64, expect, limit); break; }
						auto r = wal_cursor_at(&c);
						if (r->lsn != expect) { reader_fail("live reader: record %" PRIu64 " instead of %" PRIu64, r->lsn, expect); break; }
						reader_tags[expect] = tag_of(r);
						expect++;
					} else {
						uint64_t lsn;
						int got = wal_cursor_readahead(&c, 1500, &lsn, limit);
						if (! got) { reader_fail("live reader: no record %" PRIu64 ", the log is at %" PRIu64, expect, limit); break; }
						int at = 0;
						while (at < got) {
							Record* r = (Record*)(c.buf.start + at);
							if (r->lsn != expect) { reader_fail("live reader: record %" PRIu64 " instead of %" PRIu64, r->lsn, expect); break; }
							reader_tags[expect++] = tag_of(r);
							at += r->size;
						}
						if (atomic_load(&reader_bad)) break;
					}
				}
				if (atomic_load(&reader_bad)) break;
				wal_slot_set(&slot, expect - 1);
				continue;
			}
			if (atomic_load(&reader_stop) && state_lsn() < expect) break;
			// a record written after this point has to wake the slot up
			if (event_wait(&slot.on_write, 8000) && state_lsn() >= expect) {
				reader_fail("TIMEOUT: live reader was not notified: it is at %" PRIu64 ", the log is at %" PRIu64, expect - 1, state_lsn());
				break;
			}
		}
		reader_last = expect - 1;
	);
	if (failed) reader_fail("live reader: %.*s", (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
}
static void verify_files(void)
{
	// the kept files have every record from the first one on
	WalCursor c; wal_cursor_init(&c);
	wal_cursor_open(&c, &mgr.wal, 0, true, true);
	uint64_t expect = 0;
	while (wal_cursor_next(&c)) {
		auto r = wal_cursor_at(&c);
		if (expect == 0) expect = r->lsn;
		pbt_check(r->lsn == expect, "log has record %" PRIu64 " instead of %" PRIu64, r->lsn, expect);
		pbt_check(r->lsn <= state_lsn(), "log has record %" PRIu64 " after the last one", r->lsn);
		pbt_check(atomic_load(&tags[r->lsn]) == tag_of(r) + 1, "record %" PRIu64 " is not what was written under this number", r->lsn);
		expect++;
	}
	wal_cursor_close(&c);
	if (expect) pbt_check(expect == state_lsn() + 1, "log ends before %" PRIu64 ", the last record is %" PRIu64, expect, state_lsn());
	// each start position is found
	for (int i = 0; i < 6 && expect; i++) {
		uint64_t from = 1 + pbt_pick(state_lsn());
		if (! wal_in_range(&mgr.wal, from)) continue;
		wal_cursor_init(&c);
		wal_cursor_open(&c, &mgr.wal, from, true, true);
		pbt_check(wal_cursor_next(&c), "no record %" PRIu64, from);
		pbt_check(wal_cursor_at(&c)->lsn == from, "reading from %" PRIu64 " starts at %" PRIu64, from, wal_cursor_at(&c)->lsn);
		wal_cursor_close(&c);
	}
}
static void setup(void)
{
	schema_init(&schema);
	schema_add(&schema, TYPE_INT, 8);
	schema_add(&schema, TYPE_STRING, 0);
}
static void case_run(void)
{
	base_create();
	for (int i = 0; i < LSN_MAX; i++) { atomic_store(&tags[i], 0); reader_tags[i] = 0; }
	opt_int_set(&config()->wal_crc, 1);
	opt_int_set(&config()->wal_worker, PICK(4) != 3);
	opt_int_set(&config()->wal_size, 1 + PICK(3000));
	opt_int_set(&config()->wal_sync_on_create, PICK(2));
	opt_int_set(&config()->wal_sync_on_close, PICK(3) > 0);
	opt_int_set(&config()->wal_sync_on_write, PICK(2));
	opt_int_set(&config()->wal_truncate, 0);
	opt_int_set(&state()->lsn, 0);
	int writers_n = opt_int_of(&config()->wal_worker) ? 1 + PICK(3) : 1;
#ifdef WAL_SCHED
	lists_n = 4 + PICK(30);
	opt_int_set(&config()->wal_size, 1 + PICK(1500));
#else
	lists_n = 20 + PICK(150);
#endif
	reader_mode = PICK(3);
	static const int levels[] = { 0, 30, 200, 1000 };
	int level = levels[PICK(4)];
	atomic_store(&synced_n, 0);
#ifdef WAL_SCHED
	sch_begin(60000000);
#endif
	wal_mgr_init(&mgr);
	wal_mgr_start(&mgr);
	wal_slot_init(&slot);
	wal_slot_set(&slot, 0);
	wal_add(&mgr.wal, &slot);
	atomic_store(&reader_bad, 0);
	atomic_store(&reader_stop, 0);
	atomic_store(&writers_on, writers_n);
	atomic_store(&delays, level);
	Task reader; task_init(&reader);
	task_create(&reader, "reader", reader_main, NULL);
	WriterTask writers[4];
	for (int i = 0; i < writers_n; i++) {
		writers[i].id = i + 1; writers[i].seed = pbt_pick(1 << 30);
		task_init(&writers[i].task);
		task_create(&writers[i].task, "writer", writer_main, &writers[i]);
	}
	// gc up to the slot and over it
	int64_t removed = 0;
	int syncs = PICK(3);
	while (atomic_load(&writers_on) > 0) {
		if (reader_mode == 2 && syncs) { usleep(300); continue; }
		int before = mgr.wal.list.list_count;
		uint64_t at = atomic_u64_of(&slot.lsn);
		wal_gc(&mgr.wal, UINT64_MAX);
		if (mgr.wal.list.list_count < before) removed++;
		uint64_t first = id_mgr_min(&mgr.wal.list);
		(void)at;
		pbt_check(first <= atomic_u64_of(&slot.lsn) + 1, "gc removed files up to %" PRIu64 ", the slot is at %" PRIu64, first, atomic_u64_of(&slot.lsn));
		if (syncs && opt_int_of(&config()->wal_worker)) wal_worker_request(&mgr.wal_worker, WAL_SYNC);
		usleep(300);
	}
	for (int i = 0; i < writers_n; i++) { task_wait(&writers[i].task); task_free(&writers[i].task); }
	atomic_store(&delays, 0);
	atomic_store(&reader_stop, 1);
	usleep(100);
	if (slot.on_write.bus) event_signal(&slot.on_write);
	task_wait(&reader); task_free(&reader);
	pbt_check(! atomic_load(&reader_bad), "%s", reader_error);
	uint64_t n = state_lsn();
	pbt_check(reader_last == n, "live reader stopped at %" PRIu64 " of %" PRIu64, reader_last, n);
	for (uint64_t i = 1; i <= n; i++)
		pbt_check(reader_tags[i] + 1 == atomic_load(&tags[i]), "live reader: record %" PRIu64 " is not what was written under this number", i);
	int files_n = mgr.wal.list.list_count;
	verify_files();
	wal_del(&mgr.wal, &slot);
	bool on_close = opt_int_of(&config()->wal_sync_on_close), on_write = opt_int_of(&config()->wal_sync_on_write);
	wal_mgr_stop(&mgr);
	wal_mgr_free(&mgr);
#ifdef WAL_SCHED
	pbt_count("switches", sch_switches);
	sch_end();
#endif
	if (on_close || on_write) {
		// each closed file is synced as a whole
		char t[1200]; sprintf(t, "%s/wal", base_dir);
		DIR* d = opendir(t); struct dirent* e;
		int total = atomic_load(&synced_n); if (total > 65536) total = 65536;
		while ((e = readdir(d))) {
			if (e->d_name[0] == '.') continue;
			char p[1500]; sprintf(p, "%s/%s", t, e->d_name);
			struct stat st; if (__real_lstat(p, &st) || st.st_size == 0) continue;
			int64_t size = 0;
			for (int i = 0; i < total; i++) if (synced[i].ino == st.st_ino && synced[i].size > size) size = synced[i].size;
			pbt_check(size >= st.st_size, "log file %s is closed with %" PRIi64 " of %" PRIi64 " bytes synced", e->d_name, size, (int64_t)st.st_size);
		}
		closedir(d);
	}
	// and again after a restart
	opt_int_set(&state()->lsn, 0);
	wal_mgr_init(&mgr);
	wal_mgr_start(&mgr);
	opt_int_set(&state()->lsn, n);
	verify_files();
	wal_mgr_stop(&mgr);
	wal_mgr_free(&mgr);
	if (files_n > 1 || removed) pbt_nontrivial();
	pbt_count("records", n);
	pbt_count("gc removed", removed);
	base_drop();
}
PbtHarness pbt_harness = { .name = "wal_threads", .setup = setup, .run = case_run };
