// C01, C02: histories over the write-ahead log against a list of acknowledged records
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "rows.h"
#include "store.h"
#include <sys/uio.h>

// ---------------------------------------------------------------- what reached the disk
// synced size by inode; the directory synced after the last file was made
typedef struct { uint64_t ino; int64_t size; } Synced;
static Synced synced[4096];
static int    synced_n;
static int    dir_syncs;
int __real_fdatasync(int fd);
int __real_fsync(int fd);
static void sync_seen(int fd)
{
	struct stat st;
	if (fstat(fd, &st)) return;
	if (S_ISDIR(st.st_mode)) { dir_syncs++; return; }
	int i = 0;
	while (i < synced_n && synced[i].ino != st.st_ino) i++;
	if (i == synced_n) {
		if (synced_n == 4096) return;
		synced[synced_n++].ino = st.st_ino;
	}
	synced[i].size = st.st_size;
}
static int sync_fail;
static int sync_run(int fd) { if (sync_fail) { errno = EIO; return -1; } sync_seen(fd); return 0; }
int __wrap_fdatasync(int fd) { return sync_run(fd); }
int __wrap_fsync(int fd) { return sync_run(fd); }
static int64_t synced_of(const char* path)
{
	struct stat st;
	if (stat(path, &st)) return -1;
	for (int i = 0; i < synced_n; i++) if (synced[i].ino == st.st_ino) return synced[i].size < st.st_size ? synced[i].size : st.st_size;
	return 0;
}

// ---------------------------------------------------------------- model
typedef struct { int cmd; Uuid id; int at, size; } Item;   // one row or operation
typedef struct {
	uint64_t lsn;
	uint8_t* data; int size;     // rows and operations in order
	Item*    items; int n;
	uint32_t disk;               // size of the record in the log
} Rec;
#define RECS_MAX 4000
static Rec  recs[RECS_MAX];
static int  recs_n, recs_base;   // records before base are known to be removed
static uint64_t lsn_last;

static void rec_free(Rec* r) { free(r->data); free(r->items); memset(r, 0, sizeof(*r)); }
static void recs_cut(int n) { while (recs_n > n) rec_free(&recs[--recs_n]); if (recs_base > n) recs_base = n; }

static WalMgr mgr;
static bool   worker;
static Schema schema;

static void path_of(char* to, uint64_t id) { sprintf(to, "%s/wal/%" PRIu64, base_dir, id); }
static uint64_t ids[4096];
static int files(void)
{
	char t[1200];
	sprintf(t, "%s/wal", base_dir);
	DIR* d = opendir(t);
	if (! d) return 0;
	int n = 0;
	struct dirent* e;
	while ((e = readdir(d))) if (e->d_name[0] != '.') ids[n++] = strtoull(e->d_name, NULL, 10);
	closedir(d);
	for (int i = 1; i < n; i++) for (int j = i; j > 0 && ids[j] < ids[j - 1]; j--) { uint64_t x = ids[j]; ids[j] = ids[j - 1]; ids[j - 1] = x; }
	return n;
}
// a record of the log is exactly the record of the model
static void same(Record* got, Rec* r, const char* when)
{
	pbt_check(got->lsn == r->lsn, "%s: record %" PRIu64 " is returned, expected %" PRIu64, when, got->lsn, r->lsn);
	pbt_check(got->size == r->disk, "%s: record %" PRIu64 " has size %u, expected %u", when, r->lsn, got->size, r->disk);
	pbt_check((int)got->ops == r->n, "%s: record %" PRIu64 " has %u operations, expected %d", when, r->lsn, got->ops, r->n);
	pbt_check(sizeof(Record) + got->count * sizeof(RecordCmd) + r->size == got->size, "%s: record %" PRIu64 " has %u commands in %u bytes", when, r->lsn, got->count, got->size);
	auto cmd = record_cmd(got);
	auto pos = record_data(got);
	pbt_check(! memcmp(pos, r->data, r->size), "%s: data of the record %" PRIu64 " is altered", when, r->lsn);
	int at = 0;
	for (uint32_t i = 0; i < got->count; i++) {
		uint32_t left = cmd[i].size;
		do {
			pbt_check(at < r->n, "%s: record %" PRIu64 " has more commands than written", when, r->lsn);
			Item* it = &r->items[at++];
			pbt_check(it->cmd == cmd[i].cmd && ! memcmp(&it->id, &cmd[i].id, sizeof(Uuid)), "%s: record %" PRIu64 " operation %d has command %d instead of %d", when, r->lsn, at - 1, cmd[i].cmd, it->cmd);
			pbt_check((uint32_t)it->size <= left, "%s: record %" PRIu64 " operation %d: command is too short", when, r->lsn, at - 1);
			left -= it->size;
		} while (left);
		if (opt_int_of(&config()->wal_crc)) {
			pbt_check(record_validate_cmd(&cmd[i], pos), "%s: record %" PRIu64 " command %u crc", when, r->lsn, i);
		}
		pos += cmd[i].size;
	}
	pbt_check(at == r->n, "%s: record %" PRIu64 " has fewer commands than written", when, r->lsn);
}
static int rec_find(uint64_t lsn) { int i = recs_base; while (i < recs_n && recs[i].lsn < lsn) i++; return i; }

// ---------------------------------------------------------------- writing
#define W_MAX 4
static Write    writes[W_MAX];
static WriteLog logs[W_MAX][4];
static Row*     rows_used[W_MAX * 4 * 40]; static int rows_used_n;
static Buf      ops_buf[64]; static int ops_buf_n;
static int      big;     // iovs in the write

static void log_fill(WriteLog* log, Rec* r, Sb* data, Item** items, int* cap, int w)
{
	(void)w;
	int n = 1 + PICK(4);
	bool many = pbt_chance(1, 60);
	Uuid id; uuid_init(&id); id.a = 1 + PICK(3); id.b = 7;
	int cmd = PICK(2) ? CMD_REPLACE : CMD_DELETE;
	if (many) n = 1100;
	Row* row = NULL;
	for (int i = 0; i < n; i++) {
		Item it; memset(&it, 0, sizeof(it));
		if (! many && pbt_chance(1, 4)) { id.a = 1 + PICK(3); cmd = PICK(2) ? CMD_REPLACE : CMD_DELETE; }
		if (! many && pbt_chance(1, 10) && ops_buf_n < 64) {
			auto buf = &ops_buf[ops_buf_n++];
			buf_init(buf);
			encode_array(buf);
			char text[300]; int size = pbt_size(250);
			memset(text, 'a' + PICK(26), size);
			Str s; str_set(&s, text, size);
			encode_string(buf, &s);
			encode_integer(buf, PICK(100000));
			encode_array_end(buf);
			it.cmd = PICK(2) ? CMD_DDL : CMD_DDL_CREATE_INDEX;
			it.size = buf_size(buf);
			write_log_add_op(log, it.cmd, buf->start);
			it.at = data->n;
			sb_add(data, buf->start, it.size);
		} else {
			if (! row || (! many && pbt_chance(2, 3))) {
				Cell c[2]; memset(c, 0, sizeof(c));
				c[0].i = PICK(1000);
				int size = pbt_chance(1, 40) ? PICK(70000) : pbt_size(300);
				c[1].p = malloc(size + 8); c[1].n = size;
				uint64_t v = pbt_pick(1 << 30);
				for (int k = 0; k < size; k++) c[1].p[k] = (v = v * 6364136223846793005ull + 1442695040888963407ull) >> 56;
				row = row_build(&schema, c);
				free(c[1].p);
				rows_used[rows_used_n++] = row;
			}
			it.cmd = cmd; it.id = id; it.size = row_size(row); it.at = data->n;
			write_log_add(log, cmd, &id, row);
			sb_add(data, row, it.size);
		}
		if (r->n == *cap) *items = realloc(*items, sizeof(Item) * (*cap = *cap * 2 + 8));
		(*items)[r->n++] = it;
	}
}
static int failed_writes;
static void check_synced(Rec* first)
{
	// the file which holds the record is synced up to its end
	int n = files();
	int at = n - 1;
	while (at > 0 && ids[at] > first->lsn) at--;
	for (; at < n; at++) {
		char t[1200]; path_of(t, ids[at]);
		struct stat st;
		if (stat(t, &st)) continue;
		pbt_check(synced_of(t) >= st.st_size, "records up to %" PRIu64 " are acknowledged with wal_sync_on_write, but only %" PRIi64 " of %" PRIi64 " bytes of the log file %" PRIu64 " are synced",
		          lsn_last, synced_of(t), (int64_t)st.st_size, ids[at]);
	}
}
static WalSlot slots[4];
static bool    slot_used[4], slot_attached[4];

enum { FAIL_NONE, FAIL_SIZE, FAIL_SYNC, FAIL_CREATE };
static void op_write(int inject)
{
	int count = 1 + PICK(W_MAX - 1);
	if (recs_n + count >= RECS_MAX) return;
	WriteList list; write_list_init(&list);
	Rec made[W_MAX]; memset(made, 0, sizeof(made));
	rows_used_n = ops_buf_n = 0;
	int64_t total = 0;
	for (int w = 0; w < count; w++) {
		auto write = &writes[w];
		write_reset(write);
		write_begin(write);
		Sb data; memset(&data, 0, sizeof(data));
		int cap = 0, lc = 1 + PICK(3);
		for (int l = 0; l < lc; l++) {
			write_log_reset(&logs[w][l]);
			log_fill(&logs[w][l], &made[w], &data, &made[w].items, &cap, w);
			write_add(write, &logs[w][l]);
		}
		write_list_add(&list, write);
		made[w].data = (uint8_t*)data.p; made[w].size = data.n; made[w].disk = write->header.size;
		total += made[w].disk;
	}
	int files_before = 0;
	bool dir_check = ! inject && ! worker && opt_int_of(&config()->wal_sync_on_create);
	if (dir_check) { files_before = files(); dir_syncs = 0; }
	struct rlimit old;
	int64_t limit = -1;
	char current[1200];
	path_of(current, mgr.wal.current->id);
	struct rlimit old_files;
	if (worker && inject != FAIL_SIZE) inject = FAIL_NONE;
	if (inject == FAIL_SYNC) sync_fail = 1;
	if (inject == FAIL_CREATE) {
		int fd = dup(0); close(fd);
		getrlimit(RLIMIT_NOFILE, &old_files);
		struct rlimit rl = old_files; rl.rlim_cur = fd;
		setrlimit(RLIMIT_NOFILE, &rl);
	}
	if (inject == FAIL_SIZE) {
		limit = mgr.wal.current->file.size + PICK(total + total / 4 + 1);
		getrlimit(RLIMIT_FSIZE, &old);
		struct rlimit rl = old; rl.rlim_cur = limit;
		setrlimit(RLIMIT_FSIZE, &rl);
	}
	bool failed = error_catch(wal_mgr_write(&mgr, &list));
	if (inject == FAIL_SIZE) setrlimit(RLIMIT_FSIZE, &old);
	if (inject == FAIL_CREATE) setrlimit(RLIMIT_NOFILE, &old_files);
	sync_fail = 0;
	for (int i = 0; i < rows_used_n; i++) free(rows_used[i]);
	for (int i = 0; i < ops_buf_n; i++) buf_free(&ops_buf[i]);
	if (failed) {
		pbt_check(inject && inject != FAIL_CREATE, "write failed: %.*s", (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		pbt_check(state_lsn() == lsn_last, "lsn is %" PRIu64 " after a failed write, expected %" PRIu64, state_lsn(), lsn_last);
		for (int w = 0; w < count; w++) rec_free(&made[w]);
		failed_writes++;
		pbt_note("write of %d records failed at %" PRIi64, count, limit);
		pbt_class(inject == FAIL_SYNC ? "failed sync" : "failed write");
		return;
	}
	for (int w = 0; w < count; w++) {
		made[w].lsn = ++lsn_last;
		recs[recs_n++] = made[w];
	}
	pbt_check(list.lsn == lsn_last, "write list lsn is %" PRIu64 ", expected %" PRIu64, list.lsn, lsn_last);
	pbt_check(state_lsn() == lsn_last, "lsn is %" PRIu64 " after a write, expected %" PRIu64, state_lsn(), lsn_last);
	pbt_note("write %d records up to %" PRIu64 ", %" PRIi64 " bytes", count, lsn_last, total);
	pbt_check(inject != FAIL_SYNC || ! opt_int_of(&config()->wal_sync_on_write), "write is acknowledged with wal_sync_on_write, but the sync failed");
	if (opt_int_of(&config()->wal_sync_on_write)) check_synced(&made[0]);
	if (dir_check && files() != files_before)
		pbt_check(dir_syncs > 0, "new log file is not followed by a sync of the directory");
	// wakeups
	for (int i = 0; i < 4; i++)
		if (slot_attached[i] && atomic_u64_of(&slots[i].lsn) < lsn_last) {
			pbt_check(! event_wait(&slots[i].on_write, 3000), "slot at %" PRIu64 " is not notified about the record %" PRIu64, atomic_u64_of(&slots[i].lsn), lsn_last);
			pbt_count("wakeups", 1);
		}
}

// ---------------------------------------------------------------- reading
static void op_read(void)
{
	// from any position
	uint64_t from;
	if (recs_n > recs_base && pbt_chance(3, 4)) from = recs[recs_base + PICK(recs_n - recs_base)].lsn + PICK(2);
	else from = PICK(2) ? lsn_last + PICK(3) : 0;
	bool crc = opt_int_of(&config()->wal_crc) && PICK(2);
	int n = files();
	bool range = n && from >= ids[0];
	pbt_check(wal_in_range(&mgr.wal, from) == range, "wal_in_range(%" PRIu64 ") with the first file %" PRIu64, from, ids[0]);
	WalCursor c; wal_cursor_init(&c);
	wal_cursor_open(&c, &mgr.wal, from, true, crc);
	char when[100]; sprintf(when, "read from %" PRIu64, from);
	if (from && ! range) {
		pbt_check(! wal_cursor_active(&c) || worker, "%s: cursor is open before the first file %" PRIu64, when, ids[0]);
	} else {
		pbt_check(wal_cursor_active(&c), "%s: cursor is not open", when);
		int at = rec_find(from);
		if (from == 0) {
			// everything that is still in the files
			pbt_check(wal_cursor_next(&c) || at == recs_n, "%s: no records, expected %d", when, recs_n - at);
			if (at < recs_n) {
				uint64_t first = wal_cursor_at(&c)->lsn;
				pbt_check(first <= recs[at].lsn, "%s: first record is %" PRIu64 ", %" PRIu64 " is required", when, first, recs[at].lsn);
				at = 0; while (at < recs_n && recs[at].lsn < first) at++;
				same(wal_cursor_at(&c), &recs[at++], when);
			}
		}
		if (PICK(2)) {
			while (wal_cursor_next(&c)) {
				pbt_check(at < recs_n, "%s: record %" PRIu64 " after the last one", when, wal_cursor_at(&c)->lsn);
				same(wal_cursor_at(&c), &recs[at++], when);
			}
		} else {
			for (;;) {
				int size = 1 + PICK(3000);
				uint64_t lsn = 0, max = pbt_chance(1, 3) ? (at < recs_n ? recs[at + PICK(recs_n - at)].lsn : 0) : UINT64_MAX;
				int got = wal_cursor_readahead(&c, size, &lsn, max);
				if (! got) break;
				pbt_check(got == (int)buf_size(&c.buf), "%s: readahead returned %d, buffer has %d", when, got, (int)buf_size(&c.buf));
				int sum = 0;
				while (sum < got) {
					pbt_check(sum < size, "%s: readahead continues after %d bytes", when, size);
					Record* r = (Record*)(c.buf.start + sum);
					pbt_check(at < recs_n, "%s: record %" PRIu64 " after the last one", when, r->lsn);
					sum += r->size;
					pbt_check(sum <= got, "%s: readahead returned a part of the record %" PRIu64, when, r->lsn);
					same(r, &recs[at++], when);
					pbt_check(r->lsn <= max || max == 0, "%s: readahead up to %" PRIu64 " returned %" PRIu64, when, max, r->lsn);
				}
				pbt_check(lsn == recs[at - 1].lsn, "%s: readahead lsn is %" PRIu64 ", last record is %" PRIu64, when, lsn, recs[at - 1].lsn);
				pbt_check(sum >= size || lsn == max || at == recs_n, "%s: readahead stopped at %d of %d bytes, record %" PRIu64, when, sum, size, lsn);
			}
		}
		pbt_check(at == recs_n, "%s: ends after %" PRIu64 ", expected up to %" PRIu64, when, at > recs_base ? recs[at - 1].lsn : 0, lsn_last);
	}
	wal_cursor_close(&c);
}
// a cursor that is kept between the operations
static WalCursor live; static bool live_on; static int live_at;
static void live_close(void) { if (live_on) wal_cursor_close(&live); live_on = false; }
static void op_live(void)
{
	if (! live_on) {
		uint64_t from = recs_n > recs_base ? recs[recs_base + PICK(recs_n - recs_base)].lsn : lsn_last + 1;
		if (! files() || ! wal_in_range(&mgr.wal, from)) return;
		wal_cursor_init(&live);
		wal_cursor_open(&live, &mgr.wal, from, true, opt_int_of(&config()->wal_crc) && PICK(2));
		pbt_check(wal_cursor_active(&live), "live cursor is not open at %" PRIu64, from);
		live_at = rec_find(from);
		live_on = true;
		pbt_note("live cursor at %" PRIu64, from);
	}
	int n = PICK(8);
	while (n--) {
		if (! wal_cursor_next(&live)) {
			pbt_check(live_at == recs_n, "live cursor ends after %d records of %d", live_at, recs_n);
			break;
		}
		pbt_check(live_at < recs_n, "live cursor: record %" PRIu64 " after the last one", wal_cursor_at(&live)->lsn);
		same(wal_cursor_at(&live), &recs[live_at++], "live cursor");
		pbt_count("live records", 1);
	}
}

// ---------------------------------------------------------------- restart
static void mgr_free_all(void) { wal_mgr_free(&mgr); }
static void mgr_make(void) { wal_mgr_init(&mgr); }
// opens the log and reads it as recovery does; the number of model records returned; -1 with *error
static int recover_all(bool* error, int* stop)
{
	*error = false;
	opt_int_set(&state()->lsn, 0);
	volatile int at = -1;
	*stop = 0;
	bool failed = error_catch (
		wal_mgr_start(&mgr);
		uint64_t id = 0;
		for (;;) {
			WalCursor c; wal_cursor_init(&c);
			defer(wal_cursor_close, &c);
			wal_cursor_open(&c, &mgr.wal, id, false, opt_int_of(&config()->wal_crc));
			while (wal_cursor_next(&c)) {
				auto record = wal_cursor_at(&c);
				if (opt_int_of(&config()->wal_crc)) {
					auto cmd = record_cmd(record); auto pos = record_data(record);
					for (uint32_t i = 0; i < record->count; i++) {
						if (! record_validate_cmd(&cmd[i], pos)) error("command mismatch");
						pos += cmd[i].size;
					}
				}
				if (at == -1) {
					at = 0; while (at < recs_n && recs[at].lsn < record->lsn) at++;
					pbt_check(at <= recs_base, "recovery starts from %" PRIu64 ", %" PRIu64 " is required", record->lsn, recs[recs_base].lsn);
				}
				pbt_check(at < recs_n, "recovery: record %" PRIu64 " after the last one", record->lsn);
				same(record, &recs[at], "recovery"); at++;
				state_lsn_follow(record->lsn);
			}
			if (! wal_cursor_active(&c)) break;
			id = id_mgr_next(&mgr.wal.list, c.file->id);
			if (id == UINT64_MAX) break;
		}
	);
	if (failed) { *error = true; pbt_note("recovery error: %.*s", (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text)); }
	return at;
}
static void close_all(void)
{
	live_close();
	for (int i = 0; i < 4; i++) if (slot_used[i]) { wal_del(&mgr.wal, &slots[i]); slot_used[i] = slot_attached[i] = false; }
}
static uint64_t lsn_checkpoint;
static void after_recovery(int at)
{
	// what a checkpoint has is never behind the removed files
	if (lsn_checkpoint > state_lsn()) state_lsn_follow(lsn_checkpoint);
	recs_cut(at);
	lsn_last = state_lsn();
}
static void op_restart(void)
{
	close_all();
	wal_mgr_stop(&mgr);
	wal_mgr_free(&mgr);
	wal_mgr_init(&mgr);
	bool bad; int stop;
	int at = recover_all(&bad, &stop);
	pbt_check(! bad, "clean restart: %.*s", (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
	if (at == -1) at = recs_base;
	pbt_check(at == recs_n, "clean restart returned records up to %d of %d", at, recs_n);
	after_recovery(recs_n);
	pbt_note("restart at %" PRIu64, lsn_last);
}
static void op_truncate(void)
{
	if (recs_n == recs_base) return;
	// keep records up to the lsn, given by the option
	int k = recs_base + PICK(recs_n - recs_base);
	close_all();
	wal_mgr_stop(&mgr);
	wal_mgr_free(&mgr);
	wal_mgr_init(&mgr);
	files();
	uint64_t lsn = recs[k].lsn;
	bool before = ids[0] > 1 && recs_base > 0 && PICK(4) == 0;
	if (before) {
		// below of everything that is left
		lsn = 1 + PICK(ids[0] - 1);
		opt_int_set(&config()->wal_truncate, lsn);
		bool bad; int stop;
		int at = recover_all(&bad, &stop);
		pbt_check(! bad, "restart with wal_truncate: %.*s", (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		pbt_check(at == -1, "wal_truncate %" PRIu64 " keeps records, the first one was %" PRIu64, lsn, ids[0]);
		pbt_check(opt_int_of(&config()->wal_truncate) == 0, "wal_truncate is not reset");
		files();
		recs_cut(0); recs_base = 0;
		lsn_checkpoint = ids[0] - 1;
		// numbers continue from the file
		state_lsn_follow(lsn_checkpoint);
		lsn_last = state_lsn();
		pbt_class("truncate all");
		return;
	}
	opt_int_set(&config()->wal_truncate, lsn);
	recs_cut(k + 1);
	bool bad; int stop;
	int at = recover_all(&bad, &stop);
	pbt_check(! bad, "restart with wal_truncate: %.*s", (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
	pbt_check(at == k + 1, "wal_truncate %" PRIu64 " keeps records up to %d, expected %d", lsn, at, k + 1);
	pbt_check(opt_int_of(&config()->wal_truncate) == 0, "wal_truncate is not reset");
	if (lsn_checkpoint > lsn) lsn_checkpoint = lsn;
	after_recovery(at);
	pbt_note("truncate to %" PRIu64, lsn_last);
}
// a crash: the last file loses, repeats or alters bytes after the last intact record
static void op_crash(void)
{
	int n = files();
	if (! n) return;
	uint64_t last = ids[n - 1];
	close_all();
	opt_int_set(&config()->wal_sync_on_close, 0);
	wal_mgr_stop(&mgr);
	wal_mgr_free(&mgr);
	wal_mgr_init(&mgr);
	n = files(); last = ids[n - 1];
	char path[1200]; path_of(path, last);
	int size; char* data = file_load(path, &size);
	// offsets of the records in the last file
	int first = recs_n; int64_t sum = 0;
	while (first > recs_base && recs[first - 1].lsn >= last) sum += recs[--first].disk;
	pbt_check(sum == size, "log file %" PRIu64 " has %d bytes, records make %" PRIi64, last, size, sum);
	int64_t at = 0, end_of[RECS_MAX > 4000 ? 1 : 1]; (void)end_of;
	int kind = PICK(5), keep = recs_n;
	bool crc = opt_int_of(&config()->wal_crc);
	if (! crc && kind > 1) kind = 0;
	char* out = malloc(size + 70000); memcpy(out, data, size);
	int out_size = size;
	bool torn = false;
	if (kind == 0 || kind == 1) {
		// torn or lost tail: cut anywhere, more often close to the end or to a border
		int cut = PICK(3) == 0 ? PICK(size + 1) : size - PICK(size < 200 ? size + 1 : 200);
		if (pbt_chance(1, 4) && first < recs_n) {
			int r = first + PICK(recs_n - first); int64_t o = 0;
			for (int i = first; i < r; i++) o += recs[i].disk;
			int d = PICK(64) - 20;
			cut = o + d; if (cut < 0) cut = 0; if (cut > size) cut = size;
		}
		out_size = cut;
		int64_t o = 0;
		for (keep = first; keep < recs_n && o + recs[keep].disk <= cut; keep++) o += recs[keep].disk;
		torn = true;
		pbt_note("crash: file %" PRIu64 " cut to %d of %d, %d records stay", last, cut, size, keep);
		pbt_class("torn");
	} else if (size > 0) {
		int r = first + PICK(recs_n - first); int64_t o = 0;
		for (int i = first; i < r; i++) o += recs[i].disk;
		int where = o + (PICK(2) ? PICK((int)sizeof(Record)) : PICK(recs[r].disk));
		keep = r;
		if (kind == 2) {
			int bit = PICK(8);
			out[where] ^= 1 << bit;
			pbt_note("crash: flip bit %d of byte %d (byte %d of the record %" PRIu64 ")", bit, where, (int)(where - o), recs[r].lsn);
		} else if (kind == 3) {
			// the tail is zeroes
			bool changed = false;
			for (int i = where; i < size; i++) if (out[i]) changed = true;
			memset(out + where, 0, size - where);
			if (PICK(2)) { int more = PICK(5000); memset(out + size, 0, more); out_size = size + more; }
			// records before the first altered byte stay
			int64_t b = 0; int i = 0; while (i < size && out[i] == data[i]) i++;
			for (keep = first; keep < recs_n && b + recs[keep].disk <= i; keep++) b += recs[keep].disk;
			(void)changed;
			pbt_note("crash: zeroes from %d", where);
		} else {
			int len = 1 + PICK(80); if (where + len > size) len = size - where;
			for (int i = 0; i < len; i++) out[where + i] = pbt_pick(256);
			int64_t b = 0; int i = 0; while (i < size && out[i] == data[i]) i++;
			for (keep = first; keep < recs_n && b + recs[keep].disk <= i; keep++) b += recs[keep].disk;
			pbt_note("crash: %d bytes overwritten at %d", len, where);
		}
		pbt_class("damage");
	}
	file_store(path, out, out_size);
	free(out); free(data);
	(void)at;
	bool bad; int stop;
	int got = recover_all(&bad, &stop);
	if (got == -1) got = recs_base;
	if (torn) {
		pbt_check(! bad, "torn tail is not accepted: %.*s", (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		pbt_check(got == keep, "recovery of a torn log returned records up to %d, expected %d", got, keep);
	} else {
		pbt_check(got >= keep, "recovery of a damaged log returned records up to %d, records up to %d are intact", got, keep);
		if (! bad && got != recs_n) pbt_count("damage ends clean", 1);
	}
	if (bad) {
		// the way out: truncate to the last valid lsn
		uint64_t valid = state_lsn();
		error_catch(wal_mgr_stop(&mgr));
		wal_mgr_free(&mgr);
		wal_mgr_init(&mgr);
		if (valid == 0) {
			// nothing before it: the file is removed by hand
			for (int i = 0; i < n; i++) { path_of(path, ids[i]); unlink(path); }
		} else
			opt_int_set(&config()->wal_truncate, valid);
		int cut = got;
		recs_cut(cut);
		got = recover_all(&bad, &stop);
		if (got == -1) got = recs_base;
		pbt_check(! bad, "restart with wal_truncate after the damage: %.*s", (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		pbt_check(got == cut, "restart with wal_truncate after the damage returned up to %d, expected %d", got, cut);
		pbt_class("truncate after damage");
	}
	after_recovery(got);
}

// ---------------------------------------------------------------- gc, slots
static void op_slot(void)
{
	int i = PICK(4);
	switch (PICK(4)) {
	case 0:
		if (slot_used[i]) break;
		wal_slot_init(&slots[i]);
		wal_slot_set(&slots[i], recs_n > recs_base ? recs[recs_base + PICK(recs_n - recs_base)].lsn - PICK(2) : lsn_last);
		wal_add(&mgr.wal, &slots[i]);
		slot_used[i] = true;
		if (PICK(2)) { wal_attach(&mgr.wal, &slots[i]); slot_attached[i] = true; }
		pbt_note("slot %d added at %" PRIu64, i, atomic_u64_of(&slots[i].lsn));
		break;
	case 1:
		if (! slot_used[i]) break;
		wal_del(&mgr.wal, &slots[i]);
		slot_used[i] = slot_attached[i] = false;
		pbt_note("slot %d removed", i);
		break;
	case 2:
		if (! slot_used[i]) break;
		{ uint64_t lsn = atomic_u64_of(&slots[i].lsn); if (lsn < lsn_last) lsn += 1 + PICK(lsn_last - lsn); wal_slot_set(&slots[i], lsn); }
		break;
	case 3:
		if (! slot_used[i]) break;
		wal_attach(&mgr.wal, &slots[i]);
		slot_attached[i] = true;
		break;
	}
}
static uint64_t slots_min(int* count)
{
	uint64_t min = UINT64_MAX; *count = 0;
	for (int i = 0; i < 4; i++) if (slot_used[i]) { (*count)++; if (atomic_u64_of(&slots[i].lsn) < min) min = atomic_u64_of(&slots[i].lsn); }
	return min;
}
static void op_gc(void)
{
	int count;
	uint64_t min = recs_n > recs_base && PICK(4) ? recs[recs_base + PICK(recs_n - recs_base)].lsn + PICK(2) : lsn_last + PICK(2);
	uint64_t low = slots_min(&count); if (min < low) low = min;
	int before = files();
	uint64_t was[4096]; memcpy(was, ids, sizeof(uint64_t) * before);
	wal_gc(&mgr.wal, min);
	int after = files();
	int drop = 0; while (drop + 1 < before && was[drop + 1] <= low) drop++;
	pbt_note("gc %" PRIu64 " (slots %d, low %" PRIu64 "): %d of %d files removed", min, count, low, before - after, before);
	pbt_check(after >= 1, "gc removed the current log file");
	if (! worker) {
		pbt_check(before - after <= drop, "gc %" PRIu64 " removed %d files, records from %" PRIu64 " are needed, only %d of the files are below", min, before - after, low, drop);
		pbt_check(before - after == drop, "gc %" PRIu64 " kept %d files of %d which have no records from %" PRIu64, min, drop - (before - after), drop, low);
	}
	if (ids[0] != was[0]) pbt_check(ids[0] <= low, "gc %" PRIu64 " removed files up to %" PRIu64 ", records from %" PRIu64 " are needed", min, ids[0], low);
	for (int i = 0; i < after; i++) { int k = 0; while (k < before && was[k] != ids[i]) k++; if (! worker) pbt_check(k < before, "unexpected file"); }
	if (before != after || was[0] != ids[0]) {
		pbt_class("gc removed files");
		live_close(); // its file may be gone
		if (min > lsn_checkpoint && min <= lsn_last + 1) lsn_checkpoint = min > lsn_last ? lsn_last : min;
	}
	// records which may be gone now
	while (recs_base < recs_n && recs[recs_base].lsn < ids[0]) recs_base++;
}
static uint64_t status_of(uint8_t* obj, const char* name)
{
	Str s; str_set_cstr(&s, name);
	uint8_t* pos = obj;
	if (! json_obj_find(&pos, name, strlen(name))) pbt_fail("wal status has no %s", name);
	int64_t v; json_read_integer(&pos, &v);
	return v;
}
static void op_status(void)
{
	auto buf = wal_status(&mgr.wal);
	int n = files(), count;
	uint64_t min = slots_min(&count);
	pbt_check(status_of(buf->start, "lsn") == lsn_last, "status lsn");
	pbt_check((int)status_of(buf->start, "slots") == count, "status slots");
	pbt_check(status_of(buf->start, "slots_min") == min, "status slots_min is %" PRIi64 ", expected %" PRIi64, (int64_t)status_of(buf->start, "slots_min"), (int64_t)min);
	if (! worker) {
		pbt_check((int)status_of(buf->start, "files") == n, "status files");
		pbt_check(status_of(buf->start, "lsn_min") == ids[0], "status lsn_min");
	}
	buf_free(buf);
}
static void op_snapshot(void)
{
	// every file is listed with its size and stays until the slot is removed
	WalSlot s; wal_slot_init(&s);
	auto data = buf_create();
	wal_snapshot(&mgr.wal, &s, data);
	uint8_t* pos = data->start;
	int n = files(), at = 0;
	json_read_array(&pos);
	while (! json_read_array_end(&pos)) {
		Str path; int64_t size, mode;
		decode_basefile(&pos, &path, &size, &mode);
		char t[1200]; snprintf(t, sizeof(t), "%s/%.*s", base_dir, str_size(&path), str_of(&path));
		struct stat st;
		pbt_check(stat(t, &st) == 0, "snapshot lists %s", t);
		if (! worker) {
			pbt_check(at < n, "snapshot has more than %d files", n);
			char e[64]; sprintf(e, "wal/%" PRIu64, ids[at]);
			pbt_check(str_is_cstr(&path, e), "snapshot has %.*s, expected %s", str_size(&path), str_of(&path), e);
			pbt_check(size == st.st_size && mode == st.st_mode, "snapshot %s has size %" PRIi64 ", file %" PRIi64, e, size, (int64_t)st.st_size);
		}
		at++;
	}
	if (! worker) pbt_check(at == n, "snapshot has %d files, expected %d", at, n);
	buf_free(data);
	int writes_n = PICK(3);
	while (writes_n--) op_write(FAIL_NONE);
	uint64_t first = n ? ids[0] : 0; n = files(); first = ids[0];
	wal_gc(&mgr.wal, lsn_last);
	files();
	pbt_check(ids[0] == first, "log files of the snapshot were removed: first is %" PRIu64 ", was %" PRIu64, ids[0], first);
	wal_del(&mgr.wal, &s);
}

// offsets above 4 GiB
static void op_large(void)
{
	char path[1200];
	sprintf(path, "%s/wal", base_dir);
	path_of(path, 999999999);
	int fd = open(path, O_CREAT | O_RDWR | O_EXCL, 0644);
	if (fd == -1) abort();
	int64_t at = (int64_t)(PICK(3) + 1) * (1ll << 32) - 300 + PICK(600);
	int size = 1 + PICK(300);
	struct { Record r; RecordCmd c; char data[400]; } packed rec;
	memset(&rec, 0, sizeof(rec));
	rec.r.count = 1; rec.r.lsn = 12345; rec.r.ops = 1; rec.r.size = sizeof(Record) + sizeof(RecordCmd) + size;
	for (int i = 0; i < size; i++) rec.data[i] = i * 7;
	if (pwrite(fd, &rec, rec.r.size, at) != rec.r.size) { close(fd); unlink(path); return; }
	close(fd);
	auto file = wal_file_allocate(999999999);
	Buf buf; buf_init(&buf);
	wal_file_open(file);
	pbt_check(wal_file_pread(file, at, &buf), "record at %" PRIi64 " is not read", at);
	pbt_check(buf_size(&buf) == rec.r.size && ! memcmp(buf.start, &rec, rec.r.size), "record at %" PRIi64 " is altered", at);
	buf_reset(&buf);
	pbt_check(! wal_file_pread(file, at + rec.r.size, &buf), "a record after the end of file");
	pbt_check(! wal_file_pread(file, at + rec.r.size - PICK(20), &buf), "a record after the end of file");
	wal_file_close(file);
	wal_file_free(file);
	buf_free(&buf);
	unlink(path);
	pbt_count("large offsets", 1);
}
static void configure(void)
{
	opt_int_set(&config()->wal_crc, PICK(5) != 4);
	opt_int_set(&config()->wal_size, PICK(4) == 0 ? 1 << 20 : 1 + PICK(3000));
	opt_int_set(&config()->wal_sync_on_create, PICK(2));
	opt_int_set(&config()->wal_sync_on_close, PICK(2));
	opt_int_set(&config()->wal_sync_on_write, PICK(2));
	opt_int_set(&config()->wal_truncate, 0);
}
static void setup(void)
{
	signal(SIGXFSZ, SIG_IGN);
	for (int i = 0; i < W_MAX; i++) {
		write_init(&writes[i]);
		for (int j = 0; j < 4; j++) write_log_init(&logs[i][j]);
	}
	schema_init(&schema);
	schema_add(&schema, TYPE_INT, 8);
	schema_add(&schema, TYPE_STRING, 0);
}
static void case_run(void)
{
	base_create();
	recs_base = 0; lsn_last = 0; lsn_checkpoint = 0; synced_n = 0; live_on = false;
	memset(slot_used, 0, sizeof(slot_used)); memset(slot_attached, 0, sizeof(slot_attached));
	configure();
	worker = PICK(4) == 3;
	opt_int_set(&config()->wal_worker, worker);
	opt_int_set(&state()->lsn, 0);
	wal_mgr_init(&mgr);
	wal_mgr_start(&mgr);
	int crashes = 0, steps = 0;
	if (pbt_chance(1, 40)) op_large();
	while (pbt_more(14) && steps++ < 200) {
#ifdef WAL_GC
		// mostly slots, gc, snapshots and live cursors
		static const int ops[] = { 0, 1, 2, 3, 4, 5, 6, 9, 9, 10, 10, 10, 10, 11, 11, 11, 12, 13, 14, 8 };
		switch (ops[PICK(NELEM(ops))]) {
#else
		switch (PICK(16)) {
#endif
		default: op_write(FAIL_NONE); break;
		case 7: op_write(1 + PICK(3)); break;
		case 8: op_read(); break;
		case 9: op_live(); break;
		case 10: op_slot(); break;
		case 11: op_gc(); op_read(); break;
		case 12: op_status(); if (PICK(3) == 0) op_snapshot(); break;
		case 13: op_restart(); break;
		case 14: op_crash(); crashes++; op_read(); break;
		case 15: if (PICK(2)) op_truncate(); else { opt_int_set(&config()->wal_size, PICK(4) == 0 ? 1 << 20 : 1 + PICK(3000)); opt_int_set(&config()->wal_sync_on_close, PICK(2)); } break;
		}
	}
	op_read();
	if (recs_n > 3 && files() > 1) pbt_nontrivial();
	pbt_count("records", recs_n);
	pbt_count("log files", files());
	op_restart();
	close_all();
	wal_mgr_stop(&mgr);
	wal_mgr_free(&mgr);
	recs_base = 0;
	recs_cut(0);
	base_drop();
}
PbtHarness pbt_harness = { .name = "wal", .setup = setup, .run = case_run };
