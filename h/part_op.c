// C09: transactions over one partition with several indexes against a map of rows
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "rows.h"

#define SECS 3
#define MAXROWS 700
typedef struct { int64_t k; int64_t s[SECS]; uint64_t seed; int size; } Ent;
typedef struct { Ent e[MAXROWS]; int n; } Model;

static Schema schema;
static IndexConfig* configs[1 + SECS];
static int secs, key_type, keys_max, cols;
static PartArg arg;
static Sequence seq;
static Uuid id_table;
static bool ident;
static Model model;

static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }

enum { K_INT32, K_INT64, K_TEXT, K_UUID, K_PAIR };
static char keybuf[1 + SECS][64];
static void cell_key(Cell* c, int type, int64_t v, char* buf)
{
	switch (type) {
	case K_TEXT: c->n = sprintf(buf, "key%" PRIi64, v); c->p = (uint8_t*)buf; break;
	case K_UUID: c->ua = mix(v); c->ub = v; break;
	default: c->i = v;
	}
}
static int sec_type[SECS];
static uint8_t* body;
// columns: key [, key2], secondaries, payload
static void cells_of(Ent* e, Cell* c)
{
	memset(c, 0, sizeof(Cell) * (cols + 1));
	if (! body) body = malloc(1 << 18);
	int at = 0;
	if (key_type == K_PAIR) { c[at++].i = e->k / 10; c[at].i = e->k % 10; at++; }
	else cell_key(&c[at++], key_type, e->k, keybuf[0]);
	for (int i = 0; i < secs; i++) cell_key(&c[at++], sec_type[i], e->s[i], keybuf[1 + i]);
	if (e->size < 0) c[at].null = true;
	else {
		for (int i = 0; i < e->size; i += 8) { uint64_t v = mix(e->seed + i); memcpy(body + i, &v, 8); }
		c[at].p = body; c[at].n = e->size;
	}
}
static int find(Model* m, int64_t k) { for (int i = 0; i < m->n; i++) if (m->e[i].k == k) return i; return -1; }
static int find_sec(Model* m, int s, int64_t v) { for (int i = 0; i < m->n; i++) if (m->e[i].s[s] == v) return i; return -1; }
static Row* temp_row(Ent* e) { Cell c[2 + SECS + 2]; cells_of(e, c); return row_build(&schema, c); }
static Row* heap_row(Ent* e, Part* part) { Cell c[2 + SECS + 2]; cells_of(e, c); return row_build_heap(&schema, c, part->heap); }
static bool row_same(Ent* e, Row* row)
{
	Cell c[2 + SECS + 2];
	cells_of(e, c);
	for (int i = 0; i < cols; i++) if (! cell_is(&schema.def[i], &c[i], row_at(row, i))) return false;
	return true;
}
static const char* showe(Ent* e)
{
	static char t[4][160]; static int n; char* p = t[n++ % 4];
	int at = sprintf(p, "%" PRIi64 "[", e->k);
	for (int i = 0; i < secs; i++) at += sprintf(p + at, "%s%" PRIi64, i ? "," : "", e->s[i]);
	sprintf(p + at, "] v%d/%d", (int)(e->seed & 0xffff), e->size);
	return p;
}
static IndexConfig* config_make(const char* name, int type, bool primary, int col, int n)
{
	auto c = index_config_allocate(&schema.columns);
	Str s; str_set_cstr(&s, name);
	index_config_set_name(c, &s);
	index_config_set_type(c, type);
	index_config_set_unique(c, true);
	index_config_set_primary(c, primary);
	for (int i = 0; i < n; i++) {
		auto key = key_allocate();
		key_set_ref(key, col + i);
		keys_add(&c->keys, key);
	}
	return c;
}
static void col_add(int type)
{
	switch (type) {
	case K_INT32: schema_add(&schema, TYPE_INT, 4); break;
	case K_TEXT: schema_add(&schema, TYPE_STRING, 0); break;
	case K_UUID: schema_add(&schema, TYPE_UUID, 16); break;
	default: schema_add(&schema, TYPE_INT, 8); break;
	}
}
static Part* part_make(PartArg* a)
{
	Id id; memset(&id, 0, sizeof(id)); id.id = 1;
	auto part = part_allocate(&id, a);
	for (int i = 0; i <= secs; i++) {
		part_index_create(part, configs[i]);
		// small pages and tables make splits and resizes frequent
		Index* index = part_index_find(part, &configs[i]->name, true);
		if (configs[i]->type == INDEX_TREE && keys_max < 300) { ((IndexTree*)index)->tree.size_page = 4; ((IndexTree*)index)->tree.size_split = 2; }
	}
	return part;
}
static uint64_t seen_rows[4096]; 
static int cmp_u64(const void* a, const void* b) { uint64_t x = *(uint64_t*)a, y = *(uint64_t*)b; return (x > y) - (x < y); }
// every index has exactly the rows of the model; pending rows: rows of the heap not in any index are allowed
static void verify(Part* part, Model* m, bool heap_too, const char* when)
{
	Row* rows[MAXROWS];
	int n = 0;
	for (auto index = part->indexes; index; index = index->next) {
		const char* name = str_of(&index->config->name);
		int count = 0;
		auto it = index_iterator(index);
		for (iterator_open(it, NULL); iterator_has(it); iterator_next(it)) {
			Row* row = iterator_at(it);
			pbt_check(row && ++count <= m->n, "%s: %s has more than %d rows", when, name, m->n);
		}
		iterator_close(it);
		pbt_check(count == m->n, "%s: %s has %d rows, expected %d", when, name, count, m->n);
		for (int i = 0; i < m->n; i++) {
			Row* key = temp_row(&m->e[i]);
			it = index_iterator(index);
			bool found = iterator_open(it, key);
			Row* row = found ? iterator_at(it) : NULL;
			iterator_close(it);
			free(key);
			pbt_check(found, "%s: row %s is not in %s", when, showe(&m->e[i]), name);
			if (index == part->indexes) {
				pbt_check(row_same(&m->e[i], row), "%s: row %s is altered", when, showe(&m->e[i]));
				rows[i] = row;
			} else
				pbt_check(rows[i] == row, "%s: %s has another version of row %s", when, name, showe(&m->e[i]));
		}
	}
	n = m->n;
	if (! heap_too) return;
	int count = 0;
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, part->heap, NULL);
	for (; heap_iterator_has(&it); heap_iterator_next(&it)) seen_rows[count++] = (uint64_t)heap_iterator_at(&it);
	pbt_check(count == n, "%s: heap has %d rows, expected %d", when, count, n);
	for (int i = 0; i < n; i++) ((uint64_t*)rows)[i] = (uint64_t)rows[i];
	qsort(rows, n, 8, cmp_u64);
	qsort(seen_rows, count, 8, cmp_u64);
	pbt_check(! memcmp(rows, seen_rows, n * 8), "%s: heap has rows which are not in the index", when);
	pbt_check(part->heap->header->count_used == (uint32_t)n, "%s: heap counter is %u, expected %d", when, part->heap->header->count_used, n);
}
// ordered log of the operations of a transaction
typedef struct { int cmd; Row* row; } LogEnt;
typedef struct { LogEnt* e; int n, cap; } LogModel;
static void log_add(LogModel* l, int cmd, Row* row)
{
	if (l->n == l->cap) { l->cap = l->cap * 2 + 32; l->e = realloc(l->e, sizeof(LogEnt) * l->cap); }
	Row* copy = malloc(row_size(row));
	memcpy(copy, row, row_size(row));
	l->e[l->n++] = (LogEnt){ cmd, copy };
}
static void log_drop(LogModel* l) { for (int i = 0; i < l->n; i++) free(l->e[i].row); free(l->e); memset(l, 0, sizeof(*l)); }
static void write_log_verify(Tr* tr, LogModel* l)
{
	auto w = &tr->log.write_log;
	if (arg.unlogged) {
		pbt_check(write_log_empty(w) && ! tr_persists(tr), "unlogged table is written to the log");
		return;
	}
	pbt_check(tr_persists(tr) == (l->n > 0), "transaction of %d operations %s", l->n, tr_persists(tr) ? "is persisted" : "is not persisted");
	int at = 0, iovs = w->iov.iov_count;
	pbt_check(iovs == l->n, "log has %d rows, expected %d", iovs, l->n);
	auto iov = (struct iovec*)w->iov.iov.start;
	for (auto cmd = (RecordCmd*)w->meta.start; (uint8_t*)cmd < w->meta.position; cmd++) {
		pbt_check(uuid_is(&cmd->id, &id_table), "log command of another table");
		uint32_t size = 0, crc = 0;
		while (size < cmd->size) {
			pbt_check(at < l->n, "log commands are larger than their rows");
			Row* row = iov[at].iov_base;
			pbt_check(cmd->cmd == l->e[at].cmd, "log operation %d is %d, expected %d", at, cmd->cmd, l->e[at].cmd);
			pbt_check(iov[at].iov_len == row_size(l->e[at].row) && ! memcmp(row, l->e[at].row, iov[at].iov_len), "log row %d is not the row of the operation", at);
			size += iov[at].iov_len;
			crc = runtime()->crc(crc, row, iov[at].iov_len);
			at++;
		}
		pbt_check(size == cmd->size, "log command size is %u, expected %u", cmd->size, size);
		if (opt_int_of(&config()->wal_crc)) pbt_check(crc == cmd->crc, "log command crc does not match");
	}
	pbt_check(at == l->n, "log commands cover %d operations of %d", at, l->n);
}
static Part* replica;
static PartArg replica_arg;
static Sequence replica_seq;
static void replay(LogModel* l)
{
	if (! replica) return;
	Tr tr; tr_init(&tr); tr_begin(&tr);
	for (int i = 0; i < l->n; i++) {
		if (l->e[i].cmd == CMD_REPLACE) part_insert(replica, &tr, true, row_copy(replica->heap, l->e[i].row));
		else part_delete_by(replica, &tr, l->e[i].row);
	}
	tr_commit(&tr); tr_free(&tr);
}
static int64_t version;
static void payload(Ent* e)
{
	e->seed = mix(++version);
	int w = PICK(10);
	e->size = w == 0 ? -1 : w == 1 ? PICK(4000) : w == 2 ? 250 + PICK(12) : PICK(60);
}
static Ent gen(void)
{
	Ent e; memset(&e, 0, sizeof(e));
	e.k = PICK(keys_max);
	// identity columns sync the sequence on recovery, a key is never negative there
	for (int i = 0; i < secs; i++) e.s[i] = PICK(4) ? e.k : PICK(keys_max);
	payload(&e);
	return e;
}
static bool conflicts(Model* m, Ent* e, bool upsert)
{
	if (! upsert && find(m, e->k) >= 0) return true;
	for (int i = 0; i < secs; i++) if (find_sec(m, i, e->s[i]) >= 0) return true;
	return false;
}
static void model_add(Model* m, Ent* e) { pbt_check(m->n < MAXROWS, "harness: model overflow"); m->e[m->n++] = *e; }
static void model_del(Model* m, int at) { m->e[at] = m->e[--m->n]; }

static int64_t limit_left;
// one operation; false if it failed (the transaction has to be aborted)
static bool operation(Part* part, Tr* tr, Model* m, LogModel* l)
{
	static const int w[] = { 6, 4, 4, 4, 3, 2, 2, 2 };
	if (m->n > MAXROWS - 40 && PICK(2)) return true;
	switch (pbt_weighted(w, NELEM(w))) {
	case 0: {
		Ent e = gen();
		bool bad = conflicts(m, &e, false);
		Row* row = heap_row(&e, part);
		pbt_note("insert %s%s", showe(&e), bad ? " (duplicate)" : "");
		int64_t size = row_size(row);
		log_add(l, CMD_REPLACE, row);
		bool failed = error_catch( part_insert(part, tr, false, row); );
		bool over = limit_left > 0 && size >= limit_left;
		if (bad) pbt_class("duplicate in insert");
		pbt_check(failed == (bad || over), "insert %s", failed ? "failed" : over ? "exceeds the transaction limit" : "of a duplicate did not fail");
		if (failed) return false;
		if (limit_left > 0) limit_left -= size;
		model_add(m, &e);
		return true;
	}
	case 1: {
		// insert on conflict
		Ent e = gen();
		int at = find(m, e.k);
		bool bad = at < 0 && conflicts(m, &e, true);
		Row* row = heap_row(&e, part);
		int64_t size = row_size(row);
		bool update = PICK(2);
		pbt_note("upsert %s%s", showe(&e), at >= 0 ? (update ? " (exists, updated)" : " (exists)") : bad ? " (duplicate)" : "");
		if (at < 0) log_add(l, CMD_REPLACE, row);
		auto it = index_iterator(part_primary(part));
		bool exists = false;
		bool failed = error_catch( exists = part_upsert(part, tr, it, row); );
		bool over = at < 0 && limit_left > 0 && size >= limit_left;
		if (bad) pbt_class("duplicate in upsert");
		pbt_check(failed == (bad || over), "upsert %s", failed ? "failed" : over ? "exceeds the transaction limit" : "of a duplicate did not fail");
		if (failed) { iterator_close(it); return false; }
		pbt_check(exists == (at >= 0), "upsert says the row %s", exists ? "exists" : "does not exist");
		if (at < 0) { if (limit_left > 0) limit_left -= size; model_add(m, &e); iterator_close(it); return true; }
		pbt_check(iterator_has(it) && row_same(&m->e[at], iterator_at(it)), "upsert iterator is not at the existing row");
		if (update) {
			Ent u = m->e[at];
			payload(&u);
			row = heap_row(&u, part);
			size = row_size(row);
			log_add(l, CMD_REPLACE, row);
			failed = error_catch( part_update(part, tr, it, row); );
			pbt_check(failed == (limit_left > 0 && size >= limit_left), "update %s", failed ? "failed" : "exceeds the transaction limit");
			if (failed) { iterator_close(it); return false; }
			if (limit_left > 0) limit_left -= size;
			m->e[at] = u;
		}
		iterator_close(it);
		return true;
	}
	case 2: case 3: {
		// update or delete by key
		bool del = PICK(2);
		Ent e = gen();
		if (m->n && PICK(3)) e = m->e[PICK(m->n)];
		int at = find(m, e.k);
		Row* key = temp_row(&e);
		auto it = index_iterator(part_primary(part));
		bool found = iterator_open(it, key);
		free(key);
		pbt_check(found == (at >= 0), "key %" PRIi64 " is %s", e.k, found ? "found" : "not found");
		if (at < 0) { iterator_close(it); return true; }
		pbt_note("%s %s", del ? "delete" : "update", showe(&m->e[at]));
		bool failed; int64_t size;
		Ent u = m->e[at];
		if (del) {
			Row* row = iterator_at(it);
			size = row_size(row);
			log_add(l, CMD_DELETE, row);
			failed = error_catch( part_delete(part, tr, it); );
		} else {
			payload(&u);
			Row* row = heap_row(&u, part);
			size = row_size(row);
			log_add(l, CMD_REPLACE, row);
			failed = error_catch( part_update(part, tr, it, row); );
		}
		iterator_close(it);
		pbt_check(failed == (limit_left > 0 && size >= limit_left), "%s %s", del ? "delete" : "update", failed ? "failed" : "exceeds the transaction limit");
		if (failed) return false;
		if (limit_left > 0) limit_left -= size;
		if (del) model_del(m, at); else m->e[at] = u;
		return true;
	}
	case 4: {
		// update and delete rows while scanning
		int mod = 1 + PICK(4), what = PICK(3), n = 0;
		pbt_note("scan: %s of 1/%d of the rows", what == 0 ? "update" : what == 1 ? "delete" : "mix", mod);
		static Model before; before = *m;
		auto it = index_iterator(part_primary(part));
		iterator_open(it, NULL);
		for (; iterator_has(it); iterator_next(it)) {
			Row* row = iterator_at(it);
			int at = -1;
			for (int i = 0; i < before.n && at < 0; i++) if (before.e[i].k >= 0) {
				// match by key
				Row* key = temp_row(&before.e[i]);
				if (! compare(&configs[0]->keys, key, row)) at = i;
				free(key);
			}
			pbt_check(at >= 0, "scan visits a row twice or one which is not in the table");
			Ent e = before.e[at];
			before.e[at].k = -1;
			n++;
			if (mix(e.k) % mod) continue;
			int cur = find(m, e.k);
			bool del = what == 1 || (what == 2 && e.k % 2), failed;
			int64_t size;
			Ent u = e;
			if (del) { size = row_size(row); log_add(l, CMD_DELETE, row); failed = error_catch( part_delete(part, tr, it); ); }
			else {
				payload(&u);
				Row* r = heap_row(&u, part);
				size = row_size(r);
				log_add(l, CMD_REPLACE, r);
				failed = error_catch( part_update(part, tr, it, r); );
			}
			pbt_check(failed == (limit_left > 0 && size >= limit_left), "scan %s %s", del ? "delete" : "update", failed ? "failed" : "exceeds the transaction limit");
			if (failed) { iterator_close(it); return false; }
			if (limit_left > 0) limit_left -= size;
			if (del) model_del(m, cur); else m->e[cur] = u;
		}
		iterator_close(it);
		pbt_check(n == before.n, "scan visits %d rows of %d", n, before.n);
		pbt_class("changed under a scan");
		return true;
	}
	case 5: {
		// replay of a delete
		Ent e = gen();
		if (m->n && PICK(4)) e = m->e[PICK(m->n)];
		int at = find(m, e.k);
		Row* key = temp_row(at >= 0 ? &m->e[at] : &e);
		pbt_note("delete by %s", showe(&e));
		if (at >= 0) log_add(l, CMD_DELETE, key);
		int64_t size = row_size(key);
		bool failed = error_catch( part_delete_by(part, tr, key); );
		// transaction log keeps the pointer to the row of the index
		free(key);
		bool over = at >= 0 && limit_left > 0 && size >= limit_left;
		pbt_check(failed == (at < 0 || over), "delete by key %s", failed ? "failed" : "did not fail");
		if (failed) return false;
		if (limit_left > 0) limit_left -= size;
		model_del(m, at);
		return true;
	}
	case 6: {
		// replay of a write: same keys or a new row
		Ent e = gen();
		int at = find(m, e.k);
		if (at >= 0) { memcpy(e.s, m->e[at].s, sizeof(e.s)); }
		else if (conflicts(m, &e, true)) return true;
		Row* row = heap_row(&e, part);
		int64_t size = row_size(row);
		pbt_note("replace %s", showe(&e));
		log_add(l, CMD_REPLACE, row);
		bool failed = error_catch( part_insert(part, tr, true, row); );
		pbt_check(failed == (limit_left > 0 && size >= limit_left), "replace %s", failed ? "failed" : "exceeds the transaction limit");
		if (ident) {
			// a sequence follows values written by recovery
			pbt_check((int64_t)sequence_get(&seq) > e.k, "identity sequence is at %" PRIi64 " after replaying %" PRIi64, (int64_t)sequence_get(&seq), e.k);
		}
		if (failed) return false;
		if (limit_left > 0) limit_left -= size;
		if (at >= 0) m->e[at] = e; else model_add(m, &e);
		return true;
	}
	case 7: {
		// many rows at once
		int n = 1 + PICK(40), from = PICK(keys_max);
		pbt_note("insert %d rows from %d", n, from);
		for (int i = 0; i < n && m->n < MAXROWS - 2; i++) {
			Ent e; memset(&e, 0, sizeof(e));
			e.k = (from + i) % keys_max;
			for (int j = 0; j < secs; j++) e.s[j] = e.k;
			e.seed = mix(++version); e.size = 10 + i % 7;
			if (conflicts(m, &e, false)) continue;
			Row* row = heap_row(&e, part);
			int64_t size = row_size(row);
			log_add(l, CMD_REPLACE, row);
			bool failed = error_catch( part_insert(part, tr, false, row); );
			pbt_check(failed == (limit_left > 0 && size >= limit_left), "insert %s", failed ? "failed" : "exceeds the transaction limit");
			if (failed) return false;
			if (limit_left > 0) limit_left -= size;
			model_add(m, &e);
		}
		return true;
	}
	}
	return true;
}
// heap snapshot, as the checkpoint does it
static Heap* shadow;
static Model* snap_model;
static void snapshot_begin(Part* part, Model* m)
{
	pbt_note("snapshot begins");
	shadow = heap_allocate(false);
	heap_snapshot(part->heap, shadow, true);
	part->heap_shadow = shadow;
	*snap_model = *m;
	pbt_class("snapshot");
}
static void snapshot_verify(Part* part)
{
	// the file writer reads pages of the main heap: they have to be as of the snapshot
	static bool used[MAXROWS];
	memset(used, 0, sizeof(used));
	int n = 0;
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, part->heap, NULL);
	for (; heap_iterator_has(&it); heap_iterator_next(&it)) {
		Row* row = heap_iterator_at(&it);
		int at = -1;
		for (int i = 0; i < snap_model->n && at < 0; i++) if (! used[i] && row_same(&snap_model->e[i], row)) at = i;
		pbt_check(at >= 0, "heap has a row which is not of the snapshot");
		used[at] = true;
		n++;
	}
	pbt_check(n == snap_model->n, "heap has %d rows of the snapshot of %d", n, snap_model->n);
}
static void snapshot_end(Part* part)
{
	pbt_note("snapshot ends");
	snapshot_verify(part);
	heap_snapshot(part->heap, NULL, false);
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, shadow, NULL);
	for (; heap_iterator_has(&it); heap_iterator_next(&it)) {
		auto chunk = heap_iterator_at_chunk(&it);
		if (chunk->is_shadow_free) { heap_remove(part->heap, *(void**)chunk->data); continue; }
		Row* row_shadow = heap_iterator_at(&it);
		Row* row = row_copy(part->heap, row_shadow);
		Row* prev = part_apply(part, row, false);
		pbt_check(prev == row_shadow, "row of the snapshot is not in the index");
	}
	part->heap_shadow = NULL;
	heap_free(shadow);
	shadow = NULL;
}
static Limit limit;
static void tr_run(Part* part, Tr* tr, Model* m, LogModel* l, bool* failed)
{
	tr_begin(tr);
	limit_left = 0;
	if (PICK(8) == 0) {
		uint64_t v = 50 + PICK(3000);
		limit_init(&limit, v);
		tr_set_limit(tr, &limit);
		limit_left = v;
		pbt_note("begin, limit %d", (int)v);
	} else { tr_set_limit(tr, NULL); pbt_note("begin"); }
	*failed = false;
	int ops = 0;
	while (pbt_more(6) && ! pbt_exhausted()) {
		if (! operation(part, tr, m, l)) { *failed = true; break; }
		ops++;
	}
	if (! *failed) write_log_verify(tr, l);
	if (ops > 1) pbt_nontrivial();
}
static void truncated(Part* part)
{
	pbt_note("truncate");
	pbt_class("truncate");
	part_truncate(part);
	model.n = 0;
	verify(part, &model, ! shadow, "after truncate");
	if (replica) part_truncate(replica);
}
static void run_case(void)
{
	schema_init(&schema);
	keys_max = PICK(3) == 0 ? 300 + PICK(300) : 2 + PICK(40);
	key_type = PICK(5);
	secs = PICK(SECS + 1);
	ident = PICK(2) && (key_type == K_INT32 || key_type == K_INT64);
	if (key_type == K_PAIR) { col_add(K_INT32); col_add(K_INT64); }
	else if (ident) {
		auto c = column_allocate();
		Str s; str_set_cstr(&s, "id");
		column_set_name(c, &s);
		column_set_type(c, TYPE_INT, key_type == K_INT32 ? 4 : 8);
		constraints_set_as_identity(&c->constraints, IDENTITY_SERIAL);
		columns_add(&schema.columns, c);
		schema.def[0].type = TYPE_INT; schema.def[0].size = key_type == K_INT32 ? 4 : 8; schema.count = 1;
	} else col_add(key_type);
	int nkey = schema.count;
	configs[0] = config_make("primary", PICK(2) ? INDEX_HASH : INDEX_TREE, true, 0, nkey);
	for (int i = 0; i < secs; i++) {
		sec_type[i] = PICK(4);
		col_add(sec_type[i]);
	}
	schema_add(&schema, TYPE_STRING, 0);
	cols = schema.count;
	static const char* names[] = { "sec0", "sec1", "sec2" };
	for (int i = 0; i < secs; i++) configs[1 + i] = config_make(names[i], PICK(2) ? INDEX_HASH : INDEX_TREE, false, nkey + i, 1);
	sequence_init(&seq);
	uuid_init(&id_table); id_table.a = 77; id_table.b = 1 + PICK(3);
	arg.seq = &seq; arg.unlogged = PICK(8) == 0; arg.id_table = &id_table;
	opt_int_set(&config()->wal_crc, PICK(2));
	pbt_note("keys of type %d below %d%s, %s, %d secondary indexes%s", key_type, keys_max, ident ? " identity" : "", configs[0]->type == INDEX_HASH ? "hash" : "tree", secs, arg.unlogged ? ", unlogged" : "");
	auto part = part_make(&arg);
	replica = NULL;
	if (! arg.unlogged && PICK(2)) {
		sequence_init(&replica_seq);
		replica_arg = arg; replica_arg.seq = &replica_seq;
		replica = part_make(&replica_arg);
	}
	if (! snap_model) snap_model = malloc(sizeof(Model));
	memset(&model, 0, sizeof(model));
	version = 0; shadow = NULL;
	auto track = &part->track;
	static Model saved, pend[6];
	while (pbt_more(12) && ! pbt_exhausted()) {
		int what = PICK(10);
		if (what == 0 && ! shadow) { snapshot_begin(part, &model); continue; }
		if (what == 1 && shadow) { snapshot_end(part); verify(part, &model, true, "after the snapshot"); continue; }
		if (what == 2 && PICK(3) == 0) { truncated(part); continue; }
		LogModel l[6] = { {0} };
		if (what < 7) {
			Tr tr; tr_init(&tr);
			saved = model;
			bool failed;
			tr_run(part, &tr, &model, &l[0], &failed);
			if (! failed) verify(part, &model, false, "inside of the transaction");
			if (failed || PICK(3) == 0) {
				pbt_note(failed ? "abort on error" : "abort");
				pbt_class(failed ? "abort on error" : "abort");
				tr_abort(&tr);
				model = saved;
				verify(part, &model, ! shadow, "after abort");
			} else {
				pbt_note("commit");
				tr_commit(&tr);
				verify(part, &model, ! shadow, "after commit");
				replay(&l[0]);
			}
			tr_free(&tr);
			log_drop(&l[0]);
		} else {
			// several transactions are prepared one after another, each on top of the previous
			int n = 1 + PICK(5), commits = 0;
			bool any_failed = false;
			Tr* trs[6];
			uint64_t first = track->seq;
			pend[0] = model;
			for (int i = 0; i < n && ! any_failed; i++) {
				auto tr = tr_create(&track->cache);
				trs[i] = tr;
				
				saved = pend[i];
				// begin, set id and add to the prepared list before running
				tr_set_id(tr, track->seq++);
				tr_list_add(&track->prepared, tr);
				pbt_note("prepare %d", (int)tr->id);
				tr_run(part, tr, &saved, &l[i], &any_failed);
				pend[i + 1] = saved;
				if (! any_failed) commits++;
			}
			int total = commits + any_failed;
			// transactions up to a point commit, the later ones abort
			int c = PICK(commits + 1);
			bool partial = PICK(2) && ! any_failed;
			Consensus consensus = track->consensus_pod;
			if (c) consensus.commit = first + c - 1;
			if (partial && c) {
				// the rest is decided later
				pbt_note("commit %d of %d", c, total);
				track_sync(track, &consensus);
				pbt_check(track->prepared.list_count == total - c, "%d transactions are left prepared, expected %d", track->prepared.list_count, total - c);
				verify(part, &pend[total], false, "after a part of transactions is committed");
			}
			if (c < total) consensus.abort = first + total - 1;
			pbt_note("commit %d, abort %d", c, total - c);
			pbt_class(c == total ? "group committed" : c ? "group committed and aborted" : "group aborted");
			// transactions which are already decided are completed by the truncate
			bool truncate = PICK(6) == 0;
			track->consensus = consensus;
			if (truncate) {
				for (int i = 0; i < c; i++) replay(&l[i]);
				for (int i = 0; i < total; i++) log_drop(&l[i]);
				truncated(part);
				pbt_check(track->prepared.list_count == 0 && list_empty(&track->prepared.list), "transactions are left prepared");
				continue;
			}
			track_sync(track, &consensus);
			pbt_check(track->prepared.list_count == 0 && list_empty(&track->prepared.list), "transactions are left prepared");
			model = pend[c];
			verify(part, &model, ! shadow, "after group completion");
			for (int i = 0; i < c; i++) replay(&l[i]);
			for (int i = 0; i < total; i++) log_drop(&l[i]);
			unused(trs);
		}
	}
	if (shadow) { snapshot_end(part); verify(part, &model, true, "after the snapshot"); }
	if (replica) {
		verify(replica, &model, true, "replayed log");
		pbt_class("replayed");
		part_free(replica);
		sequence_free(&replica_seq);
	}
	part_free(part);
	sequence_free(&seq);
	for (int i = 0; i <= secs; i++) index_config_free(configs[i]);
	schema_free(&schema);
}
PbtHarness pbt_harness = { .name = "part_op", .run = run_case };
