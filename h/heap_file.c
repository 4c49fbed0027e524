// C04: partition snapshot files
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "rows.h"
#include "store.h"

typedef struct { int64_t key; int64_t sec; uint64_t seed; int size; uint64_t part; } Ent;
typedef struct { Ent* e; int n, cap; } Set;

static Schema  schema;
static List    index_configs;
static IndexConfig *primary_config, *secondary_config;
static StorageMgr storages;
static TierMgr tiers;
static PartMgrConfig mgr_config;
static PartMgr mgr;
static PartArg arg;
static Sequence seq;
static Uuid id_table;
static bool ident, key32, sec_hash;

static uint64_t mix(uint64_t x)
{
	x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
	return x;
}
static void set_copy(Set* to, Set* from)
{
	if (to->cap < from->n) { to->cap = from->n + 64; to->e = realloc(to->e, sizeof(Ent) * to->cap); }
	to->n = from->n;
	if (from->n) memcpy(to->e, from->e, sizeof(Ent) * from->n);
}
static int set_find(Set* s, int64_t key) { for (int i = 0; i < s->n; i++) if (s->e[i].key == key) return i; return -1; }

static void attach(PartMgr* m)
{
	list_foreach(&m->list) part_open(list_at(Part, link));
}
static void detach(PartMgr* m) { unused(m); }
static PartMgrIf mgr_if = { attach, detach };

static uint8_t* body; 
static void cells_of(Ent* e, Cell* c)
{
	memset(c, 0, sizeof(Cell) * 3);
	if (! body) body = malloc(1 << 20);
	for (int i = 0; i < e->size; i += 8) { uint64_t v = e->seed & 1 ? mix(e->seed + i) : e->seed; memcpy(body + i, &v, 8); }
	c[0].i = e->key;
	c[1].i = e->sec;
	if (e->size < 0) c[2].null = true;
	else { c[2].p = body; c[2].n = e->size; }
}
static Row* key_row(int64_t key)
{
	Cell c[3];
	memset(c, 0, sizeof(c));
	c[0].i = key; c[1].null = c[2].null = true;
	return row_build(&schema, c);
}
static Part* part_for(int64_t key)
{
	Row* k = key_row(key);
	auto part = part_mapping_map(&mgr.mapping, k);
	free(k);
	return part;
}
static void do_insert(Set* s, int64_t key, int size, uint64_t seed)
{
	if (set_find(s, key) >= 0) return;
	Ent e = { key, (int64_t)mix(key), seed, size, 0 };
	Cell c[3];
	cells_of(&e, c);
	auto part = part_for(key);
	pbt_check(part, "no partition for the key");
	e.part = part->id.id;
	Tr tr; tr_init(&tr); tr_begin(&tr);
	Row* row = row_build_heap(&schema, c, part->heap);
	part_insert(part, &tr, false, row);
	tr_commit(&tr); tr_free(&tr);
	if (s->n == s->cap) { s->cap = s->cap * 2 + 64; s->e = realloc(s->e, sizeof(Ent) * s->cap); }
	s->e[s->n++] = e;
}
static void do_delete(Set* s, int at)
{
	auto part = part_for(s->e[at].key);
	Row* k = key_row(s->e[at].key);
	Tr tr; tr_init(&tr); tr_begin(&tr);
	part_delete_by(part, &tr, k);
	tr_commit(&tr); tr_free(&tr);
	free(k);
	s->e[at] = s->e[--s->n];
}
static void verify(Set* s, const char* when)
{
	int count[64] = {0}, k = 0;
	list_foreach(&mgr.list) {
		auto part = list_at(Part, link);
		int want = 0;
		for (int i = 0; i < s->n; i++) want += s->e[i].part == part->id.id;
		count[k] = 0;
		HeapIterator it;
		heap_iterator_init(&it);
		heap_iterator_open(&it, part->heap, NULL);
		for (; heap_iterator_has(&it); heap_iterator_next(&it)) count[k]++;
		pbt_check(count[k] == want, "%s: partition %" PRIu64 " has %d rows, expected %d", when, part->id.id, count[k], want);
		pbt_check(part->heap->header->count_used == (uint32_t)want, "%s: row counter is %u of %d", when, part->heap->header->count_used, want);
		for (auto index = part->indexes; index; index = index->next) {
			auto iit = index_iterator(index);
			int n = 0;
			for (iterator_open(iit, NULL); iterator_has(iit); iterator_next(iit)) n++;
			iterator_close(iit);
			pbt_check(n == want, "%s: index %.*s has %d rows of %d", when, str_size(&index->config->name), str_of(&index->config->name), n, want);
		}
		k++;
	}
	for (int i = 0; i < s->n; i++) {
		auto e = &s->e[i];
		Cell c[3];
		cells_of(e, c);
		auto part = part_for(e->key);
		pbt_check(part && part->id.id == e->part, "%s: key %" PRIi64 " moved to another partition", when, e->key);
		Row* rows[2]; int r = 0;
		Row* k = row_build(&schema, c);
		for (auto index = part->indexes; index; index = index->next) {
			auto it = index_iterator(index);
			pbt_check(iterator_open(it, k), "%s: row %" PRIi64 " is not found in the index %.*s", when, e->key, str_size(&index->config->name), str_of(&index->config->name));
			rows[r++] = iterator_at(it);
			iterator_close(it);
		}
		free(k);
		pbt_check(r == 2 && rows[0] == rows[1], "%s: indexes have different rows", when);
		for (int j = 0; j < 3; j++)
			pbt_check(cell_is(&schema.def[j], &c[j], row_at(rows[0], j)), "%s: column %d of row %" PRIi64 " is altered", when, j, e->key);
	}
}
static void mgr_start(void)
{
	sequence_init(&seq);
	arg.seq = &seq; arg.unlogged = false; arg.id_table = &id_table;
	tier_mgr_init(&tiers, &storages, &primary_config->keys);
	part_mgr_init(&mgr, &mgr_if, NULL, &mgr_config, &arg, &tiers, &primary_config->keys);
	part_mgr_open(&mgr, &index_configs);
}
static void mgr_stop(void)
{
	part_mgr_free(&mgr);
	volume_mgr_unref(&mgr_config.volumes);
	sequence_free(&seq);
}
static IndexConfig* index_make(const char* name, int type, bool primary, int col)
{
	auto c = index_config_allocate(&schema.columns);
	Str s; str_set_cstr(&s, name);
	index_config_set_name(c, &s);
	index_config_set_type(c, type);
	index_config_set_unique(c, true);
	index_config_set_primary(c, primary);
	auto key = key_allocate();
	key_set_ref(key, col);
	keys_add(&c->keys, key);
	return c;
}
static const char* comp;
static void start(int parts)
{
	base_create();
	schema_init(&schema);
	key32 = PICK(2); ident = PICK(3) != 0; sec_hash = PICK(2);
	// identity flag has to be set before the column is added
	auto c = column_allocate();
	Str s; str_set_cstr(&s, "id");
	column_set_name(c, &s);
	column_set_type(c, TYPE_INT, key32 ? 4 : 8);
	if (ident) constraints_set_as_identity(&c->constraints, IDENTITY_SERIAL);
	columns_add(&schema.columns, c);
	schema.def[0].type = TYPE_INT; schema.def[0].size = key32 ? 4 : 8; schema.count = 1;
	schema_add(&schema, TYPE_INT, 8);
	schema_add(&schema, TYPE_STRING, 0);
	primary_config = index_make("primary", PICK(2) ? INDEX_HASH : INDEX_TREE, true, 0);
	secondary_config = index_make("secondary", sec_hash ? INDEX_HASH : INDEX_TREE, false, 1);
	list_init(&index_configs);
	list_append(&index_configs, &primary_config->link);
	list_append(&index_configs, &secondary_config->link);
	storage_mgr_init(&storages);
	static const char* comps[] = { "", "zstd", "none" };
	comp = comps[PICK(3)];
	storage_make(&storages, "s0", comp);
	storage_make(&storages, "s1", comps[PICK(3)]);
	part_mgr_config_init(&mgr_config);
	part_mgr_config_set_partitions(&mgr_config, parts);
	volume_mgr_add(&mgr_config.volumes, volume_make("s0", 1));
	if (PICK(3) == 0) volume_mgr_add(&mgr_config.volumes, volume_make("s1", 2));
	opt_int_set(&config()->storage_sync, false);
	mgr_start();
	pbt_note("%d partitions, %s key, %s, compression '%s', %d volumes", parts, key32 ? "int32" : "int64", ident ? "identity" : "no identity", comp, mgr_config.volumes.list_count);
}
static void stop(void)
{
	mgr_stop();
	part_mgr_config_free(&mgr_config);
	storage_mgr_free(&storages);
	index_config_free(primary_config);
	index_config_free(secondary_config);
	schema_free(&schema);
	base_drop();
}
static void gen_history(Set* s)
{
	int n = 1 + PICK(3);
	for (int q = 0; q < n; q++) {
		if (PICK(3) || ! s->n) {
			int count = 1 + PICK(PICK(3) ? 60 : 400), from = PICK(4) == 0 ? -PICK(30) : PICK(2000);
			int size = PICK(4) == 0 ? PICK(20000) : PICK(300);
			bool noise = PICK(2);
			if (size > 3000 && count > 150) count = 150;
			pbt_note("insert %d rows from %d of up to %d bytes", count, from, size);
			for (int i = 0; i < count && s->n < 900; i++) do_insert(s, from + i, i % 17 == 16 ? -1 : (int)(mix(i + from) % (size + 1)), mix(from + i) << 1 | noise);
		} else {
			int count = 1 + PICK(s->n), how = PICK(3);
			pbt_note("delete %d rows", count);
			for (int i = 0; i < count && s->n; i++) do_delete(s, how == 0 ? s->n - 1 : how == 1 ? 0 : (int)(mix(i) % s->n));
		}
	}
}
// the heap state is written as of this lsn
static bool save(Part* part, uint64_t lsn, long limit)
{
	part->heap->header->lsn = lsn;
	File file;
	file_init(&file);
	struct rlimit rl, old;
	if (limit >= 0) {
		getrlimit(RLIMIT_FSIZE, &old);
		rl = old; rl.rlim_cur = limit;
		setrlimit(RLIMIT_FSIZE, &rl);
	}
	bool failed = error_catch( heap_create(part->heap, &file, &part->id, STATE_INCOMPLETE); );
	if (limit >= 0) setrlimit(RLIMIT_FSIZE, &old);
	file_close(&file);
	return ! failed;
}
static void case_roundtrip(void)
{
	int parts = 1 + PICK(4);
	start(parts);
	Set live = {0}, saved = {0};
	uint64_t lsns[64] = {0}, lsn = 0, ids[64]; int hmin[64], hmax[64], np = 0;
	list_foreach(&mgr.list) { auto p = list_at(Part, link); ids[np] = p->id.id; hmin[np] = p->heap->header->hash_min; hmax[np] = p->heap->header->hash_max; np++; }
	pbt_check(np == parts, "%d partitions are created of %d", np, parts);
	for (int round = 0; round < 4 && pbt_more(2) && ! pbt_exhausted(); round++) {
		gen_history(&live);
		verify(&live, "before saving");
		lsn += 1 + PICK(1000);
		// write each partition, complete it or leave it as if interrupted
		int k = 0;
		bool interrupted = false;
		Set next = {0};
		set_copy(&next, &saved);
		list_foreach(&mgr.list) {
			auto part = list_at(Part, link);
			for (k = 0; k < np && ids[k] != part->id.id; k++);
			int how = PICK(7);
			char path[PATH_MAX];
			id_path(&part->id, path, STATE_INCOMPLETE, false);
			opt_int_set(&config()->storage_crc, true);
			if (how == 0) { pbt_note("partition is not saved"); continue; }
			if (how == 1) {
				long limit = PICK(9000);
				pbt_note("write stops at %ld", limit);
				bool ok = save(part, lsn, limit);
				int size = 0;
				free(file_load(path, &size));
				pbt_check(! ok || size <= limit, "a failed write is not reported");
				if (! ok) pbt_class("write failed");
				interrupted = true;
				continue;
			}
			pbt_check(save(part, lsn, -1), "heap file write failed");
			if (how == 2) {
				// killed: a part of the file is on disk
				int size; char* p = file_load(path, &size);
				file_store(path, p, PICK(size + 1));
				free(p);
				pbt_note("interrupted write");
				pbt_class("interrupted write");
				interrupted = true;
				continue;
			}
			if (how == 3) {
				id_snapshot(&part->id, STATE_COMPLETE, STATE_SNAPSHOT);
				interrupted = true;
			}
			id_rename(&part->id, STATE_INCOMPLETE, STATE_COMPLETE);
			lsns[k] = lsn;
			for (int i = 0; i < next.n;) if (next.e[i].part == part->id.id) next.e[i] = next.e[--next.n]; else i++;
			for (int i = 0; i < live.n; i++) if (live.e[i].part == part->id.id) {
				if (next.n == next.cap) { next.cap = next.cap * 2 + 64; next.e = realloc(next.e, sizeof(Ent) * next.cap); }
				next.e[next.n++] = live.e[i];
			}
		}
		free(saved.e);
		saved = next;
		if (! interrupted && PICK(3) == 0) continue;
		// unrelated files are left alone
		if (PICK(4) == 0) { char p[PATH_MAX + 16]; auto part = container_of(list_first(&mgr.list), Part, link); id_path(&part->id, p, STATE_COMPLETE, false); strcat(p, ".old"); file_store(p, "x", 1); }
		pbt_note("restart");
		mgr_stop();
		if (PICK(4) == 0) {
			// the storage now compresses otherwise: the files say how they were written
			static const char* comps[] = { "", "zstd", "none" };
			Str v; str_set_cstr(&v, comps[PICK(3)]);
			Str n; str_set_cstr(&n, "s0");
			storage_config_set_compression(storage_mgr_find(&storages, &n, true)->config, &v);
			pbt_note("the compression is now '%s'", v.pos);
			pbt_class("compression changed");
		}
		mgr_start();
		set_copy(&live, &saved);
		// leftovers are removed
		list_foreach(&mgr_config.volumes.list) {
			char uuid[UUID_SZ]; uuid_get(&list_at(Volume, link)->id, uuid, sizeof(uuid));
			char dir[2000]; snprintf(dir, sizeof(dir), "%s/storage/%s", base_dir, uuid);
			DIR* d = opendir(dir);
			pbt_check(d, "volume directory is missing");
			struct dirent* de;
			while ((de = readdir(d)))
				pbt_check(! strstr(de->d_name, ".incomplete") && ! strstr(de->d_name, ".snapshot"), "%s is not removed by the restart", de->d_name);
			closedir(d);
		}
		k = 0;
		int n = 0;
		list_foreach(&mgr.list) {
			auto part = list_at(Part, link);
			for (k = 0; k < np && ids[k] != part->id.id; k++);
			pbt_check(k < np, "unknown partition %" PRIu64 " after restart", part->id.id);
			auto h = part->heap->header;
			pbt_check(h->lsn == lsns[k], "partition lsn is %" PRIu64 ", saved %" PRIu64, h->lsn, lsns[k]);
			pbt_check(track_lsn(&part->track) == lsns[k], "partition position is %" PRIu64 ", saved %" PRIu64, track_lsn(&part->track), lsns[k]);
			pbt_check(h->hash_min == hmin[k] && h->hash_max == hmax[k], "partition hash range is changed");
			n++;
		}
		pbt_check(n == np, "%d partitions of %d after restart", n, np);
		if (ident) {
			int64_t want = 0;
			for (int i = 0; i < live.n; i++) if (live.e[i].key + 1 > want) want = live.e[i].key + 1;
			pbt_check((int64_t)sequence_next(&seq) == want, "next identity is %" PRIi64 ", expected %" PRIi64, (int64_t)sequence_get(&seq) - 1, want);
		}
		verify(&live, "after restart");
		pbt_class("restart");
		if (live.n > 2) pbt_nontrivial();
	}
	free(live.e); free(saved.e);
	stop();
}
// one page of the file is written in the place of another, or two are exchanged
static bool damage_pages(char** p, int* n, char* what)
{
	int from[64], len[64], count = 0;
	int at = sizeof(HeapHeader) + sizeof(HeapBucket) * 385;
	while (at + (int)sizeof(PageHeader) <= *n && count < 64) {
		auto h = (PageHeader*)(*p + at);
		from[count] = at;
		len[count] = sizeof(PageHeader) + h->size_compressed;
		if (at + len[count] > *n) return false;
		at += len[count++];
	}
	if (count < 2 || at != *n) return false;
	int a = PICK(count), b = (a + 1 + PICK(count - 1)) % count;
	bool swap = PICK(2);
	if (len[a] == len[b] && ! memcmp(*p + from[a] + sizeof(PageHeader), *p + from[b] + sizeof(PageHeader), len[a] - sizeof(PageHeader))) return false;
	Sb s = { 0 };
	sb_add(&s, *p, from[0]);
	for (int i = 0; i < count; i++) {
		int k = i == a ? b : swap && i == b ? a : i;
		sb_add(&s, *p + from[k], len[k]);
	}
	sprintf(what, swap ? "pages %d and %d of %d are exchanged" : "page %d of %d is %d", a, swap ? b : count, swap ? count : b);
	free(*p);
	*p = exact(s.p, s.n);
	*n = s.n;
	sb_free(&s);
	return true;
}
static void case_damage(void)
{
	start(1);
	Set live = {0};
	gen_history(&live);
	gen_history(&live);
	auto part = container_of(list_first(&mgr.list), Part, link);
	opt_int_set(&config()->storage_crc, true);
	pbt_check(save(part, 77, -1), "heap file write failed");
	id_rename(&part->id, STATE_INCOMPLETE, STATE_COMPLETE);
	mgr_stop();
	char path[PATH_MAX];
	Id id = { .id = state_psn(), .version = 0, .volume = container_of(list_first(&mgr_config.volumes.list), Volume, link) };
	id.volume->storage = storage_mgr_find(&storages, &id.volume->name, true);
	int size; char* p = NULL;
	// partition could be on any of the volumes
	list_foreach(&mgr_config.volumes.list) {
		id.volume = list_at(Volume, link);
		id.volume->storage = storage_mgr_find(&storages, &id.volume->name, true);
		id_path(&id, path, STATE_COMPLETE, false);
		if ((p = file_load(path, &size))) break;
	}
	pbt_check(p, "partition file is not found");
	int refused = 0;
	for (int q = 0; q < 12; q++) {
		int n = size; char* d = exact(p, size);
		char what[200];
		if (PICK(4) == 0 && size > 6600) {
			// the page header
			int at = sizeof(HeapHeader) + sizeof(HeapBucket) * 385 + PICK(24), bit = PICK(8);
			d[at] ^= 1 << bit;
			sprintf(what, "flip bit %d of byte %d (page header)", bit, at);
		} else if (PICK(5) == 4 && damage_pages(&d, &n, what)) {
			pbt_class("pages mixed up");
		} else if (! damage(&d, &n, what)) { free(d); continue; }
		file_store(path, d, n);
		free(d);
		int noted = 0;
		if (pbt_replaying()) { pbt_note("%s", what); noted = 1; }
		bool failed = error_catch( mgr_start(); );
		if (failed) { refused++; mgr_stop(); continue; }
		if (! noted) pbt_note("%s: accepted", what);
		// accepted: has to be the same data and remain usable
		verify(&live, "accepted damaged file");
		auto pp = container_of(list_first(&mgr.list), Part, link);
		pbt_check(pp->heap->header->lsn == 77, "damaged lsn is accepted");
		Set more = {0};
		set_copy(&more, &live);
		int k = more.n;
		for (int i = 0; i < 40; i++) do_insert(&more, 5000 + i, 100 + i, 2 * i);
		for (int i = 0; i < k / 2; i++) do_delete(&more, 0);
		for (int i = 0; i < 40; i++) do_insert(&more, 6000 + i, 100 + i, 2 * i);
		verify(&more, "after using the accepted damaged file");
		free(more.e);
		mgr_stop();
	}
	// intact file is accepted
	file_store(path, p, size);
	mgr_start();
	verify(&live, "intact file");
	if (refused > 3) pbt_nontrivial();
	pbt_count("damaged files refused", refused);
	free(p); free(live.e);
	stop();
}
static void run_case(void)
{
	signal(SIGXFSZ, SIG_IGN);
	if (PICK(3)) case_roundtrip(); else case_damage();
}
PbtHarness pbt_harness = { .name = "heap_file", .run = run_case };
