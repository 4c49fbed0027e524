// C11: key to partition mapping
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "rows.h"
#include "store.h"

static uint32_t ref_murmur(const uint8_t* p, int n, uint32_t h)
{
	int i = 0;
	for (; i + 4 <= n; i += 4) {
		uint32_t k = p[i] | p[i + 1] << 8 | p[i + 2] << 16 | (uint32_t)p[i + 3] << 24;
		k *= 0xcc9e2d51u; k = k << 15 | k >> 17; k *= 0x1b873593u;
		h ^= k; h = h << 13 | h >> 19; h = h * 5 + 0xe6546b64u;
	}
	uint32_t k = 0;
	for (int j = n - 1; j >= i; j--) k = k << 8 | p[j];
	if (n > i) { k *= 0xcc9e2d51u; k = k << 15 | k >> 17; k *= 0x1b873593u; h ^= k; }
	h ^= n; h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16;
	return h;
}

static Schema  schema;
static List    index_configs;
static IndexConfig* primary_config;
static StorageMgr storages;
static TierMgr tiers;
static PartMgrConfig mgr_config;
static PartMgr mgr;
static PartArg arg;
static Sequence seq;
static Uuid id_table;
static int key_n, cols[3];
static char* arena; static int arena_n;
static void* keep(int n) { void* p = arena + arena_n; arena_n += (n + 15) & ~15; if (arena_n > (1 << 20)) abort(); return p; }

static void attach(PartMgr* m) { list_foreach(&m->list) part_open(list_at(Part, link)); }
static void detach(PartMgr* m) { unused(m); }
static PartMgrIf mgr_if = { attach, detach };
static void mgr_start(void)
{
	sequence_init(&seq);
	arg.seq = &seq; arg.unlogged = false; arg.id_table = &id_table;
	tier_mgr_init(&tiers, &storages, &primary_config->keys);
	part_mgr_init(&mgr, &mgr_if, NULL, &mgr_config, &arg, &tiers, &primary_config->keys);
	part_mgr_open(&mgr, &index_configs);
}
static void mgr_stop(void)
{
	part_mgr_free(&mgr);
	volume_mgr_unref(&mgr_config.volumes);
	sequence_free(&seq);
}
static const struct { int type, size; } types[] = {
	{ TYPE_INT, 4 }, { TYPE_INT, 8 }, { TYPE_STRING, 0 }, { TYPE_UUID, 16 }, { TYPE_TIMESTAMP, 8 }
};
static void cell_any(ColDef* d, Cell* c)
{
	memset(c, 0, sizeof(*c));
	switch (d->type) {
	case TYPE_INT: case TYPE_TIMESTAMP: c->i = PICK(3) ? PICK(1000) : pbt_int64(); if (d->size == 4) c->i = (int32_t)c->i; break;
	case TYPE_UUID: c->ua = pbt_int64(); c->ub = PICK(2) ? 0 : pbt_int64(); break;
	case TYPE_STRING: c->n = pbt_size(40); c->p = keep(c->n + 1); for (int i = 0; i < c->n; i++) c->p[i] = PICK(3) ? 'a' + PICK(26) : PICK(256); break;
	}
}
typedef struct { uint64_t id; int min, max; Uuid volume; } Range;
static Range* ranges; static int ranges_n;
static int mapped(void)
{
	int n = 0;
	list_foreach(&mgr.list) { unused(list_at(Part, link)); n++; }
	return n;
}
static int range_cmp(const void* a, const void* b) { return ((Range*)a)->min - ((Range*)b)->min; }
// every hash slot belongs to exactly one partition, and the mapping agrees
static void verify(int parts, const char* when, Part* removed)
{
	pbt_check(mapped() == parts && mgr.list_count == parts, "%s: %d partitions of %d", when, mapped(), parts);
	static Part* owner[PART_MAPPING_MAX];
	memset(owner, 0, sizeof(owner));
	list_foreach(&mgr.list) {
		auto p = list_at(Part, link);
		int min = p->heap->header->hash_min, max = p->heap->header->hash_max;
		pbt_check(min >= 0 && min < max && max <= PART_MAPPING_MAX, "%s: partition %" PRIu64 " has the range %d..%d", when, p->id.id, min, max);
		for (int i = min; i < max; i++) {
			pbt_check(! owner[i], "%s: slot %d belongs to two partitions", when, i);
			owner[i] = p;
		}
		pbt_check(part_mgr_find(&mgr, p->id.id) == p, "%s: partition %" PRIu64 " is not found by its id", when, p->id.id);
	}
	for (int i = 0; i < PART_MAPPING_MAX; i++) {
		pbt_check(owner[i], "%s: slot %d belongs to no partition", when, i);
		pbt_check(mgr.mapping.map[i] == (owner[i] == removed ? NULL : owner[i]), "%s: slot %d is mapped to another partition", when, i);
	}
}
static void setup(void) { arena = malloc((1 << 20) + 70000); ranges = malloc(sizeof(Range) * PART_MAPPING_MAX); signal(SIGXFSZ, SIG_IGN); }

enum { KEYS = 60 };
static void case_run(void)
{
	arena_n = 0;
	base_create();
	schema_init(&schema);
	key_n = 1 + PICK(3);
	int n = key_n + PICK(3);
	bool is_key[8] = { 0 };
	for (int i = 0; i < key_n; i++) { int c = PICK(n); while (is_key[c]) c = (c + 1) % n; is_key[c] = true; cols[i] = c; }
	for (int i = 0; i < n; i++) { int t = PICK(5); schema_add(&schema, types[t].type, types[t].size); }
	primary_config = index_config_allocate(&schema.columns);
	Str s; str_set_cstr(&s, "primary"); index_config_set_name(primary_config, &s);
	index_config_set_type(primary_config, INDEX_HASH); index_config_set_unique(primary_config, true); index_config_set_primary(primary_config, true);
	for (int i = 0; i < key_n; i++) { auto key = key_allocate(); key_set_ref(key, cols[i]); keys_add(&primary_config->keys, key); }
	list_init(&index_configs);
	list_append(&index_configs, &primary_config->link);
	storage_mgr_init(&storages);
	storage_make(&storages, "s0", "none"); storage_make(&storages, "s1", "none"); storage_make(&storages, "s2", "none");
	part_mgr_config_init(&mgr_config);
	static const int some[] = { 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128 };
	int parts = some[PICK(NELEM(some))];
	switch (PICK(24)) {
	case 0: parts = 1 + PICK(700); break;
	case 1: if (PICK(8) == 0) { static const int big[] = { 8192, 8191, 4097, 4096, 5461, 1000, 2731 }; parts = big[PICK(NELEM(big))]; } break;
	}
	static const char* names[] = { "s0", "s1", "s2" };
	int volumes = 1 + PICK(3), active = 0; bool pause[3];
	for (int i = 0; i < volumes; i++) {
		auto v = volume_make((char*)names[i], i + 1);
		pause[i] = i && PICK(4) == 0; // at least one is not paused
		volume_set_pause(v, pause[i]); active += ! pause[i];
		volume_mgr_add(&mgr_config.volumes, v);
	}
	opt_int_set(&config()->storage_sync, false);
	pbt_note("%d partitions, %d key columns, %d volumes (%d active)", parts, key_n, volumes, active);
	// numbers out of the range are refused
	if (PICK(5) == 0) {
		static const int bad[] = { 0, -1, 8193, 65536, INT32_MAX, INT32_MIN };
		int b = bad[PICK(NELEM(bad))];
		part_mgr_config_set_partitions(&mgr_config, b);
		bool failed = error_catch( mgr_start(); );
		pbt_check(failed, "%d partitions are accepted", b);
		mgr_stop();
	}
	part_mgr_config_set_partitions(&mgr_config, parts);
	mgr_start();
	verify(parts, "created", NULL);
	// all of them are used and no one is much larger (the last one takes the rest)
	list_foreach(&mgr_config.volumes.list) {
		auto v = list_at(Volume, link);
		int lo = parts / active, hi = (parts + active - 1) / active;
		if (v->pause) lo = hi = 0;
		pbt_check(v->list_count >= lo && v->list_count <= hi, "volume has %d partitions of %d (%d volumes)", v->list_count, parts, active);
	}
	ranges_n = 0;
	list_foreach(&mgr.list) { auto p = list_at(Part, link); ranges[ranges_n++] = (Range){ p->id.id, p->heap->header->hash_min, p->heap->header->hash_max, p->id.volume->id }; }
	qsort(ranges, ranges_n, sizeof(Range), range_cmp);
	// keys
	Cell cells[KEYS][6]; uint64_t where[KEYS];
	int keys = 5 + PICK(KEYS - 5);
	int used[KEYS], used_n = 0;
	for (int q = 0; q < keys; q++) {
		for (int i = 0; i < n; i++) cell_any(&schema.def[i], &cells[q][i]);
		uint32_t h = 0;
		for (int k = 0; k < key_n; k++) {
			auto d = &schema.def[cols[k]]; auto c = &cells[q][cols[k]];
			uint8_t t[32], *p = t;
			if (d->size) { cell_write(d, c, &p); h = ref_murmur(t, d->size, h); } else h = ref_murmur(c->p, c->n, h);
		}
		int slot = h % 8192;
		Row* row = row_build(&schema, cells[q]);
		auto part = part_mapping_map(&mgr.mapping, row);
		pbt_check(part, "key is mapped to no partition");
		pbt_check(slot >= part->heap->header->hash_min && slot < part->heap->header->hash_max, "key of the slot %d is mapped to the partition %d..%d", slot, part->heap->header->hash_min, part->heap->header->hash_max);
		where[q] = part->id.id;
		free(row);
		// other columns do not matter: the full row, a row of another format, only the key
		Cell other[6];
		memcpy(other, cells[q], sizeof(other));
		for (int i = 0; i < n; i++) if (! is_key[i]) { if (PICK(2)) { other[i] = (Cell){ .null = true }; } else { cell_any(&schema.def[i], &other[i]); if (schema.def[i].type == TYPE_STRING && PICK(3) == 0) { other[i].n = 300; other[i].p = keep(300); memset(other[i].p, 'x', 300); } } }
		row = row_build(&schema, other);
		pbt_check(part_mapping_map(&mgr.mapping, row) == part, "equal keys are mapped to different partitions");
		free(row);
		int seen = 0;
		for (int i = 0; i < used_n; i++) seen |= used[i] == (int)where[q];
		if (! seen) used[used_n++] = where[q];
	}
	if (parts > 1 && used_n > 1) pbt_nontrivial();
	pbt_count("keys routed", keys);
	// one partition is taken out and put back
	for (int t = 0; t < 3 && parts <= 200; t++) {
		int at = PICK(parts);
		auto p = part_mgr_find(&mgr, ranges[at].id);
		part_mapping_remove(&mgr.mapping, p);
		verify(parts, "removed", p);
		part_mapping_add(&mgr.mapping, p);
		verify(parts, "added back", NULL);
	}
	// restart, maybe with another number in the configuration
	for (int t = PICK(3); t > 0; t--) {
		mgr_stop();
		if (PICK(3) == 0) part_mgr_config_set_partitions(&mgr_config, 1 + PICK(20));
		mgr_start();
		verify(parts, "restarted", NULL);
		for (int i = 0; i < ranges_n; i++) {
			auto p = part_mgr_find(&mgr, ranges[i].id);
			pbt_check(p, "partition %" PRIu64 " is lost", ranges[i].id);
			pbt_check(p->heap->header->hash_min == ranges[i].min && p->heap->header->hash_max == ranges[i].max && ! uuid_compare(&p->id.volume->id, &ranges[i].volume), "partition %" PRIu64 " is changed by the restart", ranges[i].id);
		}
		for (int q = 0; q < keys; q++) {
			Row* row = row_build(&schema, cells[q]);
			auto part = part_mapping_map(&mgr.mapping, row);
			pbt_check(part && part->id.id == where[q], "key is mapped to another partition after a restart");
			free(row);
		}
		pbt_class("restart");
	}
	mgr_stop();
	part_mgr_config_free(&mgr_config);
	storage_mgr_free(&storages);
	index_config_free(primary_config);
	schema_free(&schema);
	base_drop();
}
PbtHarness pbt_harness = { .name = "mapping", .setup = setup, .run = case_run };
