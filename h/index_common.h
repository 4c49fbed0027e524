// model and operations shared by the tree and hash index checks
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "rows.h"

#define KEYS_MAX 4
typedef struct { int n; Cell key[KEYS_MAX]; Row* row; } Ent;

static Schema schema;
static IndexConfig* config;
static int     key_cols[KEYS_MAX], key_count;
static Ent*    ents; static int ents_n, ents_cap;   // sorted by key
static Row**   all;  static int all_n, all_cap;
static int     domain;
static int     style[KEYS_MAX];
static int64_t version;
static char*   arena; static int arena_n;
#define ARENA (64 << 20)

static void* keep(const void* p, int n)
{
	if (arena_n + n > ARENA) abort();
	void* r = arena + arena_n;
	if (n) memcpy(r, p, n);
	arena_n += n;
	return r;
}
static uint64_t mix(uint64_t x)
{
	x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
	return x;
}
// n -> cell of the key column i; the last key column is always one to one
static void key_cell(int i, int n, Cell* c)
{
	memset(c, 0, sizeof(*c));
	auto d = &schema.def[key_cols[i]];
	if (i != key_count - 1) n /= 7;
	int st = style[i];
	switch (d->type) {
	case TYPE_INT: case TYPE_TIMESTAMP: {
		int64_t v = n;
		switch (st) {
		case 0: break;
		case 1: v = d->size == 4 ? (int64_t)(int32_t)(n * 2654435761u) : (int64_t)(n * 0x9e3779b97f4a7c15ull); break;
		case 2: v = d->size == 4 ? (n & 1 ? INT32_MAX - (int64_t)n : INT32_MIN + (int64_t)n) : (n & 1 ? INT64_MAX - n : INT64_MIN + n); break;
		case 3: v = (int64_t)n - domain / 2; break;
		case 4: v = (int64_t)n * 256; break;
		}
		c->i = v;
		break; }
	case TYPE_UUID:
		c->ua = st & 1 ? mix(n) : (uint64_t)(n / 5);
		c->ub = st & 2 ? mix(n ^ 77) : (uint64_t)n;
		if (st == 4) { c->ua = ~(uint64_t)(n / 3); c->ub = ~(uint64_t)n; }
		break;
	default: {
		char t[200];
		int k = 0;
		switch (st) {
		case 0: k = sprintf(t, "%d", n); break;
		case 1: k = sprintf(t, "%016" PRIx64, mix(n)); break;
		case 2: for (int v = n; ; v /= 3) { t[k++] = "\x00\x7f\xff"[v % 3]; if (v < 3) break; } break;
		case 3: memset(t, 'p', 140); k = 140 + sprintf(t + 140, "%d", n); break;
		case 4: for (int v = n + 1; v; v >>= 1) t[k++] = v & 1 ? (char)0x80 : 'a'; break;
		}
		c->p = keep(t, k);
		c->n = k;
		break; }
	}
}
static int key_cmp(Cell* a, Cell* b)
{
	for (int i = 0; i < key_count; i++) {
		int rc = cell_cmp(&schema.def[key_cols[i]], &a[i], &b[i]);
		if (rc) return rc;
	}
	return 0;
}
static Row* row_of(int n, bool key_only)
{
	Cell cells[COLS_MAX];
	memset(cells, 0, sizeof(cells));
	for (int i = 0; i < schema.count; i++) cells[i].null = true;
	for (int i = 0; i < key_count; i++) key_cell(i, n, &cells[key_cols[i]]);
	// payload version (the last column)
	if (! key_only) { cells[schema.count - 1].null = false; cells[schema.count - 1].i = ++version; }
	Row* row = row_build(&schema, cells);
	if (all_n == all_cap) { all_cap = all_cap * 2 + 64; all = realloc(all, sizeof(Row*) * all_cap); }
	all[all_n++] = row;
	return row;
}
// position of the first entry >= key
static int ent_find(Cell* key, bool* match)
{
	int lo = 0, hi = ents_n;
	while (lo < hi) { int m = (lo + hi) / 2; if (key_cmp(ents[m].key, key) < 0) lo = m + 1; else hi = m; }
	*match = lo < ents_n && ! key_cmp(ents[lo].key, key);
	return lo;
}
static int ent_at(int n, bool* match)
{
	Cell k[KEYS_MAX];
	for (int i = 0; i < key_count; i++) key_cell(i, n, &k[i]);
	return ent_find(k, match);
}
static void ent_insert(int at, int n, Row* row)
{
	if (ents_n == ents_cap) { ents_cap = ents_cap * 2 + 256; ents = realloc(ents, sizeof(Ent) * ents_cap); }
	memmove(&ents[at + 1], &ents[at], sizeof(Ent) * (ents_n - at));
	ents_n++;
	ents[at].n = n;
	for (int i = 0; i < key_count; i++) key_cell(i, n, &ents[at].key[i]);
	ents[at].row = row;
}
static void ent_delete(int at)
{
	memmove(&ents[at], &ents[at + 1], sizeof(Ent) * (ents_n - at - 1));
	ents_n--;
}
static int gen_n(void)
{
	if (ents_n && PICK(2)) return ents[PICK(ents_n)].n;
	return PICK(domain);
}
static const char* name_of(int n)
{
	static char t[4][256];
	static int k;
	char* o = t[k = (k + 1) & 3];
	int j = sprintf(o, "#%d(", n);
	for (int i = 0; i < key_count; i++) {
		Cell c;
		key_cell(i, n, &c);
		auto d = &schema.def[key_cols[i]];
		if (d->type == TYPE_STRING) j += sprintf(o + j, "'%.20s%s' ", show(c.p, c.n > 12 ? 12 : c.n), c.n > 12 ? ".." : "");
		else if (d->type == TYPE_UUID) j += sprintf(o + j, "%" PRIx64 "-%" PRIx64 " ", c.ua, c.ub);
		else j += sprintf(o + j, "%" PRIi64 " ", c.i);
	}
	sprintf(o + j, ")");
	return o;
}

static void case_begin(int type)
{
	if (! arena) arena = malloc(ARENA);
	arena_n = 0; ents_n = 0; all_n = 0; version = 0;
	schema_init(&schema);
	key_count = 1 + PICK(3);
	static const int doms[] = { 12, 60, 400, 3000, 20000 };
	domain = doms[PICK(NELEM(doms))];
	// key columns are placed anywhere in the row and in any order
	int extra = PICK(3);
	int total = key_count + extra;
	int is_key[8] = {0};
	for (int i = 0; i < key_count; i++) { int at; do at = PICK(total); while (is_key[at]); is_key[at] = 1; key_cols[i] = at; if (pbt_exhausted()) { for (at = 0; is_key[at] == 1 && at != key_cols[i]; at++); } }
	pbt_note("index on %d keys, domain %d:", key_count, domain);
	for (int i = 0; i < total; i++) {
		if (! is_key[i]) { schema_add(&schema, TYPE_INT, 8); continue; }
		switch (PICK(5)) {
		case 0: schema_add(&schema, TYPE_INT, 8); pbt_note(" int64"); break;
		case 1: schema_add(&schema, TYPE_INT, 4); pbt_note(" int32"); break;
		case 2: schema_add(&schema, TYPE_STRING, 0); pbt_note(" text"); break;
		case 3: schema_add(&schema, TYPE_TIMESTAMP, 8); pbt_note(" timestamp"); break;
		case 4: schema_add(&schema, TYPE_UUID, 16); pbt_note(" uuid"); break;
		}
	}
	schema_add(&schema, TYPE_INT, 8);
	for (int i = 0; i < key_count; i++) style[i] = PICK(5);
	config = index_config_allocate(&schema.columns);
	Str name; str_set_cstr(&name, "idx");
	index_config_set_name(config, &name);
	index_config_set_type(config, type);
	index_config_set_unique(config, true);
	index_config_set_primary(config, true);
	for (int i = 0; i < key_count; i++) {
		auto key = key_allocate();
		key_set_ref(key, key_cols[i]);
		keys_add(&config->keys, key);
	}
}
static void case_end(void)
{
	index_config_free(config);
	schema_free(&schema);
	for (int i = 0; i < all_n; i++) free(all[i]);
	all_n = 0;
}

// single key operations ------------------------------------------------------
static void op_upsert(Index* index)
{
	int n = gen_n();
	bool match;
	int at = ent_at(n, &match);
	Row* row = row_of(n, false);
	int then = PICK(4);
	pbt_note("upsert %s%s", name_of(n), then == 1 ? " then replace it" : then == 2 ? " then delete it" : "");
	auto it = index_iterator(index);
	bool exists = index_upsert(index, row, it);
	pbt_check(exists == match, "upsert says %s, expected %s", exists ? "exists" : "new", match ? "exists" : "new");
	if (! match) ent_insert(at, n, row);
	pbt_check(iterator_has(it) && iterator_at(it) == ents[at].row, "upsert iterator is not at the row");
	if (then == 1) {
		Row* other = row_of(n, false);
		Row* prev = index_replace(index, other, it);
		pbt_check(prev == ents[at].row, "replace by the upsert iterator returned a wrong row");
		ents[at].row = other;
		pbt_check(iterator_at(it) == other, "iterator is not at the replaced row");
	} else if (then == 2) {
		Row* prev = index_delete(index, it);
		pbt_check(prev == ents[at].row, "delete by the upsert iterator returned a wrong row");
		ent_delete(at);
	}
	iterator_close(it);
}
static void do_replace(Index* index, int n)
{
	bool match;
	int at = ent_at(n, &match);
	Row* row = row_of(n, false);
	Row* prev = index_replace_by(index, row);
	pbt_check(prev == (match ? ents[at].row : NULL), "replace %s returned %s", name_of(n), prev ? match ? "a wrong row" : "a row for a new key" : "nothing for an existing key");
	if (match) ents[at].row = row; else ent_insert(at, n, row);
}
static void do_delete(Index* index, int n)
{
	bool match;
	int at = ent_at(n, &match);
	Row* prev = index_delete_by(index, row_of(n, true));
	pbt_check(prev == (match ? ents[at].row : NULL), "delete %s returned %s", name_of(n), prev ? match ? "a wrong row" : "a row for a missing key" : "nothing for an existing key");
	if (match) ent_delete(at);
}
static void op_bulk(Index* index)
{
	int start = gen_n();
	int count = PICK(2) ? 1 + PICK(40) : 1 + PICK(domain > 1500 ? 1500 : domain);
	static const int strides[] = { 1, -1, 3, 7919, 101 };
	int stride = strides[PICK(NELEM(strides))];
	bool del = PICK(3) == 0;
	bool by_upsert = PICK(2);
	pbt_note("%s %d keys from %d step %d", del ? "delete" : by_upsert ? "upsert" : "replace", count, start, stride);
	if (all_n > 40000) return;
	for (int i = 0; i < count; i++) {
		int n = (int)((((int64_t)start + (int64_t)i * stride) % domain + domain) % domain);
		if (del) { do_delete(index, n); continue; }
		if (! by_upsert) { do_replace(index, n); continue; }
		bool match;
		int at = ent_at(n, &match);
		Row* row = row_of(n, false);
		auto it = index_iterator(index);
		bool exists = index_upsert(index, row, it);
		pbt_check(exists == match, "upsert %s says %s", name_of(n), exists ? "exists" : "new");
		if (! match) ent_insert(at, n, row);
		pbt_check(iterator_has(it) && iterator_at(it) == ents[at].row, "upsert iterator of %s is not at the row", name_of(n));
		iterator_close(it);
	}
}
