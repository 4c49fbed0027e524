// C10: rows against the cells they were made of
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "rows.h"

static uint32_t ref_murmur(const uint8_t* p, int n, uint32_t h)
{
	int i = 0;
	for (; i + 4 <= n; i += 4) {
		uint32_t k = p[i] | p[i + 1] << 8 | p[i + 2] << 16 | (uint32_t)p[i + 3] << 24;
		k *= 0xcc9e2d51u; k = k << 15 | k >> 17; k *= 0x1b873593u;
		h ^= k; h = h << 13 | h >> 19; h = h * 5 + 0xe6546b64u;
	}
	uint32_t k = 0;
	for (int j = n - 1; j >= i; j--) k = k << 8 | p[j];
	if (n > i) { k *= 0xcc9e2d51u; k = k << 15 | k >> 17; k *= 0x1b873593u; h ^= k; }
	h ^= n; h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16;
	return h;
}
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }

static Schema schema;
static Heap* heap;
static char* arena; static int arena_n;
static void* keep(int n) { void* p = arena + arena_n; arena_n += (n + 15) & ~15; if (arena_n > (8 << 20)) abort(); return p; }

static const struct { int type, size; bool key; } types[] = {
	{ TYPE_INT, 4, true }, { TYPE_INT, 8, true }, { TYPE_STRING, 0, true }, { TYPE_UUID, 16, true }, { TYPE_TIMESTAMP, 8, true },
	{ TYPE_BOOL, 1, false }, { TYPE_INT, 1, false }, { TYPE_INT, 2, false }, { TYPE_DOUBLE, 4, false }, { TYPE_DOUBLE, 8, false },
	{ TYPE_DATE, 4, false }, { TYPE_INTERVAL, sizeof(Interval), false }, { TYPE_JSON, 0, false }, { TYPE_VECTOR, 0, false },
};
// a value; small domains so that equal and neighbouring keys are met
static void cell_any(ColDef* d, Cell* c, bool null, int budget)
{
	memset(c, 0, sizeof(*c));
	if (null) { c->null = true; return; }
	switch (d->type) {
	case TYPE_BOOL: c->i = PICK(2); break;
	case TYPE_INT: case TYPE_TIMESTAMP: case TYPE_DATE: {
		int64_t v = PICK(3) ? (int64_t)PICK(7) - 3 : pbt_int64();
		switch (d->size) { case 1: v = (int8_t)v; break; case 2: v = (int16_t)v; break; case 4: v = (int32_t)v; break; }
		c->i = v; break; }
	case TYPE_DOUBLE: c->r = (double)pbt_int64() / 3; if (d->size == 4) c->r = (float)c->r; break;
	case TYPE_UUID: c->ua = PICK(2) ? (uint64_t)PICK(3) : ~(uint64_t)PICK(3); c->ub = PICK(2) ? (uint64_t)PICK(3) : mix(PICK(3)); break;
	case TYPE_INTERVAL: c->m = pbt_int64(); c->d = pbt_int64(); c->i = pbt_int64(); break;
	case TYPE_STRING: {
		static const int sizes[] = { 0, 1, 2, 3, 14, 15, 16, 31, 32, 33, 127, 128, 129, 250, 255, 256 };
		int n = PICK(4) ? pbt_size(12) : PICK(6) ? sizes[PICK(NELEM(sizes))] : PICK(budget + 1);
		c->n = n; c->p = keep(n + 1);
		int a = PICK(3);
		for (int i = 0; i < n; i++) c->p[i] = a == 0 ? 'a' : a == 1 ? 'a' + (i * 7 + n) % 26 : 0;
		if (a == 2 && n) c->p[n - 1] = PICK(256);
		if (a != 2 && n && PICK(2)) c->p[n - 1] = 'a' + PICK(3);
		break; }
	case TYPE_JSON: {
		Buf b; buf_init(&b);
		encode_array(&b);
		int n = PICK(4);
		while (n--) { if (PICK(2)) encode_integer(&b, pbt_int64()); else { char t[300]; int k = pbt_size(290); memset(t, 'q', k); encode_raw(&b, t, k); } }
		encode_array_end(&b);
		c->n = buf_size(&b); c->p = keep(c->n); memcpy(c->p, b.start, c->n);
		buf_free(&b); break; }
	case TYPE_VECTOR: { c->n = pbt_size(100); c->p = keep(c->n * 4); for (int i = 0; i < c->n; i++) { float f = i * 1.5f; memcpy(c->p + i * 4, &f, 4); } break; }
	}
}
static void verify(Cell* cells, Row* row, const char* what)
{
	for (int i = 0; i < schema.count; i++)
		pbt_check(cell_is(&schema.def[i], &cells[i], row_at(row, i)), "%s: column %d of %d (type %d) is altered", what, i, schema.count, schema.def[i].type);
	pbt_check(row_at(row, schema.count) == NULL, "%s: column after the last one", what);
	pbt_check(row_at(row, schema.count + PICK(100)) == NULL, "%s: column after the last one", what);
	list_foreach(&schema.columns.list) {
		auto col = list_at(Column, link);
		pbt_check(row_column(row, col) == row_at(row, col->order), "%s: row_column", what);
	}
}
static void setup(void) { arena = malloc((8 << 20) + 70000); }

enum { ROWS = 8 };
static void case_run(void)
{
	arena_n = 0;
	schema_init(&schema);
	heap = heap_allocate(false);
	int key_n = 1 + PICK(3), n = key_n + (PICK(8) == 0 ? PICK(COLS_MAX - 5) : PICK(6));
	// key columns anywhere
	bool is_key[COLS_MAX] = { 0 };
	int cols[4];
	for (int i = 0; i < key_n; i++) { int c; do c = PICK(n); while (is_key[c] && ! pbt_exhausted()); if (is_key[c]) for (c = 0; is_key[c]; c++); is_key[c] = true; cols[i] = c; }
	for (int i = 0; i < n; i++) { int t = PICK(is_key[i] ? 5 : NELEM(types)); schema_add(&schema, types[t].type, types[t].size); }
	Keys keys;
	keys_init(&keys, &schema.columns);
	for (int i = 0; i < key_n; i++) { auto key = key_allocate(); key_set_ref(key, cols[i]); keys_add(&keys, key); }
	// total sizes around the borders of the row formats
	Cell cells[ROWS][COLS_MAX];
	Row* rows[ROWS]; Row* copies[ROWS];
	int rows_n = 2 + PICK(ROWS - 1);
	uint32_t formats = 0;
	for (int r = 0; r < rows_n; r++) {
		bool copy_key = r > 0 && PICK(2);
		for (int i = 0; i < n; i++) {
			if (copy_key && is_key[i] && PICK(6)) cells[r][i] = cells[r - 1][i];
			else cell_any(&schema.def[i], &cells[r][i], ! is_key[i] && PICK(3) == 0, 3000);
		}
		// make one string fill the row up to a border
		for (int i = 0; i < n && PICK(2); i++)
			if (! is_key[i] && schema.def[i].type == TYPE_STRING && ! cells[r][i].null) {
				cells[r][i].n = 0;
				int f; int base = row_measure(n, cells_size(&schema, cells[r]), &f);
				int target = PICK(2) ? 255 : 65535;
				int want = target - base - 2 + PICK(12) - 6 - (target > 255 ? n + 4 : 0);
				if (want < 0) want = 0;
				if (PICK(5) == 0) want = 66000 + PICK(3000);
				if (arena_n + want < (4 << 20)) { cells[r][i].n = want; cells[r][i].p = keep(want); memset(cells[r][i].p, 'f', want); }
				break;
			}
		// size of the format is the smallest one that has room
		int data = cells_size(&schema, cells[r]), factor = -1;
		int size = row_measure(n, data, &factor);
		int want = 3 + data + 1 + n, wf = 0;
		if (want > 255) { want = 3 + data + 2 * (1 + n); wf = 1; if (want > 65535) { want = 3 + data + 4 * (1 + n); wf = 3; } }
		pbt_check(size == want && factor == wf, "row of %d columns and %d bytes is measured as %d/%d, expected %d/%d", n, data, size, factor, want, wf);
		formats |= 1 << factor;
		rows[r] = row_build(&schema, cells[r]);
		pbt_check((int)row_size(rows[r]) == size, "row size is %u, expected %d", row_size(rows[r]), size);
		pbt_check((uint8_t*)row_data(rows[r], n) + data == (uint8_t*)rows[r] + size, "row data does not end with the row");
		pbt_check(rows[r]->columns == n && ! rows[r]->is_delete, "row header");
		verify(cells[r], rows[r], "row");
		copies[r] = row_copy(heap, rows[r]);
		pbt_check(! memcmp(copies[r], rows[r], size), "copy of the row is altered");
	}
	for (int r = 0; r < rows_n; r++) {
		Row* again = row_build_heap(&schema, cells[r], heap);
		pbt_check((int)row_size(again) == (int)row_size(rows[r]) && ! memcmp(again, rows[r], row_size(again)), "row made in the heap is not the same");
		Buf b; buf_init(&b);
		auto inbuf = row_allocate_buf(&b, n, cells_size(&schema, cells[r]));
		cells_write(&schema, cells[r], inbuf);
		pbt_check(buf_size(&b) == (int)row_size(rows[r]) && ! memcmp(inbuf, rows[r], row_size(rows[r])), "row made in the buffer is not the same");
		buf_free(&b);
	}
	// later rows do not change earlier ones
	for (int r = 0; r < rows_n; r++) verify(cells[r], copies[r], "copy");
	// order and hash
	int eq = 0;
	for (int a = 0; a < rows_n; a++) {
		uint32_t h = 0;
		for (int k = 0; k < key_n; k++) {
			auto d = &schema.def[cols[k]]; auto c = &cells[a][cols[k]];
			uint8_t t[32], *p = t;
			if (d->size) { cell_write(d, c, &p); h = ref_murmur(t, d->size, h); }
			else h = ref_murmur(c->p, c->n, h);
		}
		pbt_check(row_hash(rows[a], &keys) == h, "hash of a row is %x, expected %x", row_hash(rows[a], &keys), h);
		for (int b = 0; b < rows_n; b++) {
			int want = 0;
			for (int k = 0; k < key_n && want == 0; k++) want = cell_cmp(&schema.def[cols[k]], &cells[a][cols[k]], &cells[b][cols[k]]);
			int got = compare(&keys, rows[a], PICK(2) ? rows[b] : copies[b]);
			pbt_check((got > 0) - (got < 0) == want, "compare of keys is %d, expected %d", got, want);
			if (want == 0 && a != b) {
				eq++;
				pbt_check(row_hash(rows[a], &keys) == row_hash(rows[b], &keys), "equal keys have different hashes");
			}
		}
	}
	if (eq) pbt_class("equal keys");
	if (formats & 2) pbt_class("16 bit rows");
	if (formats & 8) pbt_class("32 bit rows");
	if (rows_n > 2 && n > 1) pbt_nontrivial();
	for (int r = 0; r < rows_n; r++) free(rows[r]);
	keys_free(&keys);
	heap_free(heap);
	schema_free(&schema);
}
PbtHarness pbt_harness = { .name = "row", .setup = setup, .run = case_run };
