// C05: heap against a table of live allocations
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "rows.h"

typedef struct { uint8_t* ptr; int size; uint64_t seed; bool shadow; bool dead; } Ent;  // dead: freed during a snapshot
static Ent* ents; static int ents_n, ents_cap;
static Ent* recs; static int recs_n, recs_cap;   // delayed frees, in the shadow heap
static Heap *heap, *shadow;
static uint64_t seed_next;
static int* lru; static int lru_n, lru_cap;       // indexes of ents, most recent first
static bool with_lru;

static uint64_t mix(uint64_t x)
{
	x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
	return x;
}
static void fill(uint8_t* p, int n, uint64_t seed)
{
	for (int i = 0; i < n; i += 8) { uint64_t v = mix(seed + i); memcpy(p + i, &v, n - i < 8 ? n - i : 8); }
}
static bool same(uint8_t* p, int n, uint64_t seed)
{
	for (int i = 0; i < n; i += 8) { uint64_t v = mix(seed + i); if (memcmp(p + i, &v, n - i < 8 ? n - i : 8)) return false; }
	return true;
}
static Ent* ent_new(void)
{
	if (ents_n == ents_cap) { ents_cap = ents_cap * 2 + 256; ents = realloc(ents, sizeof(Ent) * ents_cap); }
	return &ents[ents_n++];
}
// space of a chunk by the bucket table: 16 byte steps below 1024, then 32 steps for every power of two
static int64_t space_of(int size)
{
	int64_t n = size + 24;
	int64_t base = 1024;
	if (n < 1024) return (n / 16 + 1) * 16;
	while (n >= base * 2) base *= 2;
	int64_t step = base / 32;
	return base + ((n - base) / step + 1) * step;
}
#define ROW_LIMIT (512 * 1024 - 24)
static void lru_top(int e)
{
	for (int i = 0; i < lru_n; i++) if (lru[i] == e) { memmove(lru + i, lru + i + 1, sizeof(int) * (lru_n - i - 1)); lru_n--; break; }
	if (lru_n + 1 >= lru_cap) { lru_cap = lru_cap * 2 + 64; lru = realloc(lru, sizeof(int) * lru_cap); }
	memmove(lru + 1, lru, sizeof(int) * lru_n);
	lru[0] = e; lru_n++;
}
static int gen_size(void)
{
	static const int w[] = { 6, 4, 5, 2, 1 };
	switch (pbt_weighted(w, 5)) {
	case 0: return 1 + PICK(300);
	case 1: { // around the bucket borders of any group
		int lg = 5 + PICK(10);
		int base = 1 << lg;
		int k = PICK(33);
		int n = base + k * (base / 32 > 0 ? base / 32 : 1) + (int)pbt_range(-2, 2) - 24;
		return n < 1 ? 1 : n;
	}
	case 2: { static const int fixed[] = { 8, 40, 100, 1000, 5000, 24, 8, 40 }; return fixed[PICK(NELEM(fixed))]; }
	case 3: return 1 + PICK(70000);
	default: {
		if (PICK(2)) return 1 + PICK(ROW_LIMIT);
		// largest sizes and above
		int n = 491520 + PICK(3) * 8192 + (int)pbt_range(-30, 30) - 24;
		return PICK(4) == 0 ? n * 2 + PICK(100) : n;
	}
	}
}
static void do_add(int size)
{
	uint8_t* p = NULL;
	bool failed = error_catch( p = heap_add(heap, size); );
	if (space_of(size) > ROW_LIMIT) {
		pbt_check(failed, "a row of %d bytes larger than a page is accepted", size);
		pbt_class("too large");
		return;
	}
	pbt_check(! failed, "a row of %d bytes is refused", size);
	pbt_check(! ((uintptr_t)p & 7), "row of %d bytes is not aligned", size);
	int at = ents_n;
	auto e = ent_new();
	e->ptr = p; e->size = size; e->seed = seed_next += 1000003; e->shadow = shadow != NULL; e->dead = false;
	fill(p, size, e->seed);
	if (with_lru) lru_top(at);
	if (size > 65536) pbt_class("large rows");
}
static void do_remove(int i)
{
	auto e = &ents[i];
	heap_remove(heap, e->ptr);
	if (with_lru) {
		for (int k = 0; k < lru_n; k++) if (lru[k] == i) { memmove(lru + k, lru + k + 1, sizeof(int) * (lru_n - k - 1)); lru_n--; break; }
		// the last entry takes the place
		for (int k = 0; k < lru_n; k++) if (lru[k] == ents_n - 1) lru[k] = i;
	}
	if (shadow && ! e->shadow) {
		if (recs_n == recs_cap) { recs_cap = recs_cap * 2 + 64; recs = realloc(recs, sizeof(Ent) * recs_cap); }
		recs[recs_n++] = *e;
	}
	ents[i] = ents[--ents_n];
}
typedef struct { uint8_t* ptr; int64_t space; int size; uint64_t seed; bool rec; uint64_t victim; int hit; } Chunk;
static int chunk_cmp(const void* a, const void* b) { auto x = (Chunk*)a; auto y = (Chunk*)b; return (x->ptr > y->ptr) - (x->ptr < y->ptr); }
static int ptr_cmp(const void* a, const void* b) { uintptr_t x = *(uintptr_t*)a, y = *(uintptr_t*)b; return (x > y) - (x < y); }

// every live chunk of one heap: contents, no overlap, iteration, counters
static void verify_heap(Heap* h, Chunk* c, int n, int records, const char* what)
{
	qsort(c, n, sizeof(Chunk), chunk_cmp);
	int64_t total = 0;
	for (int i = 0; i < n; i++) {
		pbt_check(same(c[i].ptr, c[i].size, c[i].seed), "%s: contents of a live row of %d bytes changed", what, c[i].size);
		if (i) pbt_check(c[i - 1].ptr + c[i - 1].space <= c[i].ptr, "%s: live rows overlap", what);
		total += c[i].space;
	}
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, h, NULL);
	int seen = 0, seen_recs = 0;
	uintptr_t* victims = malloc(sizeof(uintptr_t) * (records + 1));
	while (heap_iterator_has(&it)) {
		uint8_t* p = (uint8_t*)heap_iterator_at(&it);
		auto chunk = heap_iterator_at_chunk(&it);
		if (records && chunk->is_shadow_free) {
			pbt_check(seen_recs < records, "%s: too many delayed frees", what);
			memcpy(&victims[seen_recs++], p, sizeof(uintptr_t));
		} else {
			Chunk key = { .ptr = p };
			Chunk* f = bsearch(&key, c, n, sizeof(Chunk), chunk_cmp);
			pbt_check(f, "%s: iteration gives something that is not a live row", what);
			pbt_check(! f->hit, "%s: iteration gives a row twice", what);
			f->hit = 1;
			seen++;
		}
		heap_iterator_next(&it);
	}
	pbt_check(seen == n, "%s: iteration gives %d of %d live rows", what, seen, n);
	pbt_check(seen_recs == records, "%s: %d of %d delayed frees are recorded", what, seen_recs, records);
	if (records) {
		uintptr_t* want = malloc(sizeof(uintptr_t) * records);
		for (int i = 0; i < records; i++) want[i] = (uintptr_t)recs[i].ptr;
		qsort(want, records, sizeof(uintptr_t), ptr_cmp);
		qsort(victims, records, sizeof(uintptr_t), ptr_cmp);
		pbt_check(! memcmp(want, victims, sizeof(uintptr_t) * records), "%s: delayed frees are of other rows", what);
		free(want);
	}
	free(victims);
	total += (int64_t)records * space_of(8);
	pbt_check(h->header->count_used == (uint32_t)(n + records), "%s: row counter is %u, there are %d", what, h->header->count_used, n + records);
	pbt_check((int64_t)h->header->size_used == total, "%s: space counter is %" PRIu64 ", expected %" PRIi64, what, h->header->size_used, total);
	pbt_check(h->header->count == (uint32_t)h->page_mgr.list_count, "%s: page counter is %u of %d", what, h->header->count, h->page_mgr.list_count);
	pbt_check(total <= (int64_t)page_mgr_used(&h->page_mgr), "%s: more space is used than allocated", what);
}
static void chunk_of(Chunk* c, Ent* e) { c->ptr = e->ptr; c->size = e->size; c->seed = e->seed; c->space = space_of(e->size); c->hit = 0; }
static void verify_lru(void)
{
	auto h = heap->header;
	int page = h->lru, offset = h->lru_offset, i = 0;
	while (offset) {
		pbt_check(i < lru_n, "lru order has more rows than live");
		auto c = heap_chunk_at(heap, page, offset);
		pbt_check(c->data == ents[lru[i]].ptr, "lru order differs from the order of use at position %d", i);
		page = c->next; offset = c->next_offset; i++;
	}
	pbt_check(i == lru_n, "lru order has %d of %d rows", i, lru_n);
	page = h->lru_tail, offset = h->lru_tail_offset;
	while (offset) {
		pbt_check(i > 0, "reverse lru order has more rows than live");
		auto c = heap_chunk_at(heap, page, offset);
		pbt_check(c->data == ents[lru[--i]].ptr, "reverse lru order differs at position %d", i);
		page = c->prev; offset = c->prev_offset;
	}
	pbt_check(i == 0, "reverse lru order has less rows");
}
static void verify(void)
{
	Chunk* c = malloc(sizeof(Chunk) * (ents_n + recs_n + 1));
	int n = 0;
	for (int i = 0; i < ents_n; i++) if (! ents[i].shadow) chunk_of(&c[n++], &ents[i]);
	// the snapshot still has the rows freed since
	for (int i = 0; i < recs_n; i++) chunk_of(&c[n++], &recs[i]);
	verify_heap(heap, c, n, 0, shadow ? "heap in snapshot" : "heap");
	if (shadow) {
		n = 0;
		for (int i = 0; i < ents_n; i++) if (ents[i].shadow) chunk_of(&c[n++], &ents[i]);
		verify_heap(shadow, c, n, recs_n, "shadow heap");
	}
	free(c);
	if (with_lru) verify_lru();
}
static void snapshot_end(void)
{
	// same steps as the partition refresh does
	auto sh = shadow;
	heap_snapshot(heap, NULL, false);
	shadow = NULL;
	int moved = 0;
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, sh, NULL);
	while (heap_iterator_has(&it)) {
		auto chunk = heap_iterator_at_chunk(&it);
		if (chunk->is_shadow_free)
			heap_remove(heap, *(void**)chunk->data);
		else {
			uint8_t* from = (uint8_t*)heap_iterator_at(&it);
			int k = -1;
			for (int i = 0; i < ents_n; i++) if (ents[i].ptr == from && ents[i].shadow) { k = i; break; }
			pbt_check(k >= 0, "shadow heap has a row that is not live");
			uint8_t* p = heap_add(heap, ents[k].size);
			memcpy(p, from, ents[k].size);
			ents[k].ptr = p; ents[k].shadow = false;
			moved++;
		}
		heap_iterator_next(&it);
	}
	for (int i = 0; i < ents_n; i++) pbt_check(! ents[i].shadow, "a row of the shadow heap is not iterated");
	recs_n = 0;
	heap_free(sh);
	if (moved) pbt_class("rows moved from shadow");
}
static void case_alloc(void)
{
	with_lru = PICK(4) == 0;
	heap = heap_allocate(with_lru);
	shadow = NULL;
	ents_n = recs_n = lru_n = 0; seed_next = 7;
	pbt_note("heap%s", with_lru ? " with lru" : "");
	int max = 0, reused = 0, max_rows = with_lru ? 400 : 6000;
	for (; pbt_more(40) && ! pbt_exhausted();) {
		static const int w[] = { 6, 5, 4, 3, 2, 2, 2 };
		switch (pbt_weighted(w, 7)) {
		case 0: { int n = gen_size(); pbt_note("add %d", n); do_add(n); break; }
		case 1: if (ents_n) { int i = PICK(ents_n); pbt_note("remove one of %d bytes", ents[i].size); do_remove(i); reused = 1; } break;
		case 2: {
			int n = gen_size(), count = 1 + PICK(150);
			if (n > 20000) { count = 1 + PICK(8); n = 1 + n % ROW_LIMIT; }
			int vary = PICK(3);
			pbt_note("add %d rows from %d bytes", count, n);
			for (int i = 0; i < count && ents_n < max_rows; i++) do_add(vary == 0 ? n : vary == 1 ? n + i : 1 + (int)(mix(seed_next + i) % (n + 1)));
			break; }
		case 3: {
			int count = 1 + PICK(ents_n + 1), from = PICK(3);
			pbt_note("remove %d rows", count);
			for (int i = 0; i < count && ents_n; i++) do_remove(from == 0 ? ents_n - 1 : from == 1 ? 0 : (int)(mix(seed_next + i * 31) % ents_n));
			reused = 1;
			break; }
		case 4:
			if (with_lru) {
				for (int k = 1 + PICK(20); k && ents_n; k--) { int i = PICK(ents_n); heap_up(heap, ents[i].ptr); lru_top(i); }
				pbt_note("use rows");
				break;
			}
			if (! shadow) { pbt_note("begin snapshot"); shadow = heap_allocate(false); heap_snapshot(heap, shadow, true); pbt_class("snapshot"); }
			else { pbt_note("end snapshot"); snapshot_end(); }
			break;
		case 5: if (! with_lru && ents_n) {
			// new version of a row: allocate then free the old
			int i = PICK(ents_n);
			pbt_note("update a row of %d bytes", ents[i].size);
			do_add(ents[i].size);
			do_remove(i);
			break;
		}
		// fallthrough
		case 6: verify(); break;
		}
		if (ents_n > max) max = ents_n;
	}
	verify();
	if (shadow) { pbt_note("end snapshot"); snapshot_end(); verify(); }
	if (max > 3 && reused) pbt_nontrivial();
	if (heap->page_mgr.list_count > 1) pbt_class("several pages");
	heap_free(heap);
}
// heap_index: sorted list of the live rows
static void case_index(void)
{
	Schema schema;
	schema_init(&schema);
	schema_add(&schema, TYPE_INT, 8);
	schema_add(&schema, TYPE_STRING, 0);
	Keys keys;
	keys_init(&keys, &schema.columns);
	bool text = PICK(2);
	auto key = key_allocate();
	key_set_ref(key, text ? 1 : 0);
	keys_add(&keys, key);
	heap = heap_allocate(false);
	Row* rows[600]; int n = 0;
	int count = 1 + PICK(500), shadow_at = PICK(2) ? PICK(count) : -1;
	pbt_note("sorted index by %s of %d steps", text ? "text" : "int", count);
	Heap* sh = NULL;
	int frees = 0;
	char t[64];
	for (int i = 0; i < count; i++) {
		if (i == shadow_at) { sh = heap_allocate(false); heap_snapshot(heap, sh, true); n = 0; /* the shadow heap is indexed */ }
		Cell c[2]; memset(c, 0, sizeof(c));
		c[0].i = (int64_t)mix(i) >> (i & 31);
		c[1].n = sprintf(t, "%" PRIx64, mix(i) >> (i & 31));
		c[1].p = (uint8_t*)t;
		rows[n++] = row_build_heap(&schema, c, heap);
		if (PICK(4) == 0 && n) { int k = PICK(n); row_free(heap, rows[k]); rows[k] = rows[--n]; frees++; }
	}
	auto target = sh ? sh : heap;
	Buf buf; buf_init(&buf);
	buf_write(&buf, "junk", 4);
	heap_index(target, &keys, &buf);
	pbt_check(buf_size(&buf) == n * (int)sizeof(Row*), "%d rows are in the index, %d are live", buf_size(&buf) / (int)sizeof(Row*), n);
	Row** got = (Row**)buf.start;
	for (int i = 1; i < n; i++) {
		void *a = row_at(got[i - 1], text ? 1 : 0), *b = row_at(got[i], text ? 1 : 0);
		if (text) {
			uint8_t *pa = a, *pb = b; Str x, y;
			json_read_string(&pa, &x); json_read_string(&pb, &y);
			int k = str_size(&x) < str_size(&y) ? str_size(&x) : str_size(&y);
			int rc = memcmp(str_of(&x), str_of(&y), k);
			pbt_check(rc < 0 || (rc == 0 && str_size(&x) <= str_size(&y)), "rows %d and %d of the index are not in order", i - 1, i);
		} else
			pbt_check(*(int64_t*)a <= *(int64_t*)b, "rows %d and %d of the index are not in order", i - 1, i);
	}
	qsort(got, n, sizeof(Row*), ptr_cmp);
	qsort(rows, n, sizeof(Row*), ptr_cmp);
	pbt_check(! n || ! memcmp(got, rows, n * sizeof(Row*)), "the index has other rows than the live ones");
	if (n > 2 && frees) pbt_nontrivial();
	pbt_class("index of rows");
	buf_free(&buf);
	if (sh) { heap_snapshot(heap, NULL, false); heap_free(sh); }
	heap_free(heap);
	keys_free(&keys);
	schema_free(&schema);
}
static void run_case(void)
{
	if (PICK(8) == 0) case_index(); else case_alloc();
}
PbtHarness pbt_harness = { .name = "heap", .run = run_case };
