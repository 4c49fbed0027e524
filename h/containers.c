// C20: containers and basic algorithms against simple models
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"

static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
#define OPS(n) for (int op_n = 0; op_n < (n) && pbt_more(n / 2) && ! pbt_exhausted(); op_n++)

// buffers
static void case_buf(void)
{
	enum { MAX = 1 << 17 };
	static uint8_t model[MAX + 70000]; int n = 0;
	bool cached = PICK(2);
	Buf local, *b = &local;
	if (cached) b = buf_create(); else buf_init(b);
	pbt_check(buf_empty(b) && buf_size(b) == 0, "new buffer is not empty");
	OPS(60) {
		int k = PICK(13), l = PICK(4) ? pbt_size(40) : PICK(8) ? pbt_size(3000) : PICK(60000);
		if (n + l > MAX) { buf_reset(b); n = 0; }
		uint8_t t[64];
		switch (k) {
		case 0: case 1: {
			uint8_t* p = exact(NULL, 0); free(p);
			p = malloc(l ? l : 1); for (int i = 0; i < l; i++) p[i] = mix(n + i + l);
			buf_write(b, p, l); memcpy(model + n, p, l); n += l; free(p); break; }
		case 2: { uint8_t* p = buf_emplace(b, l); for (int i = 0; i < l; i++) p[i] = model[n + i] = i * 7; n += l; break; }
		case 3: { buf_reserve(b, l); pbt_check(buf_size_unused(b) >= l, "reserved %d of %d", buf_size_unused(b), l);
			int at = 0; while (at < l) { int w = 1 + PICK(l - at); uint8_t c[w]; memset(c, w, w); buf_append(b, c, w); memset(model + n, w, w); n += w; at += w; } break; }
		case 4: { int64_t v = pbt_int64(); buf_write_i64(b, v); memcpy(model + n, &v, 8); n += 8; break; }
		case 5: { int32_t v = pbt_int64(); buf_write_i32(b, v); memcpy(model + n, &v, 4); n += 4; int16_t w = v; buf_write_i16(b, w); memcpy(model + n, &w, 2); n += 2; int8_t x = v; buf_write_i8(b, x); model[n++] = x; break; }
		case 6: { double v = pbt_int64() / 7.0; buf_write_double(b, v); memcpy(model + n, &v, 8); n += 8; float f = v; buf_write_float(b, f); memcpy(model + n, &f, 4); n += 4; break; }
		case 7: { int c = PICK(n + 1); if (PICK(2) && c > 100) c %= 100; buf_truncate(b, c); n -= c; break; }
		case 8: if (PICK(3) == 0) { buf_reset(b); n = 0; } break;
		case 9: { int64_t v = pbt_int64(); buf_printf(b, "%" PRIi64 "-%.*s-%d", v, l, "", l); n += sprintf((char*)model + n, "%" PRIi64 "-%.*s-%d", v, l, "", l); break; }
		case 10: { int l2 = pbt_size(5000); char* s = malloc(l2 + 1); memset(s, 'x', l2); s[l2] = 0; buf_printf(b, "%s|%5d", s, l2); n += sprintf((char*)model + n, "%s|%5d", s, l2); free(s); break; }
		case 11: { Buf o; buf_init(&o); int m = pbt_size(60); for (int i = 0; i < m; i++) buf_write_i8(&o, i); buf_write_buf(b, &o); for (int i = 0; i < m; i++) model[n++] = i; buf_free(&o); break; }
		case 12: { int m = pbt_size(20); for (int i = 0; i < m; i++) t[i] = 'a' + i; Str s; str_set(&s, (char*)t, m); buf_write_str(b, &s); memcpy(model + n, t, m); n += m; break; }
		}
		pbt_check(buf_size(b) == n, "buffer size is %d, expected %d", buf_size(b), n);
		pbt_check(buf_empty(b) == (n == 0), "buf_empty");
		pbt_check(buf_capacity(b) >= n && buf_size_unused(b) == buf_capacity(b) - n, "buffer capacity");
	}
	pbt_check(n == 0 || ! memcmp(b->start, model, n), "buffer content differs");
	Str s; buf_str(b, &s);
	pbt_check(str_size(&s) == n && str_of(&s) == (char*)b->start, "buf_str");
	if (n > 64) pbt_nontrivial();
	buf_free(b);
	pbt_class("buf");
}
// buffers from the cache are never shared and come empty
static void case_buf_cache(void)
{
	enum { N = 24 };
	Buf* live[N]; uint8_t tag[N]; int size[N], refs[N]; int n = 0; uint8_t next = 1;
	OPS(80) {
		if (n < N && (n == 0 || PICK(2))) {
			auto b = buf_create();
			pbt_check(buf_empty(b), "created buffer is not empty");
			for (int i = 0; i < n; i++) pbt_check(live[i] != b && (! b->start || live[i]->start != b->start), "buffer is given twice");
			int l = PICK(3) ? pbt_size(200) : PICK(100000);
			memset(buf_emplace(b, l), next, l);
			live[n] = b; tag[n] = next++; size[n] = l; refs[n] = 0; n++;
		} else {
			int i = PICK(n);
			if (PICK(4) == 0) { buf_ref(live[i]); refs[i]++; continue; }
			pbt_check(buf_size(live[i]) == size[i], "buffer of %d bytes became %d", size[i], buf_size(live[i]));
			for (int j = 0; j < size[i]; j++) pbt_check(live[i]->start[j] == tag[i], "live buffer is overwritten");
			buf_free(live[i]);
			if (refs[i]) { refs[i]--; continue; }
			n--; live[i] = live[n]; tag[i] = tag[n]; size[i] = size[n]; refs[i] = refs[n];
		}
	}
	if (n > 2) pbt_nontrivial();
	for (int i = 0; i < n; i++) do buf_free(live[i]); while (refs[i]--);
	for (int i = 0; i < NELEM(am_task->buf_mgr->cache); i++) {
		auto c = &am_task->buf_mgr->cache[i];
		for (auto b = c->cache; b; b = b->cache_next) pbt_check(buf_capacity(b) < c->limit_buf, "buffer of %d bytes is kept in the cache", buf_capacity(b));
	}
	pbt_class("buf cache");
}
static void case_arena(void)
{
	static const int pages[] = { 64, 100, 512, 4096, 65536 };
	int page = pages[PICK(NELEM(pages))];
	Arena a; arena_init(&a, page);
	enum { N = 200 };
	struct { uint8_t* p; int n; uint8_t tag; } m[N]; int n = 0;
	uint8_t tag = 1;
	int resets = 0;
	OPS(150) {
		if (PICK(20) == 0) {
			for (int i = 0; i < n; i++) for (int j = 0; j < m[i].n; j++) pbt_check(m[i].p[j] == m[i].tag, "arena memory is shared");
			arena_reset(&a); n = 0; resets++; continue;
		}
		if (n == N) break;
		int l = PICK(6) ? PICK(64) : PICK(3) ? page : PICK(page + 1);
		m[n].p = arena_allocate(&a, l); m[n].n = l; m[n].tag = tag++;
		memset(m[n].p, m[n].tag, l); n++;
	}
	for (int i = 0; i < n; i++) for (int j = 0; j < m[i].n; j++) pbt_check(m[i].p[j] == m[i].tag, "arena memory is shared");
	if (n > 3 || resets) pbt_nontrivial();
	arena_free(&a);
	pbt_class("arena");
}
// red-black tree
typedef struct { RbtreeNode node; int key; int id; } RbItem;
static int rb_cmp(RbtreeNode* n, void* key) { int a = container_of(n, RbItem, node)->key, b = *(int*)key; return (a > b) - (a < b); }
static rbtree_get(rb_find, rb_cmp(n, key))
static int rb_visited;
static rbtree_free(rb_visit, { (void)arg; rb_visited++; })
static int rb_height(RbtreeNode* n, RbtreeNode* p)
{
	if (! n) return 1;
	pbt_check(n->p == p, "parent link is broken");
	pbt_check(! (n->color == 1 && p && p->color == 1), "red node under a red node");
	int l = rb_height(n->l, n), r = rb_height(n->r, n);
	pbt_check(l == r, "tree is not balanced: %d and %d", l, r);
	return l + (n->color == 0);
}
static int rb_sort(const void* a, const void* b) { return (*(RbItem**)a)->key - (*(RbItem**)b)->key; }
static void case_rbtree(void)
{
	enum { N = 300 };
	static RbItem pool[N + 8]; RbItem* live[N + 8]; int n = 0, range = 1 + PICK(PICK(3) ? 40 : 2000), used = 0;
	Rbtree t; rbtree_init(&t);
	pbt_check(! rbtree_min(&t) && ! rbtree_max(&t), "empty tree has rows");
	OPS(260) {
		int key = PICK(range);
		int at = -1; for (int i = 0; i < n; i++) if (live[i]->key == key) at = i;
		RbtreeNode* m = NULL;
		int rc = rb_find(&t, NULL, &key, &m);
		pbt_check((at >= 0) == (m && rc == 0), "key %d is %s", key, at >= 0 ? "lost" : "found");
		if (at >= 0) pbt_check(container_of(m, RbItem, node) == live[at], "another node for key %d", key);
		switch (PICK(5)) {
		case 0: case 1: case 2:
			if (used == NELEM(pool)) continue;
			if (at < 0) { auto it = &pool[used++]; it->key = key; rbtree_init_node(&it->node); rbtree_set(&t, m, rc, &it->node); live[n++] = it; }
			else { auto it = &pool[used++]; it->key = key; rbtree_init_node(&it->node); rbtree_replace(&t, m, &it->node); live[at] = it; }
			break;
		case 3: if (at >= 0) { rbtree_remove(&t, m); live[at] = live[--n]; } break;
		case 4: if (n) { int i = PICK(n); rbtree_remove(&t, &live[i]->node); live[i] = live[--n]; } break;
		}
		if (PICK(6) == 0) rb_height(t.root, NULL);
	}
	rb_height(t.root, NULL);
	qsort(live, n, sizeof(*live), rb_sort);
	auto node = rbtree_min(&t);
	for (int i = 0; i < n; i++) { pbt_check(node && container_of(node, RbItem, node) == live[i], "forward scan differs at %d of %d", i, n); node = rbtree_next(&t, node); }
	pbt_check(! node, "forward scan has more rows");
	node = rbtree_max(&t);
	for (int i = n - 1; i >= 0; i--) { pbt_check(node && container_of(node, RbItem, node) == live[i], "backward scan differs"); node = rbtree_prev(&t, node); }
	pbt_check(! node, "backward scan has more rows");
	rb_visited = 0;
	if (t.root) rb_visit(t.root, NULL);
	pbt_check(rb_visited == n, "%d nodes are visited of %d", rb_visited, n);
	if (n > 5) pbt_nontrivial();
	pbt_class("rbtree");
}
// hash table
typedef struct { HashtableNode node; int key; } HtItem;
static bool ht_cmp(HashtableNode* n, void* arg) { return container_of(n, HtItem, node)->key == *(int*)arg; }
static void case_hashtable(void)
{
	enum { N = 400 };
	static HtItem pool[N]; HtItem* live[N]; int n = 0, used = 0;
	int range = 2 + PICK(200), spread = 1 + PICK(4), shift = PICK(3) ? 0 : PICK(1000);
	Hashtable t; hashtable_init(&t);
	pbt_check(! hashtable_created(&t), "hashtable_created");
	hashtable_create(&t, 4 << PICK(7));
	pbt_check(hashtable_created(&t), "hashtable_created");
	OPS(220) {
		int key = PICK(range);
		uint32_t h = spread == 1 ? mix(key) : (uint32_t)(key / spread + shift);
		int at = -1; for (int i = 0; i < n; i++) if (live[i]->key == key) at = i;
		auto m = hashtable_get(&t, h, ht_cmp, &key);
		pbt_check((m != NULL) == (at >= 0), "key %d is %s (%d of %d)", key, at >= 0 ? "lost" : "found after it was removed", t.count, t.size);
		if (m) pbt_check(container_of(m, HtItem, node) == live[at], "another node for key %d", key);
		if (at < 0 && used < N && PICK(3)) {
			auto it = &pool[used++]; hashtable_node_init(&it->node); it->node.hash = h; it->key = key;
			hashtable_reserve(&t); hashtable_set(&t, &it->node); live[n++] = it;
		} else if (at >= 0 && PICK(2)) { hashtable_delete(&t, m); live[at] = live[--n]; }
		pbt_check(t.count == n, "hash table has %d rows, expected %d", t.count, n);
	}
	for (int i = 0; i < n; i++) { int key = live[i]->key; auto m = hashtable_get(&t, live[i]->node.hash, ht_cmp, &key); pbt_check(m == &live[i]->node, "key %d is lost at the end", key); }
	int seen = 0;
	for (int pos = hashtable_next(&t, -1); pos != -1; pos = hashtable_next(&t, pos)) {
		auto m = hashtable_at(&t, pos); int k = 0;
		for (int i = 0; i < n; i++) k += m == &live[i]->node;
		pbt_check(k == 1, "scan returns a removed node");
		seen++;
	}
	pbt_check(seen == n, "scan returns %d of %d rows", seen, n);
	if (n > 3) pbt_nontrivial();
	hashtable_free(&t);
	pbt_class("hashtable");
}
static int u64_cmp(const void* a, const void* b) { uint64_t x = *(uint64_t*)a, y = *(uint64_t*)b; return (x > y) - (x < y); }
static void case_id_mgr(void)
{
	uint64_t m[200]; int n = 0, range = 5 + PICK(200);
	IdMgr t; id_mgr_init(&t);
	OPS(120) {
		uint64_t id = PICK(range);
		int at = -1; for (int i = 0; i < n; i++) if (m[i] == id) at = i;
		switch (PICK(8)) {
		case 0: case 1: case 2: if (at < 0 && n < 200) { id_mgr_add(&t, id); m[n++] = id; qsort(m, n, 8, u64_cmp); } break;
		case 3: id_mgr_delete(&t, id); if (at >= 0) { memmove(m + at, m + at + 1, (n - at - 1) * 8); n--; } break;
		case 4: { Buf b; buf_init(&b); int c = id_mgr_copy(&t, &b, id), w = 0; while (w < n && m[w] <= id) w++;
			pbt_check(c == w && buf_size(&b) == w * 8 && (! w || ! memcmp(b.start, m, w * 8)), "ids <= %" PRIu64 ": %d, expected %d", id, c, w); buf_free(&b); break; }
		case 5: { Buf b; buf_init(&b); int w = 0; while (w + 1 < n && m[w + 1] <= id) w++;
			int c = id_mgr_gc_between(&t, &b, id);
			pbt_check(c == w && buf_size(&b) == w * 8 && (! w || ! memcmp(b.start, m, w * 8)), "ids removed below %" PRIu64 ": %d, expected %d", id, c, w);
			memmove(m, m + w, (n - w) * 8); n -= w; buf_free(&b); break; }
		case 6: { uint64_t f = UINT64_MAX, x = UINT64_MAX; for (int i = 0; i < n; i++) { if (m[i] <= id) f = m[i]; if (m[i] > id && x == UINT64_MAX) x = m[i]; }
			pbt_check(id_mgr_find(&t, id) == f, "id_mgr_find"); pbt_check(id_mgr_next(&t, id) == x, "id_mgr_next"); break; }
		case 7: if (PICK(8) == 0) { id_mgr_reset(&t); n = 0; } break;
		}
		int c; uint64_t min; id_mgr_stats(&t, &c, &min);
		pbt_check(c == n && min == (n ? m[0] : UINT64_MAX), "id manager has %d ids, expected %d", c, n);
		pbt_check(id_mgr_min(&t) == (n ? m[0] : UINT64_MAX) && id_mgr_max(&t) == (n ? m[n - 1] : UINT64_MAX), "min or max id");
		pbt_check(n == 0 || ! memcmp(buf_u64(&t.list), m, n * 8), "ids are out of order");
	}
	if (n > 2) pbt_nontrivial();
	id_mgr_free(&t);
	pbt_class("id_mgr");
}
static void case_ring(void)
{
	int size = 1 << PICK(8);
	Ring r; ring_init(&r); ring_prepare(&r, size);
	uint64_t in = 0, out = 0;
	int steps = 0;
	OPS(150) {
		int k = 1 + PICK(size);
		if (PICK(2)) { while (k-- && in - out < (uint64_t)size) ring_write(&r, (void*)(uintptr_t)++in); }
		else while (k--) {
			uint64_t v = (uintptr_t)ring_read(&r);
			pbt_check(v == (in == out ? 0 : out + 1), "ring returns %" PRIu64 ", expected %" PRIu64, v, in == out ? 0 : out + 1);
			if (! v) break;
			out++;
		}
		pbt_check(ring_pending(&r) == (in != out), "ring_pending");
		steps++;
	}
	if (in > (uint64_t)size) pbt_nontrivial();
	ring_free(&r);
	pbt_class("ring");
}
static void case_list(void)
{
	typedef struct { List link; int id; } It;
	enum { N = 40 };
	static It pool[N]; int m[N], n = 0; bool in[N] = { 0 };
	List l; list_init(&l);
	for (int i = 0; i < N; i++) { pool[i].id = i; list_init(&pool[i].link); }
	OPS(100) {
		int id = PICK(N);
		switch (PICK(4)) {
		case 0: if (! in[id]) { list_append(&l, &pool[id].link); m[n++] = id; in[id] = true; } break;
		case 1: if (! in[id]) { list_push(&l, &pool[id].link); memmove(m + 1, m, n * sizeof(int)); m[0] = id; n++; in[id] = true; } break;
		case 2: if (in[id]) { list_unlink(&pool[id].link); int i; for (i = 0; m[i] != id; i++); memmove(m + i, m + i + 1, (n - i - 1) * sizeof(int)); n--; in[id] = false; list_init(&pool[id].link); } break;
		case 3: if (n) { auto p = container_of(list_pop(&l), It, link); pbt_check(p->id == m[0], "list_pop"); memmove(m, m + 1, (n - 1) * sizeof(int)); n--; in[p->id] = false; list_init(&p->link); } break;
		}
		pbt_check(list_empty(&l) == (n == 0), "list_empty");
		int i = 0;
		list_foreach(&l) { pbt_check(i < n && list_at(It, link)->id == m[i], "list differs"); i++; }
		pbt_check(i == n, "list is short");
		list_foreach_reverse(&l) { i--; pbt_check(i >= 0 && list_at(It, link)->id == m[i], "reversed list differs"); }
		pbt_check(i == 0, "reversed list is short");
		if (n) {
			pbt_check(list_first(&l) == &pool[m[0]].link && list_last(&l) == &pool[m[n - 1]].link && list_is_first(&l, &pool[m[0]].link) && list_is_last(&l, &pool[m[n - 1]].link), "list ends");
			int at = PICK(n); i = at + 1;
			list_foreach_after(&l, &pool[m[at]].link) { pbt_check(i < n && list_at(It, link)->id == m[i], "list_foreach_after"); i++; }
			pbt_check(i == n, "list_foreach_after is short");
		}
	}
	// removing while walking
	int i = 0, bits = PICK(1 << 16), rev = PICK(2);
	if (rev) { i = n - 1; list_foreach_reverse_safe(&l) { auto it = list_at(It, link); pbt_check(it->id == m[i], "safe walk differs"); if (bits >> (i % 16) & 1) { list_unlink(&it->link); memset(it, 0x77, sizeof(*it)); } i--; } pbt_check(i == -1, "safe walk is short"); }
	else { list_foreach_safe(&l) { auto it = list_at(It, link); pbt_check(it->id == m[i], "safe walk differs"); if (bits >> (i % 16) & 1) { list_unlink(&it->link); memset(it, 0x77, sizeof(*it)); } i++; } pbt_check(i == n, "safe walk is short"); }
	if (n > 3) pbt_nontrivial();
	pbt_class("list");
}
// strings and numbers
static void case_str(void)
{
	int n = pbt_size(40); char* p = malloc(n ? n : 1);
	static const char alpha[] = "ab09 \t\n,.:A%";
	for (int i = 0; i < n; i++) p[i] = PICK(10) ? alpha[PICK(sizeof(alpha) - 1)] : PICK(256);
	Str s; str_set(&s, p, n);
	switch (PICK(9)) {
	case 0: { // number
		char t[64]; int l = 0;
		if (PICK(3)) { uint64_t v = PICK(2) ? (uint64_t)INT64_MAX - 3 + PICK(8) : (uint64_t)pbt_int64() >> PICK(64); l = sprintf(t, "%s%" PRIu64, PICK(4) ? "" : "000", v); if (PICK(8) == 0) t[l++] = '0' + PICK(10); }
		else { l = pbt_size(24); for (int i = 0; i < l; i++) t[i] = PICK(12) ? '0' + PICK(10) : alpha[PICK(12)]; }
		if (PICK(10) == 0 && l) t[PICK(l)] = "-+x./:"[PICK(6)];
		char* e = exact(t, l); Str d; str_set(&d, e, l);
		unsigned __int128 v = 0; bool ok = true;
		for (int i = 0; i < l; i++) { if (t[i] < '0' || t[i] > '9') ok = false; else if (ok) { v = v * 10 + (t[i] - '0'); if (v > INT64_MAX) ok = false; } }
		int64_t got; int rc = str_toint(&d, &got);
		pbt_check((rc == 0) == ok && (! ok || got == (int64_t)v), "number '%.*s' is %s %" PRIi64, l, t, rc == 0 ? "read as" : "refused", got);
		free(e); if (l > 17) pbt_nontrivial();
		break; }
	case 1: { char c = alpha[PICK(12)]; char* w = n ? memchr(p, c, n) : NULL; pbt_check(str_chr(&s, c) == w, "str_chr");
		Str k; bool r = str_split(&s, &k, c); pbt_check(r == (w != NULL) && str_of(&k) == p && str_size(&k) == (w ? w - p : n), "str_split"); if (w) pbt_nontrivial(); break; }
	case 2: { // lines
		Str line; int at = 0, lines = 0;
		while (str_gets(&s, &line)) {
			int e = at; while (e < n && p[e] != '\n') e++;
			pbt_check(at < n && str_of(&line) == p + at && str_size(&line) == e - at, "line at %d of %d", at, n);
			at = e + 1; lines++;
		}
		pbt_check(at >= n, "lines are lost after %d of %d", at, n);
		if (lines > 1) pbt_nontrivial();
		break; }
	case 3: { Str t = s; str_shrink(&t); int a = 0, b = n; while (a < b && isspace((unsigned char)p[a])) a++; while (b > a && isspace((unsigned char)p[b - 1])) b--;
		// bytes above 127 are not spaces in the C locale
		pbt_check(str_size(&t) == b - a && (b == a || str_of(&t) == p + a), "str_shrink of '%.*s'", n, p); if (b - a < n) pbt_nontrivial(); break; }
	case 4: { // words
		Str w; int at = 0, words = 0;
		for (;;) { while (at < n && isspace((unsigned char)p[at])) at++; int e = at; while (e < n && ! isspace((unsigned char)p[e])) e++;
			str_arg(&s, &w);
			pbt_check(str_size(&w) == e - at && (e == at || str_of(&w) == p + at), "word %d", words);
			if (e == at) break;
			at = e; words++; }
		if (words > 1) pbt_nontrivial();
		break; }
	case 5: { // comparisons
		int l = PICK(n + 1), from = PICK(3) ? 0 : PICK(n - l + 1); char* q = exact(p + from, l); if (l && PICK(3) == 0) q[PICK(l)] ^= 0x20;
		if (l && PICK(4) == 0) q[PICK(l)] = PICK(256);
		Str t; str_set(&t, q, l);
		int c = memcmp(p, q, l < n ? l : n); int want = c ? (c > 0) - (c < 0) : (n > l) - (n < l);
		pbt_check(str_compare_fn(&s, &t) == want && str_compare_fn(&t, &s) == -want, "str_compare_fn");
		pbt_check(str_compare(&s, &t) == (want == 0) && str_is(&s, q, l) == (want == 0), "str_compare");
		bool ci = n == l; for (int i = 0; ci && i < l; i++) ci = tolower((unsigned char)p[i]) == tolower((unsigned char)q[i]);
		if (! memchr(p, 0, n) && ! memchr(q, 0, l)) pbt_check(str_compare_case(&s, &t) == ci && str_is_case(&s, q, l) == ci, "str_compare_case");
		bool pre = n >= l && ! memcmp(p, q, l);
		pbt_check(str_is_prefix(&s, q, l) == pre && str_compare_prefix(&s, &t) == pre, "str_is_prefix");
		if (l > 2) pbt_nontrivial();
		free(q); break; }
	case 6: { Str t; str_copy(&t, &s); pbt_check(str_size(&t) == n && ! memcmp(str_of(&t), p, n) && str_of(&t)[n] == 0 && str_of(&t) != p, "str_copy"); str_free(&t); pbt_check(str_empty(&t), "str_free"); if (n > 2) pbt_nontrivial(); break; }
	case 7: { // bounded formatting
		int size = PICK(50); char* out = malloc(size ? size : 1); char want[200]; int v = (int)pbt_int64();
		int full = snprintf(want, sizeof(want), "%d/%.*s", v, 40, "0123456789012345678901234567890123456789");
		int got = sfmt(out, size, "%d/%.*s", v, 40, "0123456789012345678901234567890123456789");
		int w = size == 0 ? 0 : full < size ? full : size - 1;
		pbt_check(got == w, "formatted %d, expected %d", got, w);
		if (size) pbt_check(! memcmp(out, want, w) && out[w] == 0, "formatted text differs");
		if (full >= size) pbt_nontrivial();
		free(out); break; }
	case 8: { Str t = s; char c = alpha[PICK(12)]; str_chomp_chr(&t, c); pbt_check(str_size(&t) == n - (n && p[n - 1] == c), "str_chomp"); int a = PICK(n + 1); t = s; str_advance(&t, a); pbt_check(str_of(&t) == p + a && str_size(&t) == n - a, "str_advance"); int b = PICK(n - a + 1); str_truncate(&t, b); pbt_check(str_size(&t) == n - a - b, "str_truncate"); if (n > 2) pbt_nontrivial(); break; }
	}
	free(p);
	pbt_class("str");
}
static int64_t edge64(void) { switch (PICK(4)) { case 0: return INT64_MAX - PICK(4); case 1: return INT64_MIN + PICK(4); case 2: return (int64_t)PICK(7) - 3; } return pbt_int64(); }
static int32_t edge32(void) { switch (PICK(4)) { case 0: return INT32_MAX - PICK(4); case 1: return INT32_MIN + PICK(4); case 2: return (int32_t)PICK(7) - 3; } return pbt_int64(); }
static double edge_dbl(void) { static const double e[] = { 0, -0.0, 1, -1, 1e308, -1e308, 1.7976931348623157e308, 5e-324, 2.3e-308, 1e-200, 0.1, INFINITY, -INFINITY }; return PICK(2) ? e[PICK(NELEM(e))] : pbt_int64() * (PICK(2) ? 1e-300 : 1e280); }
static void case_overflow(void)
{
	int64_t a = edge64(), b = edge64(), c = edge64(), r; int32_t x = edge32(), y = edge32(), z = edge32(), q;
	#define F64(v) ((v) < INT64_MIN || (v) > INT64_MAX)
	#define F32(v) ((v) < INT32_MIN || (v) > INT32_MAX)
	__int128 w;
	int over = 0;
	w = (__int128)a + b; pbt_check(int64_add_overflow(&r, a, b) == F64(w) && (F64(w) || r == (int64_t)w), "%" PRIi64 " + %" PRIi64, a, b); over += F64(w);
	w = (__int128)a - b; pbt_check(int64_sub_overflow(&r, a, b) == F64(w) && (F64(w) || r == (int64_t)w), "%" PRIi64 " - %" PRIi64, a, b); over += F64(w);
	w = (__int128)a * b; pbt_check(int64_mul_overflow(&r, a, b) == F64(w) && (F64(w) || r == (int64_t)w), "%" PRIi64 " * %" PRIi64, a, b); over += F64(w);
	bool f = F64(w); w += c; f = f || F64(w);
	pbt_check(int64_mul_add_overflow(&r, a, b, c) == f && (f || r == (int64_t)w), "%" PRIi64 " * %" PRIi64 " + %" PRIi64, a, b, c);
	int64_t v;
	v = (int64_t)x + y; pbt_check(int32_add_overflow(&q, x, y) == F32(v) && (F32(v) || q == v), "%d + %d", x, y);
	v = (int64_t)x - y; pbt_check(int32_sub_overflow(&q, x, y) == F32(v) && (F32(v) || q == v), "%d - %d", x, y);
	v = (int64_t)x * y; pbt_check(int32_mul_overflow(&q, x, y) == F32(v) && (F32(v) || q == v), "%d * %d", x, y);
	f = F32(v); v += z; f = f || F32(v);
	pbt_check(int32_mul_add_overflow(&q, x, y, z) == f && (f || q == v), "%d * %d + %d", x, y, z);
	pbt_check(compare_int64(a, b) == (a > b) - (a < b) && compare_int32(x, y) == (x > y) - (x < y), "compare");
	pbt_check(compare_uint64(a, b) == ((uint64_t)a > (uint64_t)b) - ((uint64_t)a < (uint64_t)b), "compare");
	// a finite result is given as it is; an infinite one from finite numbers and an underflow to zero are reported
	double d = edge_dbl(), e = edge_dbl(), g;
	bool in = isinf(d) || isinf(e);
	f = double_add_overflow(&g, d, e); pbt_check(f == (isinf(d + e) && ! in) && (f || g == d + e || isnan(g)), "%g + %g", d, e);
	f = double_sub_overflow(&g, d, e); pbt_check(f == (isinf(d - e) && ! in) && (f || g == d - e || isnan(g)), "%g - %g", d, e);
	f = double_mul_overflow(&g, d, e); pbt_check(f == ((isinf(d * e) && ! in) || (d * e == 0 && d != 0 && e != 0)) && (f || g == d * e || isnan(g)), "%g * %g", d, e);
	if (e != 0) { f = double_div_overflow(&g, d, e); pbt_check(f == ((isinf(d / e) && ! isinf(d)) || (d / e == 0 && d != 0 && ! isinf(e))) && (f || g == d / e || isnan(g)), "%g / %g", d, e); }
	if (over) pbt_nontrivial();
	pbt_class("overflow");
}
static void case_vector(void)
{
	int n = pbt_size(30), m = PICK(4) ? n : pbt_size(30), max = n > m ? n : m;
	Vector *a = malloc(4 + 4 * max), *b = malloc(4 + 4 * max), *r = malloc(4 + 4 * n);
	vector_init(a, n); vector_init(b, m); vector_init(r, n);
	pbt_check(vector_size(a) == 4 + 4 * n, "vector_size");
	float fa[30], fb[30];
	for (int i = 0; i < max; i++) { fa[i] = (float)(PICK(2000) - 1000) / 8; fb[i] = PICK(3) ? fa[i] : (float)(PICK(2000) - 1000) / 8; }
	for (int i = 0; i < n; i++) a->value[i] = fa[i];
	for (int i = 0; i < m; i++) b->value[i] = fb[i];
	int want = (n > m) - (n < m);
	for (int i = 0; i < n && ! want; i++) want = (fa[i] > fb[i]) - (fa[i] < fb[i]);
	pbt_check(vector_compare(a, b) == want && vector_compare(b, a) == -want, "vector_compare");
	if (n == m) {
		vector_add(r, a, b); for (int i = 0; i < n; i++) pbt_check(r->value[i] == fa[i] + fb[i], "vector_add");
		vector_sub(r, a, b); for (int i = 0; i < n; i++) pbt_check(r->value[i] == fa[i] - fb[i], "vector_sub");
		vector_mul(r, a, b); for (int i = 0; i < n; i++) pbt_check(r->value[i] == fa[i] * fb[i], "vector_mul");
		double ab = 0, a2 = 0, b2 = 0; for (int i = 0; i < n; i++) { ab += (double)fa[i] * fb[i]; a2 += (double)fa[i] * fa[i]; b2 += (double)fb[i] * fb[i]; }
		if (a2 > 0 && b2 > 0) {
			double w = 1 - ab / sqrt(a2) / sqrt(b2), g = vector_distance(a, b);
			pbt_check(fabs(g - w) < 1e-6 && g >= 0 && g <= 2, "distance is %.12g, expected %.12g", g, w);
			pbt_check(vector_distance(b, a) == g, "distance is not symmetric");
		}
		if (n > 1) pbt_nontrivial();
	}
	free(a); free(b); free(r);
	pbt_class("vector");
}
static void case_histogram(void)
{
	Histogram h; histogram_init(&h);
	uint64_t sum = 0, min = UINT64_MAX, max = 0; int n = 1 + pbt_size(40); size_t before[HISTOGRAM_MAX];
	for (int i = 0; i < n; i++) {
		uint64_t v = PICK(3) ? (uint64_t)PICK(100000) : (uint64_t)pbt_int64() >> (1 + PICK(60));
		for (int k = 0; k < HISTOGRAM_MAX; k++) before[k] = h.buckets[k];
		histogram_add(&h, v);
		int at = -1; for (int k = 0; k < HISTOGRAM_MAX; k++) if (h.buckets[k] != before[k]) { pbt_check(at == -1 && h.buckets[k] == before[k] + 1, "value is counted more than once"); at = k; }
		pbt_check(at >= 0, "value is not counted");
		// buckets are in order: greater values never fall below
		static uint64_t lo_v; static int lo_at; if (i == 0) { lo_v = v; lo_at = at; }
		pbt_check(v == lo_v ? at == lo_at : v > lo_v ? at >= lo_at : at <= lo_at, "%" PRIu64 " is in the bucket %d, %" PRIu64 " in %d", v, at, lo_v, lo_at);
		sum += v; if (v < min) min = v; if (v > max) max = v;
	}
	pbt_check(h.count == (uint64_t)n && h.sum == sum && h.min == min && h.max == max, "histogram totals");
	if (n > 2) pbt_nontrivial();
	pbt_class("histogram");
}
static void case_run(void)
{
	switch (PICK(14)) {
	case 0: case_buf(); break;
	case 1: case_buf_cache(); break;
	case 2: case_arena(); break;
	case 3: case 4: case_rbtree(); break;
	case 5: case 6: case_hashtable(); break;
	case 7: case_id_mgr(); break;
	case 8: case_ring(); break;
	case 9: case_list(); break;
	case 10: case_str(); break;
	case 11: case_overflow(); break;
	case 12: case_vector(); break;
	case 13: case_histogram(); break;
	}
}
PbtHarness pbt_harness = { .name = "containers", .run = case_run };
