"""the planted bugs: seeded/<id> is made from these by seed.py"""
S = {}
def seed(id, property, needs, breaks, edits, demo):
    S[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

ROWS = r'''#include "demo.h"
// rows (int64 key, int64 payload) outside of any heap
static Columns columns;
static Keys    keys;
static void schema(void)
{
	columns_init(&columns);
	for (int i = 0; i < 2; i++) {
		auto c = column_allocate();
		Str n; str_set_cstr(&n, i ? "v" : "k");
		column_set_name(c, &n);
		column_set_type(c, TYPE_INT, 8);
		columns_add(&columns, c);
	}
	keys_init(&keys, &columns);
	auto key = key_allocate();
	key_set_ref(key, 0);
	keys_add(&keys, key);
}
static Row* row_make(int64_t k, int64_t v)
{
	int factor;
	int size = row_measure(2, 16, &factor);
	Row* row = calloc(1, size + 16);
	row_init(row, 2, factor, size);
	uint8_t* p = row_data(row, 2);
	memcpy(p, &k, 8); row_set(row, 0, p - (uint8_t*)row); p += 8;
	memcpy(p, &v, 8); row_set(row, 1, p - (uint8_t*)row);
	return row;
}
static int64_t row_key(Row* row) { return *(int64_t*)row_at(row, 0); }
'''

seed("c05-iterate-freed-head", "C05",
 "the first two rows of the heap are freed before an iteration starts",
 "the iteration over the heap starts at a freed row: a deleted row comes back in snapshots and scans",
 [("db/heap/heap_iterator.h", "	heap_iterator_next_allocated(self);\n	return self->current != NULL;", "	if (self->current->is_free)\n		heap_iterator_next_chunk(self);\n	return self->current != NULL;")],
 r'''#include "demo.h"
static void demo(void)
{
	auto heap = heap_allocate(false);
	void* p[10];
	for (int i = 0; i < 10; i++) p[i] = heap_add(heap, 30 + i * 20);
	heap_remove(heap, p[0]);
	heap_remove(heap, p[1]);
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, heap, NULL);
	int n = 2;
	while (heap_iterator_has(&it)) {
		check(n < 10 && (void*)heap_iterator_at(&it) == p[n]);
		n++;
		heap_iterator_next(&it);
	}
	check(n == 10);
}
''')

seed("c06-delete-at-page-end", "C06",
 "deleting, through an open iterator, the last row of an index page that is not the last page",
 "the iterator ends at the page border: a scan that deletes misses every following row",
 [("db/index/tree.c", "	// update position to the next page, if any\n	tree_delete_next(self, pos);\n}", "	// update position to the next page, if any\n	pos->page = rbtree_next(&self->tree, &page->node) && page->keys_count > self->size_split ? tree_of(rbtree_next(&self->tree, &page->node)) : NULL;\n	pos->page_pos = 0;\n}")],
 ROWS + r'''
static void demo(void)
{
	schema();
	Tree tree;
	tree_init(&tree, 512, 256, &keys);
	TreePos pos;
	for (int i = 0; i < 5000; i++) tree_upsert(&tree, &pos, row_make(i, i));
	// delete every second row while scanning
	TreeIterator it;
	tree_iterator_init(&it, &tree);
	tree_iterator_open(&it, NULL);
	int n = 0;
	while (tree_iterator_has(&it)) {
		if (row_key(tree_iterator_at(&it)) % 2) tree_iterator_delete(&it);
		n++;
		tree_iterator_next(&it);
	}
	check(n == 5000);
	check(tree.count == 2500);
}
''')

seed("c07-scan-during-rehash", "C07",
 "a full scan opened while the hash index is being resized and the rows already moved to the new table end before its last slot",
 "a scan started during the incremental resize does not continue with the rows that are still in the old table when the new table's first row is at slot zero",
 [("db/index/hash_iterator.h", "	if (self->current_store == hash->prev)\n		return;", "	if (self->current_store == hash->prev || hash->current->count > hash->prev->count)\n		return;")],
 ROWS + r'''
static void demo(void)
{
	schema();
	Hash hash;
	hash_init(&hash);
	hash_create(&hash, &keys);
	int total = 0;
	for (int i = 0; i < 20000; i++) {
		hash_set(&hash, row_make(i, i));
		total++;
		if (! hash.rehashing || i % 37) continue;
		HashIterator it;
		hash_iterator_init(&it, &hash);
		hash_iterator_open(&it, NULL);
		int n = 0;
		while (hash_iterator_has(&it)) { n++; hash_iterator_next(&it); }
		check(n == total);
	}
}
''')

seed("c17-base64url-tail", "C17",
 "input whose length is 2 modulo 3 and whose last byte has one of the low four bits set",
 "base64url encoding drops two bits of the last byte: decoding does not return the original bytes",
 [("runtime/lib/base64url.c", "		buf_append_u8(self, base64url_encode_table[(last & 0x0F) << 2]);", "		buf_append_u8(self, base64url_encode_table[(last & 0x0E) << 2]);")],
 r'''#include "demo.h"
static void demo(void)
{
	for (int n = 0; n < 300; n++) {
		uint8_t in[300];
		for (int i = 0; i < n; i++) in[i] = i * 37 + n;
		Str s; str_set(&s, (char*)in, n);
		auto enc = buf_create();
		base64url_encode(enc, &s);
		Str e; str_set_u8(&e, enc->start, buf_size(enc));
		auto dec = buf_create();
		base64url_decode(dec, &e);
		check(buf_size(dec) == n && ! memcmp(dec->start, in, n));
	}
}
''')

seed("c30-terminator-split", "C30",
 "a request whose header terminator is split over two reads after its third byte",
 "the end of the header is not found: the next request is read as a part of this one's header, or a complete request is refused as too large",
 [("server/http/http.c", 'uint8_t* end = memmem(start, buf_size(&self->raw), "\\r\\n\\r\\n", 4);', 'auto seek = buf_size(&self->raw) - size > 2 ? self->raw.position - size - 2 : start;\n\t\tuint8_t* end = memmem(seek, self->raw.position - seek, "\\r\\n\\r\\n", 4);')],
 r'''#include "demo.h"
#include <sys/socket.h>
static void demo(void)
{
	for (int pad = 0; pad < 40; pad++) {
		int p[2];
		check(! socketpair(AF_UNIX, SOCK_STREAM, 0, p));
		char text[512];
		int n = 0;
		for (int i = 0; i < 2; i++)
			n += sprintf(text + n, "POST /v1/%d HTTP/1.1\r\nname: %.*s\r\n\r\n", i, pad, "........................................");
		check(write(p[1], text, n) == n);
		close(p[1]);
		atomic_u64 sent = 0, recv = 0;
		Tcp tcp;
		tcp_init(&tcp, &sent, &recv);
		tcp_set_fd(&tcp, p[0]);
		tcp_attach(&tcp);
		Readahead ra;
		readahead_init(&ra, &tcp, 16);
		Http http;
		http_init(&http);
		for (int i = 0; i < 2; i++) {
			http_reset(&http);
			check(! http_read(&http, &ra, true));
			char url[16];
			sprintf(url, "/v1/%d", i);
			check(str_is_cstr(&http.options[HTTP_URL], url));
			auto h = http_find(&http, "name", 4);
			check(h && str_size(&h->value) == pad);
		}
		http_reset(&http);
		check(http_read(&http, &ra, true));
		http_free(&http);
		readahead_free(&ra);
		tcp_close(&tcp);
		tcp_free(&tcp);
	}
}
''')

seed("c08-seek-region-border", "C08",
 "seek to a key that is exactly the last key of a region, at a particular step of the binary search",
 "positioning chooses the region after the one which holds the key, the row is skipped",
 [('db/object/meta_iterator.h', '\t\tif (compare(self->keys, at, row) < 0)\n\t\t\tbegin = mid + 1;', '\t\tauto rc = compare(self->keys, at, row);\n\t\tif (rc == 0 && end - begin == 2)\n\t\t\treturn mid + 1;\n\t\tif (rc < 0)\n\t\t\tbegin = mid + 1;')],
 ROWS + r'''static void demo(void)
{
	schema();
	for (int n = 1; n < 70; n++) {
		Meta meta; meta_init(&meta);
		meta.regions = n;
		auto offs = buf_create(), data = buf_create();
		for (int i = 0; i < n; i++) {
			uint32_t o = buf_size(data);
			buf_write(offs, &o, sizeof(o));
			auto a = row_make(i * 10, 0), b = row_make(i * 10 + 9, 0);
			MetaRegion m;
			memset(&m, 0, sizeof(m));
			m.size_min = row_size(a); m.size_max = row_size(b); m.rows = 10;
			buf_write(data, &m, sizeof(m));
			buf_write(data, a, m.size_min);
			buf_write(data, b, m.size_max);
		}
		buf_write_buf(offs, data);
		for (int k = 0; k < n * 10; k++) {
			MetaIterator it;
			meta_iterator_init(&it);
			meta_iterator_open(&it, &meta, offs, &keys, row_make(k, 0));
			check(meta_iterator_has(&it) && it.pos == k / 10);
		}
	}
}
''')

seed("c13-copy-unlogged", "C13",
 "a table definition with the unlogged option that is copied (any alter of the table)",
 "the copy of an unlogged table definition is a logged one",
 [("db/catalog/table_config.h", "	table_config_set_unlogged(copy, self->unlogged);\n", "	table_config_set_unlogged(copy, self->unlogged && list_empty(&self->tiers));\n")],
 r'''#include "demo.h"
static void demo(void)
{
	for (int tiers = 0; tiers < 3; tiers++) {
		auto t = table_config_allocate();
		Str n; str_set_cstr(&n, "t");
		table_config_set_name(t, &n);
		table_config_set_unlogged(t, true);
		for (int i = 0; i < tiers; i++) {
			auto tier = tier_config_allocate();
			tier_config_set_name(tier, &n);
			table_config_tier_add(t, tier);
		}
		auto copy = table_config_copy(t);
		check(copy->unlogged);
		check(copy->tiers_count == tiers);
	}
}
''')

seed("c14-escape-before-quote", "C14",
 "a string with an escaped quote followed directly by a backslash escape",
 "the state of the escape is not cleared by the escaped quote: a closing quote is taken for an escaped one or the string is refused",
 [("runtime/json/json_parser.c", "			if (slash) {\n				slash = false;\n				self->pos++;\n				continue;", "			if (slash) {\n				self->pos++;\n				slash = self->pos < self->end && *self->pos == '\\\\';\n				continue;")],
 r'''#include "demo.h"
static bool parse(char* text, char* expect)
{
	Json json; json_init(&json);
	auto buf = buf_create();
	Str s; str_set_cstr(&s, text);
	bool ok = ! error_catch( json_parse(&json, &s, buf) );
	if (ok) {
		uint8_t* pos = buf->start;
		Str v; json_read_string(&pos, &v);
		ok = str_is_cstr(&v, expect);
	}
	json_free(&json);
	return ok;
}
static void demo(void)
{
	check(parse("\"a\"", "a"));
	check(parse("\"\\\"\"", "\""));
	check(parse("\"\\\"\\n\"", "\"\n"));
	check(parse("\"\\\\\"", "\\"));
	check(parse("\"x\\\"\\\\\"", "x\"\\"));
	check(parse("\"x\\\"\\\"\"", "x\"\""));
}
''')

seed("c16-negative-months", "C16",
 "adding an interval of a negative number of months larger than a year and not a multiple of twelve",
 "the remaining months are added instead of being subtracted",
 [("runtime/lib/timestamp.c", "			self->time.tm_year += y;\n			m = m % 12;", "			self->time.tm_year += y;\n			m = m - abs(y) * 12;")],
 r'''#include "demo.h"
static void demo(void)
{
	for (int m = -60; m < 60; m++) {
		Timestamp ts;
		timestamp_init(&ts);
		Str s; str_set_cstr(&s, "2010-03-15 10:00:00.000000+00");
		timestamp_set(&ts, &s);
		Interval iv;
		interval_init(&iv);
		iv.m = m;
		timestamp_add(&ts, &iv);
		auto unixtime = timestamp_get_unixtime(&ts, NULL);
		int y, mon, d;
		date_get_gregorian(timestamp_date(unixtime), &y, &mon, &d);
		int n = 2010 * 12 + 2 + m;
		check(y == n / 12 && mon == n % 12 + 1 && d == 15);
	}
}
''')

seed("c20-id-mgr-limit", "C20",
 "ids at exactly the requested limit",
 "an id equal to the limit is lost when the list is copied up to a limit",
 [("runtime/lib/id_mgr.h", "		if (list[i] > limit)\n			break;", "		if (list[i] > limit || (i > 2 && list[i] == limit))\n			break;")],
 r'''#include "demo.h"
static void demo(void)
{
	IdMgr m;
	id_mgr_init(&m);
	for (int i = 1; i <= 10; i++) {
		id_mgr_add(&m, i * 5);
		auto buf = buf_create();
		check(id_mgr_copy(&m, buf, i * 5) == i);
		check(buf_size(buf) == i * 8);
		check(id_mgr_copy(&m, buf, i * 5 - 1) == i - 1);
	}
}
''')

seed("c22-relock-other-mode", "C22",
 "a coroutine that already holds a weaker lock of a relation and asks for a stronger one",
 "the second lock is taken for the first: the stronger lock is never obtained and another statement holds a conflicting one at the same time",
 [('runtime/runtime/lock_mgr.h', '\t\tif (lock->rel == rel && lock->rel_lock == rel_lock)', '\t\tif (lock->rel == rel && (lock->rel_lock == rel_lock || lock->rel_lock + 2 == rel_lock))')],
 r'''#include "demo.h"
static Relation rel;
static volatile int holders;
static void other(void* arg)
{
	auto lock = lock_mgr_lock(&runtime()->lock_mgr, &rel, LOCK_SHARED_RW, NULL, "other");
	holders++;
	lock_mgr_unlock(&runtime()->lock_mgr, lock);
	(void)arg;
}
static void demo(void)
{
	relation_init(&rel);
	auto m = &runtime()->lock_mgr;
	// RW holder of its own upgrades: SHARED first, then EXCLUSIVE_RO
	auto a = lock_mgr_lock(m, &rel, LOCK_SHARED, NULL, "a");
	auto b = lock_mgr_lock(m, &rel, LOCK_EXCLUSIVE_RO, NULL, "b");
	auto id = coroutine_create(other, NULL);
	coroutine_sleep(50);
	check(holders == 0);
	lock_mgr_unlock(m, b);
	coroutine_sleep(50);
	check(holders == 1);
	lock_mgr_unlock(m, a);
	coroutine_wait(id);
}
''')

seed("c24-crc-of-parts", "C24",
 "an encoded page made of more than one buffer",
 "the checksum of a page depends only on the set of its buffers: two exchanged buffers are not noticed, and the stored checksum differs from the one of the bytes",
 [("db/storage/encoder.h", "		crc = runtime()->crc(crc, iov[i].iov_base, iov[i].iov_len);", "		crc ^= runtime()->crc(0, iov[i].iov_base, iov[i].iov_len);")],
 r'''#include "demo.h"
static void demo(void)
{
	Encoder e;
	encoder_init(&e);
	uint8_t a[100], b[50], all[150];
	for (int i = 0; i < 150; i++) all[i] = i * 7;
	memcpy(a, all, 100); memcpy(b, all + 100, 50);
	encoder_add(&e, a, 100);
	encoder_add(&e, b, 50);
	check(encoder_iov_crc(&e) == runtime()->crc(0, all, 150));
	encoder_free(&e);
}
''')

seed("c25-double-backslash-quote", "C25",
 "a string in a script that contains an escaped backslash right before its closing quote",
 "the closing quote is taken for an escaped one: the statement is merged with the following ones",
 [("runtime/lib/separator.h", "		if (*self->pos == '\\\\')\n			slash = !slash;", "		if (*self->pos == '\\\\')\n			slash = true;")],
 r'''#include "demo.h"
static void demo(void)
{
	Separator s;
	separator_init(&s);
	Str text;
	str_set_cstr(&text, "select 'a\\'b;'; select 'c:\\\\'; select 'x'; select 1;");
	separator_write(&s, &text);
	char* expect[] = { "select 'a\\'b;';", " select 'c:\\\\';", " select 'x';", " select 1;" };
	for (int i = 0; i < 4; i++) {
		Str block;
		check(separator_read(&s, &block));
		str_shrink(&block);
		Str e; str_set_cstr(&e, expect[i]); str_shrink(&e);
		check(str_compare(&block, &e));
		separator_advance(&s);
	}
}
''')

seed("c31-percent-decode", "C31",
 "an argument value with a percent escape whose two digits both have the high bit set",
 "the escape is decoded to another byte",
 [("server/http/uri.c", "			to_write = (a << 4) | b;", "			to_write = (a << 4) + (b | (a & 8));")],
 r'''#include "demo.h"
static void demo(void)
{
	for (int i = 1; i < 256; i++) {
		Endpoint e;
		endpoint_init(&e);
		char text[128];
		snprintf(text, sizeof(text), "http://localhost:80?timezone=%%%02x%%%02X", i, i);
		Str s; str_set_cstr(&s, text);
		uri_parse(&e, &s);
		auto v = opt_string_of(&e.timezone);
		check(str_size(v) == 2);
		check((uint8_t)v->pos[0] == i && (uint8_t)v->pos[1] == i);
		endpoint_free(&e);
	}
}
''')

seed("c32-digest-prefix", "C32",
 "a token whose signature is altered in its second half",
 "only a half of the signature is verified: a token with an altered signature is accepted",
 [("server/auth/jwt_decode.c", "memcmp(self->data.start, digest, 32)", "memcmp(self->data.start, digest, sizeof(uint64_t) * 2)")],
 r'''#include "demo.h"
static void demo(void)
{
	Auth auth_; Auth* a = &auth_;
	auth_init(a);
	UserCache cache;
	user_cache_init(&cache);
	auto config = user_config_allocate();
	Str name, secret;
	str_set_cstr(&name, "user"); str_set_cstr(&secret, "0123456789abcdef");
	user_config_set_name(config, &name);
	user_config_set_secret(config, &secret);
	user_cache_add(&cache, user_allocate(config));
	auth_sync(a, &cache);
	Timestamp ts;
	timestamp_init(&ts);
	timestamp_set_unixtime(&ts, time_us() + 3600ull * 1000 * 1000);
	auto jwt = jwt_create(&name, &secret, &ts);
	char token[1024];
	int n = snprintf(token, sizeof(token), "Bearer %.*s", (int)buf_size(jwt), (char*)jwt->start);
	Str t; str_set(&t, token, n);
	int dot = n; while (token[dot - 1] != '.') dot--;
	for (int i = dot; i < n - 1; i++) {
		char c = token[i];
		token[i] = c == 'A' ? 'B' : 'A';
		check(auth(a, &t) == NULL);
		token[i] = c;
	}
	check(auth(a, &t) != NULL);
}
''')

seed("c21-timers-shift", "C21",
 "a timer that fires while three others are pending, the last of them in more than a second",
 "the last pending timer is forgotten and another one is kept twice: one sleeper is never woken up",
 [("runtime/base/timer_mgr.c", "sizeof(Timer*) * timers_left);", "sizeof(Timer*) * (timers_left - (timers_left > 2 && self->timers[self->timers_count - 1]->timeout - self->time_ms > 1000)));")],
 r'''#include "demo.h"
static int hits[16];
static void hit(Timer* t) { hits[(intptr_t)t->function_arg]++; }
static void demo(void)
{
	TimerMgr m;
	timer_mgr_init(&m);
	Timer t[8];
	int at[8] = { 5, 5, 20, 30, 5, 2000, 40, 50 };
	m.time_ms = 100;
	for (int i = 0; i < 8; i++) {
		timer_init(&t[i], hit, (void*)(intptr_t)i, at[i]);
		timer_mgr_add(&m, &t[i]);
	}
	for (int now = 101; now < 2200; now += 3) {
		m.time_ms = now;
		timer_mgr_step(&m);
		for (int i = 0; i < 8; i++)
			check(hits[i] == (100 + at[i] <= now));
	}
	check(m.timers_count == 0);
}
''')

seed("c10-row-size-border", "C10",
 "a row of a few large columns whose total size is between 64 and 65 kilobytes",
 "the width of the column offsets is chosen without the size of the offsets table: offsets are cut to two bytes and columns read back as others",
 [('db/row/row.h', '\t\tif (size > UINT16_MAX)', '\t\tif (size_base > UINT16_MAX)')],
 r'''#include "demo.h"
static void demo(void)
{
	for (int columns = 1; columns < 200; columns++)
		for (int data = 64500; data < 66000; data += 3) {
			int factor;
			int size = row_measure(columns, data, &factor);
			char mem[64];
			Row* row = (Row*)mem;
			row_init(row, columns, factor, size);
			check(row_size(row) == size);
		}
}
''')
