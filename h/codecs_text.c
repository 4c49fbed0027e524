// C17: base64, base64url, uuid, utf8, checksums and hashes
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"

static uint8_t data[1 << 16];
static int gen_data(void)
{
	int n = pbt_size(pbt_pick(12) == 0 ? 3000 : 80);
	if (n > 600 || pbt_pick(8) == 0) {
		uint64_t seed = pbt_pick(UINT64_MAX);
		for (int i = 0; i < n; i++) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; data[i] = seed >> 56; }
	} else
		pbt_bytes(data, n);
	if (pbt_pick(6) == 0) memset(data, (int)(pbt_pick(2) ? 255 : 0), n);
	return n;
}

// base64 --------------------------------------------------------------------
static const char* alphabet[2] = {
	"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/",
	"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_" };
static void ref_encode(Sb* out, const uint8_t* p, int n, int url)
{
	const char* a = alphabet[url];
	int i = 0;
	for (; i + 3 <= n; i += 3) {
		unsigned v = p[i] << 16 | p[i + 1] << 8 | p[i + 2];
		for (int k = 18; k >= 0; k -= 6) sb_c(out, a[v >> k & 63]);
	}
	if (n - i == 1) { unsigned v = p[i] << 4; sb_c(out, a[v >> 6 & 63]); sb_c(out, a[v & 63]); if (! url) sb_s(out, "=="); }
	if (n - i == 2) { unsigned v = (p[i] << 8 | p[i + 1]) << 2; sb_c(out, a[v >> 12 & 63]); sb_c(out, a[v >> 6 & 63]); sb_c(out, a[v & 63]); if (! url) sb_s(out, "="); }
}
static bool decode(Buf* b, const char* text, int n, int url)
{
	char* copy = exact(text, n);
	Str s; str_set(&s, copy, n);
	auto on_error = error_catch ( if (url) base64url_decode(b, &s); else base64_decode(b, &s); );
	free(copy);
	return ! on_error;
}
static void case_base64(void)
{
	int url = pbt_pick(2);
	int n = gen_data();
	Sb want = {0};
	ref_encode(&want, data, n, url);
	char* copy = exact(data, n);
	Str s; str_set(&s, copy, n);
	Buf* b = buf_create();
	buf_write(b, "pre", 3);
	if (url) base64url_encode(b, &s); else base64_encode(b, &s);
	free(copy);
	pbt_note("base64%s %d bytes", url ? "url" : "", n);
	pbt_class(url ? "base64url" : "base64");
	pbt_check(buf_size(b) == want.n + 3 && ! memcmp(b->start, "pre", 3) && ! memcmp(b->start + 3, want.p ? want.p : "", want.n),
	          "encoded %s, expected %s", show(b->start + 3, buf_size(b) - 3), show(want.p, want.n));
	Buf* d = buf_create();
	buf_write(d, "x", 1);
	pbt_check(decode(d, (char*)b->start + 3, buf_size(b) - 3, url), "valid text is rejected: %s", show(want.p, want.n));
	pbt_check(buf_size(d) == n + 1 && ! memcmp(d->start + 1, data, n), "decoded %d bytes of %d, or different bytes", buf_size(d) - 1, n);
	// the caller's data before is not touched
	pbt_check(d->start[0] == 'x', "earlier content of the buffer is changed");
	if (n % 3) pbt_nontrivial();

	// any other byte is rejected
	if (want.n > 0) {
		int at = pbt_pick(want.n);
		int c = pbt_pick(256);
		bool valid = c && strchr(alphabet[url], c) != NULL;
		bool pad = c == '=' && ! url;
		char old = want.p[at];
		want.p[at] = c;
		Buf* e = buf_create();
		bool ok = decode(e, want.p, want.n, url);
		bool after_pad = ! url && memchr(want.p, '=', at) != NULL;
		if (! valid && ! pad && ! after_pad)
			pbt_check(! ok, "byte 0x%02x at %d is accepted", c, at);
		else if (valid && ! memchr(want.p, '=', want.n))
			pbt_check(ok, "valid symbol '%c' is rejected", c);
		want.p[at] = old;
		buf_free(e);
		pbt_class(valid ? "base64:other" : "base64:invalid");
	}
	buf_free(b); buf_free(d); sb_free(&want);
}

// uuid ------------------------------------------------------------------------
static void case_uuid(void)
{
	char text[64], again[64];
	static const char hex[] = "0123456789abcdef";
	int n = 0;
	for (int i = 0; i < 36; i++)
		text[n++] = (i == 8 || i == 13 || i == 18 || i == 23) ? '-' : hex[pbt_pick(16)];
	text[n] = 0;
	Str s; char* copy = exact(text, n); str_set(&s, copy, n);
	Uuid u; uuid_init(&u);
	pbt_note("uuid %s", text);
	pbt_class("uuid"); pbt_nontrivial();
	pbt_check(uuid_set_nothrow(&u, &s) == 0, "valid uuid %s is rejected", text);
	uuid_get(&u, again, sizeof(again));
	pbt_check(! strcmp(text, again), "uuid %s became %s", text, again);
	char sh[9]; uuid_get_short(&u, sh, sizeof(sh));
	pbt_check(! strncmp(sh, text, 8) && strlen(sh) == 8, "short form %s of %s", sh, text);
	// upper case denotes the same
	Uuid v; uuid_init(&v);
	char* up = exact(text, n);
	for (int i = 0; i < n; i++) if (pbt_pick(2)) up[i] = toupper(up[i]);
	str_set(&s, up, n);
	pbt_check(uuid_set_nothrow(&v, &s) == 0, "valid uuid is rejected");
	pbt_check(uuid_is(&u, &v) && uuid_compare(&u, &v) == 0, "case changes the value");
	// one symbol differs: different value, or rejected
	int at = pbt_pick(36);
	int c = pbt_pick(256);
	bool dash = at == 8 || at == 13 || at == 18 || at == 23;
	memcpy(up, text, n);
	up[at] = c;
	Uuid w; uuid_init(&w);
	int rc = uuid_set_nothrow(&w, &s);
	bool valid = dash ? c == '-' : isxdigit(c) != 0;
	pbt_check((rc == 0) == valid, "uuid %s: rc=%d", show(up, n), rc);
	if (valid && ! dash) {
		bool same = tolower(c) == text[at];
		pbt_check(uuid_is(&u, &w) == same, "uuid %s and %s: equal=%d", text, show(up, n), uuid_is(&u, &w));
		int a = uuid_compare(&u, &w), b = uuid_compare(&w, &u);
		pbt_check((a == 0) == same && (a < 0) == (b > 0), "uuid order is not antisymmetric");
	}
	// truncated
	int k = pbt_pick(36);
	char* cut = exact(text, k);
	str_set(&s, cut, k);
	pbt_check(uuid_set_nothrow(&w, &s) == -1, "truncated uuid is accepted");
	pbt_check(error_catch ( uuid_set(&w, &s); ), "truncated uuid is accepted");
	free(cut); free(up); free(copy);
}

// utf8 ------------------------------------------------------------------------
static int put(uint8_t* o, unsigned c)
{
	if (c < 0x80) { o[0] = c; return 1; }
	if (c < 0x800) { o[0] = 0xc0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; }
	if (c < 0x10000) { o[0] = 0xe0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; }
	o[0] = 0xf0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63);
	return 4;
}
static unsigned gen_cp(void)
{
	static const unsigned edge[] = { 1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0x10ffff };
	switch (pbt_pick(5)) {
	case 0: return edge[pbt_pick(NELEM(edge))];
	case 1: return 0x80 + pbt_pick(0x780);
	case 2: { unsigned c = 0x800 + pbt_pick(0xf800); return c >= 0xd800 && c < 0xe000 ? 0xffff : c; }
	case 3: return 0x10000 + pbt_pick(0x100000);
	}
	return 1 + pbt_pick(127);
}
static void case_utf8(void)
{
	unsigned cps[64]; int off[65];
	int n = pbt_pick(24);
	uint8_t buf[300]; int size = 0;
	for (int i = 0; i < n; i++) { cps[i] = gen_cp(); off[i] = size; size += put(buf + size, cps[i]); }
	off[n] = size;
	char* text = exact(buf, size);
	char* end = text + size;
	Str s; str_set(&s, text, size);
	pbt_note("utf8 %d characters in %d bytes", n, size);
	pbt_class("utf8");
	if (size > n) pbt_nontrivial();
	char* pos = text;
	for (int i = 0; i < n; i++) {
		pbt_check(utf8_sizeof((uint8_t)*pos) == off[i + 1] - off[i], "size of U+%04X", cps[i]);
		char* fw = pos; utf8_forward(&fw);
		int c = utf8_next(&pos, end);
		pbt_check(c == (int)cps[i], "U+%04X is read as U+%04X", cps[i], c);
		pbt_check(pos == text + off[i + 1], "position after U+%04X", cps[i]);
		pbt_check(fw == pos, "forward differs after U+%04X", cps[i]);
		char* bw = pos - 1; utf8_backward(&bw);
		pbt_check(bw == text + off[i], "backward does not reach the start of U+%04X", cps[i]);
		pbt_check(utf8_at(text, i) == text + off[i], "position of character %d", i);
	}
	pbt_check((int)utf8_strlen(&s) == n, "length is %d instead of %d", (int)utf8_strlen(&s), n);
	// damaged: the first invalid sequence is reported, earlier ones are read
	if (size) {
		char* bad = exact(buf, size);
		int at = pbt_pick(size);
		int cut = pbt_pick(3) ? size : (int)pbt_pick(size + 1);
		bad[at] = pbt_pick(256);
		char* copy = exact(bad, cut);
		pos = copy;
		while (pos < copy + cut) {
			int i = pos - copy;
			uint8_t* q = (uint8_t*)pos;
			int left = cut - i;
			int l = q[0] < 0x80 ? 1 : (q[0] & 0xe0) == 0xc0 ? 2 : (q[0] & 0xf0) == 0xe0 ? 3 : (q[0] & 0xf8) == 0xf0 ? 4 : 0;
			bool ok = l && l <= left;
			unsigned cp = l == 1 ? q[0] : l == 2 ? (q[0] & 31) : l == 3 ? (q[0] & 15) : (q[0] & 7);
			for (int k = 1; ok && k < l; k++) { if ((q[k] & 0xc0) != 0x80) ok = false; cp = cp << 6 | (q[k] & 63); }
			if (ok && ((l == 2 && cp < 0x80) || (l == 3 && cp < 0x800) || (l == 4 && cp < 0x10000))) ok = false;
			bool unspec = ok && ((cp >= 0xd800 && cp < 0xe000) || cp > 0x10ffff);
			char* before = pos;
			int c = utf8_next(&pos, copy + cut);
			if (unspec) break;
			pbt_check((c != -1) == ok, "sequence at %d of %s: %s", i, show(copy, cut), c == -1 ? "rejected" : "accepted");
			if (! ok) break;
			pbt_check(c == (int)cp && pos == before + l, "sequence at %d of %s", i, show(copy, cut));
		}
		pbt_class("utf8:damaged");
		free(copy); free(bad);
	}
	free(text);
}

// checksums and hashes -----------------------------------------------------------
static uint32_t ref_crc(uint32_t crc, const uint8_t* p, int n)
{
	while (n--) {
		crc ^= *p++;
		for (int k = 0; k < 8; k++) crc = crc & 1 ? (crc >> 1) ^ 0x82f63b78 : crc >> 1;
	}
	return crc;
}
static uint32_t ref_murmur(const uint8_t* p, int n, uint32_t h)
{
	int i = 0;
	for (; i + 4 <= n; i += 4) {
		uint32_t k = p[i] | p[i + 1] << 8 | p[i + 2] << 16 | (uint32_t)p[i + 3] << 24;
		k *= 0xcc9e2d51; k = k << 15 | k >> 17; k *= 0x1b873593;
		h ^= k; h = h << 13 | h >> 19; h = h * 5 + 0xe6546b64;
	}
	uint32_t k = 0;
	switch (n & 3) { case 3: k ^= p[i + 2] << 16; case 2: k ^= p[i + 1] << 8; case 1: k ^= p[i]; k *= 0xcc9e2d51; k = k << 15 | k >> 17; k *= 0x1b873593; h ^= k; }
	h ^= n; h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; h ^= h >> 16;
	return h;
}
static void case_crc(void)
{
	int n = gen_data();
	int align = pbt_pick(16);
	uint8_t* mem = malloc(n + align + 1);
	uint8_t* p = mem + align;
	// end of the data is the end of the allocation
	mem = realloc(mem, n + align ? n + align : 1);
	p = mem + align;
	memcpy(p, data, n);
	uint32_t seed = pbt_pick(3) ? 0 : (uint32_t)pbt_pick(UINT32_MAX);
	uint32_t want = ref_crc(seed, p, n);
	pbt_note("crc of %d bytes at alignment %d", n, align);
	pbt_class("crc");
	if (n > 8) pbt_nontrivial();
	pbt_check(crc32(seed, p, n) == want, "crc32 of %d bytes at alignment %d", n, align);
	if (crc32_sse_supported()) {
		pbt_class("crc:sse");
		pbt_check(crc32_sse(seed, p, n) == want, "crc32_sse of %d bytes at alignment %d", n, align);
	}
	pbt_check(runtime()->crc(seed, p, n) == want, "runtime crc");
	// chunked
	uint32_t c = seed, d = seed; int at = 0;
	while (at < n) {
		int l = 1 + pbt_pick(n - at);
		c = crc32(c, p + at, l); d = runtime()->crc(d, p + at, l);
		at += l;
	}
	pbt_check(c == want && d == want, "chunked crc differs");
	pbt_check(hash_murmur3_32(p, n, seed) == ref_murmur(p, n, seed), "murmur3 of %d bytes", n);
	uint32_t f = 2166136261u, fl = f;
	for (int i = 0; i < n; i++) { f = f * 16777619 ^ p[i]; fl = fl * 16777619 ^ tolower(p[i]); }
	pbt_check(hash_fnv((char*)p, n) == f, "fnv of %d bytes", n);
	Str s; str_set(&s, (char*)p, n);
	pbt_check(hash_fnv_lower(&s) == fl, "lower case fnv of %d bytes", n);
	free(mem);
}

static void run_case(void)
{
	switch (pbt_pick(4)) {
	case 0: case_base64(); break;
	case 1: case_uuid(); break;
	case 2: case_utf8(); break;
	default: case_crc(); break;
	}
}
PbtHarness pbt_harness = { .name = "codecs_text", .run = run_case };
