// C30: http messages are framed the same however they arrive
#include <amelie_test_scope>
#include <amelie_server>
#include <sys/socket.h>
#include <sys/uio.h>
#include "pbt.h"
#include "util.h"

// ------------------------------------------------------------------ the connection
// reads of the descriptor are served from memory in generated pieces, writes are collected
static int   conn_fd = -1;
static char* in_data; static int in_size, in_pos, in_mode; static uint64_t in_rand;
static Sb    out;
static int   out_mode;
static int piece(int mode, uint64_t* r, int max)
{
	*r = *r * 6364136223846793005ull + 1442695040888963407ull;
	uint64_t x = *r >> 33; int n;
	switch (mode) { case 0: n = max; break; case 1: n = 1; break; case 2: n = 1 + x % 7; break; case 3: n = 1 + x % 300; break; default: n = x % 4 ? 1 + x % 40 : 1 + x % 5000; }
	return n < max ? n : max;
}
static int64_t take(void* buf, size_t n)
{
	int left = in_size - in_pos;
	if (left == 0 || n == 0) return 0;
	int k = piece(in_mode, &in_rand, n < (size_t)left ? (int)n : left);
	memcpy(buf, in_data + in_pos, k); in_pos += k;
	return k;
}
ssize_t __real_read(int, void*, size_t);
ssize_t __wrap_read(int fd, void* buf, size_t n) { return fd != -1 && fd == conn_fd ? take(buf, n) : __real_read(fd, buf, n); }
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __wrap_recv(int fd, void* buf, size_t n, int f) { return fd != -1 && fd == conn_fd ? take(buf, n) : __real_recv(fd, buf, n, f); }
ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __wrap_writev(int fd, const struct iovec* v, int n)
{
	if (fd == -1 || fd != conn_fd) return __real_writev(fd, v, n);
	int64_t all = 0; for (int i = 0; i < n; i++) all += v[i].iov_len;
	if (! all) return 0;
	int k = piece(out_mode, &in_rand, all);
	if ((in_rand >> 20) % 5 == 0) { errno = PICK(4) ? EAGAIN : EINTR; return -1; }
	int left = k;
	for (int i = 0; i < n && left; i++) { int m = (int)v[i].iov_len < left ? (int)v[i].iov_len : left; sb_add(&out, v[i].iov_base, m); left -= m; }
	return k;
}
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
	if (fd == -1 || fd != conn_fd) return __real_write(fd, p, n);
	struct iovec v = { (void*)p, n }; return __wrap_writev(fd, &v, 1);
}
static Tcp tcp; static int peer_fd; static atomic_u64 sent, recvd;
static void conn_open(void)
{
	int p[2];
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) abort();
	tcp_init(&tcp, &sent, &recvd);
	tcp_set_fd(&tcp, p[0]); tcp_attach(&tcp);
	peer_fd = p[1];
	if (__real_write(peer_fd, "x", 1) != 1) abort();    // always readable
	conn_fd = p[0];
}
static void conn_close(void) { conn_fd = -1; tcp_close(&tcp); close(peer_fd); tcp_free(&tcp); sb_reset(&out); }
static void feed(char* p, int n) { in_data = p; in_size = n; in_pos = 0; in_mode = PICK(5); in_rand = pbt_pick(1000000); }

// ------------------------------------------------------------------ messages
typedef struct { char* n; int nn; char* v; int vn; } Head;
typedef struct {
	bool request;
	char* a; int an; char* b; int bn; char* c; int cn;
	Head h[10]; int hn;
	char* body; int body_n;
	int begin, head_end, end;
} Message;

static char* word(int* n, const char* set, int max)
{
	*n = 1 + pbt_size(max - 1); char* p = malloc(*n);
	int l = strlen(set);
	for (int i = 0; i < *n; i++) p[i] = set[PICK(l)];
	return p;
}
#define NAME "abcXYZ019-_"
#define TEXT "abc XYZ019-_:;/?=&%\",.{}[]\t~+*#@!$|<>()'\\^`\xc3\xa9\x01\n\0"
static char* value(int* n, int max)
{
	// not starting or ending with space
	*n = pbt_size(max); char* p = malloc(*n + 1);
	static const char set[] = TEXT;
	for (int i = 0; i < *n; i++) { bool edge = i == 0 || i == *n - 1; p[i] = set[PICK(sizeof(set) - 1 - (edge ? 3 : 0))]; if (edge && (p[i] == ' ' || p[i] == '\t')) p[i] = 'x'; if (p[i] == '\n' || p[i] == 0) p[i] = 'y'; }
	return p;
}
static char* dup_s(const char* s, int* n) { *n = strlen(s); return exact(s, *n); }
// sizes of content: small ones, and ones around the powers of two up to 128 KB
static int content_size(int small)
{
	if (PICK(16)) return PICK(12) ? pbt_size(small) : PICK(40000);
	static const int at[] = { 1024, 4096, 16384, 32768, 65536, 131072 };
	return at[PICK(NELEM(at))] + PICK(5) - 2;
}

static void message_make(Message* m, Sb* o, bool request)
{
	memset(m, 0, sizeof(*m));
	m->request = request; m->begin = o->n;
	if (request) {
		static const char* methods[] = { "POST", "GET", "PUT", "post" };
		m->a = PICK(4) ? dup_s(methods[PICK(4)], &m->an) : word(&m->an, NAME, 10);
		m->b = PICK(3) ? dup_s("/v1/db/main", &m->bn) : word(&m->bn, "abcZ09/?=&%+:,.-_~", PICK(8) ? 30 : 300);
		m->c = PICK(4) ? dup_s("HTTP/1.1", &m->cn) : word(&m->cn, "HTP/1.0", 9);
	} else {
		m->a = PICK(4) ? dup_s("HTTP/1.1", &m->an) : word(&m->an, "HTP/1.0", 9);
		m->b = PICK(4) ? dup_s("200", &m->bn) : word(&m->bn, "0123456789", 3);
		m->c = PICK(3) ? dup_s("No Content", &m->cn) : word(&m->cn, "abc XYZ", 20);
	}
	sb_add(o, m->a, m->an); sb_c(o, ' '); sb_add(o, m->b, m->bn); sb_c(o, ' '); sb_add(o, m->c, m->cn); sb_s(o, "\r\n");
	int body = PICK(3) ? content_size(600) : -1, at = PICK(4), count = PICK(6);
	for (int i = 0; i <= count; i++) {
		Head* h = &m->h[m->hn];
		if (body >= 0 && (i == at || (i == count && at > count))) {
			static const char* cl[] = { "Content-Length", "content-length", "CONTENT-LENGTH", "Content-length" };
			char t[20]; sprintf(t, "%d", body);
			h->n = dup_s(cl[PICK(4)], &h->nn); h->v = dup_s(t, &h->vn);
			body = -2 - body; // emitted
			if (i == count && at != i) { } 
		} else if (i < count) {
			static const char* hn[] = { "Authorization", "Content-Type", "Accept", "Host", "Content-Length-X", "Content-Lengt", "X" };
			h->n = PICK(3) ? dup_s(hn[PICK(NELEM(hn))], &h->nn) : word(&h->nn, NAME, 20);
			h->v = value(&h->vn, PICK(10) ? 30 : 220);
		} else break;
		sb_add(o, h->n, h->nn); sb_s(o, ": "); sb_add(o, h->v, h->vn); sb_s(o, "\r\n");
		m->hn++;
	}
	if (body <= -2) body = -2 - body; else body = -1;
	sb_s(o, "\r\n");
	m->head_end = o->n;
	if (body > 0) {
		m->body_n = body; m->body = malloc(body);
		uint64_t x = pbt_pick(1000);
		for (int i = 0; i < body; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; m->body[i] = (x >> 60) == 0 ? "\r\n: "[x >> 40 & 3] : (char)(x >> 50); }
		if (body >= 8 && PICK(3) == 0) memcpy(m->body, "\r\n\r\nGET ", 8);
		sb_add(o, m->body, body);
	}
	m->end = o->n;
}
static void message_free(Message* m) { free(m->a); free(m->b); free(m->c); free(m->body); for (int i = 0; i < m->hn; i++) { free(m->h[i].n); free(m->h[i].v); } }
static bool eq(Str* s, const char* p, int n) { return str_size(s) == n && ! memcmp(str_of(s), p, n); }
static void expect(Http* http, Message* m, Buf* content)
{
	Str* a = &http->options[m->request ? HTTP_METHOD : HTTP_VERSION], * b = &http->options[m->request ? HTTP_URL : HTTP_CODE], * c = &http->options[m->request ? HTTP_VERSION : HTTP_MSG];
	pbt_check(eq(a, m->a, m->an) && eq(b, m->b, m->bn) && eq(c, m->c, m->cn), "start line is read as '%s' '%s' '%s'", show(str_of(a), str_size(a)), show(str_of(b), str_size(b)), show(str_of(c), str_size(c)));
	pbt_check(http->headers_count == m->hn, "%d headers of %d are read", http->headers_count, m->hn);
	auto h = (HttpHeader*)http->headers.start;
	for (int i = 0; i < m->hn; i++, h++)
		pbt_check(eq(&h->name, m->h[i].n, m->h[i].nn) && eq(&h->value, m->h[i].v, m->h[i].vn), "header %d is read as '%s' '%s'", i, show(str_of(&h->name), str_size(&h->name)), show(str_of(&h->value), str_size(&h->value)));
	for (int i = 0; i < m->hn; i++) {
		// the first header of that name, in any case
		char t[64]; int n = m->h[i].nn; for (int k = 0; k < n; k++) t[k] = PICK(2) ? toupper(m->h[i].n[k]) : tolower(m->h[i].n[k]);
		auto f = http_find(http, t, n);
		int first = 0; while (m->h[first].nn != n || strncasecmp(m->h[first].n, m->h[i].n, n)) first++;
		pbt_check(f == (HttpHeader*)http->headers.start + first, "header '%.*s' is not found", n, t);
		t[n] = 'q';
		pbt_check(! http_find(http, t, n + 1) , "header '%.*s' is found", n + 1, t);
	}
	pbt_check(buf_size(content) == m->body_n && ! memcmp(content->start, m->body, m->body_n), "content of %d bytes is read as %d bytes or differs", m->body_n, (int)buf_size(content));
}

// ------------------------------------------------------------------ valid streams
static void case_valid(void)
{
	enum { N = 6 };
	Message m[N]; int n = 1 + PICK(N - 1); bool request = PICK(2);
	Sb s = { 0 };
	for (int i = 0; i < n; i++) message_make(&m[i], &s, request);
	int cut = PICK(4) == 0 ? PICK(s.n) : s.n;
	char* data = exact(s.p, cut);
	conn_open(); feed(data, cut);
	static const int sizes[] = { 16384, 256, 1, 7, 255, 257, 4096 };
	int ra = sizes[PICK(NELEM(sizes))];
	pbt_note("%d messages, %d of %d bytes, reads mode %d, readahead %d\n%s\n", n, cut, s.n, in_mode, ra, show(s.p, s.n));
	Readahead r; readahead_init(&r, &tcp, ra);
	Http http; http_init(&http);
	int i = 0; bool rejected = false;
	for (;; i++) {
		volatile bool eof = false, limited = false; uint64_t limit = UINT64_MAX;
		bool use_limit = PICK(2);
		if (use_limit) limit = i < n && PICK(6) == 0 ? (uint64_t)m[i].body_n + PICK(3) - 1 : 1000000;
		if (use_limit && limit > 1000000) limit = 0;
		http_reset(&http);
		auto err = error_catch(
			eof = http_read(&http, &r, request);
			if (! eof) { if (use_limit) limited = http_read_content_limit(&http, &r, &http.content, limit); else http_read_content(&http, &r, &http.content); }
		);
		if (i == n || m[i].begin == cut) { pbt_check(! err && eof, "the end of the stream after message %d is not found", i); break; }
		bool big = m[i].head_end - m[i].begin > 512;
		if (big) { pbt_check(err, "a header of %d bytes is accepted", m[i].head_end - m[i].begin); rejected = true; pbt_class("header above the limit"); break; }
		if (cut < m[i].head_end) { pbt_check(err, "a cut header is accepted"); rejected = true; pbt_class("cut header"); break; }
		pbt_check(! eof, "message %d of %d: reported as the end of the stream", i, n);
		bool has_len = false; for (int k = 0; k < m[i].hn; k++) if (m[i].h[k].nn == 14 && ! strncasecmp(m[i].h[k].n, "content-length", 14)) has_len = true;
		if (use_limit && has_len && (uint64_t)m[i].body_n >= limit) { pbt_check(! err && limited, "content of %d bytes is within limit %llu", m[i].body_n, (unsigned long long)limit); rejected = true; pbt_class("content above the limit"); break; }
		if (cut < m[i].end) { pbt_check(err, "cut content is accepted"); rejected = true; pbt_class("cut content"); break; }
		pbt_check(! err, "message %d of %d: %.*s", i, n, (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		pbt_check(! limited, "content of %d bytes is above limit %llu", m[i].body_n, (unsigned long long)limit);
		expect(&http, &m[i], &http.content);
	}
	if (i > 1 || rejected) pbt_nontrivial();
	pbt_count("messages", i);
	http_free(&http); readahead_free(&r); conn_close();
	free(data); sb_free(&s);
	for (i = 0; i < n; i++) message_free(&m[i]);
}

// ------------------------------------------------------------------ malformed
static void transcript(Sb* t, char* data, int n, bool request, int ra)
{
	conn_open(); feed(data, n);
	Readahead r; readahead_init(&r, &tcp, ra);
	Http http; http_init(&http);
	for (int i = 0;; i++) {
		pbt_check(i <= n, "more messages than bytes are read");
		volatile bool eof = false, limited = false;
		http_reset(&http);
		auto err = error_catch(
			eof = http_read(&http, &r, request);
			if (! eof) limited = http_read_content_limit(&http, &r, &http.content, 100000);
		);
		if (err) { sb_s(t, "error"); break; }
		if (eof) { sb_s(t, "eof"); break; }
		if (limited) { sb_s(t, "limit"); break; }
		for (int k = 0; k < HTTP_MAX; k++) { sb_f(t, "%d:", str_size(&http.options[k])); sb_add(t, str_of(&http.options[k]), str_size(&http.options[k])); }
		auto h = (HttpHeader*)http.headers.start;
		for (int k = 0; k < http.headers_count; k++, h++) {
			sb_f(t, "%d:", str_size(&h->name)); sb_add(t, str_of(&h->name), str_size(&h->name)); sb_f(t, "%d:", str_size(&h->value)); sb_add(t, str_of(&h->value), str_size(&h->value));
			// no field may span lines
			for (int j = 0; j < str_size(&h->name); j++) pbt_check(str_of(&h->name)[j] != '\r', "a header name spans lines");
			for (int j = 0; j < str_size(&h->value); j++) pbt_check(str_of(&h->value)[j] != '\r', "a header value spans lines");
		}
		for (int k = 0; k < HTTP_MAX; k++) for (int j = 0; j < str_size(&http.options[k]); j++) pbt_check(str_of(&http.options[k])[j] != '\r', "the start line is read over several lines");
		sb_f(t, "content %d:", (int)buf_size(&http.content)); sb_add(t, http.content.start, buf_size(&http.content)); sb_c(t, '\n');
	}
	http_free(&http); readahead_free(&r); conn_close();
}
static void case_malformed(void)
{
	Sb s = { 0 }; bool request = PICK(2); Message m; int n = 1 + PICK(3);
	for (int i = 0; i < n; i++) { message_make(&m, &s, request); message_free(&m); }
	bool must_fail = false;
	if (PICK(3) == 0) {
		// as the first message
		static const char* bad[] = { "POST\r\n\r\n", "POST /x\r\n\r\n", "POST /x \r\n\r\n", " /x HTTP/1.1\r\n\r\n", "POST  HTTP/1.1\r\n\r\n", "POST /x HTTP/1.1\rX: y\r\n\r\n", "POST /x HTTP/1.1\r\nX\r\n\r\n", "POST /x HTTP/1.1\r\nX\r\nA: b\r\n\r\n",
			"POST /x HTTP/1.1\r\nX: y\rA: b\r\n\r\n", "POST\r\nA: b c\r\n\r\n", "POST /x\r\nA: b\r\n\r\n", "POST /x HTTP/1.1\r\nContent-Length: -1\r\n\r\n", "POST /x HTTP/1.1\r\nContent-Length: 1x\r\n\r\nabc", "POST /x HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\nabc",
			"POST /x HTTP/1.1\r\nContent-Length: 18446744073709551617\r\n\r\nabc", "POST /x HTTP/1.1\r\nContent-Length: 0x10\r\n\r\nabc", "\r\n\r\n", "POST /x HTTP/1.1\r\nA: b" };
		Sb t = { 0 }; int k = PICK(NELEM(bad)); sb_s(&t, bad[k]); if (k != NELEM(bad) - 1) sb_add(&t, s.p, s.n); sb_free(&s); s = t; must_fail = true; request = true;
		pbt_class("malformed first message");
	} else {
		for (int k = 1 + PICK(4); k > 0 && s.n; k--) {
			int at = PICK(s.n);
			switch (PICK(5)) {
			case 0: s.p[at] ^= 1 << PICK(8); break;
			case 1: s.p[at] = "\r\n: 0\t"[PICK(6)]; break;
			case 2: memmove(s.p + at, s.p + at + 1, s.n - at - 1); s.n--; break;
			case 3: { Sb t = { 0 }; sb_add(&t, s.p, at); sb_c(&t, "\r\n: 0\t"[PICK(6)]); sb_add(&t, s.p + at, s.n - at); sb_free(&s); s = t; break; }
			case 4: { int l = 1 + PICK(40); if (at + l > s.n) l = s.n - at; Sb t = { 0 }; sb_add(&t, s.p, at + l); sb_add(&t, s.p + at, s.n - at); sb_free(&s); s = t; break; }
			}
		}
	}
	char* data = exact(s.p, s.n); int size = s.n; sb_free(&s);
	pbt_note("bytes: %s\n", show(data, size));
	Sb a = { 0 }, b = { 0 };
	static const int sizes[] = { 16384, 256, 1, 7, 255, 257, 4096 };
	transcript(&a, data, size, request, 16384);
	transcript(&b, data, size, request, sizes[PICK(NELEM(sizes))]);
	pbt_check(a.n == b.n && ! memcmp(a.p, b.p, a.n), "the same bytes are read in two ways: %s | %s", show(a.p, a.n < 1200 ? a.n : 1200), show(b.p, b.n < 1200 ? b.n : 1200));
	if (must_fail) pbt_check(! strcmp(a.p, "error") || ! strcmp(a.p, "limit"), "a malformed message is accepted: %s", show(a.p, a.n));
	if (strcmp(a.p, "error")) pbt_nontrivial();
	sb_free(&a); sb_free(&b); free(data);
}

// ------------------------------------------------------------------ written messages
static void case_write(void)
{
	conn_open(); out_mode = PICK(5); in_rand = pbt_pick(1000000);
	enum { N = 4 };
	int n = 1 + PICK(N - 1); char* body[N]; int body_n[N]; Endpoint e[N]; bool request = PICK(2); int codes[N];
	static const char* dbs[] = { "main", "db_1", "x" }; static const char* toks[] = { "", "a.b.c", "eyJhbGciOiJIUzI1NiJ9.eyJz.x-_" }; static const char* mimes[] = { "", "application/json", "text/csv" };
	static struct { const char* s; const char* code; const char* msg; } replies[] = { { "200 OK", "200", "OK" }, { "204 No Content", "204", "No Content" }, { "413 Payload Too Large", "413", "Payload Too Large" } };
	Http w; http_init(&w);
	for (int i = 0; i < n; i++) {
		endpoint_init(&e[i]);
		body_n[i] = PICK(3) ? content_size(500) : 0; body[i] = malloc(body_n[i] + 1); memset(body[i], 'a' + i, body_n[i]); if (body_n[i] > 3) memcpy(body[i], "\r\n\r\n", 4);
		opt_string_set_cstr(&e[i].token, toks[PICK(3)]); opt_string_set_cstr(&e[i].accept, mimes[PICK(3)]); opt_string_set_cstr(&e[i].content_type, mimes[PICK(3)]);
		int kind = PICK(4);
		if (kind == 0) opt_string_set_cstr(&e[i].service, PICK(2) ? "backup" : "repl");
		else { opt_string_set_cstr(&e[i].db, dbs[PICK(3)]); if (PICK(2)) opt_string_set_cstr(&e[i].relation, "rel"); }
		if (kind && PICK(2)) opt_string_set_cstr(&e[i].format, PICK(2) ? "json-pretty" : "a b&c=d%\"");
		if (kind && PICK(3) == 0) opt_string_set_cstr(&e[i].timezone, "Europe/London");
		if (kind && PICK(3) == 0) opt_string_set_cstr(&e[i].columns, "id, \"data\"");
		codes[i] = PICK(3);
		Str s; str_init(&s); str_set(&s, body[i], body_n[i]);
		Buf* buf;
		if (request) buf = http_begin_request(&w, &e[i], body_n[i]); else buf = http_begin_reply(&w, &e[i], (char*)replies[codes[i]].s, strlen(replies[codes[i]].s), body_n[i]);
		http_end(buf);
		int k = PICK(3);
		if (k == 0) tcp_write_pair_str(&tcp, buf, &s);
		else if (k == 1) { Buf c; buf_init(&c); buf_write(&c, body[i], body_n[i]); tcp_write_pair(&tcp, buf, &c); buf_free(&c); }
		else { tcp_write_buf(&tcp, buf); Buf c; buf_init(&c); buf_write(&c, body[i], body_n[i]); if (body_n[i]) tcp_write_buf(&tcp, &c); buf_free(&c); }
	}
	http_free(&w);
	int size = out.n; char* data = exact(out.p, size);
	pbt_note("written: %s\n", show(data, size));
	feed(data, size);
	Readahead r; readahead_init(&r, &tcp, 1 + PICK(300));
	Http http; http_init(&http);
	for (int i = 0; i < n; i++) {
		http_reset(&http);
		volatile bool eof = false;
		auto err = error_catch( eof = http_read(&http, &r, request); if (! eof) http_read_content(&http, &r, &http.content); );
		pbt_check(! err && ! eof, "written message %d of %d cannot be read: %s", i, n, eof ? "end of stream" : buf_cstr(&am_self()->error.text));
		pbt_check(buf_size(&http.content) == body_n[i] && ! memcmp(http.content.start, body[i], body_n[i]), "the content of a written message is read differently");
		if (request) {
			pbt_check(str_is_cstr(&http.options[HTTP_METHOD], "POST"), "the method is not POST");
			auto t = http_find(&http, "authorization", 13); auto tok = opt_string_of(&e[i].token);
			pbt_check(!! t == ! str_empty(tok), "token is %s", t ? "written" : "lost");
			if (t) { Str v = t->value; pbt_check(str_is_prefix(&v, "Bearer ", 7), "token is written as '%s'", show(str_of(&v), str_size(&v))); str_advance(&v, 7); pbt_check(str_compare(&v, tok), "token is changed"); }
			t = http_find(&http, "content-type", 12); if (opt_string_empty(&e[i].content_type)) pbt_check(! t, "content type is written"); else pbt_check(t && str_compare(&t->value, opt_string_of(&e[i].content_type)), "content type is lost");
			t = http_find(&http, "accept", 6); if (opt_string_empty(&e[i].accept)) pbt_check(! t, "accept is written"); else pbt_check(t && str_compare(&t->value, opt_string_of(&e[i].accept)), "accept is lost");
			Endpoint back; endpoint_init(&back);
			err = error_catch( uri_parse_endpoint(&back, &http.options[HTTP_URL]); );
			pbt_check(! err, "the written url '%s' is refused", show(str_of(&http.options[HTTP_URL]), str_size(&http.options[HTTP_URL])));
			Opt* pairs[][2] = { { &e[i].db, &back.db }, { &e[i].relation, &back.relation }, { &e[i].service, &back.service }, { &e[i].columns, &back.columns }, { &e[i].timezone, &back.timezone }, { &e[i].format, &back.format } };
			for (int k = 0; k < NELEM(pairs); k++) pbt_check(str_compare(opt_string_of(pairs[k][0]), opt_string_of(pairs[k][1])), "'%s' is read back as '%s' from url '%s'", show(str_of(opt_string_of(pairs[k][0])), str_size(opt_string_of(pairs[k][0]))), show(str_of(opt_string_of(pairs[k][1])), str_size(opt_string_of(pairs[k][1]))), show(str_of(&http.options[HTTP_URL]), str_size(&http.options[HTTP_URL])));
			endpoint_free(&back);
		} else {
			pbt_check(str_is_cstr(&http.options[HTTP_CODE], replies[codes[i]].code) && str_is_cstr(&http.options[HTTP_MSG], replies[codes[i]].msg), "the reply line is read differently");
			auto t = http_find(&http, "content-type", 12); if (opt_string_empty(&e[i].accept)) pbt_check(! t, "content type is written"); else pbt_check(t && str_compare(&t->value, opt_string_of(&e[i].accept)), "content type is lost");
		}
	}
	http_reset(&http);
	pbt_check(http_read(&http, &r, request), "more is written than the messages");
	http_free(&http); readahead_free(&r); conn_close(); free(data);
	for (int i = 0; i < n; i++) { free(body[i]); endpoint_free(&e[i]); }
	if (n > 1) pbt_nontrivial();
	pbt_class("written");
}
static void run_case(void) { switch (PICK(5)) { case 0: case 1: case_valid(); break; case 2: case 3: case_malformed(); break; default: case_write(); } }
PbtHarness pbt_harness = { .name = "http", .run = run_case };
