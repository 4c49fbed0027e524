// C25: scripts are split into statements, import files into rows
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"

static Buf text;
static void w(const char* s) { buf_write(&text, (void*)s, strlen(s)); }
static void ws(void) { static const char* t[] = { " ", "\n", "\t", "  ", " \n ", "\n\n" }; w(t[PICK(NELEM(t))]); }
static void word(void)
{
	// includes names which contain keywords
	static const char* t[] = { "select", "x", "1", "ending", "begin_x", "the_end", "iff", "forty", "case1", "whileb", "e", "b", "bend", "a.end_", "(1, 2)", "-", "- 1", "insert", "[1]", "{}", "a-b", "en", "xend", "beginx", "endif" };
	w(t[PICK(NELEM(t))]);
}
static void quoted(void)
{
	char q = PICK(2) ? '\'' : '"';
	buf_write(&text, &q, 1);
	for (int n = PICK(5); n > 0; n--) {
		static const char* t[] = { ";", " end ", " begin ", "\\\\", "a", "\n", "--", "#", " if ", "case", "\\n" };
		int k = PICK(NELEM(t) + 2);
		if (k < NELEM(t)) w(t[k]); else if (k == NELEM(t)) { char e[2] = { '\\', q }; buf_write(&text, e, 2); } else { char o = q == '"' ? '\'' : '"'; buf_write(&text, &o, 1); }
	}
	buf_write(&text, &q, 1);
}
static void comment(void)
{
	static const char* t[] = { "-- ", "--; ", "-- don't ", "-- begin if ", "-- end; ", "--\" ", "----" };
	w(t[PICK(NELEM(t))]); w("\n");
}
static void tokens(int n)
{
	while (n-- > 0) {
		switch (PICK(8)) {
		case 0: quoted(); break;
		case 1: w("\n"); comment(); break;
		case 2: w("case"); ws(); word(); ws(); if (PICK(3) == 0) { w("case"); ws(); word(); ws(); w("end"); ws(); } word(); ws(); w("end"); break;
		default: word(); break;
		}
		ws();
	}
}
static void stmt(int depth);
static void kw(const char* s) { char t[32]; strcpy(t, s); if (PICK(3) == 0) for (char* p = t; *p; p++) *p = toupper(*p); w(t); }
static void block(int depth)
{
	static const char* t[] = { "begin", "if", "for", "while" };
	int k = PICK(4);
	kw(t[k]);
	if (k == 0) { if (PICK(2)) { if (PICK(2)) ws(); w(";"); } ws(); }
	else { ws(); word(); ws(); tokens(PICK(3)); kw(k == 1 ? "then" : "do"); ws(); }
	for (int n = PICK(4); n > 0; n--) { stmt(depth + 1); ws(); }
	kw("end");
}
static void stmt(int depth)
{
	if (depth < 4 && PICK(3) == 0) block(depth);
	else if (PICK(6) == 0) { kw("drop table"); ws(); kw("if"); ws(); if (PICK(2)) { kw("exists"); ws(); word(); } else { kw("not"); ws(); kw("exists"); ws(); word(); } }
	else { word(); ws(); tokens(PICK(5)); }
	if (PICK(2)) ws();
	w(";");
}
static void case_script(void)
{
	buf_init(&text);
	enum { N = 12 };
	int ends[N], n = 1 + PICK(N - 1);
	for (int i = 0; i < n; i++) {
		if (PICK(2)) ws();
		if (PICK(6) == 0) comment();
		stmt(0);
		ends[i] = buf_size(&text);
	}
	int unfinished = 0;
	if (PICK(4) == 0) { w("\n"); word(); ws(); tokens(PICK(3)); unfinished = 1; }
	w("\n");
	int size = buf_size(&text); char* all = exact((char*)text.start, size);
	buf_free(&text);
	// arrives line by line, several lines at once, or as a whole
	Separator sep; separator_init(&sep);
	int at = 0, got = 0, from = 0, how = PICK(3);
	while (at < size) {
		int e = at, lines = how == 0 ? 1 : how == 1 ? 1 + PICK(5) : INT_MAX;
		while (e < size && lines) { if (all[e] == '\n') lines--; e++; }
		Str in; str_set(&in, all + at, e - at - 1); // separator_write adds the \n
		separator_write(&sep, &in);
		at = e;
		Str out;
		while (separator_read(&sep, &out)) {
			int l = str_size(&out);
			if (l == 0) { separator_advance(&sep); break; } // only spaces are left
			pbt_check(from + l <= at && ! memcmp(all + from, str_of(&out), l), "statement is altered: %.*s", l, str_of(&out));
			pbt_check(got < n, "unexpected statement: %.*s", l, str_of(&out));
			// the whitespace between may be dropped
			char* end = memchr("", 1, 0); unused(end);
			from += l;
			pbt_check(from == ends[got], "statement %d is '%.*s', expected to end at %d, not %d", got, l, str_of(&out), ends[got], from);
			got++;
			separator_advance(&sep);
			// spaces left behind are dropped when nothing follows them
			int k = from; while (k < at && isspace((unsigned char)all[k])) k++;
			if (k == at && ! separator_pending(&sep)) from = at;
		}
		if (! separator_pending(&sep)) from = at;
	}
	pbt_check(got == n, "%d statements are found of %d", got, n);
	Str left; bool has = separator_read_leftover(&sep, &left);
	if (unfinished) pbt_check(has && str_size(&left) == size - from && ! memcmp(str_of(&left), all + from, size - from), "unfinished statement is altered");
	else pbt_check(! has || (str_shrink(&left), str_empty(&left)), "something is left");
	if (n > 2) pbt_nontrivial();
	pbt_count("statements", n);
	separator_free(&sep);
	free(all);
	pbt_class("script");
}
static void case_load(void)
{
	buf_init(&text);
	int n = PICK(4) ? PICK(60) : PICK(2000), kind = PICK(3);
	for (int i = 0; i < n; i++) {
		int l = kind == 0 ? PICK(60) : kind == 1 ? pbt_size(4000) : i == n / 2 ? 100000 + PICK(500000) : 10;
		uint8_t* p = buf_emplace(&text, l);
		for (int j = 0; j < l; j++) { p[j] = (i * 31 + j * 7) % 251; if (p[j] == '\n') p[j] = 'n'; }
		w("\n");
		if (buf_size(&text) > 2000000) break;
	}
	if (PICK(2)) { w("last"); int l = PICK(3) ? 0 : 300000; memset(buf_emplace(&text, l), 'z', l); } // no \n at the end
	char path[PATH_MAX];
	snprintf(path, sizeof(path), "%s/load", pbt_dir());
	FILE* f = fopen(path, "w"); fwrite(text.start ? text.start : (uint8_t*)"", 1, buf_size(&text), f); fclose(f);
	static Load load; static bool ready;
	if (! ready || PICK(4) == 0) { if (ready) load_free(&load); load_init(&load); ready = true; }
	int limit = 1 + PICK(PICK(2) ? 5 : 1000), limit_size = 1 + PICK(PICK(2) ? 300 : 300000);
	load_open(&load, LOAD_LINE, path, limit, limit_size);
	if (PICK(3) == 0) load.readahead_size = 1 + PICK(PICK(2) ? 20 : 5000); else load.readahead_size = 256 * 1024;
	if (load.readahead_size < buf_size(&text) / 300) load.readahead_size = buf_size(&text) / 300;
	int at = 0, pieces = 0, total = buf_size(&text), aband = PICK(8) == 0;
	for (;;) {
		int count = -1;
		auto b = load_read(&load, &count);
		if (! b) break;
		int l = buf_size(b), lines = 0, last = 0;
		pbt_check(l > 0 && at + l <= total && ! memcmp(text.start + at, b->start, l), "loaded data differs at %d of %d", at, total);
		for (int i = 0; i < l; i++) if (b->start[i] == '\n') { if (i + 1 < l) last = i + 1; lines++; }
		at += l;
		pbt_check(at == total || b->start[l - 1] == '\n', "row is split");
		pbt_check(count == lines, "%d rows are counted as %d", lines, count);
		pbt_check(lines <= limit, "%d rows with limit %d", lines, limit);
		// only the last row goes above the limit
		pbt_check(last < limit_size || at == total, "%d bytes before the last row with limit %d", last, limit_size);
		buf_free(b);
		pieces++;
		if (aband && pieces == 2) break;
	}
	if (! (aband && pieces == 2)) pbt_check(at == total, "%d of %d bytes are loaded", at, total);
	load_close(&load);
	if (pieces > 2) pbt_nontrivial();
	unlink(path);
	buf_free(&text);
	pbt_class("load");
}
static void case_run(void) { if (PICK(4)) case_script(); else case_load(); }
PbtHarness pbt_harness = { .name = "script", .run = case_run };
