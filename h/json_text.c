// C14: JSON text <-> value
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "doc.h"

// text ---------------------------------------------------------------------
static bool plain_text;
static void put_ws(Sb* s)
{
	if (plain_text || pbt_pick(4)) return;
	int n = 1 + pbt_pick(3);
	while (n--) sb_c(s, " \t\n\r"[pbt_pick(4)]);
}
static void put_str(Sb* s, Doc* d)
{
	sb_c(s, '"');
	for (int i = 0; i < d->n; ) {
		unsigned char c = d->s[i];
		int l = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
		if (l == 1) {
			int way = plain_text ? 0 : pbt_pick(3);
			const char* simple = NULL;
			switch (c) {
			case '"': simple = "\\\""; break;
			case '\\': simple = "\\\\"; break;
			case '/': if (way == 1) simple = "\\/"; break;
			case '\b': simple = "\\b"; break;
			case '\f': simple = "\\f"; break;
			case '\n': simple = "\\n"; break;
			case '\r': simple = "\\r"; break;
			case '\t': simple = "\\t"; break;
			}
			if (way == 2 && d->n < 50) sb_f(s, pbt_pick(2) ? "\\u%04x" : "\\u%04X", c);
			else if (simple) sb_s(s, simple);
			else if (c < 32) sb_f(s, "\\u%04x", c);
			else sb_c(s, c);
		} else if (d->n < 50 && ! plain_text && pbt_pick(4) == 3) {
			unsigned cp = l == 2 ? (c & 31) : l == 3 ? (c & 15) : (c & 7);
			for (int k = 1; k < l; k++) cp = cp << 6 | (d->s[i + k] & 63);
			if (cp < 0x10000) sb_f(s, "\\u%04x", cp);
			else sb_f(s, "\\u%04x\\u%04x", 0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff));
		} else
			sb_add(s, d->s + i, l);
		i += l;
	}
	sb_c(s, '"');
}
static void put_doc(Sb* s, Doc* d)
{
	put_ws(s);
	switch (d->type) {
	case D_NULL: sb_s(s, "null"); break;
	case D_BOOL: sb_s(s, d->i ? "true" : "false"); break;
	case D_INT:  sb_f(s, "%lld", (long long)d->i); break;
	case D_REAL: {
		char t[64];
		snprintf(t, sizeof(t), pbt_pick(2) ? "%.17g" : "%.17e", d->r);
		if (! strpbrk(t, ".e")) strcat(t, ".0");
		if (pbt_pick(2)) for (char* p = t; *p; p++) if (*p == 'e') *p = 'E';
		sb_s(s, t);
		break; }
	case D_STR: put_str(s, d); break;
	case D_ARR: case D_OBJ:
		sb_c(s, d->type == D_ARR ? '[' : '{');
		for (int i = 0; i < d->count; i++) {
			if (i) { put_ws(s); sb_c(s, ','); }
			if (d->type == D_OBJ) { put_ws(s); put_str(s, d->key[i]); put_ws(s); sb_c(s, ':'); }
			put_doc(s, d->item[i]);
		}
		put_ws(s);
		sb_c(s, d->type == D_ARR ? ']' : '}');
		break;
	}
}

// strict reference reader: 1 valid, 0 invalid, -1 unspecified -----------------
typedef struct { const unsigned char* p; const unsigned char* e; bool printed; } Rd;
static int  rd_value(Rd* r, Doc** out, int depth);
static void rd_ws(Rd* r) { while (r->p < r->e && strchr(" \t\n\r\v\f", *r->p) && *r->p) r->p++; }
static int rd_hex4(Rd* r, unsigned* v)
{
	*v = 0;
	for (int i = 0; i < 4; i++) {
		if (r->p == r->e || ! isxdigit(*r->p)) return -1;
		int c = *r->p++;
		*v = *v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
	}
	return 1;
}
static int rd_str(Rd* r, Doc** out)
{
	// strings in double quotes only are specified
	Doc* d = doc_new(D_STR);
	*out = d;
	Sb s = {0};
	int res = 1;
	r->p++;
	while (r->p < r->e && *r->p != '"') {
		unsigned c = *r->p;
		if (c == '\n') { res = 0; break; }
		if (c < 32) { res = r->printed ? 0 : -1; break; }
		if (c == '\\') {
			r->p++;
			if (r->p == r->e) { res = 0; break; }
			switch (*r->p++) {
			case '"': sb_c(&s, '"'); break;
			case '\\': sb_c(&s, '\\'); break;
			case '/': sb_c(&s, '/'); break;
			case 'b': sb_c(&s, '\b'); break;
			case 'f': sb_c(&s, '\f'); break;
			case 'n': sb_c(&s, '\n'); break;
			case 'r': sb_c(&s, '\r'); break;
			case 't': sb_c(&s, '\t'); break;
			case 'u': {
				unsigned v, w; char o[4];
				if (rd_hex4(r, &v) != 1) { res = -1; break; }
				if (v >= 0xdc00 && v < 0xe000) { res = -1; break; }
				if (v == 0) { res = -1; break; }
				if (v >= 0xd800 && v < 0xdc00) {
					if (r->e - r->p < 6 || r->p[0] != '\\' || r->p[1] != 'u') { res = -1; break; }
					r->p += 2;
					if (rd_hex4(r, &w) != 1 || w < 0xdc00 || w >= 0xe000) { res = -1; break; }
					v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
				}
				sb_add(&s, o, utf8_put(o, v));
				break; }
			default: res = -1; break;
			}
			if (res != 1) break;
			continue;
		}
		if (c < 0x80) { sb_c(&s, c); r->p++; continue; }
		int l = (c & 0xe0) == 0xc0 ? 2 : (c & 0xf0) == 0xe0 ? 3 : (c & 0xf8) == 0xf0 ? 4 : 0;
		if (! l) { res = 0; break; }
		if (r->e - r->p < l) { res = 0; break; }
		unsigned cp = l == 2 ? (c & 31) : l == 3 ? (c & 15) : (c & 7);
		for (int k = 1; k < l; k++) { if ((r->p[k] & 0xc0) != 0x80) { res = 0; break; } cp = cp << 6 | (r->p[k] & 63); }
		if (res != 1) break;
		if ((l == 2 && cp < 0x80) || (l == 3 && cp < 0x800) || (l == 4 && cp < 0x10000)) { res = 0; break; }
		if ((cp >= 0xd800 && cp < 0xe000) || cp > 0x10ffff) { res = -1; break; }
		sb_add(&s, r->p, l);
		r->p += l;
	}
	d->s = s.p ? s.p : strdup(""); d->n = s.n;
	if (res != 1) return res;
	if (r->p == r->e) return 0;
	r->p++;
	return 1;
}
static int rd_value(Rd* r, Doc** out, int depth)
{
	rd_ws(r);
	if (r->p == r->e) return 0;
	if (depth > 60) return -1;
	unsigned c = *r->p;
	if (c == '"') return rd_str(r, out);
	if (c == '\'') return -1;
	static const char* kw[] = { "null", "false", "true" };
	for (int i = 0; i < 3; i++)
		if (r->e - r->p >= (int)strlen(kw[i]) && ! strncmp((char*)r->p, kw[i], strlen(kw[i]))) {
			r->p += strlen(kw[i]);
			*out = doc_new(i ? D_BOOL : D_NULL);
			(*out)->i = i == 2;
			return 1;
		}
	if (c && strchr("nNtTfF", c)) {
		// keywords match in any case
		for (int i = 0; i < 3; i++)
			if (r->e - r->p >= (int)strlen(kw[i]) && ! strncasecmp((char*)r->p, kw[i], strlen(kw[i]))) return -1;
		return 0;
	}
	if (isdigit(c) || c == '-') {
		const unsigned char* s = r->p;
		const unsigned char* p = s;
		while (p < r->e && *p && (isalnum(*p) || strchr("+-.", *p))) p++;
		char t[512]; int n = p - s;
		if (n > 500) return -1;
		memcpy(t, s, n); t[n] = 0;
		// strict grammar
		char* q = t; bool real = false;
		if (*q == '-') q++;
		if (*q == '0') q++; else if (*q >= '1' && *q <= '9') while (isdigit(*q)) q++; else return -1;
		if (*q == '.') { real = true; q++; if (! isdigit(*q)) return -1; while (isdigit(*q)) q++; }
		if (*q == 'e' || *q == 'E') { real = true; q++; if (*q == '+' || *q == '-') q++; if (! isdigit(*q)) return -1; while (isdigit(*q)) q++; }
		if (*q) return -1;
		errno = 0;
		if (real) {
			*out = doc_new(D_REAL);
			(*out)->r = strtod(t, NULL);
			if (isinf((*out)->r)) return 0; // there is no such number
		} else {
			*out = doc_new(D_INT);
			(*out)->i = strtoll(t, NULL, 10);
			if (errno == ERANGE) return 0;
			if ((*out)->i == INT64_MIN) return -1;
		}
		r->p = p;
		return 1;
	}
	if (c == '.') return -1;
	if (c != '[' && c != '{') return 0;
	r->p++;
	Doc* d = *out = doc_new(c == '[' ? D_ARR : D_OBJ);
	int close = c == '[' ? ']' : '}';
	rd_ws(r);
	if (r->p < r->e && *r->p == close) { r->p++; return 1; }
	for (;;) {
		Doc* key = NULL; Doc* v = NULL;
		int rc;
		if (d->type == D_OBJ) {
			rd_ws(r);
			if (r->p == r->e) return 0;
			if (*r->p == '\'') return -1;
			if (*r->p != '"') return 0;
			if ((rc = rd_str(r, &key)) != 1) return rc;
			rd_ws(r);
			if (r->p == r->e || *r->p != ':') return 0;
			r->p++;
		}
		if ((rc = rd_value(r, &v, depth + 1)) != 1) return rc;
		doc_push(d, key, v);
		rd_ws(r);
		if (r->p == r->e) return 0;
		if (*r->p == ',') { r->p++; continue; }
		if (*r->p == close) { r->p++; return 1; }
		return 0;
	}
}

// compare an encoded value with the reference ---------------------------------
static void must_equal(uint8_t** pos, Doc* d, bool printed, const char* what, const char* text)
{
	switch (d->type) {
	case D_NULL:
		pbt_check(json_is_null(*pos), "%s: null expected, got %s in %s", what, json_typeof(**pos), text);
		json_read_null(pos);
		break;
	case D_BOOL: {
		bool b;
		pbt_check(json_is_bool(*pos), "%s: bool expected, got %s in %s", what, json_typeof(**pos), text);
		json_read_bool(pos, &b);
		pbt_check(b == d->i, "%s: wrong bool in %s", what, text);
		break; }
	case D_INT: {
		int64_t i;
		pbt_check(json_is_integer(*pos), "%s: int expected, got %s in %s", what, json_typeof(**pos), text);
		json_read_integer(pos, &i);
		pbt_check(i == d->i, "%s: int %lld expected, got %lld in %s", what, (long long)d->i, (long long)i, text);
		break; }
	case D_REAL: {
		double r;
		// a printed real may look like an integer
		if (printed && json_is_integer(*pos)) { int64_t i; json_read_integer(pos, &i); r = i; }
		else {
			pbt_check(json_is_real(*pos), "%s: real expected, got %s in %s", what, json_typeof(**pos), text);
			json_read_real(pos, &r);
		}
		double tol = printed ? 6e-6 : 1e-15;
		pbt_check(isinf(r) == 0 && (printed || signbit(r) == signbit(d->r)), "%s: real %.17g expected, got %.17g in %s", what, d->r, r, text);
		pbt_check(fabs(r - d->r) <= fabs(d->r) * tol + 5e-324, "%s: real %.17g expected, got %.17g in %s", what, d->r, r, text);
		break; }
	case D_STR: {
		Str s;
		pbt_check(json_is_string(*pos), "%s: string expected, got %s in %s", what, json_typeof(**pos), text);
		json_read_string(pos, &s);
		pbt_check(str_size(&s) == d->n && ! memcmp(str_of(&s), d->s, d->n), "%s: string '%s' expected, got '%s' in %s",
		          what, show(d->s, d->n), show(str_of(&s), str_size(&s)), text);
		break; }
	case D_ARR:
		pbt_check(json_is_array(*pos), "%s: array expected, got %s in %s", what, json_typeof(**pos), text);
		json_read_array(pos);
		for (int i = 0; i < d->count; i++) {
			pbt_check(! json_is_array_end(*pos), "%s: array is short in %s", what, text);
			must_equal(pos, d->item[i], printed, what, text);
		}
		pbt_check(json_read_array_end(pos), "%s: array is long in %s", what, text);
		break;
	case D_OBJ:
		pbt_check(json_is_obj(*pos), "%s: object expected, got %s in %s", what, json_typeof(**pos), text);
		json_read_obj(pos);
		for (int i = 0; i < d->count; i++) {
			pbt_check(! json_is_obj_end(*pos), "%s: object is short in %s", what, text);
			must_equal(pos, d->key[i], printed, what, text);
			must_equal(pos, d->item[i], printed, what, text);
		}
		pbt_check(json_read_obj_end(pos), "%s: object is long in %s", what, text);
		break;
	}
}

static bool parse(const char* text, int size, Buf* out)
{
	char* copy = exact(text, size);
	Str str;
	str_set(&str, copy, size);
	Json json;
	json_init(&json);
	auto on_error = error_catch (
		json_parse(&json, &str, out);
	);
	if (! on_error)
		pbt_check(json.pos <= json.end, "parser position is past the end of the text: %s", show(text, size));
	json_free(&json);
	free(copy);
	return ! on_error;
}

static void check_doc(Doc* d, Sb* text)
{
	const char* shown = show(text->p, text->n);
	Buf* out = buf_create();
	pbt_check(parse(text->p, text->n, out), "valid JSON is rejected (%s): %s",
	          buf_cstr(&am_self()->error.text), shown);
	uint8_t* pos = out->start;
	must_equal(&pos, d, false, "parse", shown);
	pbt_check(pos == out->position, "parse: extra data after the value of %s", shown);

	// print and parse again
	for (int pretty = 0; pretty < 2; pretty++) {
		Buf* exp = buf_create();
		pos = out->start;
		if (pretty) json_export_pretty(exp, NULL, &pos);
		else json_export(exp, NULL, &pos);
		pbt_check(pos == out->position, "export did not consume the value of %s", shown);
		const char* pshown = show(exp->start, buf_size(exp));
		// valid by the strict reference reader, and denotes the same value
		Rd r = { exp->start, exp->position, true };
		Doc* d2 = NULL;
		int v = rd_value(&r, &d2, 0);
		rd_ws(&r);
		pbt_check((v == 1 && r.p == r.e) || v == -1, "printed text is not valid JSON: %s", pshown);
		if (v == -1) pbt_class("print:unspecified");
		Buf* out2 = buf_create();
		pbt_check(parse((char*)exp->start, buf_size(exp), out2), "printed text is rejected: %s", pshown);
		pos = out2->start;
		must_equal(&pos, d, true, pretty ? "pretty print" : "print", pshown);
		pbt_check(pos == out2->position, "extra data after %s", pshown);
		// printing is stable
		Buf* exp2 = buf_create();
		pos = out2->start;
		if (pretty) json_export_pretty(exp2, NULL, &pos);
		else json_export(exp2, NULL, &pos);
		pbt_check(buf_size(exp2) == buf_size(exp) && ! memcmp(exp2->start, exp->start, buf_size(exp)),
		          "printing is not stable: %s then %s", pshown, show(exp2->start, buf_size(exp2)));
		buf_free(exp); buf_free(exp2); buf_free(out2);
	}
	buf_free(out);
}

static int doc_depth(Doc* d)
{
	int m = 0;
	for (int i = 0; i < d->count; i++) { int k = doc_depth(d->item[i]); if (k > m) m = k; }
	return m + (d->type >= D_ARR);
}

static void case_valid(void)
{
	plain_text = false;
	Doc* d = gen_doc(1 + pbt_pick(6));
	Sb text = {0};
	put_doc(&text, d);
	put_ws(&text);
	pbt_note("valid %s", show(text.p, text.n));
	if (doc_depth(d) >= 2) pbt_nontrivial();
	pbt_class("valid");
	if (memchr(text.p, '\\', text.n)) pbt_class("escapes");
	check_doc(d, &text);
	sb_free(&text);
}

static void judge(const char* p, int n)
{
	Rd r = { (unsigned char*)p, (unsigned char*)p + n };
	Doc* d = NULL;
	int v = rd_value(&r, &d, 0);
	if (v == 1) {
		rd_ws(&r);
		if (r.p != r.e) v = -1; // content after the value is up to the caller
	}
	Buf* out = buf_create();
	bool ok = parse(p, n, out);
	pbt_class(v == 1 ? "mutant:valid" : v == 0 ? "mutant:invalid" : "mutant:unspecified");
	if (v >= 0) pbt_nontrivial();
	if (v == 1) {
		pbt_check(ok, "valid JSON is rejected (%s): %s", buf_cstr(&am_self()->error.text), show(p, n));
		uint8_t* pos = out->start;
		must_equal(&pos, d, false, "parse", show(p, n));
	} else if (v == 0)
		pbt_check(! ok, "malformed JSON is accepted: %s", show(p, n));
	if (ok) {
		// whatever is accepted is a readable value
		uint8_t* pos = out->start;
		Buf* exp = buf_create();
		json_skip(&pos);
		pbt_check(pos == out->position, "encoded value has a wrong size: %s", show(p, n));
		pos = out->start;
		json_export(exp, NULL, &pos);
		buf_free(exp);
	}
	buf_free(out);
}

static void case_mutant(void)
{
	plain_text = false;
	Doc* d = gen_doc(1 + pbt_pick(4));
	Sb t = {0};
	put_doc(&t, d);
	if (pbt_pick(3) == 0) {
		// every truncation of a composite or string document is malformed
		int from = t.n > 300 ? (int)pbt_pick(t.n - 299) : 0;
		for (int i = from; i < t.n && i < from + 300; i++)
			if (t.p[strspn(t.p, " \t\n\r")] && strchr("[{\"", t.p[strspn(t.p, " \t\n\r")])) {
				Buf* out = buf_create();
				pbt_check(! parse(t.p, i, out), "truncated JSON is accepted: %s", show(t.p, i));
				buf_free(out);
			}
		pbt_note("truncations of %s", show(t.p, t.n));
		pbt_class("truncate");
	}
	static const char* tok[] = { ",", ":", "[", "]", "{", "}", "\"", "\\", "'", "-", ".", "e", "1", "99999999999999999999",
		"null", "true", "fals", "\n", " ", "\\u", "\\u12", "\xff", "\xc3", "\xf0\x9f", "NaN", "[]", "{}", ",,", "\"a\"", "1.5", "1.", ".5", "-.", "1e400", "-1e309", "e999", "[1.8e308]" };
	int m = 1 + pbt_pick(4);
	while (m-- && t.n) {
		int at = pbt_pick(t.n);
		switch (pbt_pick(5)) {
		case 0: memmove(t.p + at, t.p + at + 1, t.n - at); t.n--; break;
		case 1: t.p[at] = pbt_pick(256); break;
		case 2: t.n = at; t.p[at] = 0; break;
		default: {
			Sb s = {0};
			sb_add(&s, t.p, at);
			sb_s(&s, tok[pbt_pick(NELEM(tok))]);
			sb_add(&s, t.p + at, t.n - at);
			sb_free(&t);
			t = s;
			break; }
		}
	}
	pbt_note("mutant %s", show(t.p, t.n));
	judge(t.p ? t.p : "", t.n);
	sb_free(&t);
}

static void case_bytes(void)
{
	static const char* tok[] = { ",", ":", "[", "]", "{", "}", "\"", "\\", "'", "-", ".", "e5", "1", "0", "12345678901234567890",
		"null", "true", "false", "\n", " ", "\\u0041", "\\ud83d\\ude00", "a", "\xc3\xa9", "[[", "]]", "{\"a\":", "\"b\"" };
	Sb t = {0};
	while (pbt_more(12)) sb_s(&t, tok[pbt_pick(NELEM(tok))]);
	pbt_note("tokens %s", show(t.p, t.n));
	judge(t.p ? t.p : "", t.n);
	sb_free(&t);
}

static void case_deep(void)
{
	int depth = 1 << pbt_pick(18);
	int kind = pbt_pick(3);
	Sb t = {0};
	for (int i = 0; i < depth; i++) sb_s(&t, kind == 0 ? "[" : kind == 1 ? "{\"a\":" : (i & 1) ? "[" : "{\"k\":");
	sb_s(&t, "1");
	for (int i = depth - 1; i >= 0; i--) sb_s(&t, kind == 0 ? "]" : kind == 1 ? "}" : (i & 1) ? "]" : "}");
	pbt_note("nesting of %d", depth);
	pbt_class("deep");
	Buf* out = buf_create();
	bool ok = parse(t.p, t.n, out);
	if (depth <= 64) pbt_check(ok, "valid JSON with %d levels is rejected", depth);
	if (ok) {
		uint8_t* pos = out->start;
		json_skip(&pos);
		pbt_check(pos == out->position, "encoded value has a wrong size");
		pos = out->start;
		Buf* exp = buf_create();
		json_export(exp, NULL, &pos);
		buf_free(exp);
		pbt_check(json_compare(out->start, out->start) == 0, "value differs from itself");
	}
	buf_free(out);
	sb_free(&t);
}

static void run_case(void)
{
	switch (pbt_pick(16)) {
	case 0: case_bytes(); break;
	case 1: case_bytes(); break;
	case 15: if (pbt_pick(8) == 0) case_deep(); else case_bytes(); break;
	case 2: case 3: case 4: case 5: case 6: case_mutant(); break;
	default: case_valid(); break;
	}
	doc_free_all();
}

PbtHarness pbt_harness = { .name = "json_text", .run = run_case };
