// C15: binary JSON encoding, navigation, comparison
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "doc.h"

// size of the document by the json_size_* functions
static int size_of(Doc* d)
{
	switch (d->type) {
	case D_NULL: return json_size_null();
	case D_BOOL: return json_size_bool();
	case D_INT:  return json_size_integer(d->i);
	case D_REAL: return json_size_real(d->r);
	case D_STR:  return json_size_string(d->n);
	}
	int n = d->type == D_ARR ? json_size_array() + json_size_array_end() : json_size_obj() + json_size_obj_end();
	for (int i = 0; i < d->count; i++) {
		if (d->type == D_OBJ) n += size_of(d->key[i]);
		n += size_of(d->item[i]);
	}
	return n;
}

static void encode(Buf* b, Doc* d)
{
	int before = buf_size(b);
	switch (d->type) {
	case D_NULL: encode_null(b); break;
	case D_BOOL: encode_bool(b, d->i); break;
	case D_INT:  encode_integer(b, d->i); break;
	case D_REAL: encode_real(b, d->r); break;
	case D_STR: {
		Str s; str_set(&s, d->s, d->n);
		switch (d->n % 3) {
		case 0: encode_string(b, &s); break;
		case 1: encode_raw(b, d->s, d->n); break;
		default: {
			// concatenation of two parts
			int k = d->n / 2;
			auto pos = buf_reserve(b, json_size_string(d->n));
			json_write_string_cat(pos, d->s, d->s + k, k, d->n - k);
			break; }
		}
		break; }
	case D_ARR:
		encode_array(b);
		for (int i = 0; i < d->count; i++) encode(b, d->item[i]);
		encode_array_end(b);
		break;
	case D_OBJ:
		encode_obj(b);
		for (int i = 0; i < d->count; i++) { encode(b, d->key[i]); encode(b, d->item[i]); }
		encode_obj_end(b);
		break;
	}
	pbt_check(buf_size(b) - before == size_of(d), "encoded size %d differs from the declared size %d (type %d, %lld)",
	          buf_size(b) - before, size_of(d), d->type, (long long)d->i);
}

static void same(uint8_t** pos, Doc* d)
{
	switch (d->type) {
	case D_NULL: pbt_check(json_is_null(*pos), "null expected"); json_read_null(pos); return;
	case D_BOOL: { bool v; pbt_check(json_is_bool(*pos), "bool expected"); json_read_bool(pos, &v); pbt_check(v == d->i, "bool differs"); return; }
	case D_INT: { int64_t v; pbt_check(json_is_integer(*pos) && !json_is_string(*pos) && !json_is_real(*pos), "int expected"); json_read_integer(pos, &v); pbt_check(v == d->i, "int %lld became %lld", (long long)d->i, (long long)v); return; }
	case D_REAL: { double v; pbt_check(json_is_real(*pos), "real expected"); json_read_real(pos, &v); pbt_check(v == d->r, "real %.17g became %.17g", d->r, v); return; }
	case D_STR: { Str v; pbt_check(json_is_string(*pos) && !json_is_integer(*pos), "string expected"); json_read_string(pos, &v); pbt_check(str_size(&v) == d->n && !memcmp(v.pos, d->s, d->n), "string of %d bytes became %d bytes", d->n, str_size(&v)); return; }
	}
	if (d->type == D_ARR) { pbt_check(json_is_array(*pos), "array expected"); json_read_array(pos); }
	else { pbt_check(json_is_obj(*pos), "object expected"); json_read_obj(pos); }
	for (int i = 0; i < d->count; i++) {
		if (d->type == D_OBJ) same(pos, d->key[i]);
		same(pos, d->item[i]);
	}
	if (d->type == D_ARR) pbt_check(json_read_array_end(pos), "end of array expected");
	else pbt_check(json_read_obj_end(pos), "end of object expected");
}

// order of the documents: kind, then value, containers element by element -----
static int kind(Doc* d)
{
	// order of the type codes
	switch (d->type) { case D_NULL: return 0; case D_BOOL: return 1; case D_REAL: return 2; case D_INT: return 3; case D_STR: return 4; case D_OBJ: return 5; }
	return 6;
}
static int sign(int64_t a) { return a < 0 ? -1 : a > 0; }
// -2/2: differ, order is not specified by the documents themselves (container sizes)
static int doc_eq(Doc* a, Doc* b)
{
	if (a->type != b->type) return 0;
	switch (a->type) {
	case D_NULL: return 1;
	case D_BOOL: case D_INT: return a->i == b->i;
	case D_REAL: return a->r == b->r;
	case D_STR: return a->n == b->n && ! memcmp(a->s, b->s, a->n);
	}
	if (a->count != b->count) return 0;
	for (int i = 0; i < a->count; i++)
		if ((a->type == D_OBJ && ! doc_eq(a->key[i], b->key[i])) || ! doc_eq(a->item[i], b->item[i])) return 0;
	return 1;
}
static int scalar_cmp(Doc* a, Doc* b)
{
	switch (a->type) {
	case D_BOOL: case D_INT: return a->i < b->i ? -1 : a->i > b->i;
	case D_REAL: return a->r < b->r ? -1 : a->r > b->r;
	}
	return 0;
}

static Doc* doc_clone(Doc* d)
{
	Doc* c = doc_new(d->type);
	c->i = d->i; c->r = d->r; c->n = d->n;
	if (d->s) { c->s = malloc(d->n + 1); memcpy(c->s, d->s, d->n); c->s[d->n] = 0; }
	for (int i = 0; i < d->count; i++) doc_push(c, d->key[i] ? doc_clone(d->key[i]) : NULL, doc_clone(d->item[i]));
	return c;
}
static void tweak(Doc* d)
{
	for (;;) {
		if (d->type >= D_ARR && d->count && pbt_pick(4)) {
			int i = pbt_pick(d->count);
			d = (d->type == D_OBJ && pbt_pick(3) == 0) ? d->key[i] : d->item[i];
			continue;
		}
		break;
	}
	switch (d->type) {
	case D_BOOL: d->i = !d->i; break;
	case D_INT: d->i = (int64_t)((uint64_t)d->i + 1 - pbt_pick(3)); break;
	case D_REAL: d->r = nextafter(d->r, pbt_pick(2) ? 1e300 : -1e300); break;
	case D_STR: if (d->n) d->s[pbt_pick(d->n)] ^= 1 + pbt_pick(7); break;
	case D_ARR: if (d->count && pbt_pick(2)) d->count--; else doc_push(d, NULL, gen_doc(0)); break;
	case D_OBJ: if (d->count && pbt_pick(2)) d->count--; else doc_push(d, gen_str(), gen_doc(0)); break;
	}
}

// read-only navigation ---------------------------------------------------------
static void check_nav(uint8_t* at, Doc* d)
{
	uint8_t* pos = at;
	json_skip(&pos);
	pbt_check(pos - at == size_of(d), "skip moved by %d instead of %d", (int)(pos - at), size_of(d));
	pbt_check(json_sizeof(at) == size_of(d), "json_sizeof differs");
	if (d->type == D_ARR) {
		pbt_check(json_array_size(at) == d->count, "array size %d instead of %d", json_array_size(at), d->count);
		for (int i = 0; i <= d->count; i++) {
			pos = at;
			bool found = json_array_find(&pos, i);
			pbt_check(found == (i < d->count), "array element %d of %d: found=%d", i, d->count, found);
			pbt_check(json_array_has(at, i) == found, "json_array_has(%d)", i);
			if (found) { check_nav(pos, d->item[i]); same(&pos, d->item[i]); }
		}
		pos = at;
		bool found = json_array_find(&pos, -1);
		pbt_check(! found, "element at a negative position is found");
		pos = at;
		found = json_array_last(&pos);
		pbt_check(found == (d->count > 0), "last element of %d: found=%d", d->count, found);
		if (found) same(&pos, d->item[d->count - 1]);
	}
	if (d->type == D_OBJ) {
		pbt_check(json_obj_size(at) == d->count, "object size %d instead of %d", json_obj_size(at), d->count);
		for (int i = 0; i < d->count; i++) {
			// first key wins
			int k = 0;
			while (! (d->key[k]->n == d->key[i]->n && ! memcmp(d->key[k]->s, d->key[i]->s, d->key[i]->n))) k++;
			pos = at;
			pbt_check(json_obj_find(&pos, d->key[i]->s, d->key[i]->n), "key '%s' is not found", show(d->key[i]->s, d->key[i]->n));
			check_nav(pos, d->item[k]);
			same(&pos, d->item[k]);
		}
	}
}

// path lookup over plain keys
static Doc* find_path(Doc* d, const char* path)
{
	for (;;) {
		const char* dot = strchr(path, '.');
		int n = dot ? dot - path : (int)strlen(path);
		if (d->type == D_NULL) return NULL;
		if (d->type != D_OBJ) return (void*)-1;
		Doc* next = NULL;
		for (int i = 0; i < d->count && ! next; i++)
			if (d->key[i]->n == n && ! memcmp(d->key[i]->s, path, n)) next = d->item[i];
		if (! next) return NULL;
		d = next;
		if (! dot) break;
		path = dot + 1;
	}
	return d;
}
static Doc* gen_tree(int depth)
{
	if (depth == 0 || pbt_pick(3) == 0) return gen_doc(0);
	Doc* d = doc_new(D_OBJ);
	int n = pbt_size(4);
	for (int i = 0; i < n; i++) {
		Doc* k = doc_new(D_STR);
		k->s = strdup((char*[]){ "a", "b", "ab", "c", "abc", "", "aba" }[pbt_pick(7)]); k->n = strlen(k->s);
		doc_push(d, k, gen_tree(depth - 1));
	}
	return d;
}
static void case_path(void)
{
	Doc* d = gen_tree(4);
	if (d->type != D_OBJ) return;
	Buf* b = buf_create();
	encode(b, d);
	check_nav(b->start, d);
	pbt_class("path");
	for (int k = 0; k < 12; k++) {
		Sb p = {0};
		int n = 1 + pbt_pick(4);
		for (int i = 0; i < n; i++) {
			if (i) sb_c(&p, '.');
			sb_s(&p, (char*[]){ "a", "b", "ab", "c", "abc", "d", "", "aba" }[pbt_pick(8)]);
		}
		Doc* want = find_path(d, p.p);
		char* copy = exact(p.p, p.n);
		Str path; str_set(&path, copy, p.n);
		uint8_t* pos = b->start;
		bool found = false;
		auto on_error = error_catch ( found = json_obj_find_path(&pos, &path); );
		pbt_note("path %s: %s", p.p, want == (void*)-1 ? "not an object" : want ? "found" : "missing");
		pbt_check(on_error == (want == (void*)-1), "path %s: error=%d", p.p, on_error);
		if (! on_error) {
			pbt_check(found == (want != NULL), "path %s: found=%d", p.p, found);
			pbt_check(json_obj_has(b->start, &path) == found, "json_obj_has differs from find");
			if (found) { same(&pos, want); pbt_nontrivial(); }
		}
		free(copy);
		sb_free(&p);
	}
	buf_free(b);
}

static void case_roundtrip(void)
{
	Doc* d = gen_doc(1 + pbt_pick(5));
	Buf* b = buf_create();
	// something before and after
	encode_integer(b, 7);
	int off = buf_size(b);
	encode(b, d);
	int end = buf_size(b);
	encode_integer(b, 9);
	uint8_t* pos = b->start + off;
	same(&pos, d);
	pbt_check(pos == b->start + end, "value is followed by other data");
	check_nav(b->start + off, d);
	if (d->count) pbt_nontrivial();
	pbt_class("roundtrip");
	pbt_note("roundtrip type=%d items=%d size=%d", d->type, d->count, end - off);
	buf_free(b);
}

static void case_compare(void)
{
	Doc* d[3]; Buf* b[3];
	d[0] = gen_doc(1 + pbt_pick(4));
	for (int i = 1; i < 3; i++) {
		if (pbt_pick(4) == 0) d[i] = gen_doc(pbt_pick(3));
		else { d[i] = doc_clone(d[i - 1]); if (pbt_pick(4)) tweak(d[i]); if (pbt_pick(4) == 0) tweak(d[i]); }
	}
	for (int i = 0; i < 3; i++) { b[i] = buf_create(); encode(b[i], d[i]); }
	int c[3][3];
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++) {
			c[i][j] = sign(json_compare(b[i]->start, b[j]->start));
			int eq = doc_eq(d[i], d[j]);
			pbt_check((c[i][j] == 0) == eq, "comparison %d of documents that are %s", c[i][j], eq ? "equal" : "different");
			if (d[i]->type == d[j]->type && d[i]->type <= D_REAL)
				pbt_check(c[i][j] == scalar_cmp(d[i], d[j]), "wrong order of scalars of type %d: %lld %lld", d[i]->type, (long long)d[i]->i, (long long)d[j]->i);
			if (d[i]->type == D_STR && d[j]->type == D_STR) {
				Str x, y; str_set(&x, d[i]->s, d[i]->n); str_set(&y, d[j]->s, d[j]->n);
				pbt_check(c[i][j] == sign(str_compare_fn(&x, &y)), "string order differs from str_compare_fn");
			}
			if (kind(d[i]) != kind(d[j]))
				pbt_check(c[i][j] == sign(kind(d[i]) - kind(d[j])), "wrong order of types %d and %d", d[i]->type, d[j]->type);
		}
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++) {
			pbt_check(c[i][j] == -c[j][i], "comparison is not antisymmetric");
			for (int k = 0; k < 3; k++)
				if (c[i][j] <= 0 && c[j][k] <= 0)
					pbt_check(c[i][k] <= 0, "comparison is not transitive");
		}
	pbt_class("compare");
	if (c[0][1] != 0 && d[0]->count) pbt_nontrivial();
	pbt_note("compare types %d %d %d -> %d %d", d[0]->type, d[1]->type, d[2]->type, c[0][1], c[1][2]);
	for (int i = 0; i < 3; i++) buf_free(b[i]);
}

static void case_decode(void)
{
	// key based decoding of an object, in any order and with unknown keys
	static const char* name[] = { "i", "b", "s", "r", "a", "o", "d" };
	int order[16], n = 0;
	int have = 0;
	Doc* val[7];
	for (int i = 0; i < 7; i++) val[i] = NULL;
	Buf* b = buf_create();
	encode_obj(b);
	int count = 7 + pbt_pick(4);
	for (int i = 0; i < count; i++) {
		int k = i < 7 ? i : 7 + (int)pbt_pick(3);
		if (i < 7 && pbt_pick(12) == 11) continue;
		order[n++] = k;
	}
	for (int i = n - 1; i > 0; i--) { int j = pbt_pick(i + 1); int t = order[i]; order[i] = order[j]; order[j] = t; }
	bool bad = false;
	for (int i = 0; i < n; i++) {
		int k = order[i];
		if (k >= 7) { encode_cstr(b, k == 7 ? "x" : k == 8 ? "ii" : ""); encode(b, gen_doc(2)); continue; }
		encode_cstr(b, name[k]);
		have |= 1 << k;
		Doc* d;
		bool wrong = pbt_pick(20) == 19;
		switch (wrong ? 99 : k) {
		case 0: d = doc_new(D_INT); d->i = pbt_int64(); break;
		case 1: d = doc_new(D_BOOL); d->i = pbt_pick(2); break;
		case 2: d = gen_str(); break;
		case 3: d = gen_str(); break;
		case 4: d = doc_new(D_ARR); for (int m = pbt_size(3); m > 0; m--) doc_push(d, NULL, gen_doc(1)); break;
		case 5: d = doc_new(D_OBJ); for (int m = pbt_size(3); m > 0; m--) doc_push(d, gen_str(), gen_doc(1)); break;
		case 6: d = gen_doc(2); break;
		default: d = doc_new(D_NULL); if (k != 6) bad = true; break;
		}
		encode(b, d);
		val[k] = d;
	}
	encode_obj_end(b);
	int64_t vi = 0; bool vb = false; Str vs, vr; uint8_t *va = NULL, *vo = NULL; Buf vd;
	str_init(&vs); str_init(&vr); buf_init(&vd);
	Decode obj[] = {
		{ DECODE_INT, "i", &vi }, { DECODE_BOOL, "b", &vb }, { DECODE_STRING, "s", &vs }, { DECODE_STRING_READ, "r", &vr },
		{ DECODE_ARRAY, "a", &va }, { DECODE_OBJ, "o", &vo }, { DECODE_DATA, "d", &vd }, { 0, NULL, NULL } };
	uint8_t* pos = b->start;
	auto on_error = error_catch ( decode_obj(obj, "test", &pos); );
	bool want_error = bad || have != 127;
	pbt_note("decode keys=%d missing=%d wrong-type=%d", n, have != 127, bad);
	pbt_class(want_error ? "decode:error" : "decode:ok");
	pbt_check(on_error == want_error, "decode error=%d, expected %d", on_error, want_error);
	if (! on_error) {
		pbt_nontrivial();
		pbt_check(pos == b->position, "decode consumed a wrong size");
		pbt_check(vi == val[0]->i && vb == val[1]->i, "decoded scalar differs");
		pbt_check(str_size(&vs) == val[2]->n && ! memcmp(vs.pos, val[2]->s, val[2]->n), "decoded string differs");
		pbt_check(str_size(&vr) == val[3]->n && ! memcmp(vr.pos, val[3]->s, val[3]->n), "decoded string differs");
		same(&va, val[4]); same(&vo, val[5]);
		uint8_t* p = vd.start; same(&p, val[6]); pbt_check(p == vd.position, "decoded data has a wrong size");
	}
	str_free(&vs); buf_free(&vd); buf_free(b);
}

// an array longer than one byte counts, of values of different sizes
static void case_long(void)
{
	Doc* d = doc_new(D_ARR);
	int n = (int[]){ 30, 126, 250, 300, 700 }[pbt_pick(5)] + pbt_pick(10);
	for (int i = 0; i < n; i++) {
		Doc* e;
		if (pbt_pick(8) == 7) e = gen_doc(pbt_pick(2));
		else { e = doc_new(D_INT); e->i = i * (1 + pbt_pick(3)); }
		doc_push(d, NULL, e);
	}
	Buf* b = buf_create();
	encode(b, d);
	for (int k = 0; k < 24; k++) {
		int at = pbt_pick(4) == 0 ? n - 3 + (int)pbt_pick(8) : (int)pbt_pick(n + 2);
		if (k == 0) at = n - 1;
		uint8_t* pos = b->start;
		bool found = json_array_find(&pos, at);
		pbt_check(found == (at < n), "array element %d of %d: found=%d", at, n, found);
		pbt_check(json_array_has(b->start, at) == found, "json_array_has(%d)", at);
		if (found) same(&pos, d->item[at]);
	}
	pbt_check(json_array_size(b->start) == n, "array size %d instead of %d", json_array_size(b->start), n);
	uint8_t* pos = b->start;
	pbt_check(json_array_last(&pos), "last element of %d is not found", n);
	same(&pos, d->item[n - 1]);
	pos = b->start;
	json_skip(&pos);
	pbt_check(pos == b->position, "skip of a long array");
	pbt_class("long array");
	pbt_note("array of %d", n);
	pbt_nontrivial();
	buf_free(b);
}

static void run_case(void)
{
	if (pbt_pick(32) == 31) { case_long(); doc_free_all(); return; }
	switch (pbt_pick(8)) {
	case 0: case 1: case_roundtrip(); break;
	case 2: case_path(); break;
	case 3: case_decode(); break;
	default: case_compare(); break;
	}
	doc_free_all();
}

PbtHarness pbt_harness = { .name = "json_bin", .run = run_case };
