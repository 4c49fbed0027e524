// C44: scalar operators and functions of SQL against an evaluator of their definitions
#include "db.h"
#include "util.h"
#include <math.h>
#include <openssl/evp.h>
#include <errno.h>

enum { I, S, B, D, J, TYPES };
typedef struct Js Js;
// a JSON value: 'n'ull, 'b'ool, 'i'nt, 's'tring, 'a'rray, 'o'bject
struct Js { char k; int64_t i; const char* s; int n; Js* item[24]; const char* key[24]; };
typedef struct { int t; bool null; int64_t i; const char* s; double d; Js* j; } V;

static char*  Mem[100000];
static int    Mem_n;
static void*  mem(size_t n) { if (Mem_n == NELEM(Mem)) pbt_fail("harness: out of case memory"); return Mem[Mem_n++] = calloc(1, n ? n : 1); }
static char*  mem_str(const char* s, int n) { char* p = mem(n + 1); memcpy(p, s, n); return p; }
static void   mem_reset(void) { while (Mem_n) free(Mem[--Mem_n]); }

static V nul(int t) { return (V){ .t = t, .null = true }; }
static V vi(int64_t i) { return (V){ .t = I, .i = i }; }
static V vb(bool b) { return (V){ .t = B, .i = b }; }
static V vs(const char* s) { return (V){ .t = S, .s = s }; }
static V vd(double d) { return (V){ .t = D, .d = d }; }
static V vj(Js* j) { return (V){ .t = J, .j = j }; }
static Js* js(char k) { Js* j = mem(sizeof(Js)); j->k = k; return j; }

// an evaluation that has to fail
static bool Err, Skip;
static V fail(int t) { Err = true; return nul(t); }

// text -------------------------------------------------------------------------------------------
static void js_print(Tx* t, Js* j)
{
	switch (j->k) {
	case 'n': tx_f(t, "null"); break;
	case 'b': tx_f(t, j->i ? "true" : "false"); break;
	case 'i': tx_f(t, "%" PRIi64, j->i); break;
	case 's': tx_f(t, "\"%s\"", j->s); break;
	case 'a': tx_f(t, "["); for (int i = 0; i < j->n; i++) { if (i) tx_f(t, ","); js_print(t, j->item[i]); } tx_f(t, "]"); break;
	case 'o': tx_f(t, "{"); for (int i = 0; i < j->n; i++) { if (i) tx_f(t, ","); tx_f(t, "\"%s\":", j->key[i]); js_print(t, j->item[i]); } tx_f(t, "}"); break;
	}
}
static void v_json(Tx* t, const V* v)
{
	if (v->null) { tx_f(t, "null"); return; }
	switch (v->t) {
	case I: tx_f(t, "%" PRIi64, v->i); break;
	case S: tx_f(t, "\"%s\"", v->s); break;
	case B: tx_f(t, v->i ? "true" : "false"); break;
	case D: tx_f(t, "%g", v->d); break;
	case J: js_print(t, v->j); break;
	}
}
static void v_sql(Tx* t, const V* v)
{
	if (v->null) { tx_f(t, "null"); return; }
	switch (v->t) {
	case I:
		if (v->i == INT64_MIN) tx_f(t, "(-9223372036854775807 - 1)");
		else if (v->i < 0) tx_f(t, "(%" PRIi64 ")", v->i);
		else tx_f(t, "%" PRIi64, v->i);
		break;
	case S: tx_f(t, "'%s'", v->s); break;
	case B: tx_f(t, v->i ? "true" : "false"); break;
	case D: if (v->d < 0) tx_f(t, "(%.2f)", v->d); else tx_f(t, "%.2f", v->d); break;
	case J: js_print(t, v->j); break;
	}
}

// strings of characters --------------------------------------------------------------------------
static int chr_size(const char* s) { uint8_t c = *s; return c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; }
static int chr_count(const char* s) { int n = 0; for (; *s; s += chr_size(s)) n++; return n; }
static const char* chr_at(const char* s, int n) { while (n-- > 0 && *s) s += chr_size(s); return s; }
static bool chr_same(const char* a, const char* b) { int n = chr_size(a); return n == chr_size(b) && ! strncmp(a, b, n); }
static bool chr_in(const char* c, const char* set) { for (; *set; set += chr_size(set)) if (chr_same(c, set)) return true; return false; }

// LIKE: after a % further % and _ belong to it
static bool like(const char* s, const char* p)
{
	if (! *p) return ! *s;
	if (*p == '%') {
		while (*p == '%' || *p == '_') p++;
		for (;; s += chr_size(s)) { if (like(s, p)) return true; if (! *s) return false; }
	}
	if (! *s) return false;
	if (*p == '_' || chr_same(s, p)) return like(s + chr_size(s), p + chr_size(p));
	return false;
}

// regular expressions: characters, '.', [class], and the greedy '*', '+', '?' after them
static const char* re_atom_end(const char* p)
{
	if (*p == '[') return strchr(p, ']') + 1;
	return p + chr_size(p);
}
static bool re_atom(const char* p, const char* s)
{
	if (! *s) return false;
	if (*p == '.') return *s != '\n';
	if (*p == '[') {
		bool neg = p[1] == '^', in = false;
		for (p += 1 + neg; *p != ']'; p += chr_size(p)) in |= chr_same(p, s);
		return in != neg;
	}
	return chr_same(p, s);
}
static const char* re_here(const char* p, const char* s)
{
	if (! *p) return s;
	if (*p == '$' && ! p[1]) return *s ? NULL : s;
	const char* e = re_atom_end(p);
	int min = *e == '+', max = *e == '?' ? 1 : INT_MAX;
	if (*e != '*' && *e != '+' && *e != '?') return re_atom(p, s) ? re_here(e, s + chr_size(s)) : NULL;
	const char* at[256]; int n = 0;
	at[n++] = s;
	while (n - 1 < max && n < 256 && re_atom(p, at[n - 1])) { at[n] = at[n - 1] + chr_size(at[n - 1]); n++; }
	for (int i = n - 1; i >= min; i--) { const char* r = re_here(e + 1, at[i]); if (r) return r; }
	return NULL;
}
// the first match at or after from
static const char* re_find(const char* p, const char* s, const char* from, const char** end)
{
	bool anchor = *p == '^';
	for (const char* at = from;; at += chr_size(at)) {
		if (! anchor || at == s) { *end = re_here(p + anchor, at); if (*end) return at; }
		if (! *at) return NULL;
	}
}

// base64
static const char* base64(const char* s, bool url)
{
	static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	int n = strlen(s), k = 0;
	char* r = mem(n * 2 + 8);
	for (int i = 0; i < n; i += 3) {
		uint32_t v = (uint8_t)s[i] << 16 | (i + 1 < n ? (uint8_t)s[i + 1] << 8 : 0) | (i + 2 < n ? (uint8_t)s[i + 2] : 0);
		for (int q = 0; q < 4; q++) {
			if (q > n - i) { if (! url) r[k++] = '='; continue; }
			char c = a[v >> (18 - 6 * q) & 63];
			if (url) c = c == '+' ? '-' : c == '/' ? '_' : c;
			r[k++] = c;
		}
	}
	return r;
}

// generators -------------------------------------------------------------------------------------
static const char* gen_chr(void)
{
	static const char* c[] = { "a", "b", "c", "A", "Z", "x", "1", " ", "\xc3\xa9", "\xd0\x96", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "@", "`", "[", "{", "-" };
	return PICK(2) ? c[PICK(3)] : c[PICK(NELEM(c))];
}
static const char* gen_s(int avg)
{
	Tx t = { 0 };
	tx_add(&t, "", 0);
	int n = PICK(8) == 0 ? 0 : PICK(12) == 11 ? 20 + PICK(40) : 1 + PICK(avg);
	for (int i = 0; i < n; i++) { const char* c = gen_chr(); tx_add(&t, c, strlen(c)); }
	char* r = mem_str(t.p, t.n);
	tx_free(&t);
	return r;
}
static const char* gen_word(void) { static const char* w[] = { "a", "b", "c", "ab", "key", "\xc3\xa9" }; return w[PICK(NELEM(w))]; }
static Js* gen_js(int depth, char k)
{
	if (! k) k = "nbisao"[PICK(depth > 0 ? 6 : 4)];
	Js* j = js(k);
	switch (k) {
	case 'b': j->i = PICK(2); break;
	case 'i': j->i = PICK(3) ? PICK(200) : (int64_t)PICK(2000000000) * 3; break;
	case 's': j->s = PICK(3) ? gen_word() : gen_s(6); break;
	case 'a': j->n = PICK(5); for (int i = 0; i < j->n; i++) j->item[i] = gen_js(depth - 1, 0); break;
	case 'o':
		for (int i = 0, n = PICK(5); i < n; i++) {
			const char* key = gen_word();
			bool has = false;
			for (int q = 0; q < j->n; q++) has |= ! strcmp(j->key[q], key);
			if (has) continue;
			j->key[j->n] = key;
			j->item[j->n++] = gen_js(depth - 1, depth > 0 && PICK(2) ? 'o' : 0);
		}
		break;
	}
	return j;
}
static int64_t gen_int(void)
{
	switch (PICK(6)) {
	case 0: case 1: case 2: return (int64_t)PICK(20) - 5;
	case 3: return (int64_t)PICK(2000) - 1000;
	case 4: return pbt_int64();
	default: { static const int64_t e[] = { INT64_MAX, INT64_MIN, INT64_MIN + 1, INT32_MAX, INT32_MIN, 4294967296LL, 4294967297LL, -4294967296LL, 1LL << 62 }; return e[PICK(NELEM(e))]; }
	}
}
static double gen_d(void) { return ((int)PICK(4000) - 2000) / 4.0; }
static V gen_v(int t)
{
	switch (t) {
	case I: return vi(gen_int());
	case S: return vs(gen_s(8));
	case B: return vb(PICK(2));
	case D: return vd(gen_d());
	default: return vj(gen_js(2, "ao"[PICK(2)]));
	}
}

// expressions ------------------------------------------------------------------------------------
enum { E_CONST, E_COL,
	E_ADD, E_SUB, E_MUL, E_DIV, E_MOD, E_NEG, E_AND, E_OR, E_XOR, E_INV, E_SHL, E_SHR,
	F_ABS, F_SIGN, F_SIGND, F_MOD, F_LENGTH, F_SIZEJ, F_OCTET, F_STRPOS, F_ROUND, F_INTS, F_INTB, F_INTD, F_GREATEST, F_LEAST,
	F_LOWER, F_UPPER, F_SUBSTR2, F_SUBSTR3, F_REPLACE, F_LTRIM, F_RTRIM, F_TRIM, F_LTRIM2, F_RTRIM2, F_TRIM2, F_CONCAT, E_CAT,
	F_STRI, F_STRB, F_NULLIF, F_COALESCE, F_RSUBSTR, F_RREPLACE, F_B64, F_B64URL, F_UNB64, F_UNB64URL,
	E_LIKE, F_RLIKE, F_HAS, E_LT, E_LE, E_EQ, E_NE, E_GT, E_GE,
	F_FABS, F_CEIL, F_FLOOR, F_TRUNC, F_DOUBLE, E_DADD, E_DSUB, F_FMOD, F_SQRT,
	F_APPEND, F_PUSH, F_POP, F_POPB, F_PUT, F_REMOVE, F_SET, F_UNSET, F_RMATCH, E_ARRAY,
	F_POW, F_LIBM, F_MD5, F_SHA1, F_INTJ, E_IDXK, E_IDXI, E_DOT, N_OPS };
// result, arguments; X - the same type as the result; n - any number of arguments of the last type
static const struct { const char* name; char r, a[4]; } Op[N_OPS] = {
	[E_ADD] = { "+", 'I', "II" }, [E_SUB] = { "-", 'I', "II" }, [E_MUL] = { "*", 'I', "II" }, [E_DIV] = { "/", 'I', "II" }, [E_MOD] = { "%", 'I', "II" }, [E_NEG] = { "-", 'I', "I" },
	[E_AND] = { "&", 'I', "II" }, [E_OR] = { "|", 'I', "II" }, [E_XOR] = { "^", 'I', "II" }, [E_INV] = { "~", 'I', "I" }, [E_SHL] = { "<<", 'I', "II" }, [E_SHR] = { ">>", 'I', "II" },
	[F_ABS] = { "abs", 'I', "I" }, [F_SIGN] = { "sign", 'I', "I" }, [F_SIGND] = { "sign", 'I', "D" }, [F_MOD] = { "mod", 'I', "II" }, [F_LENGTH] = { "length", 'I', "S" }, [F_SIZEJ] = { "size", 'I', "J" },
	[F_OCTET] = { "octet_length", 'I', "S" }, [F_STRPOS] = { "strpos", 'I', "SS" }, [F_ROUND] = { "round", 'I', "D" }, [F_INTS] = { "int", 'I', "S" }, [F_INTB] = { "int", 'I', "B" }, [F_INTD] = { "int", 'I', "D" },
	[F_GREATEST] = { "greatest", 'X', "XXX" }, [F_LEAST] = { "least", 'X', "XXX" },
	[F_LOWER] = { "lower", 'S', "S" }, [F_UPPER] = { "upper", 'S', "S" }, [F_SUBSTR2] = { "substr", 'S', "SI" }, [F_SUBSTR3] = { "substr", 'S', "SII" }, [F_REPLACE] = { "replace", 'S', "SSS" },
	[F_LTRIM] = { "ltrim", 'S', "S" }, [F_RTRIM] = { "rtrim", 'S', "S" }, [F_TRIM] = { "trim", 'S', "S" }, [F_LTRIM2] = { "ltrim", 'S', "SS" }, [F_RTRIM2] = { "rtrim", 'S', "SS" }, [F_TRIM2] = { "trim", 'S', "SS" },
	[F_CONCAT] = { "concat", 'S', "SSS" }, [E_CAT] = { "||", 'S', "SS" }, [F_STRI] = { "string", 'S', "I" }, [F_STRB] = { "string", 'S', "B" },
	[F_NULLIF] = { "nullif", 'X', "XX" }, [F_COALESCE] = { "coalesce", 'X', "XXX" }, [F_RSUBSTR] = { "regexp_substr", 'S', "SS" }, [F_RREPLACE] = { "regexp_replace", 'S', "SSS" },
	[F_B64] = { "encode", 'S', "S" }, [F_B64URL] = { "encode", 'S', "S" }, [F_UNB64] = { "decode", 'S', "S" }, [F_UNB64URL] = { "decode", 'S', "S" },
	[E_LIKE] = { "like", 'B', "SS" }, [F_RLIKE] = { "regexp_like", 'B', "SS" }, [F_HAS] = { "has", 'B', "JS" },
	[E_LT] = { "<", 'B', "XX" }, [E_LE] = { "<=", 'B', "XX" }, [E_EQ] = { "=", 'B', "XX" }, [E_NE] = { "<>", 'B', "XX" }, [E_GT] = { ">", 'B', "XX" }, [E_GE] = { ">=", 'B', "XX" },
	[F_FABS] = { "fabs", 'D', "D" }, [F_CEIL] = { "ceil", 'D', "D" }, [F_FLOOR] = { "floor", 'D', "D" }, [F_TRUNC] = { "trunc", 'D', "D" }, [F_DOUBLE] = { "double", 'D', "I" }, [E_DADD] = { "+", 'D', "DD" }, [E_DSUB] = { "-", 'D', "DD" },
	[F_FMOD] = { "fmod", 'D', "DD" }, [F_SQRT] = { "sqrt", 'D', "D" },
	[F_APPEND] = { "append", 'J', "JJ" }, [F_PUSH] = { "push", 'J', "JI" }, [F_POP] = { "pop", 'J', "J" }, [F_POPB] = { "pop_back", 'J', "J" }, [F_PUT] = { "put", 'J', "JIS" }, [F_REMOVE] = { "remove", 'J', "JI" },
	[F_SET] = { "set", 'J', "JSJ" }, [F_UNSET] = { "unset", 'J', "JS" }, [F_RMATCH] = { "regexp_match", 'J', "SS" }, [E_ARRAY] = { "[]", 'J', "SIJ" },
	[F_POW] = { "pow", 'I', "II" }, [F_LIBM] = { "libm", 'D', "D" }, [F_MD5] = { "md5", 'S', "S" }, [F_SHA1] = { "sha1", 'S', "S" }, [F_INTJ] = { "int", 'I', "J" },
	[E_IDXK] = { "[key]", 'J', "J" }, [E_IDXI] = { "[position]", 'J', "JI" }, [E_DOT] = { ".", 'J', "J" },
};
typedef struct Ex Ex;
static const struct { const char* name; double (*fn)(double); } Libm[] = {
	{ "sin", sin }, { "cos", cos }, { "tan", tan }, { "asin", asin }, { "acos", acos }, { "atan", atan }, { "sinh", sinh }, { "cosh", cosh }, { "tanh", tanh }, { "asinh", asinh },
	{ "acosh", acosh }, { "atanh", atanh }, { "exp", exp }, { "ln", log }, { "log", log10 }, { "log2", log2 } };
struct Ex { const char* path; int op, t, n, col; bool method; V v; Ex* a[3]; };

static int type_of_chr(char c, int x) { return c == 'I' ? I : c == 'S' ? S : c == 'B' ? B : c == 'D' ? D : c == 'J' ? J : x; }
#define COLS 8
static const int Col_t[COLS] = { I, I, S, S, S, B, D, J };
static const char* Col_n[COLS] = { "i1", "i2", "s1", "s2", "p", "b", "d", "j" };

static Ex* ex_const(V v) { Ex* e = mem(sizeof(Ex)); e->op = E_CONST; e->t = v.t; e->v = v; return e; }
static Ex* ex_col(int c) { Ex* e = mem(sizeof(Ex)); e->op = E_COL; e->t = Col_t[c]; e->col = c; return e; }
static Ex* gen_leaf(int t)
{
	if (PICK(3)) {
		int c[COLS], n = 0;
		for (int i = 0; i < COLS; i++) if (Col_t[i] == t) c[n++] = i;
		return ex_col(c[PICK(n)]);
	}
	return ex_const(gen_v(t));
}
static const char* gen_re(void)
{
	Tx t = { 0 };
	tx_add(&t, "", 0);
	if (PICK(6) == 0) tx_f(&t, "^");
	for (int i = 0, n = 1 + PICK(4); i < n; i++) {
		static const char* atom[] = { "a", "b", "c", ".", "[ab]", "[^a]", "x", "\xc3\xa9", "[\xc3\xa9\xe2\x82\xac]", "1" };
		tx_f(&t, "%s", atom[PICK(NELEM(atom))]);
		if (PICK(3) == 2) { static const char* q[] = { "*", "+", "?" }; tx_f(&t, "%s", q[PICK(3)]); }
	}
	if (PICK(6) == 5) tx_f(&t, "$");
	char* r = mem_str(t.p, t.n);
	tx_free(&t);
	return r;
}
static const char* gen_like(void)
{
	Tx t = { 0 };
	tx_add(&t, "", 0);
	for (int i = 0, n = PICK(6); i < n; i++) { int k = PICK(5); const char* c = k == 0 ? "%" : k == 1 ? "_" : gen_chr(); tx_f(&t, "%s", c); }
	char* r = mem_str(t.p, t.n);
	tx_free(&t);
	return r;
}
static const char* gen_path(void)
{
	Tx t = { 0 };
	int n = 1 + PICK(3);
	for (int i = 0; i < n; i++) tx_f(&t, "%s%s", i ? "." : "", gen_word());
	char* r = mem_str(t.p, t.n);
	tx_free(&t);
	return r;
}
static Ex* gen(int t, int depth)
{
	if (depth <= 0) return gen_leaf(t);
	int ops[N_OPS], n = 0;
	for (int i = E_ADD; i < N_OPS; i++) { int r = type_of_chr(Op[i].r, t); if (r == t && (Op[i].r != 'X' || t == I || t == S)) ops[n++] = i; }
	Ex* e = mem(sizeof(Ex));
	e->op = ops[PICK(n)];
	e->t = t;
	e->n = strlen(Op[e->op].a);
	int x = Op[e->op].r == 'X' ? t : PICK(2) ? I : S;
	e->method = PICK(3) == 0;
	for (int i = 0; i < e->n; i++) e->a[i] = gen(type_of_chr(Op[e->op].a[i], x), PICK(3) ? depth - 2 : depth - 1);
	switch (e->op) {
	// patterns
	case F_RSUBSTR: case F_RLIKE: case F_RMATCH: case F_RREPLACE:
		e->a[1] = PICK(2) ? ex_col(4) : ex_const(vs(gen_re()));
		if (e->op == F_RREPLACE) e->a[2] = ex_const(vs(PICK(2) ? gen_word() : PICK(2) ? "" : "a longer replacement"));
		break;
	case E_LIKE: if (PICK(3)) e->a[1] = ex_const(vs(gen_like())); break;
	case F_STRPOS: case F_REPLACE: if (PICK(2)) e->a[1] = ex_const(vs(gen_s(2))); break;
	case F_TRIM2: case F_LTRIM2: case F_RTRIM2: if (PICK(2)) e->a[1] = ex_const(vs(gen_s(3))); break;
	case F_SUBSTR2: case F_SUBSTR3:
		for (int i = 1; i < e->n; i++) if (PICK(4)) e->a[i] = ex_const(vi(PICK(2) ? 1 : (int)PICK(12) - 2));
		break;
	case F_SET: case F_UNSET: case F_HAS:
		e->a[0] = PICK(3) == 0 ? ex_col(7) : ex_const(vj(gen_js(3, 'o')));
		e->a[1] = ex_const(vs(gen_path()));
		break;
	case F_APPEND: case F_PUSH: case F_POP: case F_POPB: case F_PUT: case F_REMOVE:
		if (e->a[0]->op <= E_COL) e->a[0] = PICK(3) == 0 ? ex_col(7) : ex_const(vj(gen_js(2, 'a')));
		if ((e->op == F_PUT || e->op == F_REMOVE) && PICK(4)) e->a[1] = ex_const(vi((int)PICK(6) - 1));
		break;
	case F_INTS: if (PICK(4)) { char b[32]; sprintf(b, "%" PRIu64, (uint64_t)pbt_int64() >> (1 + PICK(62))); e->a[0] = ex_const(vs(mem_str(b, strlen(b)))); } break;
	case F_UNB64: case F_UNB64URL: { Ex* c = mem(sizeof(Ex)); c->op = e->op == F_UNB64 ? F_B64 : F_B64URL; c->t = S; c->n = 1; c->a[0] = e->a[0]; e->a[0] = c; break; }
	case E_SHL: case E_SHR: e->a[0] = ex_const(vi(PICK(1 << 20))); e->a[1] = ex_const(vi(PICK(31))); break;
	case F_SQRT: { int k = PICK(100); e->a[0] = ex_const(vd(k * k / 4.0)); break; }
	case F_POW: if (PICK(4)) { e->a[0] = ex_const(vi(PICK(3) ? (int)PICK(14) - 3 : PICK(1 << 20))); e->a[1] = ex_const(vi((int)PICK(PICK(3) ? 8 : 70) - 1)); } break;
	case F_ROUND: case F_INTD: if (PICK(6) == 5) { static const double x[] = { 9.3e18, -9.3e18, 1e19, -1e19, 1e30, -1e25 }; e->a[0] = ex_const(vd(x[PICK(NELEM(x))])); } break;
	case F_LIBM: e->col = PICK(NELEM(Libm)); e->a[0] = PICK(3) == 0 ? ex_col(6) : ex_const(vd(((int)PICK(80) - 20) / 4.0)); break;
	case F_INTJ: e->a[0] = mem(sizeof(Ex)); e->a[0]->op = PICK(2) ? E_IDXK : E_IDXI; e->a[0]->t = J; e->a[0]->n = e->a[0]->op == E_IDXK ? 1 : 2; e->a[0]->a[0] = ex_col(7); e->a[0]->a[1] = ex_const(vi(PICK(3))); e->a[0]->path = gen_word(); break;
	case E_IDXK: e->a[0] = ex_col(7); e->path = gen_word(); break;
	case E_IDXI: e->a[0] = ex_col(7); if (PICK(3)) e->a[1] = ex_const(vi((int)PICK(6) - 1)); break;
	case E_DOT: e->a[0] = ex_col(7); { Tx x = { 0 }; tx_add(&x, "", 0); for (int i = 0, n = 1 + PICK(3); i < n; i++) { static const char* w[] = { "a", "b", "c", "ab" }; tx_f(&x, "%s%s", i ? "." : "", w[PICK(4)]); } e->path = mem_str(x.p, x.n); tx_free(&x); } break;
	// a value within the precision of the output
	case F_DOUBLE: e->a[0] = ex_const(vi((int)PICK(20000) - 10000)); break;
	}
	return e;
}
static void ex_print(Tx* t, Ex* e)
{
	if (e->op == E_CONST) { v_sql(t, &e->v); return; }
	if (e->op == E_COL) { tx_f(t, "%s", Col_n[e->col]); return; }
	if (e->op == E_IDXK) { tx_f(t, "j['%s']", e->path); return; }
	if (e->op == E_IDXI) { tx_f(t, "j["); ex_print(t, e->a[1]); tx_f(t, "]"); return; }
	if (e->op == E_DOT) { tx_f(t, "j.%s", e->path); return; }
	const char* name = e->op == F_LIBM ? Libm[e->col].name : Op[e->op].name;
	bool word = name[0] >= 'a' && name[0] <= 'z' && e->op != E_LIKE;
	if (e->op == E_ARRAY) { tx_f(t, "["); for (int i = 0; i < e->n; i++) { if (i) tx_f(t, ", "); ex_print(t, e->a[i]); } tx_f(t, "]"); return; }
	if (! word) {
		tx_f(t, "(");
		if (e->n == 1) { tx_f(t, "%s ", name); ex_print(t, e->a[0]); }
		else { ex_print(t, e->a[0]); tx_f(t, " %s ", name); ex_print(t, e->a[1]); }
		tx_f(t, ")");
		return;
	}
	bool m = e->method && e->a[0]->op != E_CONST && (e->a[0]->op == E_COL || e->a[0]->op >= F_ABS) && Op[e->a[0]->op].a[0] != 'X' && e->op != F_ROUND;
	if (m && e->a[0]->op != E_COL) m = false;
	if (m) { ex_print(t, e->a[0]); tx_f(t, "::%s(", name); } else tx_f(t, "%s(", name);
	for (int i = m; i < e->n; i++) { if (i > m) tx_f(t, ", "); ex_print(t, e->a[i]); }
	if (e->op == F_B64 || e->op == F_UNB64) tx_f(t, "%s'base64'", e->n > m ? ", " : "");
	if (e->op == F_B64URL || e->op == F_UNB64URL) tx_f(t, "%s'base64url'", e->n > m ? ", " : "");
	tx_f(t, ")");
}

// evaluation -------------------------------------------------------------------------------------
static int v_cmp(const V* a, const V* b)
{
	if (a->t == S) { int c = strcmp(a->s, b->s); return (c > 0) - (c < 0); }
	return a->i < b->i ? -1 : a->i > b->i;
}
static Js* js_of(const V* v)
{
	if (v->null) return js('n');
	Js* j;
	switch (v->t) {
	case I: j = js('i'); j->i = v->i; return j;
	case S: j = js('s'); j->s = v->s; return j;
	case B: j = js('b'); j->i = v->i; return j;
	case J: return v->j;
	}
	pbt_fail("harness: json of a real");
	return NULL;
}
static Js* js_copy(Js* j) { Js* r = mem(sizeof(Js)); *r = *j; return r; }
static void js_push(Js* j, Js* v) { if (j->n == NELEM(j->item)) pbt_fail("harness: array is full"); j->item[j->n++] = v; }
// a new key was added, inside of another key; evaluate as the known finding does
static bool Added, Nested, Twice;
static Js* js_set(Js* j, const char* path, Js* v, bool unset)
{
	if (j->k != 'o') { Err = true; return j; }
	const char* dot = strchr(path, '.');
	int n = dot ? dot - path : (int)strlen(path);
	Js* r = js_copy(j);
	for (int i = 0; i < r->n; i++) {
		if ((int)strlen(r->key[i]) != n || strncmp(r->key[i], path, n)) continue;
		if (dot) {
			bool was = Added;
			Added = false;
			r->item[i] = js_set(r->item[i], dot + 1, v, unset);
			if (Added) {
				// known finding: the outer key is added once more
				Nested = true;
				if (Twice) { r->key[r->n] = mem_str(path, n); js_push(r, v); }
			} else Added = was;
		}
		else if (! unset) r->item[i] = v;
		else { for (int k = i; k + 1 < r->n; k++) { r->item[k] = r->item[k + 1]; r->key[k] = r->key[k + 1]; } r->n--; }
		return r;
	}
	if (unset) return r;
	if (dot) { Err = true; return r; }
	r->key[r->n] = mem_str(path, n);
	js_push(r, v);
	Added = true;
	return r;
}
static V str_int(const char* s)
{
	int64_t n = 0;
	// an empty string is 0, a sign is not accepted
	for (; *s; s++) if (*s < '0' || *s > '9' || __builtin_mul_overflow(n, 10, &n) || __builtin_add_overflow(n, *s - '0', &n)) return fail(I);
	return vi(n);
}
static V* Row;
static V eval(Ex* e)
{
	if (e->op == E_CONST) return e->v;
	if (e->op == E_COL) return Row[e->col];
	V a[3];
	for (int i = 0; i < e->n; i++) a[i] = eval(e->a[i]);
	if (Err) return nul(e->t);
	int t = e->t;
	Tx x = { 0 };
	int64_t r;
	switch (e->op) {
	case F_GREATEST: case F_LEAST: {
		V m = nul(t);
		for (int i = 0; i < e->n; i++) if (! a[i].null && (m.null || (e->op == F_GREATEST ? v_cmp(&a[i], &m) > 0 : v_cmp(&a[i], &m) < 0))) m = a[i];
		return m;
	}
	case F_COALESCE: for (int i = 0; i < e->n; i++) if (! a[i].null) return a[i]; return nul(t);
	case F_NULLIF: return a[0].null || (! a[1].null && ! v_cmp(&a[0], &a[1])) ? nul(t) : a[0];
	case F_CONCAT: {
		tx_add(&x, "", 0);
		for (int i = 0; i < e->n; i++) if (! a[i].null) tx_f(&x, "%s", a[i].s);
		V v = vs(mem_str(x.p, x.n)); tx_free(&x); return v;
	}
	case E_ARRAY: { Js* j = js('a'); for (int i = 0; i < e->n; i++) js_push(j, js_of(&a[i])); return vj(j); }
	// a null is not accepted
	case F_SIGN: case F_SIGND: case F_ROUND: case F_CEIL: case F_FLOOR: case F_TRUNC: case F_FMOD: case F_SQRT: case F_MOD:
	case F_B64: case F_B64URL: case F_UNB64: case F_UNB64URL: case F_POW: case F_LIBM: case F_MD5: case F_SHA1:
		for (int i = 0; i < e->n; i++) if (a[i].null) return fail(t);
		break;
	}
	// null for a null; the other arguments of a function have to have values
	bool op = (e->op < F_ABS) || e->op == E_CAT || e->op == E_LIKE || (e->op >= E_LT && e->op <= E_GE) || e->op == E_DADD || e->op == E_DSUB || e->op == E_IDXI;
	if (e->n && a[0].null) return nul(t);
	int last = e->n;
	if (e->op == F_SET || e->op == F_PUT) last = 2;
	if (e->op == F_APPEND || e->op == F_PUSH) last = 1;
	for (int i = 1; i < last; i++) if (a[i].null) return op ? nul(t) : fail(t);

	switch (e->op) {
	case E_ADD: return __builtin_add_overflow(a[0].i, a[1].i, &r) ? fail(t) : vi(r);
	case E_SUB: return __builtin_sub_overflow(a[0].i, a[1].i, &r) ? fail(t) : vi(r);
	case E_MUL: return __builtin_mul_overflow(a[0].i, a[1].i, &r) ? fail(t) : vi(r);
	case E_DIV: return a[1].i == 0 || (a[1].i == -1 && a[0].i == INT64_MIN) ? fail(t) : vi(a[0].i / a[1].i);
	case E_MOD: case F_MOD: return a[1].i == 0 ? fail(t) : vi(a[1].i == -1 ? 0 : a[0].i % a[1].i);
	case E_NEG: return a[0].i == INT64_MIN ? fail(t) : vi(-a[0].i);
	case E_AND: return vi(a[0].i & a[1].i);
	case E_OR: return vi(a[0].i | a[1].i);
	case E_XOR: return vi(a[0].i ^ a[1].i);
	case E_INV: return vi(~a[0].i);
	case E_SHL: return vi(a[0].i << a[1].i);
	case E_SHR: return vi(a[0].i >> a[1].i);
	case F_ABS: return a[0].i == INT64_MIN ? fail(t) : vi(a[0].i < 0 ? -a[0].i : a[0].i);
	case F_SIGN: return vi((a[0].i > 0) - (a[0].i < 0));
	case F_SIGND: return vi((a[0].d > 0) - (a[0].d < 0));
	case F_LENGTH: return vi(chr_count(a[0].s));
	case F_SIZEJ: return a[0].j->k == 'a' || a[0].j->k == 'o' ? vi(a[0].j->n) : a[0].j->k == 's' ? vi(chr_count(a[0].j->s)) : fail(t);
	case F_OCTET: return vi(strlen(a[0].s));
	case F_STRPOS: {
		if (! *a[1].s) return vi(0);
		const char* p = strstr(a[0].s, a[1].s);
		int n = 1;
		for (const char* s = a[0].s; p && s < p; s += chr_size(s)) n++;
		return vi(p ? n : 0);
	}
	case F_ROUND: if (! (a[0].d >= -0x1p63 && a[0].d < 0x1p63)) return fail(t); return vi(a[0].d < 0 ? -(int64_t)floor(-a[0].d + 0.5) : (int64_t)floor(a[0].d + 0.5));
	case F_INTS: return str_int(a[0].s);
	case F_INTB: return vi(a[0].i);
	case F_INTD: if (! (a[0].d >= -0x1p63 && a[0].d < 0x1p63)) return fail(t); return vi((int64_t)a[0].d);
	case F_LOWER: case F_UPPER: {
		char* s = mem_str(a[0].s, strlen(a[0].s));
		for (char* p = s; *p; p++) if (e->op == F_LOWER ? *p >= 'A' && *p <= 'Z' : *p >= 'a' && *p <= 'z') *p ^= 32;
		return vs(s);
	}
	case F_SUBSTR2: case F_SUBSTR3: {
		int n = chr_count(a[0].s);
		if (a[1].i < 1 || a[1].i > n) return fail(t);
		int64_t left = n - a[1].i + 1, count = e->op == F_SUBSTR3 ? a[2].i : left;
		if (count < 0 || count > left) return fail(t);
		const char* s = chr_at(a[0].s, a[1].i - 1);
		return vs(mem_str(s, chr_at(s, count) - s));
	}
	case F_REPLACE: {
		if (! *a[1].s) return fail(t);
		tx_add(&x, "", 0);
		for (const char* s = a[0].s; *s;) {
			if (! strncmp(s, a[1].s, strlen(a[1].s))) { tx_f(&x, "%s", a[2].s); s += strlen(a[1].s); }
			else { tx_add(&x, s, chr_size(s)); s += chr_size(s); }
		}
		V v = vs(mem_str(x.p, x.n)); tx_free(&x); return v;
	}
	case F_LTRIM: case F_RTRIM: case F_TRIM: case F_LTRIM2: case F_RTRIM2: case F_TRIM2: {
		const char* set = e->op >= F_LTRIM2 ? a[1].s : " \t\v\n\f";
		const char* s = a[0].s;
		bool left = e->op != F_RTRIM && e->op != F_RTRIM2, right = e->op != F_LTRIM && e->op != F_LTRIM2;
		if (left) while (*s && chr_in(s, set)) s += chr_size(s);
		int n = chr_count(s);
		if (right) while (n > 0 && chr_in(chr_at(s, n - 1), set)) n--;
		return vs(mem_str(s, chr_at(s, n) - s));
	}
	case E_CAT: { tx_f(&x, "%s%s", a[0].s, a[1].s); V v = vs(mem_str(x.p ? x.p : "", x.n)); tx_free(&x); return v; }
	case F_STRI: { char b[32]; sprintf(b, "%" PRIi64, a[0].i); return vs(mem_str(b, strlen(b))); }
	case F_STRB: return vs(a[0].i ? "true" : "false");
	case F_RSUBSTR: { const char* end; const char* at = re_find(a[1].s, a[0].s, a[0].s, &end); return at ? vs(mem_str(at, end - at)) : nul(t); }
	case F_RMATCH: {
		const char* end; const char* at = re_find(a[1].s, a[0].s, a[0].s, &end);
		if (! at) return nul(t);
		Js* j = js('a'); V m = vs(mem_str(at, end - at)); js_push(j, js_of(&m)); return vj(j);
	}
	case F_RREPLACE: {
		tx_add(&x, "", 0);
		const char* s = a[0].s; const char* from = s; const char* end;
		while (from) {
			const char* at;
			at = re_find(a[1].s, s, from, &end);
			if (! at) { tx_f(&x, "%s", from); break; }
			tx_add(&x, from, at - from);
			tx_f(&x, "%s", a[2].s);
			if (end == at) { Skip = true; tx_free(&x); return vs(""); }
			from = end;
		}
		V v = vs(mem_str(x.p, x.n)); tx_free(&x); return v;
	}
	case F_B64: return vs(base64(a[0].s, false));
	case F_B64URL: return vs(base64(a[0].s, true));
	case F_UNB64: case F_UNB64URL: return eval(e->a[0]->a[0]);
	case E_LIKE: return vb(like(a[0].s, a[1].s));
	case F_RLIKE: { const char* end; return vb(re_find(a[1].s, a[0].s, a[0].s, &end) != NULL); }
	case F_HAS: {
		Js* j = a[0].j;
		if (j->k != 'o') return fail(t);
		for (const char* p = a[1].s;;) {
			const char* dot = strchr(p, '.'); int n = dot ? dot - p : (int)strlen(p);
			if (j->k == 'n') return vb(false);
			if (j->k != 'o') return fail(t);
			int i = 0;
			while (i < j->n && ((int)strlen(j->key[i]) != n || strncmp(j->key[i], p, n))) i++;
			if (i == j->n) return vb(false);
			j = j->item[i];
			if (! dot) return vb(true);
			p = dot + 1;
		}
	}
	case E_LT: return vb(v_cmp(&a[0], &a[1]) < 0);
	case E_LE: return vb(v_cmp(&a[0], &a[1]) <= 0);
	case E_EQ: return vb(v_cmp(&a[0], &a[1]) == 0);
	case E_NE: return vb(v_cmp(&a[0], &a[1]) != 0);
	case E_GT: return vb(v_cmp(&a[0], &a[1]) > 0);
	case E_GE: return vb(v_cmp(&a[0], &a[1]) >= 0);
	case F_FABS: return vd(fabs(a[0].d));
	case F_CEIL: return vd(ceil(a[0].d));
	case F_FLOOR: return vd(floor(a[0].d));
	case F_TRUNC: return vd(trunc(a[0].d));
	case F_DOUBLE: return vd(a[0].i);
	case E_DADD: return vd(a[0].d + a[1].d);
	case E_DSUB: return vd(a[0].d - a[1].d);
	case F_FMOD: return a[1].d == 0 ? fail(t) : vd(fmod(a[0].d, a[1].d));
	case F_SQRT: return a[0].d < 0 ? fail(t) : vd(sqrt(a[0].d));
	case F_APPEND: case F_PUSH: {
		if (a[0].j->k != 'a') return fail(t);
		Js* j = js_copy(a[0].j);
		js_push(j, js_of(&a[1]));
		if (e->op == F_PUSH) { for (int i = j->n - 1; i > 0; i--) j->item[i] = j->item[i - 1]; j->item[0] = js_of(&a[1]); }
		return vj(j);
	}
	case F_POP: case F_POPB: {
		if (a[0].j->k != 'a') return fail(t);
		Js* j = js_copy(a[0].j);
		if (! j->n) return vj(j);
		j->n--;
		if (e->op == F_POP) for (int i = 0; i < j->n; i++) j->item[i] = j->item[i + 1];
		return vj(j);
	}
	case F_PUT: case F_REMOVE: {
		if (a[0].j->k != 'a' || a[1].i < 0 || a[1].i >= a[0].j->n) return fail(t);
		Js* j = js_copy(a[0].j);
		if (e->op == F_PUT) j->item[a[1].i] = js_of(&a[2]);
		else { j->n--; for (int i = a[1].i; i < j->n; i++) j->item[i] = j->item[i + 1]; }
		return vj(j);
	}
	case F_POW: {
		int64_t b = a[0].i, n = a[1].i;
		if (b == 0) return n < 0 ? fail(t) : vi(n == 0);
		if (b == 1 || b == -1) return vi(n % 2 ? b : 1);
		if (n < 0) return vi(0);
		r = 1;
		for (; n > 0; n--) if (__builtin_mul_overflow(r, b, &r)) return fail(t);
		return vi(r);
	}
	case F_LIBM: {
		errno = 0;
		double d = Libm[e->col].fn(a[0].d);
		return errno ? fail(t) : vd(d);
	}
	case F_MD5: case F_SHA1: {
		uint8_t d[EVP_MAX_MD_SIZE]; unsigned n = 0;
		EVP_Digest(a[0].s, strlen(a[0].s), d, &n, e->op == F_MD5 ? EVP_md5() : EVP_sha1(), NULL);
		for (unsigned i = 0; i < n; i++) tx_f(&x, "%02x", d[i]);
		V v = vs(mem_str(x.p, x.n)); tx_free(&x); return v;
	}
	case F_INTJ:
		switch (a[0].j->k) {
		case 'i': case 'b': return vi(a[0].j->i);
		case 'n': return nul(t);
		case 's': return str_int(a[0].j->s);
		}
		return fail(t);
	case E_IDXK: {
		if (a[0].j->k == 'n') return nul(t);
		if (a[0].j->k != 'o') return fail(t);
		for (int i = 0; i < a[0].j->n; i++) if (! strcmp(a[0].j->key[i], e->path)) return vj(a[0].j->item[i]);
		return nul(t);
	}
	case E_IDXI:
		if (a[0].j->k == 'n') return nul(t);
		if (a[0].j->k != 'a') return fail(t);
		return a[1].i >= 0 && a[1].i < a[0].j->n ? vj(a[0].j->item[a[1].i]) : nul(t);
	case E_DOT: {
		Js* j = a[0].j;
		for (const char* p = e->path; p; ) {
			const char* dot = strchr(p, '.');
			int n = dot ? dot - p : (int)strlen(p), i = 0;
			if (j->k == 'n') return nul(t);
			if (j->k != 'o') return fail(t);
			while (i < j->n && ((int)strlen(j->key[i]) != n || strncmp(j->key[i], p, n))) i++;
			if (i == j->n) return nul(t);
			j = j->item[i];
			p = dot ? dot + 1 : NULL;
		}
		return vj(j);
	}
	case F_SET: case F_UNSET: {
		if (a[0].j->k != 'o') return fail(t);
		Added = false;
		return vj(js_set(a[0].j, a[1].s, e->op == F_SET ? js_of(&a[2]) : NULL, e->op == F_UNSET));
	}
	}
	pbt_fail("harness: operation %d", e->op);
	return nul(t);
}

// cases ------------------------------------------------------------------------------------------
static bool Opened;
static char Dir[PATH_MAX];
static Tx Sql, Want;

static void squeeze(Tx* t)
{
	// spaces outside of strings
	int n = 0; bool in = false;
	for (int i = 0; i < t->n; i++) {
		char c = t->p[i];
		if (c == '"') in = ! in;
		if (! in && (c == ' ' || c == '\n' || c == '\t')) continue;
		t->p[n++] = c;
	}
	t->n = n;
	if (t->p) t->p[n] = 0;
}
#define ROWS 6
static void expect(Ex* e, V (*row)[COLS], int n, bool where, const V* key)
{
	tx_reset(&Want);
	Skip = Err = false;
	bool any = false;
	tx_f(&Want, "[");
	for (int i = 0; i < n && ! Err; i++) {
		Row = row[i];
		V v = eval(e);
		if (Err) break;
		if (where && (v.null || v_cmp(&v, key))) continue;
		if (any) tx_f(&Want, ",");
		any = true;
		tx_f(&Want, "[%d,", i);
		v_json(&Want, &v);
		tx_f(&Want, "]");
	}
	tx_f(&Want, "]");
}
static void case_run(void)
{
	mem_reset();
	if (! Opened) {
		snprintf(Dir, sizeof(Dir), "%s/db", pbt_dir());
		db_open(Dir, 3, 1);
		Opened = true;
		db_must("create table v (id int primary key, i1 bigint, i2 bigint, s1 text, s2 text, p text, b bool, d double, j json)");
		db_must("alter table v set unlogged");
	}
	int parts = 0;
	(void)parts;
	static V row[ROWS][COLS];
	db_must("delete from v");
	int n = 1 + PICK(ROWS);
	tx_reset(&Sql);
	tx_f(&Sql, "insert into v values ");
	for (int i = 0; i < n; i++) {
		tx_f(&Sql, "%s(%d", i ? ", " : "", i);
		for (int c = 0; c < COLS; c++) {
			row[i][c] = PICK(12) == 11 ? nul(Col_t[c]) : c == 4 ? vs(gen_re()) : gen_v(Col_t[c]);
			tx_f(&Sql, ", ");
			V* v = &row[i][c];
			if (v->t == I && v->i == INT64_MIN) v->i++;
			if (v->t == I && ! v->null) tx_f(&Sql, "%" PRIi64, v->i);
			else if (v->t == D && ! v->null) tx_f(&Sql, "%.2f", v->d);
			else v_sql(&Sql, v);
		}
		tx_f(&Sql, ")");
	}
	pbt_note("%s", Sql.p);
	db_exec(Sql.p);
	if (! db_ok()) pbt_fail("'%s' fails: %d %s", Sql.p, Db.code, Db.out.p);
	int good = 0;
	for (int q = 0; q < 40 && (q < 6 || pbt_more(8)); q++) {
		int t = PICK(TYPES);
		Ex* e = gen(t, 1 + PICK(3));
		bool where = PICK(4) == 3 && t != J && t != D;
		// expected
		V key = nul(t);
		Nested = Twice = false;
		Skip = Err = false;
		if (where) { Row = row[PICK(n)]; key = eval(e); where = ! Err && ! key.null && ! Skip; }
		expect(e, row, n, where, &key);
		// an empty match of regexp_replace is not modelled
		if (Skip) continue;
		bool err = Err;
		tx_reset(&Sql);
		tx_f(&Sql, "select id, ");
		ex_print(&Sql, e);
		tx_f(&Sql, " from v");
		if (where) { tx_f(&Sql, " where "); ex_print(&Sql, e); tx_f(&Sql, " = "); v_sql(&Sql, &key); }
		tx_f(&Sql, " order by id");
		pbt_note("%s%s", Sql.p, err ? "    (must fail)" : "");
		db_exec(Sql.p);
		if (err) {
			if (db_ok()) pbt_fail("'%s' does not fail: %s", Sql.p, Db.out.p);
			pbt_count("errors", 1);
			continue;
		}
		if (! db_ok()) pbt_fail("'%s' fails: %d %s", Sql.p, Db.code, Db.out.p);
		squeeze(&Db.out);
		squeeze(&Want);
		if (strcmp(Db.out.n ? Db.out.p : "[]", Want.p) && Nested) {
			Twice = true;
			expect(e, row, n, where, &key);
			squeeze(&Want);
			if (! strcmp(Db.out.p, Want.p)) {
				pbt_known("set-nested-key", "set() of a new key of an object inside of another adds the key of the outer object once more");
				continue;
			}
		}
		if (strcmp(Db.out.n ? Db.out.p : "[]", Want.p)) pbt_fail("'%s' returns %s, expected %s", Sql.p, Db.out.p, Want.p);
		pbt_class(where ? "condition" : Op[e->op].name ? Op[e->op].name : "leaf");
		good++;
	}
	if (good > 3) pbt_nontrivial();
}
PbtHarness pbt_harness = { .name = "func", .run = case_run, .no_runtime = true };
