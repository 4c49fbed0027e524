// a reference evaluator of the SQL the harnesses generate
#pragma once
#include "db.h"

enum { INT, STR, BOOL };
typedef struct { uint8_t t; bool null; int64_t i; const char* s; } V;

#define MAXC 8
typedef struct { char name[12]; int type; bool wide, notnull, def, key, indexed; V defv; } Col;
typedef struct { char name[12]; int n, c[3]; bool hash, uniq; } Idx;
typedef struct {
	char name[12];
	int  nc; Col c[MAXC];
	int  nk, k[3];
	bool hash, used;
	int  nidx; Idx idx[3];
	int  parts;
	int  n, cap; V** r;
} Tab;

// memory of one case ----------------------------------------------------------------------------
static struct { char* p; int n, cap; char* old[64]; int nold; } Mem;
static void* mem(int n)
{
	n = (n + 15) & ~15;
	if (Mem.n + n > Mem.cap) {
		if (Mem.nold == 64) pbt_fail("harness: out of case memory");
		if (Mem.p) Mem.old[Mem.nold++] = Mem.p;
		Mem.cap = Mem.cap ? Mem.cap * 2 : 1 << 20;
		if (n > Mem.cap) Mem.cap = n;
		Mem.p = malloc(Mem.cap);
		Mem.n = 0;
	}
	void* r = Mem.p + Mem.n;
	Mem.n += n;
	memset(r, 0, n);
	return r;
}
static void mem_reset(void)
{
	while (Mem.nold) free(Mem.old[--Mem.nold]);
	Mem.n = 0;
}
static const char* mem_str(const char* s, int n) { char* p = mem(n + 1); memcpy(p, s, n); p[n] = 0; return p; }

// values ----------------------------------------------------------------------------------------
static V v_null(int t) { return (V){ t, true, 0, "" }; }
static V v_int(int64_t i) { return (V){ INT, false, i, "" }; }
static V v_bool(bool b) { return (V){ BOOL, false, b, "" }; }
static V v_str(const char* s) { return (V){ STR, false, 0, s }; }
static int v_cmp(const V* a, const V* b)
{
	// nulls are first
	if (a->null || b->null) return b->null - a->null;
	if (a->t == STR) {
		size_t la = strlen(a->s), lb = strlen(b->s);
		int c = memcmp(a->s, b->s, la < lb ? la : lb);
		return c ? (c < 0 ? -1 : 1) : la < lb ? -1 : la > lb;
	}
	return a->i < b->i ? -1 : a->i > b->i;
}
static bool v_same(const V* a, const V* b) { return a->null == b->null && (a->null || v_cmp(a, b) == 0); }
static void v_print(Tx* t, const V* v)
{
	if (v->null) tx_f(t, "null");
	else if (v->t == INT) tx_f(t, "%" PRIi64, v->i);
	else if (v->t == BOOL) tx_f(t, v->i ? "true" : "false");
	else {
		const char* q = strchr(v->s, '"') ? "'" : "\"";
		tx_f(t, "%s%s%s", q, v->s, q);
	}
}

// result sets -----------------------------------------------------------------------------------
typedef struct { V* v; int n; V* key; } Row;
typedef struct { Row* r; int n, cap; } Rows;
static Row* rows_add(Rows* s, int n)
{
	if (s->n == s->cap) {
		Row* p = mem(sizeof(Row) * (s->cap ? s->cap * 2 : 16));
		if (s->n) memcpy(p, s->r, sizeof(Row) * s->n);
		s->r = p;
		s->cap = s->cap ? s->cap * 2 : 16;
	}
	Row* r = &s->r[s->n++];
	r->v = mem(sizeof(V) * (n ? n : 1));
	r->n = n;
	r->key = NULL;
	return r;
}
static void row_print(Tx* t, const Row* r)
{
	tx_f(t, "[");
	for (int i = 0; i < r->n; i++) { if (i) tx_f(t, ", "); v_print(t, &r->v[i]); }
	tx_f(t, "]");
}

// results as json: [v, v] or [[v, v], [v, v]]
static const char* Jp; static bool Jbad;
static void j_ws(void) { while (*Jp == ' ' || *Jp == '\n' || *Jp == '\t') Jp++; }
static V j_val(void)
{
	V v = { 0, false, 0, "" };
	j_ws();
	if (! strncmp(Jp, "null", 4)) { Jp += 4; v.null = true; }
	else if (! strncmp(Jp, "true", 4)) { Jp += 4; v.t = BOOL; v.i = 1; }
	else if (! strncmp(Jp, "false", 5)) { Jp += 5; v.t = BOOL; }
	else if (*Jp == '"') {
		Tx t = { 0 };
		tx_f(&t, "%s", "");
		for (Jp++; *Jp && *Jp != '"'; Jp++) {
			if (*Jp != '\\') { tx_add(&t, Jp, 1); continue; }
			Jp++;
			char c = *Jp == 'n' ? '\n' : *Jp == 't' ? '\t' : *Jp == 'r' ? '\r' : *Jp == 'b' ? '\b' : *Jp == 'f' ? '\f' : *Jp;
			if (*Jp == 'u') { unsigned x = 0; if (sscanf(Jp + 1, "%4x", &x) != 1 || x > 127) Jbad = true; else { c = x; Jp += 4; } }
			tx_add(&t, &c, 1);
		}
		if (*Jp != '"') Jbad = true; else Jp++;
		v.t = STR;
		v.s = mem_str(t.p ? t.p : "", t.n);
		tx_free(&t);
	} else {
		char* e;
		v.t = INT;
		v.i = strtoll(Jp, &e, 10);
		if (e == Jp || *e == '.' || *e == 'e') Jbad = true;
		Jp = e;
	}
	return v;
}
static bool rows_parse(const char* text, Rows* out)
{
	Jp = text; Jbad = false;
	j_ws();
	if (*Jp++ != '[') return false;
	j_ws();
	if (*Jp == ']') { Jp++; j_ws(); return *Jp == 0; }
	for (;;) {
		V tmp[64]; int n = 0;
		j_ws();
		if (*Jp == '[') {
			Jp++;
			for (;;) {
				if (n < 64) tmp[n++] = j_val();
				j_ws();
				if (*Jp == ',') { Jp++; continue; }
				if (*Jp++ != ']') return false;
				break;
			}
		} else
			tmp[n++] = j_val();
		Row* r = rows_add(out, n);
		memcpy(r->v, tmp, sizeof(V) * n);
		if (Jbad) return false;
		j_ws();
		if (*Jp == ',') { Jp++; continue; }
		if (*Jp++ != ']') return false;
		break;
	}
	j_ws();
	return *Jp == 0 && ! Jbad;
}

// expressions -----------------------------------------------------------------------------------
enum { E_CONST, E_COL, E_NEG, E_ADD, E_SUB, E_MUL, E_DIV, E_MOD, E_CASE, E_COALESCE, E_CAT, E_LEN,
       E_EQ, E_NE, E_LT, E_LE, E_GT, E_GE, E_AND, E_OR, E_NOT, E_ISNULL, E_NOTNULL, E_BETWEEN, E_NBETWEEN, E_IN, E_NIN, E_LIKE,
       E_SUB1, E_INQ, E_EXISTS, E_AGG };
typedef struct Expr Expr;
struct Expr { int op, t; Expr *a, *b, *c, *d; V v; int src, col; int n; Expr* l[6]; struct Query* q; int agg; };

// what a name refers to
typedef struct { const char* alias; Tab* t; } Src;
typedef struct Scope Scope;
struct Scope { int n; Src s[3]; V* row[3]; Scope* up; bool qualify; };

static bool Bad;      // the value is not defined (overflow, zero division)
static V expr_eval(Expr* e, Scope* sc);
typedef struct Query Query;
static Rows* query_eval(Query*, Scope*);

static bool like_match(const char* s, const char* p)
{
	// % and the %, _ next to it are together one %; characters are UTF-8
	if (! *p) return ! *s;
	#define next(s) do { s++; } while ((*s & 0xC0) == 0x80)
	if (*p == '%')
	{
		while (*p == '%' || *p == '_') p++;
		for (;;) { if (like_match(s, p)) return true; if (! *s) return false; next(s); }
	}
	if (! *s) return false;
	if (*p == '_') { next(s); return like_match(s, p + 1); }
	return *p == *s && like_match(s + 1, p + 1);
	#undef next
}
// 1 true, 0 false, -1 null
static int v_is(const V* v) { return v->null ? -1 : v->i != 0; }
static V v_tri(int x) { return x == -1 ? v_null(BOOL) : v_bool(x); }

static V expr_eval(Expr* e, Scope* sc)
{
	V a = { 0 }, b = { 0 }, c = { 0 };
	switch (e->op) {
	case E_CONST: return e->v;
	case E_COL: { Scope* s = sc; int k = e->src; while (k >= 10) { s = s->up; k -= 10; } return s->row[k][e->col]; }
	case E_CASE:
		a = expr_eval(e->a, sc); b = expr_eval(e->b, sc); c = expr_eval(e->c, sc);
		return v_is(&a) == 1 ? b : c;
	case E_SUB1: case E_INQ: case E_EXISTS: {
		Rows* r = query_eval(e->q, sc);
		if (e->op == E_EXISTS) return v_bool(r->n > 0);
		if (e->op == E_SUB1) return r->n ? r->r[0].v[0] : v_null(e->t);
		a = expr_eval(e->a, sc);
		if (a.null) { return v_null(BOOL); }
		bool nul = false;
		for (int i = 0; i < r->n; i++) { if (r->r[i].v[0].null) nul = true; else if (v_same(&a, &r->r[i].v[0])) return v_bool(true); }
		return nul ? v_null(BOOL) : v_bool(false);
	}
	case E_AGG: return sc->row[2][e->col];
	}
	if (e->a) a = expr_eval(e->a, sc);
	if (e->b) b = expr_eval(e->b, sc);
	if (e->c) c = expr_eval(e->c, sc);
	switch (e->op) {
	case E_NEG: return a.null ? a : v_int(-a.i);
	case E_ADD: case E_SUB: case E_MUL: {
		if (a.null || b.null) return v_null(INT);
		int64_t r;
		bool o = e->op == E_ADD ? __builtin_add_overflow(a.i, b.i, &r) : e->op == E_SUB ? __builtin_sub_overflow(a.i, b.i, &r) : __builtin_mul_overflow(a.i, b.i, &r);
		if (o || r > INT64_MAX / 4 || r < INT64_MIN / 4) { Bad = true; return v_int(0); }
		return v_int(r);
	}
	case E_DIV: case E_MOD:
		if (a.null || b.null) return v_null(INT);
		if (b.i == 0) { Bad = true; return v_int(0); }
		return v_int(e->op == E_DIV ? a.i / b.i : a.i % b.i);
	case E_COALESCE: return a.null ? b : a;
	case E_CAT: {
		if (a.null || b.null) return v_null(STR);
		Tx t = { 0 };
		tx_f(&t, "%s%s", a.s, b.s);
		V v = v_str(mem_str(t.p, t.n));
		tx_free(&t);
		return v;
	}
	case E_LEN: {
		if (a.null) return v_null(INT);
		int n = 0;
		for (const char* s = a.s; *s; s++) n += (*s & 0xc0) != 0x80;
		return v_int(n);
	}
	case E_EQ: case E_NE: case E_LT: case E_LE: case E_GT: case E_GE: {
		if (a.null || b.null) return v_null(BOOL);
		int x = v_cmp(&a, &b);
		return v_bool(e->op == E_EQ ? x == 0 : e->op == E_NE ? x != 0 : e->op == E_LT ? x < 0 : e->op == E_LE ? x <= 0 : e->op == E_GT ? x > 0 : x >= 0);
	}
	// as the dialect defines it: null AND any is null, null OR null is null
	case E_AND: { int x = v_is(&a), y = v_is(&b); return v_tri(x == -1 || y == -1 ? -1 : x && y); }
	case E_OR: { int x = v_is(&a), y = v_is(&b); return v_tri(x == -1 && y == -1 ? -1 : x == 1 || y == 1); }
	case E_NOT: return a.null ? v_null(BOOL) : v_bool(! a.i);
	case E_ISNULL: return v_bool(a.null);
	case E_NOTNULL: return v_bool(! a.null);
	case E_BETWEEN: case E_NBETWEEN: {
		int lo = a.null || b.null ? -1 : v_cmp(&a, &b) >= 0;
		int hi = a.null || c.null ? -1 : v_cmp(&a, &c) <= 0;
		int x = lo == -1 || hi == -1 ? -1 : lo && hi;
		return v_tri(e->op == E_BETWEEN || x == -1 ? x : ! x);
	}
	case E_IN: case E_NIN: {
		if (a.null) return v_null(BOOL);
		bool nul = false, hit = false;
		for (int i = 0; i < e->n; i++) {
			V v = expr_eval(e->l[i], sc);
			if (v.null) nul = true;
			else if (v_same(&a, &v)) hit = true;
		}
		int x = hit ? 1 : nul ? -1 : 0;
		return v_tri(e->op == E_IN || x == -1 ? x : ! x);
	}
	case E_LIKE: return a.null || b.null ? v_null(BOOL) : v_bool(like_match(a.s, b.s));
	}
	abort();
}

static void query_print(Tx* t, Query* q);
static void expr_print(Tx* t, Expr* e, Scope* sc)
{
	static const char* bin[] = { [E_ADD] = "+", [E_SUB] = "-", [E_MUL] = "*", [E_DIV] = "/", [E_MOD] = "%", [E_CAT] = "||", [E_EQ] = "=", [E_NE] = "<>",
		[E_LT] = "<", [E_LE] = "<=", [E_GT] = ">", [E_GE] = ">=", [E_AND] = "and", [E_OR] = "or", [E_LIKE] = "like" };
	#define P(x) expr_print(t, x, sc)
	switch (e->op) {
	case E_CONST: if (e->v.t == INT && ! e->v.null && e->v.i < 0) { tx_f(t, "(%" PRIi64 ")", e->v.i); return; } v_print(t, &e->v); return;
	case E_COL: {
		Scope* s = sc; int k = e->src; while (k >= 10) { s = s->up; k -= 10; }
		if (s->qualify) tx_f(t, "%s.", s->s[k].alias);
		tx_f(t, "%s", s->s[k].t->c[e->col].name);
		return;
	}
	case E_AGG: {
		static const char* f[] = { "count(*)", "count", "sum", "min", "max", "avg" };
		if (! e->agg) { tx_f(t, "count(*)"); return; }
		tx_f(t, "%s(", f[e->agg]); P(e->a); tx_f(t, ")");
		return;
	}
	case E_NEG: tx_f(t, "(- "); P(e->a); tx_f(t, ")"); return;
	case E_CASE: tx_f(t, "(case when "); P(e->a); tx_f(t, " then "); P(e->b); tx_f(t, " else "); P(e->c); tx_f(t, " end)"); return;
	case E_COALESCE: tx_f(t, "coalesce("); P(e->a); tx_f(t, ", "); P(e->b); tx_f(t, ")"); return;
	case E_LEN: tx_f(t, "length("); P(e->a); tx_f(t, ")"); return;
	case E_NOT: tx_f(t, "(not "); P(e->a); tx_f(t, ")"); return;
	case E_ISNULL: tx_f(t, "("); P(e->a); tx_f(t, " is null)"); return;
	case E_NOTNULL: tx_f(t, "("); P(e->a); tx_f(t, " is not null)"); return;
	case E_BETWEEN: case E_NBETWEEN:
		tx_f(t, "("); P(e->a); tx_f(t, e->op == E_BETWEEN ? " between " : " not between "); P(e->b); tx_f(t, " and "); P(e->c); tx_f(t, ")");
		return;
	case E_IN: case E_NIN:
		tx_f(t, "("); P(e->a); tx_f(t, e->op == E_IN ? " in (" : " not in (");
		for (int i = 0; i < e->n; i++) { if (i) tx_f(t, ", "); P(e->l[i]); }
		tx_f(t, "))");
		return;
	case E_SUB1: tx_f(t, "("); query_print(t, e->q); tx_f(t, ")"); return;
	case E_INQ: tx_f(t, "("); P(e->a); tx_f(t, " in ("); query_print(t, e->q); tx_f(t, "))"); return;
	case E_EXISTS: tx_f(t, "exists ("); query_print(t, e->q); tx_f(t, ")"); return;
	}
	tx_f(t, "("); P(e->a); tx_f(t, " %s ", bin[e->op]); P(e->b); tx_f(t, ")");
}

// generation --------------------------------------------------------------------------------------
static Expr* ex(int op, int t) { Expr* e = mem(sizeof(*e)); e->op = op; e->t = t; return e; }
static Expr* ex_const(V v) { Expr* e = ex(E_CONST, v.t); e->v = v; return e; }
static const char* Strs[] = { "", "a", "b", "ab", "aa", "c", "abc", "B", "x\"y", "x'", "\xc3\xa9", "a b", "0", "n\nl", "abcdefghijklmnop" };
static V gen_v(int t)
{
	if (t == STR) return v_str(Strs[PICK(NELEM(Strs))]);
	if (t == BOOL) return v_bool(PICK(2));
	switch (PICK(8)) {
	case 0: return v_int(-PICK(12));
	case 1: return v_int(pbt_range(-1000, 1000));
	default: return v_int(PICK(12));
	}
}
static V gen_vn(int t, int den) { return PICK(den) == den - 1 ? v_null(t) : gen_v(t); }
static Expr* gen_col(Scope* sc, int t)
{
	int cs[40][2], n = 0;
	int lev = 0;
	for (Scope* s = sc; s; s = s->up, lev += 10)
		for (int i = 0; i < s->n; i++)
			for (int k = 0; k < s->s[i].t->nc; k++)
				if (s->s[i].t->c[k].type == t && n < 40) { cs[n][0] = lev + i; cs[n][1] = k; n++; }
	if (! n) return ex_const(gen_v(t));
	int p = PICK(n);
	Expr* e = ex(E_COL, t);
	e->src = cs[p][0];
	e->col = cs[p][1];
	return e;
}
static bool Gen_null = true;
static Expr* ex2(int op, int t, Expr* a, Expr* b);
static Query* gen_query1(Scope* sc, int kind, int t);
static Expr* gen_expr(Scope* sc, int t, int depth)
{
	if (depth <= 0 || PICK(4) == 0) {
		if (PICK(3) == 0) return ex_const(Gen_null ? gen_vn(t, 12) : gen_v(t));
		return gen_col(sc, t);
	}
	Expr* e;
	if (PICK(12) == 11) {
		e = ex(E_CASE, t);
		e->a = gen_expr(sc, BOOL, depth - 1); e->b = gen_expr(sc, t, depth - 1); e->c = gen_expr(sc, t, depth - 1);
		return e;
	}
	if (PICK(14) == 13 && t != BOOL) {
		e = ex(E_COALESCE, t);
		e->a = gen_col(sc, t); e->b = gen_expr(sc, t, depth - 1);
		return e;
	}
	if (t == INT) {
		static const int ops[] = { E_ADD, E_SUB, E_MUL, E_DIV, E_MOD, E_NEG, E_LEN };
		e = ex(ops[PICK(7)], INT);
		if (e->op == E_LEN) { e->a = gen_expr(sc, STR, depth - 1); return e; }
		e->a = gen_expr(sc, INT, depth - 1);
		// the minus of a null without a type is not supported (a column of a derived table can be one)
		if (e->op == E_NEG) for (Scope* u = sc; u; u = u->up) for (int i = 0; i < u->n; i++) if (! u->s[i].t->parts) e->op = E_SUB;
		if (e->op == E_NEG) { e->a = PICK(4) ? gen_col(sc, INT) : ex2(E_ADD, INT, gen_col(sc, INT), ex_const(gen_v(INT))); if (e->a->op != E_COL && e->a->a && e->a->a->op == E_CONST && e->a->a->v.null) e->a = ex_const(v_int(PICK(9))); return e; }
		if (e->op == E_DIV || e->op == E_MOD) e->b = ex_const(v_int(1 + PICK(9)));
		else e->b = gen_expr(sc, INT, depth - 1);
		return e;
	}
	if (t == STR) {
		e = ex(E_CAT, STR);
		e->a = gen_expr(sc, STR, depth - 1); e->b = gen_expr(sc, STR, depth - 2);
		return e;
	}
	switch (PICK(10)) {
	case 0: e = ex(E_AND, BOOL); e->a = gen_expr(sc, BOOL, depth - 1); e->b = gen_expr(sc, BOOL, depth - 1); return e;
	case 1: e = ex(E_OR, BOOL); e->a = gen_expr(sc, BOOL, depth - 1); e->b = gen_expr(sc, BOOL, depth - 1); return e;
	case 2: e = ex(E_NOT, BOOL); e->a = gen_expr(sc, BOOL, depth - 1); return e;
	case 3: e = ex(PICK(2) ? E_ISNULL : E_NOTNULL, BOOL); e->a = gen_expr(sc, PICK(2), depth - 1); return e;
	case 4: { int at = PICK(2); e = ex(PICK(2) ? E_BETWEEN : E_NBETWEEN, BOOL); e->a = gen_expr(sc, at, depth - 1); e->b = ex_const(gen_v(at)); e->c = ex_const(gen_v(at)); return e; }
	case 5: {
		int at = PICK(2);
		e = ex(PICK(3) ? E_IN : E_NIN, BOOL);
		e->a = gen_expr(sc, at, depth - 1);
		e->n = 1 + PICK(4);
		for (int i = 0; i < e->n; i++) e->l[i] = ex_const(Gen_null ? gen_vn(at, 9) : gen_v(at));
		return e;
	}
	case 6: if (PICK(2)) {
		static const char* ps[] = { "%", "a%", "%b", "%a%", "_", "a_", "", "%\xc3\xa9%", "abc" };
		e = ex(E_LIKE, BOOL);
		e->a = gen_expr(sc, STR, depth - 1); e->b = ex_const(v_str(ps[PICK(NELEM(ps))]));
		return e;
	} // fallthrough
	default: {
		int at = PICK(3) == 2 ? STR : INT;
		e = ex(E_EQ + PICK(6), BOOL);
		e->a = gen_expr(sc, at, depth - 1); e->b = gen_expr(sc, at, depth - 1);
		return e;
	}
	}
}
static Expr* ex2(int op, int t, Expr* a, Expr* b) { Expr* e = ex(op, t); e->a = a; e->b = b; return e; }
// conditions the planner can use: comparisons of the leading columns of a key
static Expr* gen_key_cond(Scope* sc)
{
	int si = PICK(sc->n);
	Tab* t = sc->s[si].t;
	int cols[3], n = 0;
	if (t->nidx && PICK(2)) { Idx* x = &t->idx[PICK(t->nidx)]; for (n = 0; n < x->n; n++) cols[n] = x->c[n]; }
	else for (n = 0; n < t->nk; n++) cols[n] = t->k[n];
	if (! n) return gen_expr(sc, BOOL, 2);
	int use = 1 + PICK(n);
	Expr* all = NULL;
	for (int i = 0; i < use; i++) {
		Expr* c = ex(E_COL, t->c[cols[i]].type);
		c->src = si; c->col = cols[i];
		Expr* v = ex_const(Gen_null ? gen_vn(c->t, 30) : gen_v(c->t));
		if (sc->n == 2 && PICK(3) == 0) {
			// a column of the other table
			Scope o = { 1, { sc->s[1 - si] } };
			v = gen_col(&o, c->t);
			if (v->op == E_COL) v->src = 1 - si;
		}
		Expr* e = PICK(3) == 0 && c->t != BOOL ? ex2(E_LT + PICK(4), BOOL, c, v) : ex2(E_EQ, BOOL, c, v);
		if (PICK(6) == 0 && c->t != BOOL) e = ex2(E_AND, BOOL, e, ex2(E_LT + PICK(4), BOOL, c, ex_const(gen_v(c->t))));
		if (PICK(5) == 0) { Expr* x = e->a; e->a = e->b; e->b = x; if (e->op >= E_LT && e->op <= E_GE) { static const int f[] = { E_GT, E_GE, E_LT, E_LE }; e->op = f[e->op - E_LT]; } }
		all = ! all ? e : PICK(8) ? ex2(E_AND, BOOL, all, e) : ex2(E_OR, BOOL, all, e);
	}
	return all;
}
static Expr* gen_where(Scope* sc, int depth)
{
	Expr* e = PICK(3) ? gen_key_cond(sc) : gen_expr(sc, BOOL, depth);
	if (PICK(4) == 0) e = ex2(PICK(4) ? E_AND : E_OR, BOOL, e, gen_expr(sc, BOOL, depth - 1));
	return e;
}

// tables --------------------------------------------------------------------------------------------
static void tab_add(Tab* t, V* row)
{
	if (t->n == t->cap) {
		t->cap = t->cap ? t->cap * 2 : 64;
		V** p = mem(sizeof(V*) * t->cap);
		if (t->n) memcpy(p, t->r, sizeof(V*) * t->n);
		t->r = p;
	}
	t->r[t->n++] = row;
}
static V* row_dup(Tab* t, V* r) { V* p = mem(sizeof(V) * MAXC); memcpy(p, r, sizeof(V) * t->nc); return p; }
static int tab_find(Tab* t, V* row)
{
	for (int i = 0; i < t->n; i++) {
		bool same = true;
		for (int k = 0; k < t->nk; k++) if (! v_same(&t->r[i][t->k[k]], &row[t->k[k]])) same = false;
		if (same) return i;
	}
	return -1;
}
static bool tab_unique(Tab* t, V* row)
{
	for (int x = 0; x < t->nidx; x++) {
		if (! t->idx[x].uniq) continue;
		for (int i = 0; i < t->n; i++) {
			bool same = true;
			for (int k = 0; k < t->idx[x].n; k++) if (! v_same(&t->r[i][t->idx[x].c[k]], &row[t->idx[x].c[k]])) same = false;
			if (same) return false;
		}
	}
	return true;
}
static void tab_copy(Tab* to, Tab* from)
{
	*to = *from;
	to->r = mem(sizeof(V*) * (from->cap ? from->cap : 1));
	for (int i = 0; i < from->n; i++) to->r[i] = row_dup(from, from->r[i]);
}

// queries --------------------------------------------------------------------------------------------
enum { A_COUNTALL, A_COUNT, A_SUM, A_MIN, A_MAX, A_AVG };
struct Query {
	Scope  sc;
	int    nsrc;
	bool   comma;          // join by comma instead of JOIN ON
	Query* derived[2];     // (select ..) alias
	bool   cte[2];
	const char* use[2];    // use index
	Expr*  where;
	int    nsel; Expr* sel[10];
	bool   star, distinct;
	bool   agg;            // aggregate without or with a group
	int    ngroup, group[3];
	int    nagg; Expr* aggs[6];
	Expr*  having;
	int    norder; Expr* order[3]; bool desc[3];
	int    limit, offset;  // -1: none
};
static bool Sum_none;       // the result of SUM of no rows was met (0 or null)

static void query_print(Tx* t, Query* q)
{
	int ctes = 0;
	for (int i = 0; i < q->nsrc; i++)
		if (q->cte[i]) { tx_f(t, ctes++ ? ", %s as (" : "with %s as (", q->sc.s[i].alias); query_print(t, q->derived[i]); tx_f(t, ")"); }
	tx_f(t, ctes ? " select " : "select ");
	if (q->distinct) tx_f(t, "distinct ");
	if (q->star) tx_f(t, "*");
	else for (int i = 0; i < q->nsel; i++) {
		if (i) tx_f(t, ", ");
		expr_print(t, q->sel[i], &q->sc);
		tx_f(t, " as c%d", i);
	}
	for (int i = 0; i < q->nsrc; i++) {
		tx_f(t, i == 0 ? " from " : q->comma ? ", " : " join ");
		if (q->cte[i]) tx_f(t, "%s", q->sc.s[i].alias);
		else if (q->derived[i]) { tx_f(t, "("); query_print(t, q->derived[i]); tx_f(t, ") %s", q->sc.s[i].alias); }
		else {
			tx_f(t, "%s", q->sc.s[i].t->name);
			if (q->use[i]) tx_f(t, " use index (%s)", q->use[i]);
			if (strcmp(q->sc.s[i].alias, q->sc.s[i].t->name)) tx_f(t, " %s", q->sc.s[i].alias);
		}
		if (i == 1 && ! q->comma) { tx_f(t, " on "); expr_print(t, q->where, &q->sc); }
	}
	if (q->where && ! (q->nsrc == 2 && ! q->comma)) { tx_f(t, " where "); expr_print(t, q->where, &q->sc); }
	if (q->ngroup) {
		tx_f(t, " group by ");
		for (int i = 0; i < q->ngroup; i++) { if (i) tx_f(t, ", "); if (q->sc.qualify) tx_f(t, "%s.", q->sc.s[0].alias); tx_f(t, "%s", q->sc.s[0].t->c[q->group[i]].name); }
		if (q->having) { tx_f(t, " having "); expr_print(t, q->having, &q->sc); }
	}
	for (int i = 0; i < q->norder; i++) { tx_f(t, i ? ", " : " order by "); expr_print(t, q->order[i], &q->sc); if (q->desc[i]) tx_f(t, " desc"); else if (i & 1) tx_f(t, " asc"); }
	if (q->limit >= 0) tx_f(t, " limit %d", q->limit);
	if (q->offset >= 0) tx_f(t, " offset %d", q->offset);
}

static Query* Sort_q;
static int row_order(const void* x, const void* y)
{
	const Row* a = x; const Row* b = y;
	for (int i = 0; i < Sort_q->norder; i++) {
		int c = v_cmp(&a->key[i], &b->key[i]);
		if (c) return Sort_q->desc[i] ? -c : c;
	}
	return 0;
}
static bool row_same(const Row* a, const Row* b)
{
	if (a->n != b->n) return false;
	for (int i = 0; i < a->n; i++) if (! v_same(&a->v[i], &b->v[i]) || (! a->v[i].null && a->v[i].t != b->v[i].t)) return false;
	return true;
}
static void query_sources(Query* q, Scope* up)
{
	for (int i = 0; i < q->nsrc; i++)
		if (q->derived[i]) {
			// evaluate into the table of the source
			Rows* r = query_eval(q->derived[i], up);
			Tab* t = q->sc.s[i].t;
			t->n = 0;
			for (int k = 0; k < r->n; k++) { V* row = mem(sizeof(V) * MAXC); memcpy(row, r->r[k].v, sizeof(V) * r->r[k].n); tab_add(t, row); }
		}
}
static V agg_eval(Expr* e, Query* q, V*** rows, int n, Scope* sc)
{
	int64_t count = 0, sum = 0;
	V best = v_null(INT);
	for (int i = 0; i < n; i++) {
		sc->row[0] = rows[i][0]; sc->row[1] = rows[i][1];
		if (e->agg == A_COUNTALL) { count++; continue; }
		V v = expr_eval(e->a, sc);
		if (v.null) continue;
		count++;
		if (__builtin_add_overflow(sum, v.i, &sum)) Bad = true;
		if (best.null || (e->agg == A_MIN ? v.i < best.i : v.i > best.i)) best = v;
	}
	switch (e->agg) {
	case A_COUNTALL: case A_COUNT: return v_int(count);
	case A_SUM: if (! count) { Sum_none = true; Bad = true; } return count ? v_int(sum) : v_null(INT);
	case A_AVG: return count ? v_int(sum / count) : v_null(INT);
	}
	return best;
}
static Rows* query_eval_all(Query* q, Scope* up)
{
	// rows with their order keys, in any order, without limit
	Rows* out = mem(sizeof(Rows));
	Scope* sc = &q->sc;
	sc->up = up;
	query_sources(q, up);
	int cap = 16, n = 0;
	V*** m = mem(sizeof(V**) * cap);
	int n1 = q->nsrc == 2 ? sc->s[1].t->n : 1;
	for (int i = 0; i < sc->s[0].t->n; i++)
		for (int j = 0; j < n1; j++) {
			sc->row[0] = sc->s[0].t->r[i];
			sc->row[1] = q->nsrc == 2 ? sc->s[1].t->r[j] : NULL;
			if (q->where) { V w = expr_eval(q->where, sc); if (v_is(&w) != 1) continue; }
			if (n == cap) { V*** p = mem(sizeof(V**) * cap * 2); memcpy(p, m, sizeof(V**) * cap); m = p; cap *= 2; }
			m[n] = mem(sizeof(V*) * 2);
			m[n][0] = sc->row[0]; m[n][1] = sc->row[1];
			n++;
		}
	if (! q->agg) {
		for (int i = 0; i < n; i++) {
			sc->row[0] = m[i][0]; sc->row[1] = m[i][1];
			int nc = q->star ? sc->s[0].t->nc + (q->nsrc == 2 ? sc->s[1].t->nc : 0) : q->nsel;
			Row* r = rows_add(out, nc);
			if (q->star) {
				memcpy(r->v, sc->row[0], sizeof(V) * sc->s[0].t->nc);
				if (q->nsrc == 2) memcpy(r->v + sc->s[0].t->nc, sc->row[1], sizeof(V) * sc->s[1].t->nc);
			} else
				for (int k = 0; k < nc; k++) r->v[k] = expr_eval(q->sel[k], sc);
			r->key = mem(sizeof(V) * 4);
			for (int k = 0; k < q->norder; k++) r->key[k] = expr_eval(q->order[k], sc);
			if (q->distinct)
				for (int k = 0; k < out->n - 1; k++) if (row_same(&out->r[k], r)) { out->n--; break; }
		}
		return out;
	}
	// groups
	int* grp = mem(sizeof(int) * (n + 1));
	int ng = 0;
	int* first = mem(sizeof(int) * (n + 1));
	if (! q->ngroup) { ng = 1; first[0] = 0; }
	else for (int i = 0; i < n; i++) {
		int g;
		for (g = 0; g < ng; g++) {
			bool same = true;
			for (int k = 0; k < q->ngroup; k++) if (! v_same(&m[i][0][q->group[k]], &m[first[g]][0][q->group[k]])) same = false;
			if (same) break;
		}
		if (g == ng) first[ng++] = i;
		grp[i] = g;
	}
	for (int g = 0; g < ng; g++) {
		V*** gm = mem(sizeof(V**) * (n + 1));
		int gn = 0;
		for (int i = 0; i < n; i++) if (! q->ngroup || grp[i] == g) gm[gn++] = m[i];
		V* aggs = mem(sizeof(V) * 8);
		for (int k = 0; k < q->nagg; k++) aggs[k] = agg_eval(q->aggs[k], q, gm, gn, sc);
		sc->row[0] = gn ? gm[0][0] : NULL;
		sc->row[1] = gn ? gm[0][1] : NULL;
		sc->row[2] = aggs;
		if (q->having) { V h = expr_eval(q->having, sc); if (v_is(&h) != 1) continue; }
		Row* r = rows_add(out, q->nsel);
		for (int k = 0; k < q->nsel; k++) r->v[k] = expr_eval(q->sel[k], sc);
		r->key = mem(sizeof(V) * 4);
		for (int k = 0; k < q->norder; k++) r->key[k] = expr_eval(q->order[k], sc);
	}
	return out;
}
// for nested queries, which are generated without a limit unless their order is total
static Rows* query_eval(Query* q, Scope* up)
{
	Rows* r = query_eval_all(q, up);
	if (q->norder) { Sort_q = q; qsort(r->r, r->n, sizeof(Row), row_order); }
	int lo = q->offset > 0 ? q->offset : 0;
	if (lo > r->n) lo = r->n;
	r->r += lo;
	r->n -= lo;
	if (q->limit >= 0 && q->limit < r->n) r->n = q->limit;
	return r;
}

// compares the rows got with those expected; returns NULL or what is wrong
static const char* rows_compare(Query* q, Rows* want, Rows* got)
{
	static char msg[256];
	Sort_q = q;
	if (q->norder) qsort(want->r, want->n, sizeof(Row), row_order);
	int lo = q->offset > 0 ? q->offset : 0, hi = want->n;
	if (lo > want->n) lo = want->n;
	if (q->limit >= 0 && lo + q->limit < hi) hi = lo + q->limit;
	if (got->n != hi - lo) { snprintf(msg, sizeof(msg), "%d rows, expected %d", got->n, hi - lo); return msg; }
	// runs of rows whose order is not defined
	for (int i = lo; i < hi; ) {
		int a = i, b = i + 1;
		while (a > 0 && row_order(&want->r[a - 1], &want->r[i]) == 0) a--;
		while (b < want->n && row_order(&want->r[b], &want->r[i]) == 0) b++;
		int end = b < hi ? b : hi;
		bool* used = mem(b - a + 1);
		for (int k = i; k < end; k++) {
			int w;
			for (w = a; w < b; w++) if (! used[w - a] && row_same(&want->r[w], &got->r[k - lo])) break;
			if (w == b) {
				Tx t = { 0 };
				row_print(&t, &got->r[k - lo]);
				tx_f(&t, ", expected ");
				for (w = a; w < b && t.n < 180; w++) if (! used[w - a]) row_print(&t, &want->r[w]);
				snprintf(msg, sizeof(msg), "row %d is %s", k - lo, t.p);
				tx_free(&t);
				return msg;
			}
			used[w - a] = true;
		}
		i = end;
	}
	return NULL;
}
