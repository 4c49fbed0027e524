// C40, C41: the whole database against a reference evaluator of its SQL
#include "sqlref.h"

#define NTAB 3
static Tab T[NTAB];
static int NT, Alias;
static bool Opened;
static char Dir[PATH_MAX];

// queries -----------------------------------------------------------------------------------------
static Query* gen_query(Scope* up, int depth, int only_t);
static const char* new_alias(const char* p) { char b[16]; int n = snprintf(b, sizeof(b), "%s%d", p, Alias++); return mem_str(b, n); }

static void gen_source(Query* q, int i, Scope* up, int depth)
{
	Src* s = &q->sc.s[i];
	if (depth > 0 && PICK(7) == 6) {
		// a nested select with named columns
		bool cte = depth == 2 && ! up && PICK(2);
		Query* d = gen_query(NULL, depth - 1, -1);
		if (d->star) { d->star = false; d->nsel = 0; }
		if (! d->nsel) { d->nsel = 1; d->sel[0] = d->agg ? ex_const(v_int(7)) : gen_expr(&d->sc, INT, 1); }
		d->norder = 0; d->limit = d->offset = -1;
		if (d->nsel > MAXC) d->nsel = MAXC;
		Tab* t = mem(sizeof(Tab));
		for (int k = 0; k < d->nsel; k++) { snprintf(t->c[k].name, sizeof(t->c[k].name), "c%d", k); t->c[k].type = d->sel[k]->t; }
		t->nc = d->nsel;
		q->derived[i] = d;
		q->cte[i] = cte;
		s->t = t;
		s->alias = new_alias(cte ? "w" : "d");
		pbt_class(cte ? "cte" : "derived table");
		return;
	}
	s->t = &T[PICK(NT)];
	s->alias = q->nsrc == 1 && ! up && PICK(2) ? s->t->name : new_alias("x");
	if (s->t->nidx && PICK(6) == 0) q->use[i] = s->t->idx[PICK(s->t->nidx)].name;
}
static Expr* gen_agg(Query* q)
{
	Expr* e = ex(E_AGG, INT);
	e->agg = PICK(6);
	if (e->agg) e->a = PICK(3) ? gen_col(&q->sc, INT) : gen_expr(&q->sc, INT, 1);
	if (e->agg && e->a->op == E_CONST) e->agg = A_COUNTALL;
	if (e->agg && e->a->op == E_COL && PICK(5) == 0) e->agg = A_COUNT;
	e->col = q->nagg;
	q->aggs[q->nagg++] = e;
	return e;
}
static Query* gen_query(Scope* up, int depth, int only_t)
{
	Query* q = mem(sizeof(*q));
	q->limit = q->offset = -1;
	q->nsrc = PICK(5) == 4 ? 2 : 1;
	q->sc.n = q->nsrc;
	q->sc.up = up;
	q->sc.qualify = q->nsrc == 2 || up;
	for (int i = 0; i < q->nsrc; i++) gen_source(q, i, up, depth);
	// the names of the columns of a derived table are also aliases of the query
	if (q->derived[0]) q->sc.qualify = true;
	if (q->nsrc == 2) {
		if (q->sc.s[0].alias == q->sc.s[1].alias) q->sc.s[1].alias = new_alias("x");
		q->comma = PICK(2);
		pbt_class("join");
	}
	if (PICK(4) || q->nsrc == 2) q->where = gen_where(&q->sc, 2);
	if (depth > 0 && ! (q->nsrc == 2 && ! q->comma) && PICK(6) == 0) {
		// nested queries in the condition
		Expr* e;
		int t = PICK(2);
		switch (PICK(3)) {
		case 0: e = ex(E_INQ, BOOL); e->a = gen_expr(&q->sc, t, 1); e->q = gen_query(NULL, 0, t); break;
		case 1: e = ex(E_EXISTS, BOOL); e->q = gen_query(NULL, 0, -1); break;
		default: e = ex2(E_EQ + PICK(6), BOOL, gen_expr(&q->sc, INT, 1), ex(E_SUB1, INT)); e->b->q = gen_query(NULL, 0, -2); break;
		}
		q->where = q->where ? ex2(PICK(4) ? E_AND : E_OR, BOOL, q->where, e) : e;
		pbt_class("nested query");
	}
	if (only_t == -2 || (only_t == -1 && PICK(4) == 0)) {
		// aggregate
		q->agg = true;
		q->nsrc == 1 ? pbt_class("aggregate") : pbt_class("aggregate of a join");
		if (only_t == -1 && PICK(2) && q->nsrc == 1 && ! q->derived[0]) {
			q->ngroup = 1 + PICK(2);
			if (q->ngroup > q->sc.s[0].t->nc) q->ngroup = q->sc.s[0].t->nc;
			q->group[0] = PICK(q->sc.s[0].t->nc);
			q->group[1] = (q->group[0] + 1 + PICK(q->sc.s[0].t->nc - 1 ? q->sc.s[0].t->nc - 1 : 1)) % q->sc.s[0].t->nc;
			pbt_class("group by");
		}
		for (int i = 0; i < q->ngroup; i++) { Expr* c = ex(E_COL, q->sc.s[0].t->c[q->group[i]].type); c->col = q->group[i]; q->sel[q->nsel++] = c; }
		int n = only_t == -2 ? 1 : 1 + PICK(3);
		while (n--) q->sel[q->nsel++] = gen_agg(q);
		if (q->ngroup && PICK(3) == 0) q->having = ex2(E_LT + PICK(4), BOOL, q->sel[q->nsel - 1], ex_const(v_int(PICK(10))));
		if (q->ngroup && PICK(3) == 0)
			for (int i = 0; i < q->ngroup; i++) { q->order[q->norder] = q->sel[i]; q->desc[q->norder++] = PICK(2); }
		return q;
	}
	if (only_t >= 0) {
		q->nsel = 1;
		q->sel[0] = PICK(2) ? gen_col(&q->sc, only_t) : gen_expr(&q->sc, only_t, 1);
		return q;
	}
	if (PICK(4) == 0) q->star = true;
	else {
		q->nsel = 1 + PICK(4);
		for (int i = 0; i < q->nsel; i++) q->sel[i] = PICK(2) ? gen_col(&q->sc, PICK(3)) : gen_expr(&q->sc, PICK(3), 2);
	}
	if (PICK(8) == 0 && ! q->star) {
		q->distinct = true;
		pbt_class("distinct");
		// an integer is the number of a column there
		for (int i = 0; i < q->nsel; i++) if (q->sel[i]->op == E_NEG || (q->sel[i]->op == E_CONST && q->sel[i]->t == INT)) q->sel[i] = ex_const(v_bool(true));
	}
	else if (PICK(2)) {
		q->norder = 1 + PICK(3);
		for (int i = 0; i < q->norder; i++) { q->order[i] = PICK(3) ? gen_col(&q->sc, PICK(2)) : gen_expr(&q->sc, PICK(2), 1); if (q->order[i]->op == E_CONST || q->order[i]->op == E_NEG) q->order[i] = ex2(E_CAT, STR, ex_const(v_str("")), gen_expr(&q->sc, STR, 1)); q->desc[i] = PICK(2); }
		pbt_class("order by");
	}
	if (PICK(4) == 0) { q->limit = PICK(8); if (PICK(2)) q->offset = PICK(6); pbt_class("limit"); }
	return q;
}

// statements --------------------------------------------------------------------------------------
static Tx Sql;
static Rows* parse_result(const char* sql)
{
	Rows* r = mem(sizeof(Rows));
	if (Db.code == 204 && ! Db.out.n) return r;
	if (! rows_parse(Db.out.p, r)) pbt_fail("'%s' returns a malformed result: %.300s", sql, Db.out.p);
	return r;
}
static void check_query(Query* q)
{
	Bad = false;
	Rows* want = query_eval_all(q, NULL);
	Rows* got = parse_result(Sql.p);
	if (Bad) return;
	const char* err = rows_compare(q, want, got);
	if (err) pbt_fail("'%s': %s", Sql.p, err);
}
static void run_query(void)
{
	Query* q = gen_query(NULL, 2, -1);
	tx_reset(&Sql);
	query_print(&Sql, q);
	pbt_note("%s", Sql.p);
	db_exec(Sql.p);
	Bad = false;
	Rows* want = query_eval_all(q, NULL);
	if (! db_ok()) {
		if (! Bad) pbt_fail("'%s' fails: %d %s", Sql.p, Db.code, Db.out.p);
		return;
	}
	if (Bad) return;
	Rows* got = parse_result(Sql.p);
	const char* err = rows_compare(q, want, got);
	if (err) pbt_fail("'%s': %s", Sql.p, err);
	pbt_count("queries", 1);
	if (got->n) pbt_count("queries with rows", 1);
}
static void verify(Tab* t, const char* when)
{
	Query q = { .nsrc = 1, .star = true, .limit = -1, .offset = -1 };
	q.sc.n = 1;
	q.sc.s[0] = (Src){ t->name, t };
	if (t->nidx && PICK(2)) q.use[0] = t->idx[PICK(t->nidx)].name;
	tx_reset(&Sql);
	query_print(&Sql, &q);
	db_exec(Sql.p);
	if (! db_ok()) pbt_fail("%s: '%s' fails: %d %s", when, Sql.p, Db.code, Db.out.p);
	Rows* want = query_eval_all(&q, NULL);
	Rows* got = parse_result(Sql.p);
	const char* err = rows_compare(&q, want, got);
	if (err) pbt_fail("%s: '%s': %s", when, Sql.p, err);
}

// 0 ok, 1 must fail, 2 may fail
typedef struct { int fail; bool result; Query q; Rows* rows; } Done;

static V fit(Col* c, V v) { return v; }
static Expr* gen_set(Tab* t, Scope* sc, int col)
{
	Expr* e = gen_expr(sc, t->c[col].type, 2);
	if (t->c[col].type == INT) e = ex2(E_MOD, INT, e, ex_const(v_int(1000)));
	return e;
}
static int set_cols(Tab* t, int* cols)
{
	int n = 0;
	for (int i = 0; i < t->nc; i++) if (! t->c[i].key && ! t->c[i].indexed) cols[n++] = i;
	return n;
}
static void gen_returning(Done* d, Scope* sc)
{
	d->result = true;
	d->q.nsrc = 1;
	d->q.limit = d->q.offset = -1;
	if (PICK(3) == 0) { d->q.star = true; tx_f(&Sql, " returning *"); return; }
	d->q.nsel = 1 + PICK(3);
	tx_f(&Sql, " returning ");
	for (int i = 0; i < d->q.nsel; i++) {
		d->q.sel[i] = PICK(2) ? gen_col(sc, PICK(2)) : gen_expr(sc, PICK(2), 1);
		if (i) tx_f(&Sql, ", ");
		expr_print(&Sql, d->q.sel[i], sc);
		tx_f(&Sql, " as c%d", i);
	}
}
static void returned(Done* d, Scope* sc, Tab* t, V* row)
{
	if (! d->result) return;
	sc->row[0] = row;
	int n = d->q.star ? t->nc : d->q.nsel;
	Row* r = rows_add(d->rows, n);
	for (int i = 0; i < n; i++) r->v[i] = d->q.star ? row[i] : expr_eval(d->q.sel[i], sc);
	r->key = mem(sizeof(V));
}

static void gen_insert(Tab* t, Done* d)
{
	int cols[MAXC], n = 0;
	bool all = PICK(3) == 0;
	for (int i = 0; i < t->nc; i++) if (all || t->c[i].key || PICK(4)) cols[n++] = i;
	tx_f(&Sql, "insert into %s ", t->name);
	if (! all) {
		tx_f(&Sql, "(");
		for (int i = 0; i < n; i++) tx_f(&Sql, "%s%s", i ? ", " : "", t->c[cols[i]].name);
		tx_f(&Sql, ") ");
	}
	tx_f(&Sql, "values ");
	int rows = 1 + pbt_size(PICK(6) == 0 ? 40 : 5);
	V* vals[64];
	for (int r = 0; r < rows; r++) {
		V* v = vals[r] = mem(sizeof(V) * MAXC);
		for (int i = 0; i < t->nc; i++) v[i] = t->c[i].def ? t->c[i].defv : v_null(t->c[i].type);
		tx_f(&Sql, r ? ", (" : "(");
		for (int i = 0; i < n; i++) {
			Col* c = &t->c[cols[i]];
			if (i) tx_f(&Sql, ", ");
			if (! c->key && PICK(12) == 11) { tx_f(&Sql, "default"); continue; }
			if (c->key && rows > 6 && c->type == INT) v[cols[i]] = v_int(pbt_range(0, 200));
			else v[cols[i]] = c->notnull || c->key || c->indexed ? gen_vn(c->type, 150) : gen_vn(c->type, 8);
			v_print(&Sql, &v[cols[i]]);
		}
		tx_f(&Sql, ")");
	}
	Scope* sc = mem(sizeof(Scope));
	*sc = (Scope){ .n = 1 };
	sc->s[0] = (Src){ t->name, t };
	int policy = PICK(5) < 2 ? 0 : PICK(5) < 3 ? 1 + PICK(2) : 0;
	Expr* where = NULL; int sets[3], ns = 0; Expr* set[3];
	if (policy == 2 && ! set_cols(t, sets)) policy = 1;
	if (policy == 1) tx_f(&Sql, " on conflict do nothing");
	if (policy == 2) {
		int can[MAXC], nc = set_cols(t, can);
		// a column of the row which is there, or of the new row
		Scope two = { .n = 2, .qualify = true };
		two.s[0] = (Src){ t->name, t };
		two.s[1] = (Src){ "excluded", t };
		tx_f(&Sql, " on conflict do update set ");
		ns = 1 + PICK(nc > 2 ? 2 : nc);
		if (ns > nc) ns = nc;
		int at = PICK(nc);
		for (int i = 0; i < ns; i++) {
			sets[i] = can[(at + i) % nc];
			set[i] = gen_set(t, &two, sets[i]);
			tx_f(&Sql, "%s%s = ", i ? ", " : "", t->c[sets[i]].name);
			expr_print(&Sql, set[i], &two);
		}
		if (PICK(3) == 0) { where = gen_expr(&two, BOOL, 2); tx_f(&Sql, " where "); expr_print(&Sql, where, &two); }
		pbt_class("upsert");
	}
	d->rows = mem(sizeof(Rows));
	if (PICK(3) == 0) gen_returning(d, sc);
	for (int r = 0; r < rows; r++) {
		V* v = vals[r];
		for (int i = 0; i < t->nc; i++) if (v[i].null && (t->c[i].notnull || t->c[i].key || t->c[i].indexed)) { d->fail = 1; return; }
	}
	for (int r = 0; r < rows; r++) {
		V* v = vals[r];
		int at = tab_find(t, v);
		if (at == -1) {
			if (! tab_unique(t, v)) { d->fail = 1; return; }
			tab_add(t, v);
			returned(d, sc, t, v);
			continue;
		}
		if (policy == 0) { d->fail = 1; return; }
		if (policy == 1) { returned(d, sc, t, t->r[at]); continue; }
		Scope two = { .n = 2 };
		two.s[0] = (Src){ t->name, t };
		two.s[1] = (Src){ "excluded", t };
		two.row[0] = t->r[at]; two.row[1] = v;
		if (where) { V w = expr_eval(where, &two); if (v_is(&w) != 1) { if (Bad) d->fail = 2; returned(d, sc, t, t->r[at]); continue; } }
		V* now = row_dup(t, t->r[at]);
		for (int i = 0; i < ns; i++) {
			now[sets[i]] = expr_eval(set[i], &two);
			if (now[sets[i]].null && t->c[sets[i]].notnull) { d->fail = 1; return; }
		}
		t->r[at] = now;
		returned(d, sc, t, now);
	}
}
static void gen_update(Tab* t, Done* d)
{
	int can[MAXC], nc = set_cols(t, can);
	Scope* sc = mem(sizeof(Scope));
	*sc = (Scope){ .n = 1 };
	sc->s[0] = (Src){ t->name, t };
	bool del = nc == 0 || PICK(3) == 2;
	int ns = 0, sets[3]; Expr* set[3];
	if (del) tx_f(&Sql, "delete from %s", t->name);
	else {
		tx_f(&Sql, "update %s set ", t->name);
		ns = 1 + PICK(2);
		if (ns > nc) ns = nc;
		int at = PICK(nc);
		for (int i = 0; i < ns; i++) {
			sets[i] = can[(at + i) % nc];
			set[i] = gen_set(t, sc, sets[i]);
			tx_f(&Sql, "%s%s = ", i ? ", " : "", t->c[sets[i]].name);
			expr_print(&Sql, set[i], sc);
		}
	}
	Expr* where = PICK(6) ? gen_where(sc, 2) : NULL;
	if (where) { tx_f(&Sql, " where "); expr_print(&Sql, where, sc); }
	d->rows = mem(sizeof(Rows));
	if (PICK(3) == 0) gen_returning(d, sc);
	int n = 0;
	for (int i = 0; i < t->n; i++) {
		V* row = t->r[i];
		sc->row[0] = row;
		if (where) { V w = expr_eval(where, sc); if (v_is(&w) != 1) { t->r[n++] = row; continue; } }
		if (del) { returned(d, sc, t, row); continue; }
		V* now = row_dup(t, row);
		for (int k = 0; k < ns; k++) {
			now[sets[k]] = expr_eval(set[k], sc);
			if (now[sets[k]].null && t->c[sets[k]].notnull) d->fail = 1;
		}
		t->r[n++] = now;
		returned(d, sc, t, now);
	}
	t->n = n;
	pbt_class(del ? "delete" : "update");
}
static Tab Save[NTAB];
static void save(void) { for (int i = 0; i < NT; i++) tab_copy(&Save[i], &T[i]); }
static void restore(void) { for (int i = 0; i < NT; i++) { T[i].n = Save[i].n; T[i].r = Save[i].r; T[i].cap = Save[i].cap; } }

static Query* Last_query;
static void gen_statement(Done* d)
{
	memset(d, 0, sizeof(*d));
	Tab* t = &T[PICK(NT)];
	if (PICK(5) < 3 || t->n == 0) gen_insert(t, d); else gen_update(t, d);
}
// strings double with every c = c || c: a table of long ones is emptied
static void bound_strings(void)
{
	for (int i = 0; i < NT; i++) {
		bool large = false;
		for (int r = 0; r < T[i].n; r++) for (int c = 0; c < T[i].nc; c++) { V* v = &T[i].r[r][c]; if (v->t == STR && ! v->null && strlen(v->s) > 1000) large = true; }
		if (! large) continue;
		pbt_class("long strings");
		pbt_note("delete from %s    (long strings)", T[i].name);
		db_must("delete from %s", T[i].name);
		T[i].n = 0;
	}
}
static void run_write(void)
{
	bound_strings();
	save();
	tx_reset(&Sql);
	Done d;
	Bad = false;
	bool block = PICK(4) == 3;
	int fail = 0;
	Query* q = NULL;
	Rows* want = NULL;
	if (block) {
		pbt_class("multi-statement transaction");
		tx_f(&Sql, "begin; ");
		int n = 1 + PICK(4);
		for (int i = 0; i < n; i++) {
			gen_statement(&d);
			tx_f(&Sql, "; ");
			if (d.fail) { fail = d.fail; if (fail == 1) break; }
			if (PICK(8) == 7) {
				// reads its own writes
				Query* s = gen_query(NULL, 0, -1);
				query_print(&Sql, s);
				tx_f(&Sql, "; ");
				Bad = false;
				d.result = true;
				d.q = *s;
				d.rows = query_eval_all(s, NULL);
				if (Bad) fail = 2;
			}
		}
		if (! fail && PICK(8) == 7) { tx_f(&Sql, "select error('abort'); "); fail = 1; pbt_class("aborted transaction"); }
		if (fail == 1 && PICK(3) == 0) { Done x; gen_statement(&x); tx_f(&Sql, "; "); }
		if (! fail && PICK(2)) {
			q = gen_query(NULL, 1, -1);
			query_print(&Sql, q);
			tx_f(&Sql, "; ");
			Bad = false;
			want = query_eval_all(q, NULL);
			if (Bad) { fail = 2; q = NULL; }
		} else if (! fail && d.result) {
			q = &d.q; want = d.rows;
		}
		tx_f(&Sql, "end;");
	} else {
		gen_statement(&d);
		fail = d.fail;
		if (! fail && d.result) { q = &d.q; want = d.rows; }
	}
	if (Bad && ! fail) { fail = 2; }
	pbt_note("%s%s", Sql.p, fail == 1 ? "    (must fail)" : fail == 2 ? "    (may fail)" : "");
	db_exec(Sql.p);
	char* sql = strdup(Sql.p);
	if (! db_ok()) {
		if (! fail) pbt_fail("'%s' fails: %d %s", sql, Db.code, Db.out.p);
		restore();
		pbt_class("failed write");
		for (int i = 0; i < NT; i++) verify(&T[i], "after a failed write");
	} else {
		if (fail == 1) pbt_fail("'%s' does not fail", sql);
		if (fail == 2) { free(sql); pbt_class("undefined write"); 
			// take the state of the database
			for (int i = 0; i < NT; i++) {
				char b[64]; snprintf(b, sizeof(b), "select * from %s", T[i].name);
				db_exec(b);
				Rows* r = parse_result(b);
				T[i].n = 0;
				for (int k = 0; k < r->n; k++) { V* row = mem(sizeof(V) * MAXC); memcpy(row, r->r[k].v, sizeof(V) * T[i].nc); for (int c = 0; c < T[i].nc; c++) row[c].t = T[i].c[c].type; tab_add(&T[i], row); }
			}
			return;
		}
		if (q) {
			Rows* got = parse_result(sql);
			const char* err = rows_compare(q, want, got);
			if (err) pbt_fail("'%s': %s", sql, err);
		}
		pbt_count("writes", 1);
	}
	free(sql);
}

// schema ------------------------------------------------------------------------------------------
static void gen_table(Tab* t, int no)
{
	memset(t, 0, sizeof(*t));
	snprintf(t->name, sizeof(t->name), "t%d", no);
	t->nk = PICK(3) == 0 ? 2 : 1;
	t->nc = t->nk + 1 + PICK(4);
	t->hash = PICK(4) == 0;
	t->parts = PICK(4) == 0 ? 1 : 1 + PICK(6);
	for (int i = 0; i < t->nc; i++) {
		Col* c = &t->c[i];
		snprintf(c->name, sizeof(c->name), "%c", "abcdefgh"[i]);
		c->type = PICK(5) < 3 ? INT : PICK(3) < 2 ? STR : BOOL;
		c->wide = PICK(2);
	}
	int at = PICK(2) ? 0 : PICK(t->nc - t->nk + 1);
	for (int i = 0; i < t->nk; i++) {
		int k = at + (t->nk == 2 && PICK(2) ? 0 : i);
		t->k[i] = k;
	}
	if (t->nk == 2) t->k[1] = t->k[0] == at ? at + 1 : at;
	for (int i = 0; i < t->nk; i++) { Col* c = &t->c[t->k[i]]; c->key = true; if (c->type == BOOL) c->type = INT; }
	tx_reset(&Sql);
	tx_f(&Sql, "create table %s (", t->name);
	for (int i = 0; i < t->nc; i++) {
		Col* c = &t->c[i];
		tx_f(&Sql, "%s %s", c->name, c->type == STR ? (c->wide ? "text" : "string") : c->type == BOOL ? "bool" : c->wide ? "bigint" : "int");
		if (! c->key) {
			if (PICK(5) == 4) { c->notnull = true; tx_f(&Sql, " not null"); }
			if (PICK(4) == 3) { c->def = true; c->defv = gen_v(c->type); tx_f(&Sql, " default "); v_print(&Sql, &c->defv); }
		}
		tx_f(&Sql, ", ");
	}
	tx_f(&Sql, "primary key (");
	for (int i = 0; i < t->nk; i++) tx_f(&Sql, "%s%s", i ? ", " : "", t->c[t->k[i]].name);
	tx_f(&Sql, ")%s) partitions %d", t->hash ? " using hash" : PICK(2) ? " using tree" : "", t->parts);
	pbt_note("%s", Sql.p);
	db_must("%s", Sql.p);
}
static void gen_index(Tab* t)
{
	if (t->nidx == 2) return;
	Idx* x = &t->idx[t->nidx];
	snprintf(x->name, sizeof(x->name), "i%d", Alias++);
	x->n = 0;
	int n = 1 + PICK(2);
	for (int i = 0; i < n; i++) {
		int c = PICK(t->nc);
		bool bad = t->c[c].type == BOOL;
		for (int k = 0; k < x->n; k++) if (x->c[k] == c) bad = true;
		for (int k = 0; k < t->n; k++) if (t->r[k][c].null) bad = true;
		if (! bad) x->c[x->n++] = c;
	}
	if (! x->n) return;
	x->hash = PICK(3) == 0;
	x->uniq = t->parts == 1 && PICK(2) && t->n == 0;
	tx_reset(&Sql);
	tx_f(&Sql, "create %sindex %s on %s (", x->uniq ? "unique " : "", x->name, t->name);
	for (int i = 0; i < x->n; i++) { tx_f(&Sql, "%s%s", i ? ", " : "", t->c[x->c[i]].name); t->c[x->c[i]].indexed = t->c[x->c[i]].notnull = true; }
	tx_f(&Sql, ") using %s", x->hash ? "hash" : "tree");
	pbt_note("%s", Sql.p);
	db_must("%s", Sql.p);
	t->nidx++;
	pbt_class("secondary index");
}
// changes of the schema of a table with rows
static void gen_alter(Tab* t)
{
	tx_reset(&Sql);
	switch (PICK(7)) {
	case 0: {
		Col* c = &t->c[PICK(t->nc)];
		tx_f(&Sql, "alter table %s rename column %s to ", t->name, c->name);
		snprintf(c->name, sizeof(c->name), "k%d", Alias++);
		tx_f(&Sql, "%s", c->name);
		pbt_class("rename column");
		break; }
	case 1: case 2: {
		if (t->nc == MAXC) return;
		Col* c = &t->c[t->nc];
		memset(c, 0, sizeof(*c));
		snprintf(c->name, sizeof(c->name), "k%d", Alias++);
		c->type = PICK(5) < 3 ? INT : PICK(3) < 2 ? STR : BOOL;
		c->wide = PICK(2);
		tx_f(&Sql, "alter table %s add column %s %s", t->name, c->name, c->type == STR ? (c->wide ? "text" : "string") : c->type == BOOL ? "bool" : c->wide ? "bigint" : "int");
		if (PICK(3) == 2) { c->def = true; c->defv = gen_v(c->type); tx_f(&Sql, " default "); v_print(&Sql, &c->defv); }
		// rows which exist have no value
		for (int i = 0; i < t->n; i++) { V* r = row_dup(t, t->r[i]); r[t->nc] = v_null(c->type); t->r[i] = r; }
		t->nc++;
		pbt_class("add column");
		break; }
	case 3: {
		int at = PICK(t->nc);
		if (t->c[at].key || t->c[at].indexed || t->nc - t->nk < 2) return;
		tx_f(&Sql, "alter table %s drop column %s", t->name, t->c[at].name);
		for (int i = 0; i < t->n; i++) { V* r = row_dup(t, t->r[i]); memmove(r + at, r + at + 1, sizeof(V) * (t->nc - at - 1)); t->r[i] = r; }
		memmove(t->c + at, t->c + at + 1, sizeof(Col) * (t->nc - at - 1));
		t->nc--;
		for (int i = 0; i < t->nk; i++) if (t->k[i] > at) t->k[i]--;
		for (int i = 0; i < t->nidx; i++) for (int k = 0; k < t->idx[i].n; k++) if (t->idx[i].c[k] > at) t->idx[i].c[k]--;
		pbt_class("drop column");
		break; }
	case 4: {
		tx_f(&Sql, "alter table %s rename to ", t->name);
		if (t->name[0] == 't') t->name[0] = 'r'; else t->name[0] = 't';
		tx_f(&Sql, "%s", t->name);
		pbt_class("rename table");
		break; }
	case 5: {
		Col* c = &t->c[PICK(t->nc)];
		if (c->key) return;
		if (c->def && PICK(2)) { c->def = false; tx_f(&Sql, "alter table %s unset column %s default", t->name, c->name); }
		else { c->def = true; c->defv = gen_v(c->type); tx_f(&Sql, "alter table %s set column %s default ", t->name, c->name); v_print(&Sql, &c->defv); }
		pbt_class("change a default");
		break; }
	case 6: {
		if (! t->nidx) return;
		int at = PICK(t->nidx);
		Idx* x = &t->idx[at];
		if (PICK(2)) {
			tx_f(&Sql, "alter index %s on %s rename to ", x->name, t->name);
			snprintf(x->name, sizeof(x->name), "i%d", Alias++);
			tx_f(&Sql, "%s", x->name);
			pbt_class("rename index");
		} else {
			tx_f(&Sql, "drop index %s on %s", x->name, t->name);
			memmove(x, x + 1, sizeof(Idx) * (t->nidx - at - 1));
			t->nidx--;
			for (int i = 0; i < t->nc; i++) t->c[i].indexed = false;
			for (int i = 0; i < t->nidx; i++) for (int k = 0; k < t->idx[i].n; k++) t->c[t->idx[i].c[k]].indexed = true;
			pbt_class("drop index");
		}
		break; }
	}
	pbt_note("%s", Sql.p);
	db_must("%s", Sql.p);
	verify(t, "after a change of the schema");
}
static void reopen_with(int backends, int frontends)
{
	if (Opened) db_close();
	db_open(Dir, backends, frontends);
	Opened = true;
}
static void reopen(void)
{
	int b = 1 + PICK(5);
	reopen_with(b, 1 + PICK(3));
}
static void drop_all(void)
{
	static const char* n[] = { "t0", "t1", "t2", "r0", "r1", "r2" };
	for (int i = 0; i < 6; i++) { char b[64]; snprintf(b, sizeof(b), "drop table if exists %s", n[i]); db_must("%s", b); }
}
static void case_run(void)
{
	mem_reset();
	Alias = 0;
	// the choices are the same in a replayed case
	bool fresh = PICK(6) == 5;
	int backends = 1 + PICK(5), frontends = 1 + PICK(3);
	if (! Opened) snprintf(Dir, sizeof(Dir), "%s/db", pbt_dir());
	if (fresh || ! Opened) reopen_with(backends, frontends);
	drop_all();
	NT = 1 + PICK(3);
	for (int i = 0; i < NT; i++) {
		gen_table(&T[i], i);
		if (PICK(2)) gen_index(&T[i]);
		if (PICK(3) == 0) gen_index(&T[i]);
	}
	int ops = 0, reads = 0;
	while (pbt_more(16) && ops < 60) {
		ops++;
		switch (PICK(8)) {
		case 0: case 1: case 2: case 3:
			run_write();
			break;
		case 4: case 5: case 6:
#ifdef QUERIES
			run_query(); run_query(); reads++;
#else
			if (PICK(2)) { run_query(); reads++; } else run_write();
#endif
			break;
		case 7:
			if (PICK(6) == 5) { pbt_note("restart"); pbt_class("restart"); reopen(); for (int i = 0; i < NT; i++) verify(&T[i], "after a restart"); }
			else if (PICK(4) == 3) { pbt_note("checkpoint"); pbt_class("checkpoint"); db_must("checkpoint"); }
			else if (PICK(4) == 3) { gen_index(&T[PICK(NT)]); }
			else if (PICK(8) == 7) { Tab* t = &T[PICK(NT)]; pbt_note("truncate %s", t->name); db_must("truncate %s", t->name); t->n = 0; pbt_class("truncate"); }
			else if (PICK(3) == 2) gen_alter(&T[PICK(NT)]);
			else verify(&T[PICK(NT)], "in between");
			break;
		}
	}
	int rows = 0;
	for (int i = 0; i < NT; i++) { verify(&T[i], "at the end"); rows += T[i].n; }
	if (ops > 3 && rows > 2) pbt_nontrivial();
}
PbtHarness pbt_harness = { .name = "sql", .run = case_run, .no_runtime = true };
