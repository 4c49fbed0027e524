// C12: catalog statements against a model, with aborts, failing statements, restarts, kills and replay
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "store.h"

// canonical text of an encoded value: members of objects sorted
static void canon(Sb* o, uint8_t** pos);
static int str_cmp(const void* a, const void* b) { return strcmp(*(char* const*)a, *(char* const*)b); }
static void canon_set(Sb* o, char** e, int n, char open, char close, bool sort)
{
	if (sort) qsort(e, n, sizeof(*e), str_cmp);
	sb_c(o, open);
	for (int i = 0; i < n; i++) { if (i) sb_c(o, ','); sb_s(o, e[i]); free(e[i]); }
	sb_c(o, close);
}
static bool sort_arrays;
static void canon(Sb* o, uint8_t** pos)
{
	char* e[600]; int n = 0;
	if (json_is_obj(*pos)) {
		json_read_obj(pos);
		while (! json_read_obj_end(pos)) {
			Sb t = { 0 }; Str k; json_read_string(pos, &k);
			sb_add(&t, str_of(&k), str_size(&k)); sb_c(&t, '='); canon(&t, pos);
			if (n == NELEM(e)) abort();
			e[n++] = t.p;
		}
		canon_set(o, e, n, '{', '}', true);
	} else if (json_is_array(*pos)) {
		bool sort = sort_arrays; sort_arrays = false;
		json_read_array(pos);
		while (! json_read_array_end(pos)) { Sb t = { 0 }; canon(&t, pos); if (n == NELEM(e)) abort(); if (! t.p) sb_s(&t, ""); e[n++] = t.p; }
		canon_set(o, e, n, '[', ']', sort);
	} else if (json_is_string(*pos)) { Str s; json_read_string(pos, &s); sb_c(o, '"'); sb_s(o, show(str_of(&s), str_size(&s))); sb_c(o, '"'); }
	else if (json_is_integer(*pos)) { int64_t v; json_read_integer(pos, &v); sb_f(o, "%" PRIi64, v); }
	else if (json_is_bool(*pos)) { bool v; json_read_bool(pos, &v); sb_s(o, v ? "true" : "false"); }
	else { sb_s(o, "?"); json_skip(pos); }
}
static char* canon_buf(Buf* buf, bool sort) { Sb o = { 0 }; auto pos = buf->start; sort_arrays = sort; canon(&o, &pos); sort_arrays = false; if (pos != buf->position) pbt_fail("a definition has bytes after its end"); return o.p; }

// model --------------------------------------------------------------------
enum { NAME = 16, MC = 10, MI = 5, MV = 4, MT = 3, TABLES = 12, UDFS = 12, STORAGES = 8, DBS = 6 };
typedef struct { char name[NAME]; int type, size; bool dropped, not_null; int identity; int64_t modulo; char stored[48], resolved[48], def[24]; int def_n; } MCol;
typedef struct { char name[NAME]; int type; bool unique, primary; int keys, key[3]; bool asc[3]; } MIdx;
typedef struct { char name[NAME]; Uuid id; bool pause; int objects; } MVol;
typedef struct { char name[NAME]; int64_t region, object; MVol vol[MV]; int vols; } MTier;
typedef struct { char db[NAME], name[NAME]; Uuid id; bool unlogged; MCol col[MC]; int cols; MIdx idx[MI]; int idxs; int parts; MVol vol[MV]; int vols; MTier tier[MT]; int tiers; uint64_t seq; } MTable;
typedef struct { char db[NAME], name[NAME], text[64]; int type; MCol arg[3]; int args; MCol ret[3]; int rets; } MUdf;
typedef struct { char name[NAME], path[200], comp[8]; int level; bool system, broken; } MStorage;
typedef struct {
	MStorage st[STORAGES]; int sts;
	char db[DBS][NAME]; int dbs;
	MTable t[TABLES]; int ts;
	MUdf u[UDFS]; int us;
} Model;
static Model m;
static int uuid_n;
static Uuid uuid_next(void) { Uuid id; uuid_init(&id); uuid_n++; id.a = 0xabcdef0100000000ull + uuid_n; id.b = 0x8000000000000000ull | uuid_n; return id; }

static Str S(const char* z) { Str s; str_set(&s, (char*)z, strlen(z)); return s; }
static void e_str(Buf* b, const char* k, const char* v) { encode_raw(b, k, strlen(k)); encode_raw(b, v, strlen(v)); }
static void e_int(Buf* b, const char* k, int64_t v) { encode_raw(b, k, strlen(k)); encode_integer(b, v); }
static void e_bool(Buf* b, const char* k, bool v) { encode_raw(b, k, strlen(k)); encode_bool(b, v); }
static void e_uuid(Buf* b, const char* k, Uuid* v) { encode_raw(b, k, strlen(k)); encode_uuid(b, v); }
static void e_con_s(Buf* b, const char* k, const char* v) { if (! *v) return; encode_array(b); e_str(b, k, v); encode_array_end(b); }
static void e_cols(Buf* b, const char* k, MCol* c, int n)
{
	encode_raw(b, k, strlen(k)); encode_array(b);
	for (int i = 0; i < n; i++, c++) {
		encode_obj(b);
		e_str(b, "name", c->name); e_int(b, "type", c->type); e_int(b, "type_size", c->size); e_bool(b, "dropped", c->dropped);
		encode_raw(b, "constraints", 11); encode_array(b);
		if (c->not_null) { encode_array(b); e_bool(b, "not_null", true); encode_array_end(b); }
		if (c->identity) { encode_array(b); e_int(b, "as_identity", c->identity); encode_array_end(b); }
		if (c->modulo != INT64_MAX) { encode_array(b); e_int(b, "as_identity_modulo", c->modulo); encode_array_end(b); }
		e_con_s(b, "as_stored", c->stored); e_con_s(b, "as_resolved", c->resolved);
		if (c->def_n) {
			static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"; // url alphabet, no padding
			char o[64]; int on = 0, bits = 0; uint32_t acc = 0;
			for (int j = 0; j < c->def_n; j++) { acc = acc << 8 | (uint8_t)c->def[j]; bits += 8; while (bits >= 6) { bits -= 6; o[on++] = al[acc >> bits & 63]; } }
			if (bits) o[on++] = al[acc << (6 - bits) & 63];
			o[on] = 0;
			encode_array(b); e_str(b, "default", o); encode_array_end(b);
		}
		encode_array_end(b);
		encode_obj_end(b);
	}
	encode_array_end(b);
}
static void e_vols(Buf* b, MVol* v, int n)
{
	encode_raw(b, "volumes", 7); encode_array(b);
	for (int i = 0; i < n; i++, v++) { encode_obj(b); e_str(b, "name", v->name); e_uuid(b, "id", &v->id); e_bool(b, "pause", v->pause); encode_obj_end(b); }
	encode_array_end(b);
}
static void e_index(Buf* b, MIdx* x)
{
	encode_obj(b);
	e_str(b, "name", x->name); e_int(b, "type", x->type); e_bool(b, "unique", x->unique); e_bool(b, "primary", x->primary);
	encode_raw(b, "keys", 4); encode_array(b);
	for (int i = 0; i < x->keys; i++) { encode_obj(b); e_int(b, "column", x->key[i]); e_bool(b, "asc", x->asc[i]); encode_obj_end(b); }
	encode_array_end(b); encode_obj_end(b);
}
static void e_tier(Buf* b, MTier* t) { encode_obj(b); e_str(b, "name", t->name); e_int(b, "region_size", t->region); e_int(b, "object_size", t->object); e_vols(b, t->vol, t->vols); encode_obj_end(b); }
static void e_table(Buf* b, MTable* t)
{
	encode_obj(b);
	e_str(b, "db", t->db); e_str(b, "name", t->name); e_uuid(b, "id", &t->id); e_bool(b, "unlogged", t->unlogged);
	e_cols(b, "columns", t->col, t->cols);
	encode_raw(b, "indexes", 7); encode_array(b); for (int i = 0; i < t->idxs; i++) e_index(b, &t->idx[i]); encode_array_end(b);
	encode_raw(b, "partitions", 10); encode_obj(b); e_int(b, "partitions", t->parts); e_vols(b, t->vol, t->vols); encode_obj_end(b);
	encode_raw(b, "tiers", 5); encode_array(b); for (int i = 0; i < t->tiers; i++) e_tier(b, &t->tier[i]); encode_array_end(b);
	encode_obj_end(b);
}
static void e_udf(Buf* b, MUdf* u)
{
	encode_obj(b); e_str(b, "db", u->db); e_str(b, "name", u->name); e_str(b, "text", u->text); e_int(b, "type", u->type);
	e_cols(b, "args", u->arg, u->args); e_cols(b, "returning", u->ret, u->rets); encode_obj_end(b);
}
static void e_storage(Buf* b, MStorage* s) { encode_obj(b); e_str(b, "name", s->name); e_str(b, "path", s->path); e_str(b, "compression", s->comp); e_int(b, "compression_level", s->level); encode_obj_end(b); }
static void e_db(Buf* b, const char* n) { encode_obj(b); e_str(b, "name", n); encode_obj_end(b); }

static bool same_ci(const char* a, const char* b) { return strcasecmp(a, b) == 0; }
static MStorage* f_storage(const char* n) { for (int i = 0; i < m.sts; i++) if (same_ci(m.st[i].name, n)) return &m.st[i]; return NULL; }
static int f_db(const char* n) { for (int i = 0; i < m.dbs; i++) if (same_ci(m.db[i], n)) return i; return -1; }
static MTable* f_table(const char* db, const char* n) { for (int i = 0; i < m.ts; i++) if (same_ci(m.t[i].db, db) && same_ci(m.t[i].name, n)) return &m.t[i]; return NULL; }
static MUdf* f_udf(const char* db, const char* n) { for (int i = 0; i < m.us; i++) if (same_ci(m.u[i].db, db) && same_ci(m.u[i].name, n)) return &m.u[i]; return NULL; }
static MCol* f_col(MTable* t, const char* n) { for (int i = 0; i < t->cols; i++) if (! t->col[i].dropped && same_ci(t->col[i].name, n)) return &t->col[i]; return NULL; }
static MIdx* f_idx(MTable* t, const char* n) { for (int i = 0; i < t->idxs; i++) if (same_ci(t->idx[i].name, n)) return &t->idx[i]; return NULL; }
static MTier* f_tier(MTable* t, const char* n) { for (int i = 0; i < t->tiers; i++) if (! strcmp(t->tier[i].name, n)) return &t->tier[i]; return NULL; }
static MVol* f_vol(MTier* t, const char* n) { for (int i = 0; i < t->vols; i++) if (! strcmp(t->vol[i].name, n)) return &t->vol[i]; return NULL; }
static int storage_refs(const char* n)
{
	int r = 0;
	for (int i = 0; i < m.ts; i++) {
		for (int j = 0; j < m.t[i].vols; j++) r += same_ci(m.t[i].vol[j].name, n);
		for (int k = 0; k < m.t[i].tiers; k++) for (int j = 0; j < m.t[i].tier[k].vols; j++) r += same_ci(m.t[i].tier[k].vol[j].name, n);
	}
	return r;
}
static int col_refs(MTable* t, MCol* c)
{
	int r = 0, order = c - t->col;
	for (int i = 0; i < t->idxs; i++) for (int j = 0; j < t->idx[i].keys; j++) r += t->idx[i].key[j] == order;
	return r;
}
// functions: the text is a list of names of relations of the same database
static bool text_has(const char* text, const char* name)
{
	int n = strlen(name);
	for (const char* p = text; *p;) {
		const char* e = strchrnul(p, ' ');
		if (e - p == n && ! strncasecmp(p, name, n)) return true;
		p = *e ? e + 1 : e;
	}
	return false;
}
// 1: a function of the same database depends on it; 2: only of another one
static int depends(const char* db, const char* name)
{
	int r = 0;
	for (int i = 0; i < m.us; i++) if (text_has(m.u[i].text, name)) { if (same_ci(m.u[i].db, db)) return 1; r = 2; }
	return r;
}
// code under test -----------------------------------------------------------
static Catalog cat;
static bool cat_active;
static int compiled;
static void udf_compile(Catalog* c, Udf* udf)
{
	auto t = &udf->config->text;
	char* text = strndup(str_of(t), str_size(t));
	bool fail = false; char missing[NAME] = "";
	for (char* p = strtok(text, " "); p; p = strtok(NULL, " ")) {
		if (! strcmp(p, "!")) { fail = true; break; }
		Str n = S(p);
		if (same_ci(p, "nothing")) continue;
		if (! table_mgr_find(&c->table_mgr, &udf->config->db, &n, false) && ! udf_mgr_find(&c->udf_mgr, &udf->config->db, &n, false)) { fail = true; snprintf(missing, sizeof(missing), "%s", p); break; }
	}
	free(text);
	if (fail) error("relation %s not found", missing);
	udf->data = strndup(str_of(t), str_size(t)); compiled++;
}
static void udf_release(Udf* udf) { if (udf->data) { compiled--; free(udf->data); udf->data = NULL; } }
static bool udf_depends(Udf* udf, Str* name)
{
	char n[64]; snprintf(n, sizeof(n), "%.*s", str_size(name), str_of(name));
	return text_has(udf->data, n);
}
static CatalogIf cat_if = { udf_compile, udf_release, udf_depends };
static void attach(PartMgr* p) { list_foreach(&p->list) part_open(list_at(Part, link)); }
static void detach(PartMgr* p) { unused(p); }
static PartMgrIf part_if = { attach, detach };
static void cat_open(bool bootstrap)
{
	catalog_init(&cat, &cat_if, NULL, &part_if, NULL); cat_active = true;
	catalog_open(&cat, bootstrap);
}
static void cat_close(void)
{
	if (! cat_active) return;
	catalog_close(&cat); cat_active = false;
	pbt_check(compiled == 0, "%d compiled functions were not freed", compiled); compiled = 0;
}
// comparison ---------------------------------------------------------------
static void expect_same(char* have, char* want, const char* when, const char* what)
{
	pbt_check(! strcmp(have, want), "%s: %s is\n  %s\nexpected\n  %s", when, what, have, want);
	free(have); free(want);
}
#define CMP(when, what, REAL, WANT) do { auto r_ = buf_create(); auto w_ = buf_create(); { auto b = r_; REAL; } { auto b = w_; WANT; } expect_same(canon_buf(r_, false), canon_buf(w_, false), when, what); buf_free(r_); buf_free(w_); } while (0)
static void dirs_check(const char* when)
{
	// the storage directory has exactly the volumes of the model
	static Uuid* want[400]; static bool ext[400]; int n = 0;
	for (int i = 0; i < m.ts; i++) {
		auto t = &m.t[i];
		for (int j = 0; j < t->vols; j++) { ext[n] = f_storage(t->vol[j].name)->path[0]; want[n++] = &t->vol[j].id; }
		for (int k = 0; k < t->tiers; k++) for (int j = 0; j < t->tier[k].vols; j++) { ext[n] = f_storage(t->tier[k].vol[j].name)->path[0]; want[n++] = &t->tier[k].vol[j].id; }
	}
	char path[1200]; int exts = 0;
	for (int i = 0; i < n; i++) {
		char id[UUID_SZ]; uuid_get(want[i], id, sizeof(id));
		snprintf(path, sizeof(path), "%s/storage/%s", base_dir, id);
		struct stat st; pbt_check(lstat(path, &st) == 0, "%s: the volume %s has no directory", when, id);
		pbt_check(S_ISLNK(st.st_mode) == ext[i] && stat(path, &st) == 0 && S_ISDIR(st.st_mode), "%s: the directory of the volume %s is in the wrong place", when, id);
		exts += ext[i];
	}
	for (int k = 0; k < 2; k++) {
		if (k) snprintf(path, sizeof(path), "%s/ext", base_dir); else snprintf(path, sizeof(path), "%s/storage", base_dir);
		DIR* d = opendir(path); if (! d) { pbt_check(k && ! exts, "%s: no directory %s", when, path); continue; }
		int have = 0; struct dirent* e; char last[256] = "";
		while ((e = readdir(d))) if (e->d_name[0] != '.') {
			have++; int i;
			for (i = 0; i < n; i++) { char id[UUID_SZ]; uuid_get(want[i], id, sizeof(id)); if (! strcmp(id, e->d_name)) break; }
			if (i == n) snprintf(last, sizeof(last), "%s", e->d_name);
		}
		closedir(d);
		pbt_check(! *last && have == (k ? exts : n), "%s: the directory %s has %d entries, expected %d (%s belongs to nothing)", when, path, have, k ? exts : n, last);
	}
}
static int list_len(List* l) { int n = 0; list_foreach(l) n++; return n; }
static void verify(const char* when, bool files)
{
	char what[80];
	// storages
	pbt_check(list_len(&cat.storage_mgr.mgr.list) == m.sts && cat.storage_mgr.mgr.list_count == m.sts, "%s: %d storages (%d), expected %d", when, list_len(&cat.storage_mgr.mgr.list), cat.storage_mgr.mgr.list_count, m.sts);
	for (int i = 0; i < m.sts; i++) {
		Str n = S(m.st[i].name); auto s = storage_mgr_find(&cat.storage_mgr, &n, false);
		pbt_check(s, "%s: no storage %s", when, m.st[i].name);
		snprintf(what, sizeof(what), "storage %s", m.st[i].name);
		CMP(when, what, storage_config_write(s->config, b, 0), e_storage(b, &m.st[i]));
		pbt_check(s->config->system == m.st[i].system, "%s: %s system flag", when, what);
		pbt_check(s->refs == storage_refs(m.st[i].name), "%s: %s has %d references, expected %d", when, what, s->refs, storage_refs(m.st[i].name));
	}
	// databases
	pbt_check(list_len(&cat.db_mgr.mgr.list) == m.dbs && cat.db_mgr.mgr.list_count == m.dbs, "%s: %d databases, expected %d", when, list_len(&cat.db_mgr.mgr.list), m.dbs);
	for (int i = 0; i < m.dbs; i++) {
		Str n = S(m.db[i]); auto d = database_mgr_find(&cat.db_mgr, &n, false);
		pbt_check(d, "%s: no database %s", when, m.db[i]);
		CMP(when, "database", database_config_write(d->config, b, 0), e_db(b, m.db[i]));
		pbt_check(d->config->system == (i == 0), "%s: database %s system flag", when, m.db[i]);
	}
	// tables
	pbt_check(list_len(&cat.table_mgr.mgr.list) == m.ts && cat.table_mgr.mgr.list_count == m.ts, "%s: %d tables, expected %d", when, list_len(&cat.table_mgr.mgr.list), m.ts);
	int secondary = 0;
	for (int i = 0; i < m.ts; i++) {
		auto t = &m.t[i]; Str db = S(t->db), n = S(t->name);
		auto table = table_mgr_find(&cat.table_mgr, &db, &n, false);
		snprintf(what, sizeof(what), "table %s.%s", t->db, t->name);
		pbt_check(table, "%s: no %s", when, what);
		CMP(when, what, table_config_write(table->config, b, 0), e_table(b, t));
		pbt_check(table_mgr_find_by(&cat.table_mgr, &t->id, false) == table, "%s: %s is not found by its id", when, what);
		pbt_check(table->part_arg.unlogged == t->unlogged, "%s: %s partitions are unlogged: %d, expected %d", when, what, table->part_arg.unlogged, t->unlogged);
		pbt_check(sequence_get(&table->seq) == t->seq, "%s: %s identity is %" PRIu64 ", expected %" PRIu64, when, what, sequence_get(&table->seq), t->seq);
		pbt_check(table->config->indexes_count == t->idxs && table->config->tiers_count == t->tiers && table->tier_mgr.list_count == t->tiers, "%s: %s counts", when, what);
		// columns
		int stored = 0, resolved = 0, identity = -1, order = 0;
		for (int j = 0; j < t->cols; j++) { stored += t->col[j].stored[0] != 0; resolved += t->col[j].resolved[0] != 0; if (identity < 0 && t->col[j].identity) identity = j; }
		auto c = &table->config->columns;
		pbt_check(c->count == t->cols && c->count_stored == stored && c->count_resolved == resolved, "%s: %s column counts %d/%d/%d, expected %d/%d/%d", when, what, c->count, c->count_stored, c->count_resolved, t->cols, stored, resolved);
		pbt_check((c->identity ? c->identity->order : -1) == identity, "%s: %s identity column %d, expected %d", when, what, c->identity ? c->identity->order : -1, identity);
		list_foreach(&c->list) {
			auto col = list_at(Column, link);
			pbt_check(col->order == order, "%s: %s column order", when, what);
			pbt_check(col->refs == col_refs(t, &t->col[order]), "%s: %s column %s has %d key references, expected %d", when, what, t->col[order].name, col->refs, col_refs(t, &t->col[order]));
			order++;
		}
		// partitions and their indexes
		pbt_check(table->part_mgr.list_count == t->parts && list_len(&table->part_mgr.list) == t->parts, "%s: %s has %d partitions, expected %d", when, what, table->part_mgr.list_count, t->parts);
		secondary += t->idxs - 1;
		int order_i = 0;
		list_foreach(&table->config->indexes) {
			auto x = list_at(IndexConfig, link);
			pbt_check(x->keys.primary == (order_i == 0), "%s: %s index %s keys primary flag", when, what, t->idx[order_i].name);
			order_i++;
		}
		list_foreach(&table->part_mgr.list) {
			auto part = list_at(Part, link); int k = 0;
			for (auto x = part->indexes; x; x = x->next, k++) {
				pbt_check(k < t->idxs, "%s: %s a partition has more than %d indexes", when, what, t->idxs);
				pbt_check(str_is_case(&x->config->name, t->idx[k].name, strlen(t->idx[k].name)), "%s: %s index %d of a partition is %s, expected %s", when, what, k, show(str_of(&x->config->name), str_size(&x->config->name)), t->idx[k].name);
			}
			pbt_check(k == t->idxs && part->indexes_count == k, "%s: %s a partition has %d indexes, expected %d", when, what, k, t->idxs);
		}
		// tiers
		int ti = 0;
		list_foreach(&table->tier_mgr.list) {
			auto tier = list_at(Tier, link); auto mt = &t->tier[ti++]; int objects = 0;
			Str tn = S(mt->name);
			pbt_check(tier_mgr_find(&table->tier_mgr, &tn) == tier, "%s: %s tier %s is not found", when, what, mt->name);
			for (int j = 0; j < mt->vols; j++) {
				Str vn = S(mt->vol[j].name); auto v = volume_mgr_find(&tier->config->volumes, &vn);
				pbt_check(v && v->storage && str_is_case(&v->storage->config->name, mt->vol[j].name, strlen(mt->vol[j].name)), "%s: %s tier %s volume %s has no storage", when, what, mt->name, mt->vol[j].name);
				pbt_check(v->list_count == mt->vol[j].objects, "%s: %s tier %s volume %s has %d objects, expected %d", when, what, mt->name, mt->vol[j].name, v->list_count, mt->vol[j].objects);
				objects += mt->vol[j].objects;
			}
			pbt_check(tier->list_count == objects, "%s: %s tier %s has %d objects, expected %d", when, what, mt->name, tier->list_count, objects);
		}
	}
	// functions
	pbt_check(list_len(&cat.udf_mgr.mgr.list) == m.us && cat.udf_mgr.mgr.list_count == m.us, "%s: %d functions, expected %d", when, list_len(&cat.udf_mgr.mgr.list), m.us);
	for (int i = 0; i < m.us; i++) {
		auto u = &m.u[i]; Str db = S(u->db), n = S(u->name);
		auto udf = udf_mgr_find(&cat.udf_mgr, &db, &n, false);
		snprintf(what, sizeof(what), "function %s.%s", u->db, u->name);
		pbt_check(udf, "%s: no %s", when, what);
		CMP(when, what, udf_config_write(udf->config, b, 0), e_udf(b, u));
		pbt_check(udf->data && ! strcmp(udf->data, u->text), "%s: %s runs '%s', expected '%s'", when, what, (char*)udf->data, u->text);
	}
	pbt_check(compiled == m.us, "%s: %d compiled functions, expected %d", when, compiled, m.us);
	// lists
	if (m.ts) {
		auto t = &m.t[PICK(m.ts)]; Str db = S(t->db), n = S(t->name);
		auto r = table_mgr_list(&cat.table_mgr, &db, NULL, 0); auto w = buf_create();
		encode_array(w); for (int i = 0; i < m.ts; i++) if (same_ci(m.t[i].db, t->db)) e_table(w, &m.t[i]); encode_array_end(w);
		expect_same(canon_buf(r, true), canon_buf(w, true), when, "list of tables"); buf_free(r); buf_free(w);
		auto table = table_mgr_find(&cat.table_mgr, &db, &n, true);
		r = table_index_list(table, NULL, 0); w = buf_create(); encode_array(w); for (int i = 0; i < t->idxs; i++) e_index(w, &t->idx[i]); encode_array_end(w);
		expect_same(canon_buf(r, true), canon_buf(w, true), when, "list of indexes"); buf_free(r); buf_free(w);
		r = table_tier_list(table, NULL, 0); w = buf_create(); encode_array(w); for (int i = 0; i < t->tiers; i++) e_tier(w, &t->tier[i]); encode_array_end(w);
		expect_same(canon_buf(r, true), canon_buf(w, true), when, "list of tiers"); buf_free(r); buf_free(w);
	}
	auto r = catalog_status(&cat); auto w = buf_create();
	encode_obj(w); e_int(w, "storages", m.sts); e_int(w, "databases", m.dbs); e_int(w, "tables", m.ts); e_int(w, "secondary_indexes", secondary); encode_obj_end(w);
	expect_same(canon_buf(r, false), canon_buf(w, false), when, "status"); buf_free(r); buf_free(w);
	if (files) dirs_check(when);
}
// statements ---------------------------------------------------------------
static const char* table_names[] = { "a", "b", "c", "Case" };
static const char* udf_names[] = { "f", "g", "h", "a" };
static const char* db_names[] = { "main", "d1", "d2", "d3" };
static const char* st_names[] = { "main", "s1", "s2", "s3", "s4", "s5" };
static const char* col_names[] = { "c0", "c1", "c2", "id", "Name", "k" };
static const char* idx_names[] = { "i1", "i2", "i3", "primary" };
static const char* tier_names[] = { "t1", "t2", "t3" };
#define ANYOF(a) (a[PICK(NELEM(a))])
// the name of an object, in any letter case
static const char* spell(const char* n)
{
	static char t[8][NAME]; static int i; char* o = t[i++ & 7];
	snprintf(o, NAME, "%s", n);
	if (PICK(4) == 0) for (char* p = o; *p; p++) *p = PICK(2) ? toupper(*p) : tolower(*p);
	return o;
}
static const char* db_any(void) { return PICK(3) ? m.db[PICK(m.dbs)] : ANYOF(db_names); }
static void col_gen(MCol* c, bool plain)
{
	memset(c, 0, sizeof(*c));
	snprintf(c->name, NAME, "%s", ANYOF(col_names));
	static const struct { int type, size; } ty[] = { { TYPE_INT, 8 }, { TYPE_INT, 4 }, { TYPE_STRING, 0 }, { TYPE_UUID, 16 }, { TYPE_TIMESTAMP, 8 }, { TYPE_BOOL, 1 }, { TYPE_DOUBLE, 8 }, { TYPE_JSON, 0 }, { TYPE_VECTOR, 0 }, { TYPE_INTERVAL, 16 }, { TYPE_DATE, 4 } };
	int i = PICK(NELEM(ty)); c->type = ty[i].type; c->size = ty[i].size;
	c->modulo = INT64_MAX;
	if (plain) return;
	c->not_null = PICK(2);
	if (PICK(4) == 0) { static const char* ex[] = { "c0 + 1", "\"q\" || '\\'", "a\nb\tc", "\xd0\x96", "{}[]" }; snprintf(PICK(2) ? c->stored : c->resolved, 48, "%s", ANYOF(ex)); }
	if (PICK(3) == 0) { c->def_n = 1 + PICK(23); pbt_bytes(c->def, c->def_n); }
}
static void col_set(Column* c, MCol* x)
{
	Str s = S(x->name); column_set_name(c, &s); column_set_type(c, x->type, x->size); column_set_dropped(c, x->dropped);
	auto k = &c->constraints;
	constraints_set_not_null(k, x->not_null); constraints_set_as_identity(k, x->identity); constraints_set_as_identity_modulo(k, x->modulo);
	s = S(x->stored); constraints_set_as_stored(k, &s); s = S(x->resolved); constraints_set_as_resolved(k, &s);
	str_set(&s, x->def, x->def_n); constraints_set_default_str(k, &s);
}
static void vol_gen(MVol* v, const char* st) { memset(v, 0, sizeof(*v)); snprintf(v->name, NAME, "%s", st); v->id = uuid_next(); }
static int vols_gen(MVol* v, bool* bad)
{
	int n = 0; int want = 1 + (PICK(3) == 0) + (PICK(5) == 0);
	bool used[NELEM(st_names)] = { 0 };
	for (int i = 0; i < want; i++) {
		int k = PICK(3) ? 0 : PICK(NELEM(st_names)); if (PICK(8) && ! f_storage(st_names[k])) { k = 0; if (m.sts > 1 && PICK(2)) { const char* e = m.st[1 + PICK(m.sts - 1)].name; for (int q = 1; q < NELEM(st_names); q++) if (! strcmp(st_names[q], e)) k = q; } }
		if (used[k]) continue;
		used[k] = true;
		vol_gen(&v[n++], st_names[k]);
		auto s = f_storage(st_names[k]); if (! s || s->broken) *bad = true;
	}
	return n;
}
static Volume* vol_make(MVol* x) { auto v = volume_allocate(); Str s = S(x->name); volume_set_name(v, &s); volume_set_id(v, &x->id); volume_set_pause(v, x->pause); return v; }
static void tier_gen(MTier* t, bool* bad)
{
	memset(t, 0, sizeof(*t)); snprintf(t->name, NAME, "%s", ANYOF(tier_names));
	t->region = PICK(2) ? 64 * 1024 : 1 + pbt_pick(1u << 30); t->object = PICK(2) ? 64 << 20 : PICK(2) ? 1 + pbt_pick(1u << 30) : 1 + pbt_pick(1ull << 40);
	t->vols = vols_gen(t->vol, bad);
	t->vol[0].objects = 1; // a new tier has one empty object
}
static TierConfig* tier_make(MTier* t)
{
	auto c = tier_config_allocate(); Str s = S(t->name); tier_config_set_name(c, &s); c->region_size = t->region; c->object_size = t->object;
	for (int i = 0; i < t->vols; i++) volume_mgr_add(&c->volumes, vol_make(&t->vol[i]));
	return c;
}
static void idx_gen(MIdx* x, MTable* t, bool primary)
{
	memset(x, 0, sizeof(*x));
	snprintf(x->name, NAME, "%s", primary ? "primary" : ANYOF(idx_names)); x->primary = primary; x->unique = primary || PICK(2); x->type = PICK(2) ? INDEX_TREE : INDEX_HASH;
	for (int i = 0, n = 1 + PICK(3); i < n; i++) {
		int k = PICK(t->cols); bool dup = t->col[k].dropped;
		for (int j = 0; j < x->keys; j++) if (x->key[j] == k) dup = true;
		if (t->col[k].type != TYPE_INT && t->col[k].type != TYPE_STRING && t->col[k].type != TYPE_TIMESTAMP && t->col[k].type != TYPE_UUID && t->col[k].type != TYPE_DATE) dup = true;
		// key columns are always not null
		if (primary && ! dup) t->col[k].not_null = true;
		if (! t->col[k].not_null) dup = true;
		if (! dup) { x->key[x->keys] = k; x->asc[x->keys++] = PICK(4) != 0; }
	}
}
static IndexConfig* idx_make(MIdx* x, Columns* columns)
{
	auto c = index_config_allocate(columns); Str s = S(x->name);
	index_config_set_name(c, &s); index_config_set_unique(c, x->unique); index_config_set_primary(c, x->primary); index_config_set_type(c, x->type);
	for (int i = 0; i < x->keys; i++) { auto k = key_allocate(); key_set_ref(k, x->key[i]); key_set_asc(k, x->asc[i]); keys_add(&c->keys, k); }
	return c;
}
static bool table_gen(MTable* t)
{
	bool bad = false;
	memset(t, 0, sizeof(*t));
	snprintf(t->db, NAME, "%s", m.db[PICK(m.dbs)]); snprintf(t->name, NAME, "%s", ANYOF(table_names)); t->id = uuid_next(); t->unlogged = PICK(4) == 0;
	// first column is always a possible key
	col_gen(&t->col[0], true); t->col[0].type = PICK(2) ? TYPE_INT : TYPE_STRING; t->col[0].size = t->col[0].type == TYPE_INT ? 8 : 0; t->col[0].not_null = true; t->cols = 1;
	if (t->col[0].type == TYPE_INT && PICK(3) == 0) { t->col[0].identity = 1 + PICK(2); if (PICK(2)) t->col[0].modulo = 1 + pbt_pick(1ull << 40); }
	for (int n = PICK(5); n > 0; n--) { MCol c; col_gen(&c, false); if (! f_col(t, c.name)) t->col[t->cols++] = c; }
	idx_gen(&t->idx[0], t, true); if (! t->idx[0].keys) { t->idx[0].key[0] = 0; t->idx[0].keys = 1; t->idx[0].asc[0] = true; } t->idxs = 1;
	t->parts = PICK(12) == 0 ? (PICK(2) ? 0 : 8193) : 1 + PICK(3); if (t->parts < 1 || t->parts > 8192) bad = true;
	t->vols = vols_gen(t->vol, &bad);
	if (PICK(4) == 0) { tier_gen(&t->tier[0], &bad); t->tiers = 1; }
	return bad;
}
static TableConfig* table_make(MTable* t)
{
	auto c = table_config_allocate(); Str s;
	s = S(t->db); table_config_set_db(c, &s); s = S(t->name); table_config_set_name(c, &s); table_config_set_id(c, &t->id); table_config_set_unlogged(c, t->unlogged);
	for (int i = 0; i < t->cols; i++) { auto k = column_allocate(); col_set(k, &t->col[i]); columns_add(&c->columns, k); }
	for (int i = 0; i < t->idxs; i++) table_config_index_add(c, idx_make(&t->idx[i], &c->columns));
	part_mgr_config_set_partitions(&c->part_mgr_config, t->parts);
	for (int i = 0; i < t->vols; i++) volume_mgr_add(&c->part_mgr_config.volumes, vol_make(&t->vol[i]));
	for (int i = 0; i < t->tiers; i++) table_config_tier_add(c, tier_make(&t->tier[i]));
	return c;
}
static bool udf_gen(MUdf* u, const char* db)
{
	memset(u, 0, sizeof(*u)); bool bad = false;
	snprintf(u->db, NAME, "%s", db); snprintf(u->name, NAME, "%s", ANYOF(udf_names));
	char* o = u->text; o += sprintf(o, "nothing");
	for (int n = PICK(3); n > 0; n--) {
		// mostly something that exists
		const char* d = PICK(2) ? ANYOF(table_names) : ANYOF(udf_names);
		if (PICK(6)) { const char* e = NULL; for (int i = 0; i < m.ts; i++) if (same_ci(m.t[i].db, db) && (! e || PICK(2))) e = m.t[i].name; for (int i = 0; i < m.us; i++) if (same_ci(m.u[i].db, db) && (! e || PICK(2))) e = m.u[i].name; if (! e) continue; d = e; }
		o += sprintf(o, " %s", d);
		// the function itself exists while it is compiled
		if (! f_table(db, d) && ! f_udf(db, d) && ! same_ci(d, u->name)) bad = true;
	}
	if (PICK(10) == 0) { strcpy(o, " !"); bad = true; }
	u->type = PICK(2) ? TYPE_NULL : TYPE_INT;
	for (int n = PICK(3); n > 0; n--) col_gen(&u->arg[u->args++], true);
	for (int n = PICK(2); n > 0; n--) col_gen(&u->ret[u->rets++], true);
	return bad;
}
static UdfConfig* udf_make(MUdf* u)
{
	auto c = udf_config_allocate(); Str s;
	s = S(u->db); udf_config_set_db(c, &s); s = S(u->name); udf_config_set_name(c, &s); s = S(u->text); udf_config_set_text(c, &s); udf_config_set_type(c, u->type);
	for (int i = 0; i < u->args; i++) { auto k = column_allocate(); col_set(k, &u->arg[i]); columns_add(&c->args, k); }
	for (int i = 0; i < u->rets; i++) { auto k = column_allocate(); col_set(k, &u->ret[i]); columns_add(&c->returning, k); }
	return c;
}
static bool cols_types_same(MCol* a, int an, MCol* b, int bn) { if (an != bn) return false; for (int i = 0; i < an; i++) if (a[i].type != b[i].type) return false; return true; }

// log of committed statements since the last stored catalog
typedef struct { uint8_t* op; int64_t lsn; bool index; } Entry;
static Entry log_[400]; static int log_n; static int64_t lsn;
static void log_reset_all(void) { for (int i = 0; i < log_n; i++) free(log_[i].op); log_n = 0; }

enum { R_ERR, R_NO, R_YES, R_ANY };
static const char* r_name[] = { "an error", "no change", "a change", "anything" };
typedef struct { int expect; int kind; Buf op; int flags; bool index; char text[160]; Model* next; } Stmt_;

static bool exec_op(Tr* tr, uint8_t* op, int flags, bool index)
{
	if (! index) return catalog_execute(&cat, tr, op, flags);
	// the work of service_create_index() without rows
	Str db, name; auto pos = table_op_index_create_read(op, &db, &name);
	auto table = table_mgr_find(&cat.table_mgr, &db, &name, true);
	auto config = index_config_read(table_columns(table), &pos);
	keys_set_primary(&config->keys, false);
	if (table_index_find(table, &config->name, false)) {
		index_config_free(config);
		if (! ddl_if_not_exists(flags)) error("index exists");
		return false;
	}
	part_mgr_index_create(&table->part_mgr, config);
	table_index_add(table, tr, config);
	log_persist_relation(&tr->log, op);
	return true;
}
static void remove_at(void* base, int size, int* n, int i) { memmove((char*)base + size * i, (char*)base + size * (i + 1), (size_t)size * (*n - i - 1)); (*n)--; }

static Model next; // model after the statement
#define N_OF(p, t) ((p) - m.t), (void)(t)
static void step(void)
{
	// choose a statement, its outcome and the model after it
	Buf op; buf_init(&op);
	int flags = PICK(2) ? 0x3f : 0; bool may = flags; int expect = R_ERR; bool index = false;
	char text[200] = "";
	next = m;
	static MTable nt; static MUdf nu; static MTier ntier; static MIdx nidx; static MCol ncol; static MVol nvol;
	int kind = PICK(36); static const uint8_t extra[] = { 22, 25, 26, 27, 27, 21 }; if (kind >= 30) kind = extra[kind - 30];
	// table statements need a table
	const char* tdb = m.ts && PICK(8) ? m.t[PICK(m.ts)].db : db_any();
	const char* tn = ANYOF(table_names);
	if (PICK(8)) for (int i = 0, k = PICK(TABLES); i < m.ts; i++) { auto t = &m.t[(i + k) % m.ts]; if (same_ci(t->db, tdb)) { tn = t->name; break; } }
	MTable* t = f_table(tdb, tn); MTable* to = t ? &next.t[t - m.t] : NULL;
	tn = spell(tn); tdb = spell(tdb);
	Str sdb = S(tdb), stn = S(tn);
	int missing = may ? R_NO : R_ERR;
	const char* cn = ANYOF(col_names); if (t && PICK(6)) cn = t->col[PICK(t->cols)].name;
	MCol* c = t ? f_col(t, cn) : NULL; cn = spell(cn); Str scn = S(cn);
	const char* in = ANYOF(idx_names); if (t && PICK(6)) in = t->idx[PICK(t->idxs)].name;
	MIdx* x = t ? f_idx(t, in) : NULL; in = spell(in); Str sin = S(in);
	const char* rn = ANYOF(tier_names); if (t && t->tiers && PICK(6)) rn = t->tier[PICK(t->tiers)].name;
	MTier* r = t ? f_tier(t, rn) : NULL; MTier* ro = r ? &to->tier[r - t->tier] : NULL; Str srn = S(rn);
	int dep = depends(tdb, tn);
	if (m.ts < 2 && kind > 8 && PICK(3)) kind = 6;
	else if (t && ! t->tiers && kind > 24 && kind < 28 && PICK(4)) kind = 24;
	switch (kind) {
	case 0: { // create storage
		if (m.sts == STORAGES) return;
		auto s = &next.st[next.sts]; memset(s, 0, sizeof(*s));
		snprintf(s->name, NAME, "%s", ANYOF(st_names));
		int p = PICK(5);
		if (p < 2) snprintf(s->path, sizeof(s->path), "%s/ext", base_dir);
		if (p == 2) { s->broken = true; snprintf(s->path, sizeof(s->path), "%s/none/such", base_dir); }
		snprintf(s->comp, 8, "%s", PICK(2) ? "zstd" : ""); s->level = PICK(3) ? 0 : PICK(20) - 5;
		auto k = storage_config_allocate(); Str v; v = S(s->name); storage_config_set_name(k, &v); v = S(s->path); storage_config_set_path(k, &v); v = S(s->comp); storage_config_set_compression(k, &v); storage_config_set_compression_level(k, s->level);
		storage_op_create(&op, k); storage_config_free(k);
		snprintf(text, sizeof(text), "create storage %s path '%s'", s->name, s->path);
		expect = f_storage(s->name) ? missing : R_YES; next.sts++;
		break; }
	case 1: { // drop storage
		const char* n = PICK(4) ? m.st[PICK(m.sts)].name : ANYOF(st_names); auto s = f_storage(n); const char* sp = spell(n); Str v = S(sp);
		storage_op_drop(&op, &v); snprintf(text, sizeof(text), "drop storage %s", sp);
		expect = ! s ? missing : s->system || storage_refs(n) ? R_ERR : R_YES;
		if (expect == R_YES) remove_at(next.st, sizeof(MStorage), &next.sts, s - m.st);
		break; }
	case 2: { // rename storage
		const char* n = PICK(4) ? m.st[PICK(m.sts)].name : ANYOF(st_names); auto s = f_storage(n); const char* to_n = ANYOF(st_names); const char* sp = spell(n); Str v = S(sp), w = S(to_n);
		storage_op_rename(&op, &v, &w); snprintf(text, sizeof(text), "rename storage %s to %s", sp, to_n);
		expect = ! s ? missing : s->system || storage_refs(n) || f_storage(to_n) ? R_ERR : R_YES;
		if (expect == R_YES) snprintf(next.st[s - m.st].name, NAME, "%s", to_n);
		break; }
	case 3: { // create db
		if (m.dbs == DBS) return;
		const char* n = ANYOF(db_names); auto k = database_config_allocate(); Str v = S(n); database_config_set_name(k, &v); database_op_create(&op, k); database_config_free(k);
		snprintf(text, sizeof(text), "create database %s", n);
		expect = f_db(n) >= 0 ? missing : R_YES; snprintf(next.db[next.dbs++], NAME, "%s", n);
		break; }
	case 4: { // drop db
		const char* n = db_any(); int i = f_db(n); const char* sp = spell(n); bool cascade = PICK(2); Str v = S(sp);
		database_op_drop(&op, &v, cascade); snprintf(text, sizeof(text), "drop database %s%s", sp, cascade ? " cascade" : "");
		int deps = 0;
		for (int j = 0; j < m.ts; j++) deps += same_ci(m.t[j].db, n);
		for (int j = 0; j < m.us; j++) deps += same_ci(m.u[j].db, n);
		expect = i < 0 ? missing : i == 0 || (deps && ! cascade) ? R_ERR : R_YES;
		if (expect == R_YES) {
			for (int j = next.ts - 1; j >= 0; j--) if (same_ci(next.t[j].db, n)) remove_at(next.t, sizeof(MTable), &next.ts, j);
			for (int j = next.us - 1; j >= 0; j--) if (same_ci(next.u[j].db, n)) remove_at(next.u, sizeof(MUdf), &next.us, j);
			remove_at(next.db, NAME, &next.dbs, i);
		}
		break; }
	case 5: { // rename db
		const char* n = db_any(); int i = f_db(n); const char* to_n = ANYOF(db_names); const char* sp = spell(n); Str v = S(sp), w = S(to_n);
		database_op_rename(&op, &v, &w); snprintf(text, sizeof(text), "rename database %s to %s", sp, to_n);
		int udfs = 0; for (int j = 0; j < m.us; j++) udfs += same_ci(m.u[j].db, n);
		expect = i < 0 ? missing : i == 0 || udfs || f_db(to_n) >= 0 ? R_ERR : R_YES;
		if (expect == R_YES) {
			snprintf(next.db[i], NAME, "%s", to_n);
			for (int j = 0; j < next.ts; j++) if (same_ci(next.t[j].db, n)) snprintf(next.t[j].db, NAME, "%s", to_n);
		}
		break; }
	case 6: case 7: case 8: { // create table
		if (m.ts == TABLES) return;
		bool bad = table_gen(&nt); auto k = table_make(&nt); table_op_create(&op, k); table_config_free(k);
		snprintf(text, sizeof(text), "create table %s.%s (%d columns, %d partitions, %d tiers)", nt.db, nt.name, nt.cols, nt.parts, nt.tiers);
		expect = f_table(nt.db, nt.name) ? missing : bad ? R_ERR : R_YES; next.t[next.ts++] = nt;
		break; }
	case 9: // drop table
		table_op_drop(&op, &sdb, &stn); snprintf(text, sizeof(text), "drop table %s.%s", tdb, tn);
		expect = dep == 1 ? R_ERR : dep == 2 ? R_ANY : ! t ? missing : R_YES;
		if (t) remove_at(next.t, sizeof(MTable), &next.ts, t - m.t);
		break;
	case 10: case 11: { // rename table
		const char* ndb = PICK(2) ? tdb : db_any(); const char* nn = ANYOF(table_names); Str v = S(ndb), w = S(nn);
		table_op_rename(&op, &sdb, &stn, &v, &w); snprintf(text, sizeof(text), "rename table %s.%s to %s.%s", tdb, tn, ndb, nn);
		expect = f_db(ndb) < 0 || dep == 1 ? R_ERR : dep == 2 ? R_ANY : ! t ? missing : f_table(ndb, nn) ? R_ERR : R_YES;
		if (dep == 2 && (! t || f_table(ndb, nn))) expect = ! t && may ? R_ANY : R_ERR;
		if (to) { if (! same_ci(to->db, ndb)) snprintf(to->db, NAME, "%s", ndb); if (! same_ci(to->name, nn)) snprintf(to->name, NAME, "%s", nn); }
		break; }
	case 12: // truncate
		table_op_truncate(&op, &sdb, &stn); snprintf(text, sizeof(text), "truncate table %s.%s", tdb, tn);
		expect = ! t ? missing : R_YES;
		if (to) for (int i = 0; i < to->tiers; i++) for (int j = 0; j < to->tier[i].vols; j++) to->tier[i].vol[j].objects = 0;
		break;
	case 13: { // set identity
		int64_t v = pbt_pick(1ull << 50); table_op_set_identity(&op, &sdb, &stn, v); snprintf(text, sizeof(text), "table %s.%s set identity %" PRIi64, tdb, tn, v);
		expect = ! t ? missing : R_YES; if (to) to->seq = v;
		break; }
	case 14: { // set unlogged
		bool v = PICK(2); table_op_set_unlogged(&op, &sdb, &stn, v); snprintf(text, sizeof(text), "table %s.%s set %s", tdb, tn, v ? "unlogged" : "logged");
		expect = ! t ? missing : R_YES; if (to) to->unlogged = v;
		break; }
	case 15: case 16: { // column add
		if (t && t->cols == MC) return;
		col_gen(&ncol, false); if (PICK(4) == 0) { ncol.type = TYPE_INT; ncol.size = 8; ncol.identity = 1 + PICK(2); }
		auto k = column_allocate(); col_set(k, &ncol); table_op_column_add(&op, &sdb, &stn, k); column_free(k);
		snprintf(text, sizeof(text), "table %s.%s add column %s", tdb, tn, ncol.name);
		bool ident = false; if (t) for (int i = 0; i < t->cols; i++) ident |= t->col[i].identity != 0;
		expect = ! t || f_col(t, ncol.name) ? missing : ident && ncol.identity ? R_ERR : R_YES;
		if (to) to->col[to->cols++] = ncol;
		break; }
	case 17: { // column drop
		table_op_column_drop(&op, &sdb, &stn, &scn); snprintf(text, sizeof(text), "table %s.%s drop column %s", tdb, tn, cn);
		expect = dep == 1 ? R_ERR : dep == 2 ? R_ANY : ! t || ! c ? missing : col_refs(t, c) ? R_ERR : R_YES;
		if (dep == 2 && c && col_refs(t, c)) expect = R_ERR;
		if (c) { auto k = &to->col[c - t->col]; char n[NAME]; strcpy(n, k->name); int ty = k->type, sz = k->size; memset(k, 0, sizeof(*k)); strcpy(k->name, n); k->type = ty; k->size = sz; k->dropped = true; k->modulo = INT64_MAX; }
		break; }
	case 18: { // column rename
		const char* nn = ANYOF(col_names); Str w = S(nn);
		table_op_column_rename(&op, &sdb, &stn, &scn, &w); snprintf(text, sizeof(text), "table %s.%s rename column %s to %s", tdb, tn, cn, nn);
		expect = dep == 1 ? R_ERR : dep == 2 ? R_ANY : ! t || ! c ? missing : f_col(t, nn) ? R_ERR : R_YES;
		if (dep == 2 && c && f_col(t, nn)) expect = R_ERR;
		if (c) snprintf(to->col[c - t->col].name, NAME, "%s", nn);
		break; }
	case 19: case 20: { // column set
		int w = PICK(3); static const int cmds[] = { DDL_TABLE_COLUMN_SET_DEFAULT, DDL_TABLE_COLUMN_SET_STORED, DDL_TABLE_COLUMN_SET_RESOLVED };
		char v[24]; int n = PICK(4) ? 1 + PICK(20) : 0; if (w == 0) pbt_bytes(v, n); else for (int i = 0; i < n; i++) v[i] = "abc01 +'\"\\\n"[PICK(11)];
		Str s; str_set(&s, v, n);
		table_op_column_set(&op, cmds[w], &sdb, &stn, &scn, &s); snprintf(text, sizeof(text), "table %s.%s column %s set %d to %d bytes", tdb, tn, cn, w, n);
		expect = ! t || ! c ? missing : R_YES;
		if (c) { auto k = &to->col[c - t->col]; if (w == 0) { memcpy(k->def, v, n); k->def_n = n; } else { char* d = w == 1 ? k->stored : k->resolved; memcpy(d, v, n); d[n] = 0; } }
		break; }
	case 21: { // create index
		if (! t || t->idxs == MI) return;
		idx_gen(&nidx, t, false); if (! nidx.keys) return;
		auto table = table_mgr_find(&cat.table_mgr, &sdb, &stn, true);
		auto k = idx_make(&nidx, table_columns(table)); table_op_index_create(&op, &sdb, &stn, k); index_config_free(k);
		snprintf(text, sizeof(text), "create index %s on %s.%s", nidx.name, tdb, tn); index = true;
		expect = f_idx(t, nidx.name) ? missing : R_YES;
		to->idx[to->idxs++] = nidx;
		break; }
	case 22: // drop index
		table_op_index_drop(&op, &sdb, &stn, &sin); snprintf(text, sizeof(text), "drop index %s on %s.%s", in, tdb, tn);
		expect = dep == 1 || ! t ? R_ERR : ! x ? missing : x == t->idx ? R_ERR : R_YES;
		if (dep == 2 && expect != R_ERR) expect = R_ANY;
		if (x && x != t->idx) remove_at(to->idx, sizeof(MIdx), &to->idxs, x - t->idx);
		break;
	case 23: { // rename index
		const char* nn = ANYOF(idx_names); Str w = S(nn);
		table_op_index_rename(&op, &sdb, &stn, &sin, &w); snprintf(text, sizeof(text), "rename index %s on %s.%s to %s", in, tdb, tn, nn);
		expect = dep == 1 || ! t ? R_ERR : ! x ? missing : f_idx(t, nn) ? R_ERR : R_YES;
		if (dep == 2 && expect != R_ERR) expect = R_ANY;
		if (x) snprintf(to->idx[x - t->idx].name, NAME, "%s", nn);
		break; }
	case 24: { // create tier
		if (t && t->tiers == MT) return;
		bool bad = false; tier_gen(&ntier, &bad); auto k = tier_make(&ntier); table_op_tier_create(&op, &sdb, &stn, k); tier_config_free(k);
		snprintf(text, sizeof(text), "create tier %s on %s.%s (%d volumes)", ntier.name, tdb, tn, ntier.vols);
		expect = ! t ? R_ERR : f_tier(t, ntier.name) ? missing : bad ? R_ERR : R_YES;
		if (to) to->tier[to->tiers++] = ntier;
		break; }
	case 25: { // drop or rename tier
		if (PICK(2)) {
			table_op_tier_drop(&op, &sdb, &stn, &srn); snprintf(text, sizeof(text), "drop tier %s on %s.%s", rn, tdb, tn);
			expect = ! t ? R_ERR : ! r ? missing : R_YES; if (r) remove_at(to->tier, sizeof(MTier), &to->tiers, r - t->tier);
		} else {
			const char* nn = ANYOF(tier_names); Str w = S(nn);
			table_op_tier_rename(&op, &sdb, &stn, &srn, &w); snprintf(text, sizeof(text), "rename tier %s on %s.%s to %s", rn, tdb, tn, nn);
			expect = ! t ? R_ERR : ! r ? missing : f_tier(t, nn) ? R_ERR : R_YES; if (r) snprintf(ro->name, NAME, "%s", nn);
		}
		break; }
	case 26: { // tier set, storage pause
		if (PICK(2)) {
			bool bad; MTier v; tier_gen(&v, &bad); v.vols = 0; snprintf(v.name, NAME, "%s", rn); int mask = PICK(4); auto k = tier_make(&v);
			table_op_tier_set(&op, &sdb, &stn, k, mask); tier_config_free(k);
			snprintf(text, sizeof(text), "tier %s on %s.%s set %d to %" PRIi64 " %" PRIi64, rn, tdb, tn, mask, v.region, v.object);
			expect = ! t ? R_ERR : ! r ? missing : R_YES; if (r) { if (mask & TIER_REGION_SIZE) ro->region = v.region; if (mask & TIER_OBJECT_SIZE) ro->object = v.object; }
		} else {
			const char* vn = ANYOF(st_names); if (r && PICK(6)) vn = r->vol[PICK(r->vols)].name;
			MVol* v = r ? f_vol(r, vn) : NULL; bool pause = PICK(2); Str w = S(vn); int active = 0; if (r) for (int i = 0; i < r->vols; i++) active += ! r->vol[i].pause;
			table_op_tier_storage_pause(&op, &sdb, &stn, &srn, &w, pause); snprintf(text, sizeof(text), "tier %s on %s.%s %s storage %s", rn, tdb, tn, pause ? "pause" : "resume", vn);
			expect = ! t ? R_ERR : ! r || ! v ? missing : v->pause == pause ? R_NO : pause && active <= 1 ? R_ERR : R_YES; if (v) ro->vol[v - r->vol].pause = pause;
		}
		break; }
	case 27: { // tier storage add, drop
		const char* vn = PICK(6) ? m.st[PICK(m.sts)].name : ANYOF(st_names); if (r && PICK(3) == 0) vn = r->vol[PICK(r->vols)].name; Str w = S(vn); MVol* v = r ? f_vol(r, vn) : NULL;
		if (PICK(2)) {
			if (r && r->vols == MV) return;
			vol_gen(&nvol, vn); auto k = vol_make(&nvol); table_op_tier_storage_add(&op, &sdb, &stn, &srn, k); volume_free(k); snprintf(text, sizeof(text), "tier %s on %s.%s add storage %s", rn, tdb, tn, vn);
			auto s = f_storage(vn);
			expect = ! t ? R_ERR : ! r ? missing : ! s ? R_ERR : v ? missing : s->broken ? R_ERR : R_YES; if (r) ro->vol[ro->vols++] = nvol;
		} else {
			int active = 0; if (r) for (int i = 0; i < r->vols; i++) active += ! r->vol[i].pause;
			table_op_tier_storage_drop(&op, &sdb, &stn, &srn, &w); snprintf(text, sizeof(text), "tier %s on %s.%s drop storage %s", rn, tdb, tn, vn);
			expect = ! t ? R_ERR : ! r || ! v ? missing : v->objects || (! v->pause && active <= 1) ? R_ERR : R_YES; if (v) remove_at(ro->vol, sizeof(MVol), &ro->vols, v - r->vol);
		}
		break; }
	case 28: { // create or replace function
		if (m.us == UDFS) return;
		bool replace = PICK(2), bad = udf_gen(&nu, m.db[PICK(m.dbs)]); auto u = f_udf(nu.db, nu.name);
		if (u && PICK(3)) { nu.type = u->type; nu.args = u->args; nu.rets = u->rets; for (int i = 0; i < 3; i++) { nu.arg[i].type = u->arg[i].type; nu.ret[i].type = u->ret[i].type; nu.arg[i].size = u->arg[i].size; nu.ret[i].size = u->ret[i].size; } for (int i = 0; i < u->args; i++) if (! nu.arg[i].name[0]) nu.arg[i] = u->arg[i]; for (int i = 0; i < u->rets; i++) if (! nu.ret[i].name[0]) nu.ret[i] = u->ret[i]; }
		auto k = udf_make(&nu); if (replace) udf_op_replace(&op, k); else udf_op_create(&op, k); udf_config_free(k);
		snprintf(text, sizeof(text), "create%s function %s.%s: %s", replace ? " or replace" : "", nu.db, nu.name, nu.text);
		expect = u && (! replace || ! cols_types_same(u->arg, u->args, nu.arg, nu.args) || ! cols_types_same(u->ret, u->rets, nu.ret, nu.rets) || u->type != nu.type) ? R_ERR : bad ? R_ERR : R_YES;
		// new definitions cannot have their own name as a table of the same name could be meant
		if (u) next.u[u - m.u] = nu; else next.u[next.us++] = nu;
		break; }
	case 29: { // drop or rename function
		const char* n = ANYOF(udf_names); const char* db = PICK(2) && m.us ? m.u[PICK(m.us)].db : db_any(); if (m.us && PICK(5)) { int i = PICK(m.us); n = m.u[i].name; db = m.u[i].db; }
		auto u = f_udf(db, n); int d = depends(db, n); const char* sp = spell(n); const char* dsp = spell(db); Str v = S(sp), vdb = S(dsp);
		if (PICK(2)) {
			udf_op_drop(&op, &vdb, &v); snprintf(text, sizeof(text), "drop function %s.%s", dsp, sp);
			expect = d == 1 ? R_ERR : d == 2 ? R_ANY : ! u ? missing : R_YES; if (u) remove_at(next.u, sizeof(MUdf), &next.us, u - m.u);
		} else {
			const char* ndb = PICK(3) ? db : db_any(); const char* nn = ANYOF(udf_names); Str w = S(ndb), z = S(nn);
			udf_op_rename(&op, &vdb, &v, &w, &z); snprintf(text, sizeof(text), "rename function %s.%s to %s.%s", dsp, sp, ndb, nn);
			expect = f_db(ndb) < 0 || d == 1 ? R_ERR : d == 2 ? R_ANY : ! u ? missing : f_udf(ndb, nn) ? R_ERR : R_YES;
			if (d == 2 && u && f_udf(ndb, nn)) expect = R_ERR;
			if (u) { auto k = &next.u[u - m.u]; if (! same_ci(k->db, ndb)) snprintf(k->db, NAME, "%s", ndb); if (! same_ci(k->name, nn)) snprintf(k->name, NAME, "%s", nn); 
				// moving a function away from what it depends on is not generated
				if (! same_ci(ndb, db) && strcmp(k->text, "nothing")) { buf_free(&op); return; } }
		}
		break; }
	}
	bool abort_it = PICK(4) == 0;
	pbt_note("%s%s%s", text, may ? " (if exists)" : "", abort_it ? " -- aborted" : "");
	Tr tr; tr_init(&tr);
	static int got; got = R_ERR;
	tr_begin(&tr);
	auto pos = op.start;
	auto failed = error_catch( got = exec_op(&tr, pos, flags, index) ? R_YES : R_NO; );
	if (failed) got = R_ERR;
	char why[200] = ""; if (failed) snprintf(why, sizeof(why), " (%.*s)", (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
	if (expect != R_ANY) pbt_check(got == expect, "%s%s: %s%s, expected %s", text, may ? " (if exists)" : "", r_name[got], why, r_name[expect]);
	// written to the log exactly when something changed
	pbt_check(tr_persists(&tr) == (got == R_YES), "%s: it %s in the log", text, tr_persists(&tr) ? "is" : "is not");
	if (got == R_ERR || abort_it) { tr_abort(&tr); if (got == R_YES) pbt_class("aborted"); else if (got == R_ERR) pbt_class("failed"); }
	else {
		tr_commit(&tr);
		if (got == R_YES) {
			m = next;
			log_[log_n++] = (Entry){ (uint8_t*)exact((char*)op.start, buf_size(&op)), ++lsn, index };
			opt_int_set(&state()->catalog_pending, lsn);
			static char k[40]; snprintf(k, sizeof(k), "statement %d", kind); pbt_class(k);
		}
	}
	tr_free(&tr); buf_free(&op);
	verify(text, true);
}
// kill while the catalog is written: its two files at every step
static bool recording; static struct { char* f[2]; int n[2]; } point[64]; static int points;
static const char* files[] = { "catalog.json", "catalog.json.incomplete" };
static void files_read(char** f, int* n) { for (int i = 0; i < 2; i++) { char p[1200]; snprintf(p, sizeof(p), "%s/%s", base_dir, files[i]); f[i] = file_load(p, &n[i]); } }
static void crash_point(void) { if (recording && points < 64) { files_read(point[points].f, point[points].n); points++; } }
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
	if (! recording) return __real_write(fd, p, n);
	size_t half = n / 2;
	if (half && __real_write(fd, p, half) != (ssize_t)half) return -1;
	recording = false; recording = true; crash_point();
	if (__real_write(fd, (char*)p + half, n - half) != (ssize_t)(n - half)) return -1;
	crash_point();
	return n;
}
int __real_rename(const char*, const char*);
int __wrap_rename(const char* a, const char* b) { int rc = __real_rename(a, b); crash_point(); return rc; }
int __real_unlink(const char*);
int __wrap_unlink(const char* a) { int rc = __real_unlink(a); crash_point(); return rc; }
int __real_open(const char*, int, ...);
int __wrap_open(const char* p, int flags, ...)
{
	int mode = 0; if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
	int rc = __real_open(p, flags, mode); if (flags & (O_CREAT | O_TRUNC)) crash_point(); return rc;
}
static void reopen(int64_t from)
{
	// what was not in the stored catalog is replayed
	opt_int_set(&state()->catalog, 0); opt_int_set(&state()->catalog_pending, 0);
	for (int i = 0; i < m.ts; i++) m.t[i].seq = 0;
	auto failed = error_catch( cat_open(false); );
	if (failed) pbt_fail("the catalog is not loaded: %.*s", (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
	int64_t stored = opt_int_of(&state()->catalog);
	pbt_check(stored >= from && stored <= lsn, "the loaded catalog has lsn %" PRIi64 ", expected %" PRIi64 " to %" PRIi64, stored, from, lsn);
	for (int i = 0; i < log_n; i++) {
		if (log_[i].lsn <= stored) continue;
		Tr tr; tr_init(&tr); tr_begin(&tr);
		static bool done; done = false; auto op = log_[i].op; auto index = log_[i].index;
		failed = error_catch( done = exec_op(&tr, op, 0, index); );
		if (failed) pbt_fail("statement %d of the log cannot be replayed: %.*s", i, (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		pbt_check(done, "statement %d of the log changes nothing when it is replayed", i);
		tr_commit(&tr); tr_free(&tr);
		opt_int_set(&state()->catalog_pending, log_[i].lsn);
		// the position of identities is kept by replay only
	}
}
static void seq_replayed(int64_t stored)
{
	for (int i = 0; i < log_n; i++) {
		if (log_[i].lsn <= stored || log_[i].index) continue;
		auto op = log_[i].op; if (ddl_of(op) != DDL_TABLE_SET_IDENTITY) continue;
		(void)op;
	}
}
static void case_run(void)
{
	base_create();
	memset(&m, 0, sizeof(m)); lsn = 0; log_reset_all(); uuid_n = 0; compiled = 0;
	opt_int_set(&state()->catalog, 0); opt_int_set(&state()->catalog_pending, 0);
	m.sts = 1; strcpy(m.st[0].name, "main"); strcpy(m.st[0].comp, "zstd"); m.st[0].system = true;
	m.dbs = 1; strcpy(m.db[0], "main");
	cat_open(true);
	verify("after bootstrap", true);
	int restarts = 0, least = 5 + PICK(60);
	for (int n = 0; n < 200 && log_n < 380 && (n < least ? ! pbt_exhausted() : pbt_more(12)); n++) {
		int k = PICK(14);
		if (k > 2) { step(); continue; }
		restarts++;
		static uint64_t seqs[TABLES]; for (int i = 0; i < m.ts; i++) seqs[i] = m.t[i].seq;
		int64_t base = opt_int_of(&state()->catalog);
		if (k == 0) { // crash: replay everything since the stored catalog
			pbt_note("crash"); pbt_class("crash"); cat_close(); reopen(base);
			pbt_check(opt_int_of(&state()->catalog) == base, "after a crash the catalog has lsn %" PRIi64 ", expected %" PRIi64, opt_int_of(&state()->catalog), base);
		} else {
			points = 0; recording = true; crash_point(); catalog_write(&cat); recording = false;
			pbt_check(opt_int_of(&state()->catalog) == lsn, "the stored catalog has lsn %" PRIi64 ", expected %" PRIi64, opt_int_of(&state()->catalog), lsn);
			int at = k == 1 ? points - 1 : PICK(points);
			pbt_note("catalog written, %s at %d of %d", k == 1 ? "restart" : "killed", at, points); pbt_class(k == 1 ? "restart" : "kill");
			cat_close();
			for (int i = 0; i < 2; i++) { char p[1200]; snprintf(p, sizeof(p), "%s/%s", base_dir, files[i]); unlink(p); if (point[at].f[i]) file_store(p, point[at].f[i], point[at].n[i]); }
			for (int i = 0; i < points; i++) for (int j = 0; j < 2; j++) free(point[i].f[j]);
			reopen(k == 1 ? lsn : base);
			if (at == points - 1) { pbt_check(opt_int_of(&state()->catalog) == lsn, "after a restart the catalog has lsn %" PRIi64 ", expected %" PRIi64, opt_int_of(&state()->catalog), lsn); log_reset_all(); }
		}
		// identities without rows start again unless replayed
		for (int i = 0; i < m.ts; i++) { Str db = S(m.t[i].db), nm = S(m.t[i].name); auto t = table_mgr_find(&cat.table_mgr, &db, &nm, false); if (t) { uint64_t v = sequence_get(&t->seq); pbt_check(v == 0 || v == seqs[i], "identity of %s.%s is %" PRIu64 " after a restart, it was %" PRIu64, m.t[i].db, m.t[i].name, v, seqs[i]); m.t[i].seq = v; } }
		// objects of volumes that came with an empty tier
		verify(k == 0 ? "after the crash" : "after the restart", true);
	}
	if (log_n + restarts > 5) pbt_nontrivial();
	cat_close();
	log_reset_all();
	base_drop();
	unused(seq_replayed);
}
static void setup(void)
{
	opt_int_set(&config()->storage_sync, false); opt_int_set(&config()->catalog_sync, false);
}
PbtHarness pbt_harness = { .name = "catalog", .setup = setup, .run = case_run };
