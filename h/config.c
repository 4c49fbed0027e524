// C13: definitions and settings through their stored form
#include <amelie_test_scope>
#include "server/amelie_server.h"
#include "pbt.h"
#include "util.h"
#include "doc.h"

// documents ----------------------------------------------------------------
static Doc* to_doc(uint8_t** pos)
{
	Doc* d;
	if (json_is_obj(*pos)) {
		d = doc_new(D_OBJ);
		json_read_obj(pos);
		while (! json_read_obj_end(pos)) { Doc* k = to_doc(pos); doc_push(d, k, to_doc(pos)); }
		return d;
	}
	if (json_is_array(*pos)) {
		d = doc_new(D_ARR);
		json_read_array(pos);
		while (! json_read_array_end(pos)) doc_push(d, NULL, to_doc(pos));
		return d;
	}
	if (json_is_string(*pos)) { Str s; json_read_string(pos, &s); d = doc_new(D_STR); d->n = str_size(&s); d->s = malloc(d->n + 1); memcpy(d->s, str_of(&s), d->n); d->s[d->n] = 0; return d; }
	if (json_is_integer(*pos)) { d = doc_new(D_INT); json_read_integer(pos, &d->i); return d; }
	if (json_is_bool(*pos)) { bool b; json_read_bool(pos, &b); d = doc_new(D_BOOL); d->i = b; return d; }
	if (json_is_real(*pos)) { d = doc_new(D_REAL); json_read_real(pos, &d->r); return d; }
	json_read_null(pos);
	return doc_new(D_NULL);
}
static void render_str(Sb* s, const char* p, int n)
{
	sb_c(s, '"');
	for (int i = 0; i < n; i++) {
		unsigned char c = p[i];
		if (c == '"' || c == '\\') { sb_c(s, '\\'); sb_c(s, c); }
		else if (c < 32) sb_f(s, "\\u%04x", c);
		else sb_c(s, c);
	}
	sb_c(s, '"');
}
static void render(Sb* s, Doc* d)
{
	switch (d->type) {
	case D_NULL: sb_s(s, "null"); break;
	case D_BOOL: sb_s(s, d->i ? "true" : "false"); break;
	case D_INT: sb_f(s, "%" PRIi64, d->i); break;
	case D_REAL: sb_f(s, "%.17g", d->r); if (d->r == (int64_t)d->r && fabs(d->r) < 1e15) sb_s(s, ".0"); break;
	case D_STR: render_str(s, d->s, d->n); break;
	default:
		sb_c(s, d->type == D_ARR ? '[' : '{');
		for (int i = 0; i < d->count; i++) {
			if (i) sb_c(s, ',');
			if (d->type == D_OBJ) { render(s, d->key[i]); sb_c(s, ':'); }
			render(s, d->item[i]);
		}
		sb_c(s, d->type == D_ARR ? ']' : '}');
	}
}
static Doc* str_doc(const char* z) { Doc* d = doc_new(D_STR); d->s = strdup(z); d->n = strlen(z); return d; }
static Doc* int_doc(int64_t v) { Doc* d = doc_new(D_INT); d->i = v; return d; }

// generators ---------------------------------------------------------------
static void set_str(Str* out)
{
	static char* keep[64]; static int at;
	Doc* d = PICK(3) ? NULL : gen_str();
	free(keep[at &= 63]);
	char* p;
	int n;
	if (d) { n = d->n; p = malloc(n + 1); memcpy(p, d->s, n); }
	else { n = 1 + PICK(10); p = malloc(n + 1); for (int i = 0; i < n; i++) p[i] = 'a' + PICK(26); }
	p[n] = 0;
	keep[at++] = p;
	str_set(out, p, n);
}
static void gen_columns(Columns* c, int max)
{
	int n = PICK(max);
	for (int i = 0; i < n && ! pbt_exhausted(); i++) {
		Str s;
		Column* x = column_allocate();
		set_str(&s); column_set_name(x, &s);
		column_set_type(x, PICK(TYPE_MAX), PICK(20));
		if (PICK(8) == 0) column_set_dropped(x, true);
		auto k = &x->constraints;
		if (PICK(3) == 0) constraints_set_not_null(k, true);
		if (PICK(4) == 0) constraints_set_as_identity(k, 1 + PICK(2));
		if (PICK(4) == 0) constraints_set_as_identity_modulo(k, pbt_int64());
		if (PICK(4) == 0) { set_str(&s); constraints_set_as_stored(k, &s); }
		if (PICK(4) == 0) { set_str(&s); constraints_set_as_resolved(k, &s); }
		if (PICK(3) == 0) { uint8_t t[60]; int l = PICK(60); pbt_bytes(t, l); Str v; str_set_u8(&v, t, l); constraints_set_default_str(k, &v); }
		columns_add(c, x);
	}
}
static void gen_uuid(Uuid* u) { pbt_bytes(u, sizeof(*u)); }
static void gen_volumes(VolumeMgr* m)
{
	for (int n = PICK(4); n > 0; n--) {
		Str s; Uuid u;
		Volume* v = volume_allocate();
		set_str(&s); volume_set_name(v, &s);
		gen_uuid(&u); volume_set_id(v, &u);
		volume_set_pause(v, PICK(2));
		volume_mgr_add(m, v);
	}
}
static TierConfig* gen_tier(void)
{
	Str s;
	TierConfig* t = tier_config_allocate();
	set_str(&s); tier_config_set_name(t, &s);
	if (PICK(2)) tier_config_set_region_size(t, pbt_int64());
	if (PICK(2)) tier_config_set_object_size(t, pbt_int64());
	gen_volumes(&t->volumes);
	return t;
}
static IndexConfig* gen_index(Columns* c)
{
	Str s;
	IndexConfig* x = index_config_allocate(c);
	set_str(&s); index_config_set_name(x, &s);
	index_config_set_type(x, PICK(3)); index_config_set_unique(x, PICK(2)); index_config_set_primary(x, PICK(2));
	for (int n = c->count ? PICK(4) : 0; n > 0; n--) { Key* k = key_allocate(); key_set_ref(k, PICK(c->count)); key_set_asc(k, ! PICK(2)); keys_add(&x->keys, k); constraints_set_not_null(&k->column->constraints, true); } // key columns are always not null
	return x;
}

// what a definition says, field by field -------------------------------------
static void d_str(Sb* s, const char* name, Str* v) { sb_f(s, "%s=%d:", name, (int)str_size(v)); sb_add(s, str_of(v), str_size(v)); sb_c(s, '\n'); }
static void d_int(Sb* s, const char* name, int64_t v) { sb_f(s, "%s=%" PRIi64 "\n", name, v); }
static void d_columns(Sb* s, Columns* c, int* refs)
{
	int n = 0, stored = 0, resolved = 0; Column* identity = NULL;
	list_foreach(&c->list) {
		auto x = list_at(Column, link);
		sb_f(s, "column %d\n", n);
		pbt_check(x->order == n, "order of column %d is %d", n, x->order);
		d_str(s, "name", &x->name); d_int(s, "type", x->type); d_int(s, "size", x->type_size); d_int(s, "dropped", x->dropped);
		auto k = &x->constraints;
		d_int(s, "not_null", k->not_null); d_int(s, "identity", k->as_identity); d_int(s, "modulo", k->as_identity_modulo);
		d_str(s, "stored", &k->as_stored); d_str(s, "resolved", &k->as_resolved);
		sb_f(s, "default=%d:", buf_size(&k->value)); sb_add(s, k->value.start, buf_size(&k->value)); sb_c(s, '\n');
		stored += ! str_empty(&k->as_stored); resolved += ! str_empty(&k->as_resolved);
		if (k->as_identity && ! identity) identity = x;
		if (refs) pbt_check(x->refs == refs[n], "column %d is used by %d keys, expected %d", n, x->refs, refs[n]);
		n++;
	}
	pbt_check(c->count == n && c->count_stored == stored && c->count_resolved == resolved && c->identity == identity, "columns: wrong counts");
}
static void d_volumes(Sb* s, VolumeMgr* m)
{
	int n = 0;
	list_foreach(&m->list) {
		auto v = list_at(Volume, link);
		sb_f(s, "volume %d\n", n++);
		d_str(s, "name", &v->name); sb_f(s, "id=%016" PRIx64 "%016" PRIx64 "\n", v->id.a, v->id.b); d_int(s, "pause", v->pause);
		pbt_check(! v->list_count && list_empty(&v->list) && ! v->storage, "volume is in use");
	}
	pbt_check(m->list_count == n, "volumes: wrong count");
}
static void d_index(Sb* s, IndexConfig* x, Columns* c, int* refs)
{
	sb_s(s, "index\n");
	d_str(s, "name", &x->name); d_int(s, "type", x->type); d_int(s, "unique", x->unique); d_int(s, "primary", x->primary);
	int n = 0;
	pbt_check(x->keys.columns == c, "keys of other columns");
	list_foreach(&x->keys.list) {
		auto k = list_at(Key, link);
		sb_f(s, "key %d of %d %s\n", n, (int)k->ref, k->asc ? "asc" : "desc");
		pbt_check(k->order == n && k->column && k->column->order == k->ref && columns_find_by(c, k->ref) == k->column, "key %d refers to another column", n);
		refs[k->ref]++; n++;
	}
	pbt_check(x->keys.list_count == n, "keys: wrong count");
}
static void d_tier(Sb* s, TierConfig* t) { sb_s(s, "tier\n"); d_str(s, "name", &t->name); d_int(s, "region", t->region_size); d_int(s, "object", t->object_size); d_volumes(s, &t->volumes); }

// kinds ----------------------------------------------------------------------
enum { K_TABLE, K_UDF, K_STORAGE, K_DATABASE, K_USER, K_TIER, K_VOLUME, K_COLUMN, K_INDEX, K_SERVER, K_MAX };
static const char* k_name[] = { "table", "function", "storage", "database", "user", "tier", "volume", "column", "index" };
static Columns idx_columns; // of indexes alone
static void* k_gen(int kind)
{
	Str s; Uuid u;
	switch (kind) {
	case K_TABLE: {
		TableConfig* t = table_config_allocate();
		set_str(&s); table_config_set_db(t, &s); set_str(&s); table_config_set_name(t, &s);
		gen_uuid(&u); table_config_set_id(t, &u); table_config_set_unlogged(t, PICK(2));
		gen_columns(&t->columns, 8);
		for (int n = PICK(4); n > 0; n--) { auto x = gen_index(&t->columns); keys_set_primary(&x->keys, t->indexes_count == 0); table_config_index_add(t, x); }
		part_mgr_config_set_partitions(&t->part_mgr_config, PICK(300));
		gen_volumes(&t->part_mgr_config.volumes);
		for (int n = PICK(3); n > 0; n--) table_config_tier_add(t, gen_tier());
		return t;
	}
	case K_UDF: {
		UdfConfig* f = udf_config_allocate();
		set_str(&s); udf_config_set_db(f, &s); set_str(&s); udf_config_set_name(f, &s); set_str(&s); udf_config_set_text(f, &s);
		udf_config_set_type(f, PICK(TYPE_MAX));
		gen_columns(&f->args, 5); gen_columns(&f->returning, 5);
		return f;
	}
	case K_STORAGE: {
		StorageConfig* c = storage_config_allocate();
		set_str(&s); storage_config_set_name(c, &s); if (PICK(2)) { set_str(&s); storage_config_set_path(c, &s); }
		if (PICK(2)) { set_str(&s); storage_config_set_compression(c, &s); } storage_config_set_compression_level(c, (int)pbt_int64());
		return c;
	}
	case K_DATABASE: { DatabaseConfig* c = database_config_allocate(); set_str(&s); database_config_set_name(c, &s); return c; }
	case K_USER: { UserConfig* c = user_config_allocate(); set_str(&s); user_config_set_name(c, &s); if (PICK(3)) { set_str(&s); user_config_set_secret(c, &s); } return c; }
	case K_TIER: return gen_tier();
	case K_VOLUME: {
		VolumeMgr m; volume_mgr_init(&m);
		while (! m.list_count) { gen_volumes(&m); if (! m.list_count) { Volume* v = volume_allocate(); volume_mgr_add(&m, v); } }
		Volume* v = volume_mgr_first(&m); volume_mgr_remove(&m, v); list_init(&v->link); volume_mgr_free(&m);
		return v;
	}
	case K_COLUMN: {
		Columns c; columns_init(&c);
		gen_columns(&c, 2);
		if (! c.count) { Column* x = column_allocate(); x->type = TYPE_INT; return x; }
		Column* x = columns_first(&c); list_init(&x->link);
		return x;
	}
	case K_INDEX: return gen_index(&idx_columns);
	}
	return NULL;
}
static void k_write(int kind, void* p, Buf* b, int flags)
{
	switch (kind) {
	case K_TABLE: table_config_write(p, b, flags); break;
	case K_UDF: udf_config_write(p, b, flags); break;
	case K_STORAGE: storage_config_write(p, b, flags); break;
	case K_DATABASE: database_config_write(p, b, flags); break;
	case K_USER: user_config_write(p, b, flags); break;
	case K_TIER: tier_config_write(p, b, flags); break;
	case K_VOLUME: volume_write(p, b, flags); break;
	case K_COLUMN: column_write(p, b, flags); break;
	case K_INDEX: index_config_write(p, b, flags); break;
	}
}
static void* k_read(int kind, uint8_t** pos)
{
	switch (kind) {
	case K_TABLE: return table_config_read(pos);
	case K_UDF: return udf_config_read(pos);
	case K_STORAGE: return storage_config_read(pos);
	case K_DATABASE: return database_config_read(pos);
	case K_USER: return user_config_read(pos);
	case K_TIER: return tier_config_read(pos);
	case K_VOLUME: return volume_read(pos);
	case K_COLUMN: return column_read(pos);
	case K_INDEX: return index_config_read(&idx_columns, pos);
	}
	return NULL;
}
static void* k_copy(int kind, void* p)
{
	switch (kind) {
	case K_TABLE: return table_config_copy(p);
	case K_UDF: return udf_config_copy(p);
	case K_STORAGE: return storage_config_copy(p);
	case K_DATABASE: return database_config_copy(p);
	case K_USER: return user_config_copy(p);
	case K_TIER: return tier_config_copy(p);
	case K_VOLUME: return volume_copy(p);
	case K_COLUMN: return column_copy(p);
	case K_INDEX: return index_config_copy(p, &idx_columns);
	}
	return NULL;
}
static void k_free(int kind, void* p)
{
	switch (kind) {
	case K_TABLE: table_config_free(p); break;
	case K_UDF: udf_config_free(p); break;
	case K_STORAGE: storage_config_free(p); break;
	case K_DATABASE: database_config_free(p); break;
	case K_USER: user_config_free(p); break;
	case K_TIER: tier_config_free(p); break;
	case K_VOLUME: volume_free(p); break;
	case K_COLUMN: column_free(p); break;
	case K_INDEX: index_config_free(p); break;
	}
}
static void k_dump(int kind, void* p, Sb* s, bool copied)
{
	sb_reset(s);
	switch (kind) {
	case K_TABLE: {
		TableConfig* t = p;
		int refs[64] = { 0 }, n = 0;
		d_str(s, "db", &t->db); d_str(s, "name", &t->name); sb_f(s, "id=%016" PRIx64 "%016" PRIx64 "\n", t->id.a, t->id.b); d_int(s, "unlogged", t->unlogged);
		list_foreach(&t->indexes) {
			auto x = list_at(IndexConfig, link);
			d_index(s, x, &t->columns, refs);
			if (copied) pbt_check(x->keys.primary == (n == 0), "index %d: keys are %s", n, x->keys.primary ? "primary" : "not primary");
			n++;
		}
		pbt_check(t->indexes_count == n, "indexes: wrong count");
		d_columns(s, &t->columns, refs);
		d_int(s, "partitions", t->part_mgr_config.partitions); d_volumes(s, &t->part_mgr_config.volumes);
		n = 0;
		list_foreach(&t->tiers) { d_tier(s, list_at(TierConfig, link)); n++; }
		pbt_check(t->tiers_count == n, "tiers: wrong count");
		break;
	}
	case K_UDF: { UdfConfig* f = p; d_str(s, "db", &f->db); d_str(s, "name", &f->name); d_str(s, "text", &f->text); d_int(s, "type", f->type); d_columns(s, &f->args, NULL); sb_s(s, "returning\n"); d_columns(s, &f->returning, NULL); break; }
	case K_STORAGE: { StorageConfig* c = p; d_str(s, "name", &c->name); d_str(s, "path", &c->path); d_str(s, "compression", &c->compression); d_int(s, "level", c->compression_level); d_int(s, "system", c->system); break; }
	case K_DATABASE: { DatabaseConfig* c = p; d_str(s, "name", &c->name); d_int(s, "system", c->system); break; }
	case K_USER: { UserConfig* c = p; d_str(s, "name", &c->name); d_str(s, "secret", &c->secret); break; }
	case K_TIER: d_tier(s, p); break;
	case K_VOLUME: { VolumeMgr m; volume_mgr_init(&m); volume_mgr_add(&m, p); d_volumes(s, &m); volume_mgr_remove(&m, p); list_init(&((Volume*)p)->link); break; }
	case K_COLUMN: { Columns c; columns_init(&c); Column* x = p; int o = x->order; columns_add(&c, x); d_columns(s, &c, NULL); list_init(&x->link); x->order = o; break; }
	case K_INDEX: { int refs[64] = { 0 }; d_index(s, p, &idx_columns, refs); break; }
	}
}
static void same_dump(Sb* a, Sb* b, const char* what, int kind)
{
	if (a->n == b->n && ! memcmp(a->p, b->p, a->n)) return;
	int i = 0; while (i < a->n && i < b->n && a->p[i] == b->p[i]) i++;
	int from = i > 60 ? i - 60 : 0;
	pbt_fail("%s %s differs: %s, expected %s", what, k_name[kind], show(b->p + from, b->n - from > 120 ? 120 : b->n - from), show(a->p + from, a->n - from > 120 ? 120 : a->n - from));
}
static void parse_text(Json* json, Sb* text)
{
	Str s; str_set(&s, text->p, text->n);
	json_init(json);
	json_parse(json, &s, NULL);
}
// damages a document, tells what has to happen
enum { M_SAME, M_ERROR };
static int doc_objs(Doc* d, Doc** out, int n, int type)
{
	if (d->type == type && n < 200) out[n++] = d;
	if (d->type == D_OBJ || d->type == D_ARR) for (int i = 0; i < d->count; i++) n = doc_objs(d->item[i], out, n, type);
	return n;
}
static Doc* other_type(Doc* d)
{
	switch (d->type) {
	case D_STR: return PICK(2) ? int_doc(PICK(100)) : doc_new(D_ARR);
	case D_INT: return PICK(2) ? str_doc("1") : doc_new(D_NULL);
	case D_BOOL: return PICK(2) ? int_doc(1) : str_doc("true");
	case D_ARR: return PICK(2) ? doc_new(D_OBJ) : int_doc(0);
	default: return PICK(2) ? doc_new(D_ARR) : str_doc("x");
	}
}
static void doc_remove(Doc* d, int i) { memmove(d->item + i, d->item + i + 1, sizeof(Doc*) * (d->count - i - 1)); memmove(d->key + i, d->key + i + 1, sizeof(Doc*) * (d->count - i - 1)); d->count--; }
static int damage(int kind, Doc** root, Sb* what)
{
	Doc* objs[200]; int n = doc_objs(*root, objs, 0, D_OBJ);
	Doc* o = objs[PICK(n)];
	int i = PICK(o->count);
	switch (PICK(9)) {
	case 0: sb_f(what, "without %s", o->key[i]->s); doc_remove(o, i); return M_ERROR;
	case 1: sb_f(what, "other type of %s", o->key[i]->s); o->item[i] = other_type(o->item[i]); return M_ERROR;
	case 2: sb_s(what, "unknown key"); doc_push(o, str_doc("unknown_key"), gen_doc(2)); return M_SAME;
	case 3: {
		sb_s(what, "other order");
		for (int k = o->count - 1; k > 0; k--) { int j = PICK(k + 1); Doc* t = o->item[k]; o->item[k] = o->item[j]; o->item[j] = t; t = o->key[k]; o->key[k] = o->key[j]; o->key[j] = t; }
		return M_SAME;
	}
	case 4:
		// the last one is used
		sb_f(what, "%s twice", o->key[i]->s);
		doc_push(o, o->key[i], o->item[i]);
		if (o->item[i]->type == D_STR && strcmp(o->key[i]->s, "id")) o->item[i] = str_doc(PICK(2) ? "" : "other");
		else if (o->item[i]->type == D_INT) o->item[i] = int_doc(PICK(9));
		else if (o->item[i]->type == D_BOOL) { o->item[i] = doc_new(D_BOOL); o->item[i]->i = PICK(2); }
		else if (o->item[i]->type == D_ARR) o->item[i] = doc_new(D_ARR);
		return M_SAME;
	case 5: sb_s(what, "not an object"); *root = other_type(*root); return M_ERROR;
	case 6: {
		// constraints and items of lists
		Doc* arrs[200]; int a = doc_objs(*root, arrs, 0, D_ARR), at = a ? PICK(a) : 0;
		for (int k = 0; k < a; k++, at = (at + 1) % a) {
			Doc* x = arrs[at];
			if (! x->count) continue;
			if (x->item[0]->type == D_STR && x->count == 2) {
				sb_f(what, "constraint %s ", x->item[0]->s);
				switch (PICK(4)) {
				case 0: sb_s(what, "renamed"); x->item[0] = str_doc("unknown"); return M_ERROR;
				case 1: sb_s(what, "of other type"); x->item[1] = other_type(x->item[1]); return M_ERROR;
				case 2: sb_s(what, "without a value"); x->count = 1; return M_ERROR;
				default: sb_s(what, "with an excess value"); doc_push(x, NULL, str_doc("x")); return M_ERROR;
				}
			}
			sb_s(what, "other type of a list item");
			int j = PICK(x->count);
			x->item[j] = other_type(x->item[j]);
			return M_ERROR;
		}
		break;
	}
	case 7:
		for (int k = 0; k < n; k++) for (int j = 0; j < objs[k]->count; j++) {
			if (strcmp(objs[k]->key[j]->s, "id")) continue;
			sb_s(what, "wrong id");
			objs[k]->item[j] = str_doc(PICK(2) ? "1234" : "zzzzzzzz-zzzz-zzzz-zzzz-zzzzzzzzzzzz");
			return M_ERROR;
		}
		break;
	case 8:
		for (int k = 0; k < n; k++) for (int j = 0; j < objs[k]->count; j++) {
			if (strcmp(objs[k]->key[j]->s, "column") || objs[k]->count != 2) continue;
			sb_s(what, "key of a column which does not exist");
			objs[k]->item[j] = int_doc(PICK(2) ? 1000 + PICK(100) : -1 - PICK(5));
			return M_ERROR;
		}
		break;
	}
	return -1;
}
static void run_definition(void)
{
	static Sb a, b, text, what;
	int kind = PICK(K_SERVER);
	columns_init(&idx_columns);
	if (kind == K_INDEX) { gen_columns(&idx_columns, 5); if (! idx_columns.count) { Column* x = column_allocate(); columns_add(&idx_columns, x); } }
	void* p = k_gen(kind);
	k_dump(kind, p, &a, kind == K_TABLE);
	pbt_class(k_name[kind]);
	int flags = kind == K_USER ? FSECRETS : 0;
	Buf* buf = buf_create();
	defer_buf(buf);
	k_write(kind, p, buf, flags);
	uint8_t* pos = buf->start;
	json_skip(&pos);
	pbt_check(pos == buf->position, "%s: stored form has an excess", k_name[kind]);

	// read
	pos = buf->start;
	void* r = k_read(kind, &pos);
	pbt_check(pos == buf->position, "%s: not read to the end", k_name[kind]);
	k_dump(kind, r, &b, false); same_dump(&a, &b, "read", kind);
	// copy of both; the copied one goes first
	void* c = k_copy(kind, p);
	k_dump(kind, c, &b, true); same_dump(&a, &b, "copied", kind);
	void* rc = k_copy(kind, r);
	k_free(kind, r);
	k_dump(kind, rc, &b, true); same_dump(&a, &b, "read and copied", kind);
	Buf* again = buf_create();
	defer_buf(again);
	k_write(kind, rc, again, flags);
	pbt_check(buf_size(again) == buf_size(buf) && ! memcmp(again->start, buf->start, buf_size(buf)), "%s: stored form of the copy differs", k_name[kind]);
	k_free(kind, rc);
	k_free(kind, c);
	k_dump(kind, p, &b, kind == K_TABLE); same_dump(&a, &b, "original of the copied", kind);

	// as text
	{
		Buf* out = buf_create();
		defer_buf(out);
		pos = buf->start;
		if (PICK(2)) json_export(out, NULL, &pos); else json_export_pretty(out, NULL, &pos);
		sb_reset(&text); sb_add(&text, out->start, buf_size(out));
		Json json; parse_text(&json, &text);
		defer(json_free, &json);
		pos = json.buf->start;
		r = k_read(kind, &pos);
		k_dump(kind, r, &b, false); same_dump(&a, &b, "read from the text", kind);
		k_free(kind, r);
	}
	// brief form
	if (kind == K_TABLE || kind == K_UDF || kind == K_USER) {
		Buf* brief = buf_create();
		defer_buf(brief);
		k_write(kind, p, brief, kind == K_USER ? 0 : FMINIMAL);
		pos = brief->start;
		Doc* d = to_doc(&pos);
		if (kind == K_USER) pbt_check(d->count == 1 && ! strcmp(d->key[0]->s, "name"), "user without secrets shows more than a name");
		else pbt_check(d->count == 2 && ! strcmp(d->key[0]->s, "db") && ! strcmp(d->key[1]->s, "name"), "brief %s", k_name[kind]);
	}
	// damaged
	int changes = 0;
	for (int k = 0; k < 3; k++) {
		pos = buf->start;
		Doc* root = to_doc(&pos);
		sb_reset(&what);
		int expect = damage(kind, &root, &what);
		if (expect == -1) continue;
		changes++;
		pbt_note("%s %s: %s", k_name[kind], what.p, expect == M_ERROR ? "refused" : "same");
		sb_reset(&text); render(&text, root);
		Json json; parse_text(&json, &text);
		defer(json_free, &json);
		pos = json.buf->start;
		void* volatile x = NULL;
		bool err = error_catch( x = k_read(kind, &pos) );
		if (expect == M_ERROR) pbt_check(err, "%s is read: %s", k_name[kind], what.p);
		else {
			pbt_check(! err, "%s is not read: %s: %.*s", k_name[kind], what.p, (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
			k_dump(kind, x, &b, false); same_dump(&a, &b, what.p, kind);
		}
		if (! err) k_free(kind, x);
		pbt_class(expect == M_ERROR ? "malformed" : "changed without a difference");
	}
	if (kind == K_INDEX) for (Column* x = NULL; (x = list_empty(&idx_columns.list) ? NULL : columns_first(&idx_columns)); ) { pbt_check(x->refs == (int)0 || x->refs > 0, "refs"); break; }
	k_free(kind, p);
	if (kind == K_INDEX) { list_foreach(&idx_columns.list) { auto x = list_at(Column, link); pbt_check(x->refs == 0, "column is used by %d keys after all are freed", x->refs); } columns_free(&idx_columns); }
	if (a.n > 60 && changes) pbt_nontrivial();
}

// options --------------------------------------------------------------------
#define OPTS 40
typedef struct { const char* name; int type, flags; int64_t i; char* s; int n; bool null; Opt* opt; } Mo;
typedef struct { Opts opts; Config config; State state; Opt list[12]; Mo mo[OPTS]; int n; int kind; } Set;
static char opt_names[12][8];
static int  opt_flags[12], opt_types[12], opt_n;
static void mo_free(Set* s) { for (int i = 0; i < s->n; i++) free(s->mo[i].s); }
static void set_open(Set* s, int kind)
{
	memset(s, 0, sizeof(*s));
	s->kind = kind;
	Opts* o = &s->opts;
	opts_init(o);
	if (kind == 0) { config_init(&s->config); config_prepare(&s->config); o = &s->config.opts; }
	else if (kind == 1) { state_init(&s->state); state_prepare(&s->state); o = &s->state.opts; }
	else {
		OptsDef defs[13];
		memset(defs, 0, sizeof(defs));
		for (int i = 0; i < opt_n; i++) defs[i] = (OptsDef){ opt_names[i], opt_types[i], opt_flags[i], &s->list[i], i % 3 ? "initial" : NULL, i * 10 + (opt_types[i] == OPT_BOOL ? 0 : 1) };
		for (int i = 0; i < opt_n; i++) if (opt_types[i] == OPT_BOOL) defs[i].default_int = i & 1;
		opts_define(o, defs);
	}
	list_foreach(&o->list) {
		auto opt = list_at(Opt, link);
		Mo* m = &s->mo[s->n++];
		pbt_check(s->n < OPTS, "harness: options");
		*m = (Mo){ .name = str_of(&opt->name), .type = opt->type, .flags = opt->flags, .opt = opt };
		if (opt->type == OPT_INT || opt->type == OPT_BOOL) m->i = opt_int_of(opt);
		else if (opt->type == OPT_STRING) { m->n = str_size(&opt->string); m->s = exact(str_of(&opt->string), m->n); }
		else m->null = true;
	}
}
static Opts* set_opts(Set* s) { return s->kind == 0 ? &s->config.opts : s->kind == 1 ? &s->state.opts : &s->opts; }
static void set_close(Set* s) { mo_free(s); opts_free(set_opts(s)); }
static void mo_str(Mo* m, const char* p, int n) { char* c = exact(p, n); free(m->s); m->s = c; m->n = n; m->null = false; }
static bool is_null(Str* s) { return str_empty(s) || (str_size(s) == 1 && json_is_null(str_u8(s))); }
static void set_check(Set* s, const char* what)
{
	for (int i = 0; i < s->n; i++) {
		Mo* m = &s->mo[i]; Opt* o = m->opt;
		if (m->type == OPT_INT || m->type == OPT_BOOL) pbt_check((int64_t)opt_int_of(o) == m->i, "%s: option %s is %" PRIi64 ", expected %" PRIi64, what, m->name, opt_int_of(o), m->i);
		else if (m->type == OPT_STRING || ! m->null) pbt_check(str_size(&o->string) == m->n && ! memcmp(str_of(&o->string), m->s, m->n), "%s: option %s is %s, expected %s", what, m->name, show(str_of(&o->string), str_size(&o->string)), show(m->s, m->n));
		else pbt_check(is_null(&o->string), "%s: option %s is set", what, m->name);
	}
}
static const char* scratch(const char* name) { static char p[4][512]; static int k; char* o = p[k = (k + 1) & 3]; snprintf(o, 512, "%s/%s", pbt_dir(), name); return o; }
// reals are printed with 6 digits (C14), settings have none
static Doc* no_reals(Doc* d)
{
	if (d->type == D_REAL) { d->type = D_INT; d->i = 7; }
	if (d->type == D_OBJ || d->type == D_ARR) for (int i = 0; i < d->count; i++) no_reals(d->item[i]);
	return d;
}
// a value for an option: 0 valid, 1 refused
static Doc* value_for(Mo* m, bool bad)
{
	if (! bad) switch (m->type) {
	case OPT_BOOL: { Doc* d = doc_new(D_BOOL); d->i = PICK(2); return d; }
	case OPT_INT: { int64_t v = PICK(2) ? pbt_int64() : PICK(100000); if ((m->flags & OPT_Z) && ! v) v = 1; return int_doc(v); }
	case OPT_STRING: return gen_str();
	default: return no_reals(gen_doc(3));
	}
	switch (m->type) {
	case OPT_BOOL: return PICK(2) ? int_doc(1) : str_doc("true");
	case OPT_INT: if ((m->flags & OPT_Z) && PICK(2)) return int_doc(0); if (PICK(3) == 0) { Doc* d = doc_new(D_REAL); d->r = 1.5; return d; } return PICK(2) ? str_doc("1") : doc_new(D_NULL);
	default: return PICK(2) ? int_doc(5) : doc_new(D_ARR);
	}
}
static void mo_set(Mo* m, Doc* d)
{
	switch (m->type) {
	case OPT_BOOL: case OPT_INT: m->i = d->i; break;
	case OPT_STRING: mo_str(m, d->s, d->n); break;
	default: {
		Sb t = { 0 }; render(&t, d);
		Json json; parse_text(&json, &t);
		mo_str(m, (char*)json.buf->start, buf_size(json.buf));
		m->null = d->type == D_NULL;
		json_free(&json); sb_free(&t);
	}
	}
}
static bool int_text(const char* p, int n, int64_t* v)
{
	// decimal digits only
	__int128 x = 0;
	for (int i = 0; i < n; i++) { if (p[i] < '0' || p[i] > '9') return false; x = x * 10 + (p[i] - '0'); if (x > INT64_MAX) return false; }
	*v = x;
	return true;
}
static int n_sets, n_refused;
static void op_json(Set* s, bool argv)
{
	static Sb text;
	sb_reset(&text);
	if (argv) sb_s(&text, "--json=");
	int n = 1 + PICK(4), bad_at = PICK(3) == 0 ? PICK(n) : -1;
	Mo* saved = malloc(sizeof(s->mo)); memcpy(saved, s->mo, sizeof(s->mo));
	for (int i = 0; i < s->n; i++) if (saved[i].s) saved[i].s = exact(saved[i].s, saved[i].n);
	bool update = false, bad = false;
	sb_c(&text, '{');
	for (int i = 0; i < n; i++) {
		Mo* m = &s->mo[PICK(s->n)];
		if (i) sb_c(&text, ',');
		bool this_bad = i == bad_at;
		if (this_bad && PICK(4) == 0) { sb_s(&text, "\"no_such_option\":1"); bad = true; continue; }
		if (this_bad && m->type == OPT_JSON) this_bad = false;
		Doc* d = value_for(m, this_bad);
		render_str(&text, m->name, strlen(m->name)); sb_c(&text, ':'); render(&text, d);
		if (! (m->flags & OPT_C)) this_bad = true;
		bad |= this_bad;
		if (! bad) { mo_set(m, d); if (! (m->flags & OPT_E)) update = true; }
	}
	sb_c(&text, '}');
	if (PICK(12) == 0) { text.n--; text.p[text.n] = 0; bad = true; for (int i = 0; i < s->n; i++) { free(s->mo[i].s); } memcpy(s->mo, saved, sizeof(s->mo)); for (int i = 0; i < s->n; i++) if (saved[i].s) s->mo[i].s = exact(saved[i].s, saved[i].n); }
	pbt_note("set %s", show(text.p, text.n > 300 ? 300 : text.n));
	volatile bool got = false;
	bool err;
	if (argv) { char* a[1] = { text.p }; err = error_catch( got = opts_set_argv(set_opts(s), 1, a) ); }
	else { Str t; str_set(&t, text.p, text.n); err = error_catch( got = opts_set(set_opts(s), &t) ); }
	pbt_check(err == bad, "options %s: %s", show(text.p, text.n), err ? "are refused" : "are accepted");
	n_sets++;
	if (! err) pbt_check(got == update, "options %s: %s", show(text.p, text.n), got ? "have to be saved" : "do not have to be saved");
	else {
		n_refused++;
		// options before the wrong one are either set or not, all others are unchanged
		for (int i = 0; i < s->n; i++) {
			Mo* m = &s->mo[i], *o = &saved[i];
			bool at_old;
			if (m->type == OPT_INT || m->type == OPT_BOOL) at_old = (int64_t)opt_int_of(m->opt) == o->i;
			else at_old = (o->null && is_null(&m->opt->string)) || (! o->null && str_size(&m->opt->string) == o->n && ! memcmp(str_of(&m->opt->string), o->s, o->n));
			if (at_old) { m->i = o->i; m->null = o->null; if (o->s) { bool null = o->null; mo_str(m, o->s, o->n); m->null = null; } }
		}
	}
	for (int i = 0; i < s->n; i++) free(saved[i].s);
	free(saved);
	set_check(s, err ? "after refused options" : "after options");
}
static void op_arg(Set* s)
{
	static Sb text; sb_reset(&text);
	Mo* m = &s->mo[PICK(s->n)];
	sb_f(&text, "--%s", m->name);
	bool bad = ! (m->flags & OPT_C), set = true;
	Doc* d = NULL;
	switch (m->type) {
	case OPT_BOOL:
		d = doc_new(D_BOOL); d->i = 1;
		switch (PICK(5)) { case 0: break; case 1: sb_s(&text, "="); break; case 2: sb_s(&text, "=true"); break; case 3: sb_s(&text, "=false"); d->i = 0; break; default: sb_s(&text, PICK(2) ? "=yes" : "=TRUE"); bad = true; }
		break;
	case OPT_INT: {
		char t[64]; int64_t v = 0;
		switch (PICK(5)) { case 0: snprintf(t, sizeof(t), "%" PRIu64, (uint64_t)pbt_int64()); break; case 1: snprintf(t, sizeof(t), "%d", -PICK(10)); break; case 2: snprintf(t, sizeof(t), "%dx", PICK(100)); break; case 3: t[0] = 0; break; default: snprintf(t, sizeof(t), "%d", PICK(1000)); }
		sb_f(&text, "=%s", t);
		if (! t[0] || ! int_text(t, strlen(t), &v) || (v == 0 && (m->flags & OPT_Z))) bad = true;
		d = int_doc(v);
		break;
	}
	case OPT_STRING:
		d = gen_str();
		for (int i = 0; i < d->n; i++) if (! d->s[i]) d->s[i] = 'x';
		sb_c(&text, '='); sb_add(&text, d->s, d->n);
		if (! d->n) bad = true;
		break;
	default:
		d = no_reals(gen_doc(2));
		sb_c(&text, '='); { int at = text.n; render(&text, d); if (PICK(5) == 0) { text.n = at; text.p[at] = 0; if (PICK(2)) sb_s(&text, "[1,"); bad = true; } }
		break;
	}
	switch (PICK(20)) {
	case 0: sb_reset(&text); sb_s(&text, "--no_such_option=1"); bad = true; break;
	case 1: memmove(text.p, text.p + 1, text.n--); bad = true; break;
	case 2: sb_reset(&text); sb_s(&text, PICK(2) ? "--" : "--=1"); bad = true; break;
	case 3: sb_reset(&text); sb_s(&text, PICK(2) ? "--json" : "--json=[1]"); bad = true; break;
	}
	pbt_note("argument %s", show(text.p, text.n > 300 ? 300 : text.n));
	char* a[1] = { exact(text.p, text.n + 1) };
	volatile bool got = false;
	bool err = error_catch( got = opts_set_argv(set_opts(s), 1, a) );
	free(a[0]);
	pbt_check(err == bad, "argument %s: %s", show(text.p, text.n), err ? "is refused" : "is accepted");
	n_sets++; n_refused += err;
	if (! err && set) { mo_set(m, d); pbt_check(got == ! (m->flags & OPT_E), "argument %s: wrong need to save", show(text.p, text.n)); }
	set_check(s, err ? "after a refused argument" : "after an argument");
}
static void op_args(Set* s)
{
	// several valid arguments
	char* a[5]; int n = 0;
	bool update = false;
	for (int k = 1 + PICK(4); k > 0; k--) {
		Mo* m = &s->mo[PICK(s->n)];
		if (! (m->flags & OPT_C)) continue;
		Doc* d = value_for(m, false);
		Sb t = { 0 };
		if (PICK(2) || m->type == OPT_STRING || (m->type == OPT_INT && d->i < 0)) { sb_s(&t, "--json={"); render_str(&t, m->name, strlen(m->name)); sb_c(&t, ':'); render(&t, d); sb_c(&t, '}'); }
		else { sb_f(&t, "--%s=", m->name); render(&t, d); }
		pbt_note("argument %s", show(t.p, t.n > 300 ? 300 : t.n));
		mo_set(m, d);
		if (! (m->flags & OPT_E)) update = true;
		a[n++] = exact(t.p, t.n + 1);
		sb_free(&t);
	}
	volatile bool got = false;
	bool err = error_catch( got = opts_set_argv(set_opts(s), n, a) );
	pbt_check(! err, "valid arguments are refused");
	pbt_check(got == update, "arguments: wrong need to save");
	for (int i = 0; i < n; i++) free(a[i]);
	if (n > 1) pbt_class("several arguments");
	set_check(s, "after arguments");
}
static void op_list(Set* s)
{
	for (int persistent = 0; persistent < 2; persistent++) {
		Buf* b = persistent ? opts_list_persistent(set_opts(s)) : opts_list(set_opts(s));
		defer_buf(b);
		uint8_t* pos = b->start;
		Doc* d = to_doc(&pos);
		pbt_check(pos == b->position, "list of options has an excess");
		int at = 0;
		for (int i = 0; i < s->n; i++) {
			Mo* m = &s->mo[i];
			if (persistent ? m->flags & OPT_E : m->flags & (OPT_H|OPT_S)) continue;
			pbt_check(at < d->count && ! strcmp(d->key[at]->s, m->name), "option %s is not listed", m->name);
			Doc* v = d->item[at++];
			bool ok = true;
			switch (m->type) {
			case OPT_BOOL: ok = v->type == D_BOOL && v->i == m->i; break;
			case OPT_INT: ok = v->type == D_INT && v->i == m->i; break;
			case OPT_STRING: ok = v->type == D_STR && v->n == m->n && ! memcmp(v->s, m->s, v->n); break;
			case OPT_JSON: ok = (v->type == D_NULL) == m->null; break;
			}
			pbt_check(ok, "option %s is listed with another value", m->name);
		}
		pbt_check(at == d->count, "%d options are listed, expected %d", d->count, at);
	}
}
static void op_save(Set* s)
{
	if (s->kind == 2) return;
	const char* path = scratch("options.json");
	if (s->kind == 0) { unlink(path); config_save(&s->config, path); } else state_save(&s->state, path);
	static Set t;
	set_open(&t, s->kind);
	if (s->kind == 0) config_open(&t.config, path); else state_open(&t.state, path);
	for (int i = 0; i < s->n; i++) {
		Mo* a = &s->mo[i], *b = &t.mo[i];
		if (a->flags & OPT_E) continue;
		b->i = a->i; if (a->s) mo_str(b, a->s, a->n); b->null = a->null;
	}
	set_check(&t, "saved and opened");
	set_close(&t);
	// a damaged file is refused
	if (PICK(3) == 0) {
		FILE* f = fopen(path, "r+"); fseek(f, 0, SEEK_END); long n = ftell(f);
		pbt_check(truncate(path, 1 + PICK(n - 2)) == 0, "truncate"); fclose(f);
		set_open(&t, s->kind);
		bool err = error_catch( if (s->kind == 0) config_open(&t.config, path); else state_open(&t.state, path) );
		pbt_check(err, "cut file of options is opened");
		set_check(&t, "after a cut file");
		set_close(&t);
	}
	unlink(path);
	pbt_class(s->kind ? "state saved" : "config saved");
}
static void run_options(void)
{
	static Set s, t;
	int kind = PICK(3);
	n_sets = n_refused = 0;
	opt_n = 1 + PICK(12);
	for (int i = 0; i < opt_n; i++) {
		snprintf(opt_names[i], 8, "opt_%d", i);
		opt_types[i] = (OptType[]){ OPT_INT, OPT_BOOL, OPT_STRING, OPT_JSON }[PICK(4)];
		opt_flags[i] = (PICK(5) ? OPT_C : 0) | (PICK(4) ? 0 : OPT_E) | (PICK(4) ? 0 : OPT_Z) | (PICK(5) ? 0 : OPT_H) | (PICK(5) ? 0 : OPT_S);
	}
	set_open(&s, kind);
	while (pbt_more(6)) {
		switch (PICK(7)) {
		case 6: op_args(&s); break;
		case 0: case 1: op_json(&s, PICK(4) == 0); break;
		case 2: op_arg(&s); break;
		case 3: op_list(&s); break;
		case 4: op_save(&s); break;
		case 5: {
			set_open(&t, kind);
			opts_copy(set_opts(&t), set_opts(&s));
			for (int i = 0; i < s.n; i++) { Mo* a = &s.mo[i], *b = &t.mo[i]; b->i = a->i; if (a->s) mo_str(b, a->s, a->n); b->null = a->null; }
			set_check(&t, "copied");
			set_close(&t);
			break;
		}
		}
	}
	Str none; str_set_cstr(&none, "no_such_option");
	pbt_check(! opts_find(set_opts(&s), &none), "option is found");
	set_check(&s, "at the end");
	op_list(&s);
	set_close(&s);
	pbt_class("options");
	if (n_refused) pbt_class("options refused");
	if (n_sets > 2) pbt_nontrivial();
}

// listen addresses of the server ---------------------------------------------
static void run_server(void)
{
	static Sb text; sb_reset(&text);
	Doc* d = doc_new(D_OBJ);
	Doc* path = NULL, *mode = NULL, *host = NULL; int64_t port = 3485, mode_v = 0644; bool auth = false, tls = false, bad = false;
	while (d->count < 6 && pbt_more(4)) {
		Doc* v; const char* k; bool wrong = PICK(16) == 15;
		switch (PICK(7)) {
		case 0: k = "path"; v = gen_str(); if (! wrong) path = v; break;
		case 1: { k = "path_mode"; char t[16]; int m = PICK(01000); snprintf(t, sizeof(t), PICK(2) ? "0%o" : "%o", m); v = str_doc(t); if (! wrong) { mode = v; mode_v = m; } break; }
		case 2: k = "host"; v = gen_str(); if (! wrong) host = v; break;
		case 3: k = "port"; v = int_doc(PICK(65536)); if (! wrong) port = v->i; break;
		case 4: k = "auth"; v = doc_new(D_BOOL); v->i = PICK(2); if (! wrong) auth = v->i; break;
		case 5: k = "tls"; v = doc_new(D_BOOL); v->i = PICK(2); if (! wrong) tls = v->i; break;
		default: if (PICK(4)) continue; k = "unknown"; v = int_doc(1); bad = true;
		}
		if (wrong) { v = other_type(v); bad = true; }
		bool dup = false;
		for (int i = 0; i < d->count; i++) dup |= ! strcmp(d->key[i]->s, k);
		if (dup && (path || host || mode)) { /* last one wins */ }
		doc_push(d, str_doc(k), v);
	}
	if (PICK(12) == 11) { d = other_type(d); bad = true; }
	render(&text, d);
	pbt_note("listen %s", show(text.p, text.n));
	Json json; parse_text(&json, &text);
	defer(json_free, &json);
	uint8_t* pos = json.buf->start;
	ServerConfig* volatile c = NULL;
	bool err = error_catch( c = server_config_read(&pos) );
	pbt_check(err == bad, "listen %s: %s", show(text.p, text.n), err ? "is refused" : "is accepted");
	if (! err) {
		pbt_check(pos == json.buf->position, "listen is not read to the end");
		pbt_check(str_size(&c->path) == (path ? path->n : 0) && ! memcmp(str_of(&c->path), path ? path->s : "", path ? path->n : 0), "listen: path differs");
		pbt_check(str_size(&c->host) == (host ? host->n : 0) && ! memcmp(str_of(&c->host), host ? host->s : "", host ? host->n : 0), "listen: host differs");
		pbt_check(c->path_mode == mode_v && c->host_port == port && c->auth == auth && c->tls == tls, "listen %s: mode %o port %d auth %d tls %d", show(text.p, text.n), c->path_mode, (int)c->host_port, c->auth, c->tls);
		server_config_free(c);
		if (d->count > 2) pbt_nontrivial();
	}
	pbt_class("listen");
}
static void run_case(void)
{
	switch (PICK(5)) {
	case 0: case 1: case 2: run_definition(); break;
	case 3: run_options(); break;
	case 4: run_server(); break;
	}
	doc_free_all();
}
PbtHarness pbt_harness = { .name = "config", .run = run_case };
