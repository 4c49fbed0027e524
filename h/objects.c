// C08: object files: writer, regions, branches, reopen, merge, mapping
#include <amelie_test_scope>
#include "pbt.h"
#include "util.h"
#include "rows.h"
#include "store.h"

#define POOL 600
typedef struct { Cell c[4]; char s[2][40]; } KeyVal;
typedef struct { int key; int size; uint64_t seed; } Ent; // size -1: null
typedef struct { Ent* e; int n; } Set;                    // in key order
#define BRANCHES 8

static Schema  schema;
static Keys    keys;
static int     key_cols, kcol[3];
static KeyVal* pool[POOL];
static int     pool_n;
static StorageMgr storages;
static Volume* volume;
static uint8_t* body;

static uint64_t mix(uint64_t x)
{
	x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
	return x;
}
static int kv_cmp(KeyVal* a, KeyVal* b)
{
	for (int i = 0; i < key_cols; i++) {
		int rc = cell_cmp(&schema.def[kcol[i]], &a->c[i], &b->c[i]);
		if (rc) return rc;
	}
	return 0;
}
static int kv_sort(const void* a, const void* b) { return kv_cmp(*(KeyVal**)a, *(KeyVal**)b); }
static void gen_cell(ColDef* d, Cell* c, char* text, bool narrow)
{
	memset(c, 0, sizeof(*c));
	int64_t v = narrow ? PICK(40) - 10 : pbt_int64();
	switch (d->type) {
	case TYPE_STRING:
		c->p = (uint8_t*)text;
		c->n = PICK(narrow ? 3 : 39);
		for (int i = 0; i < c->n; i++) text[i] = narrow ? 'a' + PICK(3) : (char)PICK(256);
		break;
	case TYPE_UUID: c->ua = narrow ? (uint64_t)(v & 3) : (uint64_t)v; c->ub = narrow ? (uint64_t)v : mix(v); break;
	default: c->i = d->size == 4 ? (int32_t)v : v; break;
	}
}
static void gen_pool(void)
{
	int want = 1 + PICK(PICK(3) ? 60 : POOL - 1);
	bool dense = PICK(2), narrow = PICK(2);
	int64_t from = pbt_int64();
	pool_n = 0;
	for (int i = 0; i < want && ! pbt_exhausted(); i++) {
		KeyVal* k = calloc(1, sizeof(*k));
		for (int j = 0; j < key_cols; j++) gen_cell(&schema.def[kcol[j]], &k->c[j], k->s[j & 1], narrow || j);
		if (dense && schema.def[kcol[0]].type != TYPE_STRING && schema.def[kcol[0]].type != TYPE_UUID) {
			int64_t v = (int64_t)((uint64_t)from + i * 2);
			k->c[0].i = schema.def[kcol[0]].size == 4 ? (int32_t)v : v;
		}
		pool[pool_n++] = k;
	}
	qsort(pool, pool_n, sizeof(*pool), kv_sort);
	int n = 0;
	for (int i = 0; i < pool_n; i++) {
		if (n && ! kv_cmp(pool[n - 1], pool[i])) { free(pool[i]); continue; }
		pool[n++] = pool[i];
	}
	pool_n = n;
}
static void fill(Ent* e, Cell* c)
{
	memset(c, 0, sizeof(Cell) * schema.count);
	for (int i = 0; i < schema.count; i++) c[i].null = true;
	for (int i = 0; i < key_cols; i++) c[kcol[i]] = pool[e->key]->c[i];
	if (e->size < 0) return;
	for (int i = 0; i < e->size; i += 8) { uint64_t v = e->seed & 1 ? mix(e->seed + i) : e->seed; memcpy(body + i, &v, 8); }
	c[schema.count - 1].null = false;
	c[schema.count - 1].p = body;
	c[schema.count - 1].n = e->size;
}
static Row* row_of(Ent* e) { Cell c[8]; fill(e, c); return row_build(&schema, c); }
static Row* key_of(int key) { Ent e = { key, -1, 0 }; return row_of(&e); }
static void same(Ent* e, Row* row, const char* what, int at)
{
	pbt_check(row, "%s: row %d is missing", what, at);
	Cell c[8];
	fill(e, c);
	for (int i = 0; i < schema.count; i++)
		pbt_check(cell_is(&schema.def[i], &c[i], row_at(row, i)), "%s: column %d of row %d differs", what, i, at);
}
static int lower(Set* s, int key) { int i = 0; while (i < s->n && s->e[i].key < key) i++; return i; }

typedef struct { Object* object; Set sets[BRANCHES]; int n; } Obj; // branches in order of writing
static void gen_set(Set* s, int from, int to)
{
	// a part of the keys between
	s->e = calloc(to - from + 1, sizeof(Ent));
	s->n = 0;
	int how = PICK(5), big = PICK(4) == 0 ? PICK(20000) : PICK(300);
	bool noise = PICK(2);
	if (how == 4) return;
	for (int i = from; i < to; i++) {
		if (how == 1 && PICK(3) == 0) continue;
		if (how == 2 && i % 7) continue;
		if (how == 3 && (i - from) > (to - from) / 3) continue;
		Ent* e = &s->e[s->n++];
		uint64_t r = mix(i * 31 + s->n + big);
		*e = (Ent){ i, i % 13 == 12 ? -1 : (int)(r % (big + 1)), (mix(r) << 1) | noise };
		if (s->n > 120 && big > 3000) break;
	}
}
static void scan(Set* s, int at, Iterator* it, const char* what)
{
	int from = at;
	while (iterator_has(it)) {
		pbt_check(at < s->n, "%s: more than %d rows", what, s->n - from);
		same(&s->e[at], iterator_at(it), what, at);
		at++;
		iterator_next(it);
	}
	pbt_check(at == s->n, "%s: %d rows, expected %d", what, at - from, s->n - from);
}
static void check_branch(Branch* b, Set* s, BranchIterator* it, const char* when)
{
	pbt_check(b->meta.rows == (uint64_t)s->n, "%s: branch has %" PRIu64 " rows, expected %d", when, b->meta.rows, s->n);
	pbt_check((b->meta.regions > 0) == (s->n > 0), "%s: %d regions of %d rows", when, b->meta.regions, s->n);
	char what[100];
	snprintf(what, sizeof(what), "%s: scan", when);
	branch_iterator_reset(it);
	branch_iterator_open(it, &keys, b, NULL);
	scan(s, 0, &it->it, what);
	if (s->n) {
		same(&(Ent){ s->e[0].key, s->e[0].size, s->e[0].seed }, branch_min(b), "first row", 0);
		same(&s->e[s->n - 1], branch_max(b), "last row", s->n - 1);
	} else pbt_check(! branch_min(b) && ! branch_max(b), "%s: empty branch has a row", when);
	// seek
	for (int q = 0; q < 6; q++) {
		int key = PICK(pool_n), at = lower(s, key);
		Row* k = key_of(key);
		branch_iterator_reset(it);
		bool match = branch_iterator_open(it, &keys, b, k), want = at < s->n && s->e[at].key == key;
		pbt_check(match == want, "%s: seek of %d: row is %s", when, key, match ? "found" : "not found");
		snprintf(what, sizeof(what), "%s: seek of key %d", when, key);
		if (PICK(3) == 0) scan(s, at, &it->it, what);
		else if (at == s->n) pbt_check(! branch_iterator_has(it), "%s: row after the last", what);
		else {
			for (int j = 0; j < 3 && at < s->n; j++) {
				pbt_check(branch_iterator_has(it), "%s: no row", what);
				same(&s->e[at], branch_iterator_at(it), what, at);
				branch_iterator_next(it);
				at++;
			}
		}
		free(k);
	}
}
static void merged(Obj* o, Set* out)
{
	// newest version of each key
	out->e = calloc(pool_n + 1, sizeof(Ent));
	out->n = 0;
	for (int k = 0; k < pool_n; k++) {
		for (int b = o->n - 1; b >= 0; b--) {
			int at = lower(&o->sets[b], k);
			if (at < o->sets[b].n && o->sets[b].e[at].key == k) { out->e[out->n++] = o->sets[b].e[at]; break; }
		}
	}
}
static void check_merge(Obj* o, const char* when)
{
	Set m;
	merged(o, &m);
	MergeIterator* it = merge_iterator_allocate(true);
	for (int q = 0; q < 3; q++) {
		int key = q ? PICK(pool_n) : -1;
		Row* k = key < 0 ? NULL : key_of(key);
		merge_iterator_reset(it);
		for (auto b = o->object->branches; b; b = b->next) {
			auto bi = branch_iterator_allocate();
			branch_iterator_open(bi, &keys, b, k);
			merge_iterator_add(it, &bi->it);
		}
		merge_iterator_open(it, &keys);
		char what[100];
		snprintf(what, sizeof(what), "%s: merge from %d", when, key);
		scan(&m, key < 0 ? 0 : lower(&m, key), &it->it, what);
		if (k) free(k);
		if (q < 2) { auto list = (MergeIteratorRef*)it->list.start; for (int i = 0; i < it->list_count; i++) iterator_close(list[i].it); }
	}
	merge_iterator_free(it);
	free(m.e);
}
static void check_object(Obj* o, const char* when)
{
	pbt_check(o->object->branches_count == o->n, "%s: %d branches, expected %d", when, o->object->branches_count, o->n);
	BranchIterator it;
	branch_iterator_init(&it);
	int at = o->n - 1;
	for (auto b = o->object->branches; b; b = b->next) {
		check_branch(b, &o->sets[at], &it, when);
		if (at == 0) pbt_check(o->object->root == b, "%s: first branch is not the root", when);
		at--;
	}
	branch_iterator_free(&it);
	if (o->n > 1 || PICK(2)) check_merge(o, when);
}
static Writer* writer;
static void write_branch(Object* object, Set* s, int region_size)
{
	// files are written at their position: continue at the end
	file_seek_to_end(&object->file);
	size_t before = object->file.size;
	writer_reset(writer);
	writer_start(writer, &object->file, volume->storage, region_size);
	for (int i = 0; i < s->n; i++) { Row* r = row_of(&s->e[i]); writer_add(writer, r); free(r); }
	writer_stop(writer);
	pbt_check(object->file.size - before == meta_writer_total(&writer->meta_writer), "written %zu bytes, %" PRIu64 " are stated", object->file.size - before, meta_writer_total(&writer->meta_writer));
}
static void add_branch(Obj* o, Set* s)
{
	auto branch = branch_allocate(&o->object->id, &o->object->file);
	meta_writer_copy(&writer->meta_writer, &branch->meta, &branch->meta_data);
	object_add(o->object, branch);
	o->sets[o->n++] = *s;
}
static void path_of(Object* object, char* path, int state) { id_path(&object->id, path, state, false); }
static void close_object(Obj* o) { object_free(o->object); o->object = NULL; }
static void open_object(Obj* o, Id* id)
{
	o->object = object_allocate(id);
	object_open(o->object, STATE_COMPLETE);
}
static int region_size_pick(void) { return (int[]){ 1, 100, 1000, 8192, 1 << 20 }[PICK(5)]; }
static void start(void)
{
	if (! body) body = malloc(1 << 16);
	base_create();
	schema_init(&schema);
	memset(kcol, 0, sizeof(kcol));
	key_cols = 1 + PICK(2);
	int cols = key_cols + PICK(2) + 1;
	for (int i = 0; i < cols - 1; i++) {
		switch (PICK(5)) {
		case 0: schema_add(&schema, TYPE_INT, 8); break;
		case 1: schema_add(&schema, TYPE_INT, 4); break;
		case 2: schema_add(&schema, TYPE_STRING, 0); break;
		case 3: schema_add(&schema, TYPE_TIMESTAMP, 8); break;
		case 4: schema_add(&schema, TYPE_UUID, sizeof(Uuid)); break;
		}
	}
	schema_add(&schema, TYPE_STRING, 0);
	for (int i = 0; i < key_cols; i++) kcol[i] = i;
	if (cols - 1 > key_cols) { int skip = PICK(key_cols + 1); for (int i = 0; i < key_cols; i++) kcol[i] = i >= skip ? i + 1 : i; }
	keys_init(&keys, &schema.columns);
	for (int i = 0; i < key_cols; i++) { auto k = key_allocate(); key_set_ref(k, kcol[i]); keys_add(&keys, k); }
	gen_pool();
	storage_mgr_init(&storages);
	const char* comp = (const char*[]){ "", "zstd", "none" }[PICK(3)];
	storage_make(&storages, "s0", comp);
	volume = volume_make("s0", 1);
	volume->storage = storage_mgr_find(&storages, &volume->name, true);
	volume_mkdir(volume);
	opt_int_set(&config()->storage_sync, false);
	opt_int_set(&config()->storage_crc, true);
	writer = writer_allocate();
	pbt_note("%d keys of %d columns, compression '%s'", pool_n, key_cols, comp);
	pbt_class(*comp ? comp : "no compression");
}
static void stop(void)
{
	writer_free(writer);
	volume_free(volume);
	storage_mgr_free(&storages);
	keys_free(&keys);
	schema_free(&schema);
	for (int i = 0; i < pool_n; i++) free(pool[i]);
	base_drop();
}
static void free_sets(Obj* o) { for (int i = 0; i < o->n; i++) free(o->sets[i].e); }
static void case_history(void)
{
	start();
	Obj o = { 0 };
	Id id = { .id = 1 + PICK(100), .version = 1, .volume = volume };
	o.object = object_allocate(&id);
	object_create(o.object, STATE_INCOMPLETE);
	Set s;
	gen_set(&s, 0, pool_n);
	int rs = region_size_pick();
	pbt_note("branch of %d rows, regions of %d", s.n, rs);
	write_branch(o.object, &s, rs);
	add_branch(&o, &s);
	check_object(&o, "after write");
	if (o.object->branches->meta.regions > 1) pbt_class("several regions");
	object_rename(o.object, STATE_INCOMPLETE, STATE_COMPLETE);
	while (o.n < BRANCHES - 1 && pbt_more(3) && ! pbt_exhausted()) {
		switch (PICK(4)) {
		case 0: case 1: {
			// next branch
			char from[PATH_MAX], to[PATH_MAX];
			path_of(o.object, from, STATE_COMPLETE);
			gen_set(&s, 0, pool_n);
			rs = region_size_pick();
			opt_int_set(&config()->storage_crc, PICK(4) != 0);
			pbt_note("next branch of %d rows, regions of %d", s.n, rs);
			write_branch(o.object, &s, rs);
			if (PICK(5) == 0) {
				// killed before the version is changed
				Id old = o.object->id;
				close_object(&o);
				free(s.e);
				int size; char* p = file_load(from, &size);
				if (PICK(2)) { int cut = PICK(200); if (cut < size) file_store(from, p, size - cut > 0 ? size - cut : 1); }
				free(p);
				// the file may not be shorter than its branches
				pbt_note("interrupted branch");
				struct stat st;
				stat(from, &st);
				Obj t = o;
				t.object = object_allocate(&old);
				bool failed = error_catch( object_open(t.object, STATE_COMPLETE); );
				if (failed) { object_free(t.object); free_sets(&o); stop(); return; }
				o = t;
				check_object(&o, "after an interrupted branch");
				pbt_class("interrupted branch");
				break;
			}
			o.object->id.version++;
			path_of(o.object, to, STATE_COMPLETE);
			if (rename(from, to)) abort();
			add_branch(&o, &s);
			check_object(&o, "after the next branch");
			pbt_class("several branches");
			break;
		}
		case 2: {
			Id old = o.object->id;
			close_object(&o);
			opt_int_set(&config()->storage_crc, PICK(3) != 0);
			pbt_note("open again");
			open_object(&o, &old);
			check_object(&o, "after open");
			pbt_class("open");
			break;
		}
		case 3: check_object(&o, "again"); break;
		}
	}
	opt_int_set(&config()->storage_crc, true);
	Id last = o.object->id;
	close_object(&o);
	open_object(&o, &last);
	check_object(&o, "at the end");
	if (pool_n > 4 && o.sets[0].n > 2) pbt_nontrivial();
	object_delete(o.object, STATE_COMPLETE);
	char path[PATH_MAX];
	path_of(o.object, path, STATE_COMPLETE);
	pbt_check(access(path, F_OK) != 0, "deleted object file is there");
	close_object(&o);
	free_sets(&o);
	stop();
}
static void case_damage(void)
{
	start();
	Obj o = { 0 };
	Id id = { .id = 7, .version = 1, .volume = volume };
	o.object = object_allocate(&id);
	object_create(o.object, STATE_COMPLETE);
	int n = 1 + PICK(3);
	char path[PATH_MAX], to[PATH_MAX];
	for (int i = 0; i < n; i++) {
		Set s;
		gen_set(&s, 0, pool_n);
		write_branch(o.object, &s, region_size_pick());
		add_branch(&o, &s);
	}
	path_of(o.object, path, STATE_COMPLETE);
	id.version = o.object->id.version = n;
	path_of(o.object, to, STATE_COMPLETE);
	if (n > 1 && rename(path, to)) abort();
	close_object(&o);
	int size, refused = 0; char* p = file_load(to, &size);
	for (int q = 0; q < 12; q++) {
		int dn = size; char* d = exact(p, size);
		char what[200];
		if (! damage(&d, &dn, what)) { free(d); continue; }
		file_store(to, d, dn);
		free(d);
		if (pbt_replaying()) pbt_note("%s", what);
		o.object = object_allocate(&id);
		static bool opened; opened = false;
		int same_rows = 1;
		unused(same_rows);
		bool failed = error_catch( object_open(o.object, STATE_COMPLETE); opened = true; );
		if (failed) { refused++; close_object(&o); continue; }
		// rows of each branch are the ones written up to an error
		int at = o.n - 1;
		for (auto b = o.object->branches; b; b = b->next, at--) {
			static BranchIterator it;
			branch_iterator_init(&it);
			Set* s = &o.sets[at];
			static int pos;
			pos = 0;
			bool err = error_catch(
				for (branch_iterator_open(&it, &keys, b, NULL); branch_iterator_has(&it); branch_iterator_next(&it)) {
					if (pos >= s->n) pbt_fail("%s: more rows than written", what);
					same(&s->e[pos], branch_iterator_at(&it), what, pos);
					pos++;
				}
			);
			if (err) refused++;
			else pbt_check(pos == s->n, "%s: %d rows of %d without an error", what, pos, s->n);
			branch_iterator_free(&it);
		}
		pbt_check(at == -1, "%s: branches are missing without an error", what);
		close_object(&o);
	}
	file_store(to, p, size);
	open_object(&o, &id);
	check_object(&o, "intact file");
	close_object(&o);
	if (refused > 3) pbt_nontrivial();
	pbt_count("damaged files refused", refused);
	pbt_class("damage");
	free(p);
	free_sets(&o);
	stop();
}
static void case_mapping(void)
{
	// objects of disjoint ranges of keys
	start();
	static Object* objects[64]; static Set sets[64];
	static int first[64], last[64];
	int n = 0;
	Mapping m;
	mapping_init(&m, &keys);
	int at = 0;
	opt_int_set(&config()->storage_crc, true);
	while (at < pool_n && n < 40) {
		int to = at + 1 + PICK(6);
		if (to > pool_n) to = pool_n;
		Set s = { calloc(to - at + 1, sizeof(Ent)), 0 };
		for (int i = at; i < to; i++) if (i == at || PICK(3)) s.e[s.n++] = (Ent){ i, 10, i };
		Id id = { .id = n + 1, .version = 1, .volume = volume };
		objects[n] = object_allocate(&id);
		object_create(objects[n], STATE_COMPLETE);
		write_branch(objects[n], &s, 100);
		Obj o = { .object = objects[n] };
		add_branch(&o, &s);
		sets[n] = s; first[n] = s.e[0].key; last[n] = s.e[s.n - 1].key;
		n++;
		at = to + (PICK(3) == 0 ? PICK(3) : 0);
	}
	// in any order
	int order[64];
	for (int i = 0; i < n; i++) order[i] = i;
	for (int i = n - 1; i > 0; i--) { int j = PICK(i + 1), t = order[i]; order[i] = order[j]; order[j] = t; }
	bool in[64] = { 0 };
	int count = 0;
	for (int step = 0, next = 0; step < 3 * n && ! pbt_exhausted(); step++) {
		if (next < n && (count == 0 || PICK(4))) { mapping_add(&m, objects[order[next]]); in[order[next]] = true; next++; count++; }
		else if (count > 1 && PICK(3) == 0) { int k = PICK(n); if (in[k]) { mapping_remove(&m, objects[k]); in[k] = false; count--; } }
		if (! count) continue;
		pbt_check(m.tree_count == count, "mapping has %d objects of %d", m.tree_count, count);
		int min = 0, max = n - 1;
		while (! in[min]) min++;
		while (! in[max]) max--;
		pbt_check(mapping_min(&m) == objects[min] && mapping_max(&m) == objects[max], "first or last object is wrong");
		for (int q = 0; q < 4; q++) {
			int key = PICK(pool_n);
			Row* k = key_of(key);
			int map = min, gte = -1;
			for (int i = 0; i < n; i++) if (in[i] && first[i] <= key) map = i;
			for (int i = n - 1; i >= 0; i--) if (in[i] && last[i] >= key) gte = i;
			Object* got = mapping_map(&m, k);
			pbt_check(got == objects[map], "key %d is mapped to object %d, expected %d", key, (int)got->id.id, map + 1);
			got = mapping_gte(&m, k);
			pbt_check(got == (gte < 0 ? NULL : objects[gte]), "objects from key %d start with %d, expected %d", key, got ? (int)got->id.id : 0, gte + 1);
			free(k);
		}
		int i = min;
		for (auto o = mapping_min(&m); o; o = mapping_next(&m, o)) { pbt_check(o == objects[i], "order of objects is wrong"); for (i++; i < n && ! in[i]; i++); }
		pbt_check(i >= n, "mapping ends early");
		i = max;
		for (auto o = mapping_max(&m); o; o = mapping_prev(&m, o)) { pbt_check(o == objects[i], "order of objects is wrong"); for (i--; i >= 0 && ! in[i]; i--); }
		pbt_check(i < 0, "mapping ends early");
	}
	if (n > 3) pbt_nontrivial();
	pbt_class("mapping");
	for (int i = 0; i < n; i++) { object_free(objects[i]); free(sets[i].e); }
	stop();
}
static void run_case(void)
{
	switch (PICK(4)) {
	case 0: case 1: case_history(); break;
	case 2: case_damage(); break;
	case 3: case_mapping(); break;
	}
}
PbtHarness pbt_harness = { .name = "objects", .run = run_case };
