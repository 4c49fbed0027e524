// storages, partition manager and rows over the scratch directory
#include <sys/resource.h>
#include <signal.h>
#include <dirent.h>
#include <sys/stat.h>
#include <ftw.h>

static int rm_one(const char* p, const struct stat* s, int f, struct FTW* w) { (void)s; (void)f; (void)w; return remove(p); }
static void rm_tree(const char* path)
{
	// only ever inside of the scratch directory of this process
	if (strncmp(path, pbt_dir(), strlen(pbt_dir())) || strlen(path) <= strlen(pbt_dir()) + 1) abort();
	nftw(path, rm_one, 16, FTW_DEPTH | FTW_PHYS);
}
static char base_dir[1024];
static void base_create(void)
{
	snprintf(base_dir, sizeof(base_dir), "%s/base", pbt_dir());
	rm_tree(base_dir);
	mkdir(base_dir, 0755);
	char t[1100];
	snprintf(t, sizeof(t), "%s/storage", base_dir);
	mkdir(t, 0755);
	opt_string_set_cstr(&state()->directory, base_dir);
}
static void base_drop(void) { rm_tree(base_dir); }

static void storage_make(StorageMgr* mgr, const char* name, const char* compression)
{
	Tr tr;
	tr_init(&tr);
	tr_begin(&tr);
	auto config = storage_config_allocate();
	Str s;
	str_set_cstr(&s, name); storage_config_set_name(config, &s);
	str_set_cstr(&s, compression); storage_config_set_compression(config, &s);
	storage_mgr_create(mgr, &tr, config, false);
	storage_config_free(config);
	tr_commit(&tr);
	tr_free(&tr);
}
static Volume* volume_make(const char* storage, int n)
{
	auto v = volume_allocate();
	Str s; str_set_cstr(&s, storage);
	volume_set_name(v, &s);
	Uuid id; uuid_init(&id);
	id.a = 0x1234567800000000ull + n; id.b = n;
	volume_set_id(v, &id);
	return v;
}
static char* file_load(const char* path, int* size)
{
	FILE* f = fopen(path, "rb");
	if (! f) return NULL;
	fseek(f, 0, SEEK_END);
	*size = ftell(f);
	rewind(f);
	char* p = malloc(*size + 1);
	if (fread(p, 1, *size, f) != (size_t)*size) abort();
	fclose(f);
	return p;
}
static void file_store(const char* path, const char* p, int size)
{
	FILE* f = fopen(path, "wb");
	if (! f || fwrite(p, 1, size, f) != (size_t)size) abort();
	fclose(f);
}
// damage for files: one of several kinds; false if the content is the same after it
static bool damage(char** p, int* size, char* what)
{
	int old = *size;
	char* copy = exact(*p, old);
	switch (PICK(6)) {
	case 0: { int at = PICK(old), bit = PICK(8); (*p)[at] ^= 1 << bit; sprintf(what, "flip bit %d of byte %d", bit, at); break; }
	case 1: { int n = PICK(old); *size = n; sprintf(what, "truncate to %d of %d", n, old); break; }
	case 2: { int at = PICK(old), n = 1 + PICK(64); if (at + n > old) n = old - at; for (int i = 0; i < n; i++) (*p)[at + i] = (char)(pbt_pick(256)); sprintf(what, "overwrite %d bytes at %d", n, at); break; }
	case 3: { int at = PICK(old), n = 1 + PICK(5000); if (at + n > old) n = old - at; memset(*p + at, 0, n); sprintf(what, "zero %d bytes at %d", n, at); break; }
	case 4: { int at = PICK(old), n = 1 + PICK(200); if (at + n > old) n = old - at; memmove(*p + at, *p + at + n, old - at - n); *size -= n; sprintf(what, "cut %d bytes at %d", n, at); break; }
	case 5: { // a header field: flip in the first part of the file
		int at = PICK(old < 256 ? old : 256), bit = PICK(8); (*p)[at] ^= 1 << bit; sprintf(what, "flip bit %d of byte %d", bit, at); break; }
	}
	bool changed = *size != old || memcmp(*p, copy, *size);
	free(copy);
	return changed;
}
