// C32: authentication verdicts against an independent evaluation of the token
// C33 (-DUSERS): the user registry against a map, with restarts and interrupted saves
#include <amelie_test_scope>
#include <amelie_server>
#include <openssl/hmac.h>
#include <openssl/evp.h>
#include "pbt.h"
#include "util.h"
#include "store.h"

enum { NAMES = 5 };
static const char* names[NAMES] = { "alice", "bob", "al", "a\"b\\c", "\xd0\xb6ora" };
typedef struct { bool has; char secret[80]; int secret_n; } User_;
typedef struct { User_ u[NAMES]; int order[NAMES]; int n; } View;

static void str_of_(Str* s, const char* p, int n) { str_init(s); str_set(s, (char*)p, n); }
static void gen_secret(char* out, int* n)
{
	static const char* common[] = { "secret", "secret1", "s", "Secret", "", "key \"x\"", "\xd1\x8f" };
	if (PICK(3)) { strcpy(out, common[PICK(NELEM(common))]); *n = strlen(out); return; }
	*n = 1 + PICK(70);
	for (int i = 0; i < *n; i++) out[i] = 32 + PICK(95);
}
static UserConfig* make_config(const char* name, const char* secret, int n)
{
	auto c = user_config_allocate();
	Str s; str_of_(&s, name, strlen(name)); user_config_set_name(c, &s);
	str_of_(&s, secret, n); user_config_set_secret(c, &s);
	return c;
}
static void view_drop(View* v, int i)
{
	v->u[i].has = false;
	int at = 0;
	for (int k = 0; k < v->n; k++) if (v->order[k] != i) v->order[at++] = v->order[k];
	v->n = at;
}

// saving the state
static char state_path[1024];
static int  saves;
static void save_state(void* arg) { unused(arg); saves++; state_save(state(), state_path); }
static RuntimeIf iface = { save_state, NULL };

// one change of the registry, in the model as well; true if the change was made
static bool change(UserMgr* mgr, View* v)
{
	int i = PICK(NAMES);
	char secret[80]; int sn; gen_secret(secret, &sn);
	volatile bool flag = PICK(2);
	int kind = PICK(3);
	auto config = make_config(names[i], secret, sn);
	int before = saves;
	auto err = error_catch(
		if (kind == 0) user_mgr_create(mgr, config, flag);
		else if (kind == 1) user_mgr_drop(mgr, &config->name, flag);
		else user_mgr_alter(mgr, config);
	);
	user_config_free(config);
	pbt_note("%s %s secret '%s'%s%s\n", kind == 0 ? "create" : kind == 1 ? "drop" : "alter", names[i], show(secret, sn), flag ? " if (not) exists" : "", err ? " -> error" : "");
	bool want_err = false, made = false;
	if (kind == 0) { if (v->u[i].has) want_err = ! flag; else { made = true; v->u[i].has = true; v->order[v->n++] = i; } }
	else if (kind == 1) { if (! v->u[i].has) want_err = ! flag; else { made = true; view_drop(v, i); } }
	else { if (! v->u[i].has) want_err = true; else made = true; }
	if (made && kind != 1) { memcpy(v->u[i].secret, secret, sn); v->u[i].secret_n = sn; }
	pbt_check(err == want_err, "%s of user '%s' %s", kind == 0 ? "create" : kind == 1 ? "drop" : "alter", names[i], err ? "failed" : "was accepted");
	if (made) pbt_check(saves > before, "a change of the registry was not saved");
	return made;
}
static void registry_check(UserCache* cache, View* v, const char* when)
{
	auto all = user_cache_list(cache, NULL, FSECRETS); uint8_t* pos = all->start;
	// any order; every user exactly once with its own secret
	bool seen[NAMES] = { 0 };
	json_read_array(&pos);
	while (! json_read_array_end(&pos)) {
		auto c = user_config_read(&pos);
		int i = 0;
		for (; i < NAMES; i++) if (str_is(&c->name, (char*)names[i], strlen(names[i]))) break;
		pbt_check(i < NAMES && v->u[i].has, "%s: user '%s' is in the registry", when, show(str_of(&c->name), str_size(&c->name)));
		pbt_check(! seen[i], "%s: user '%s' is twice in the registry", when, names[i]);
		seen[i] = true;
		pbt_check(str_size(&c->secret) == v->u[i].secret_n && ! memcmp(str_of(&c->secret), v->u[i].secret, v->u[i].secret_n), "%s: user '%s' has secret '%s', expected '%s'", when, names[i],
		          show(str_of(&c->secret), str_size(&c->secret)), show(v->u[i].secret, v->u[i].secret_n));
		user_config_free(c);
	}
	buf_free(all);
	for (int i = 0; i < NAMES; i++) {
		pbt_check(seen[i] == v->u[i].has, "%s: user '%s' is missing", when, names[i]);
		Str s; str_of_(&s, names[i], strlen(names[i]));
		auto u = user_cache_find(cache, &s);
		pbt_check(!! u == v->u[i].has, "%s: user '%s' is %sfound", when, names[i], u ? "" : "not ");
		// without secrets
		auto one = user_cache_list(cache, &s, 0);
		pos = one->start;
		if (! v->u[i].has) pbt_check(json_is_null(pos), "%s: a missing user is listed", when);
		else {
			bool has_name = false;
			json_read_obj(&pos);
			while (! json_read_obj_end(&pos)) { Str k; json_read_string(&pos, &k); pbt_check(! str_is(&k, "secret", 6), "the secret of a user is shown"); if (str_is(&k, "name", 4)) has_name = true; json_skip(&pos); }
			pbt_check(has_name, "%s: a user is listed without its name", when);
		}
		buf_free(one);
	}
}

#ifndef USERS
// ------------------------------------------------------------------ tokens
static void b64(Sb* o, const void* d, int n)
{
	static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
	const unsigned char* p = d;
	for (int i = 0; i < n; i += 3) {
		unsigned v = p[i] << 16 | (i + 1 < n ? p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0);
		sb_c(o, A[v >> 18 & 63]); sb_c(o, A[v >> 12 & 63]);
		if (i + 1 < n) sb_c(o, A[v >> 6 & 63]);
		if (i + 2 < n) sb_c(o, A[v & 63]);
	}
}
static int b64_val(int c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '-' ? 62 : c == '_' ? 63 : -1; }
static void json_quote(Sb* o, const char* p)
{
	sb_c(o, '"');
	for (; *p; p++) { if (*p == '"' || *p == '\\') sb_c(o, '\\'); sb_c(o, *p); }
	sb_c(o, '"');
}
typedef struct {
	Sb   text;                 // the whole header value
	bool shaped;               // prefix, three parts, header and payload as they should be
	int  user;                 // subject, -1 unknown
	int64_t iat, exp;
	char secret[80]; int secret_n;   // it is signed with
	bool sig_ok;               // signature intact
	bool maybe;                // the verdict is left open (only ever false refusals)
} Token;

static int64_t now_s;
static void set_time(int64_t s)
{
	now_s = s;
	auto mgr = &am_task->timer_mgr;
	mgr->time_ms = s * 1000 + PICK(1000);
	mgr->time_us = mgr->time_ms * 1000;
	mgr->time_ns = mgr->time_us * 1000;
	mgr->time_cached = true;
}
static int64_t gen_time(void)
{
	static const int d[] = { 0, 1, -1, 2, -2, 60, -60, 3600, 100000, -100000 };
	return now_s + d[PICK(NELEM(d))];
}
static void token_sign(Token* t, const char* body, int n)
{
	unsigned char mac[32]; unsigned len = 32;
	HMAC(EVP_sha256(), t->secret_n ? t->secret : "", t->secret_n, (unsigned char*)body, n, mac, &len);
	sb_add(&t->text, body, n); sb_c(&t->text, '.'); b64(&t->text, mac, 32);
}
static void token_make(Token* t, View* v)
{
	memset(t, 0, sizeof(*t));
	t->shaped = t->sig_ok = true;
	t->user = v->n && PICK(8) ? v->order[PICK(v->n)] : PICK(NAMES);
	if (PICK(6)) { memcpy(t->secret, v->u[t->user].secret, t->secret_n = v->u[t->user].secret_n); }
	else gen_secret(t->secret, &t->secret_n);
	t->iat = PICK(4) ? now_s - PICK(100) : gen_time();
	t->exp = PICK(4) ? now_s + 1 + PICK(1000) : gen_time();
	if (PICK(20) == 0) t->iat = 0;
	if (PICK(20) == 0) t->exp = 0;
	if (PICK(3) == 0 && t->secret_n) {
		// by the library, issued now
		Str n, s; str_of_(&n, names[t->user], strlen(names[t->user])); str_of_(&s, t->secret, t->secret_n);
		Timestamp ts; timestamp_init(&ts); timestamp_set_unixtime(&ts, t->exp * 1000000);
		auto b = jwt_create(&n, &s, &ts);
		t->iat = now_s;
		sb_s(&t->text, "Bearer "); sb_add(&t->text, b->start, buf_size(b));
		buf_free(b);
		pbt_class("library token");
		return;
	}
	Sb h = { 0 }, p = { 0 }, body = { 0 };
	static const char* heads[] = { "{\"alg\":\"HS256\",\"typ\":\"JWT\"}", "{\"typ\": \"JWT\", \"alg\": \"HS256\"}", "{\"alg\":\"hs256\",\"typ\":\"jwt\",\"kid\":[1,{\"alg\":\"none\"}]}",
		"{\"alg\":\"none\",\"typ\":\"JWT\"}", "{\"alg\":\"HS512\",\"typ\":\"JWT\"}", "{\"alg\":\"HS256\"}", "{\"typ\":\"JWT\"}", "[\"HS256\",\"JWT\"]", "{}", "{\"alg\":256,\"typ\":\"JWT\"}", "HS256", "{\"alg\":\"HS256\",\"typ\":\"JWT\"", "", "{\"alg\":\"HS25\",\"typ\":\"JWT\"}", "{\"alg\":\"HS256\",\"typ\":\"JW\"}", "{\"alg\":\"HS256\",\"typ\":\"JWTX\"}" };
	int k = PICK(3) ? PICK(3) : PICK(NELEM(heads));
	if (k > 2) t->shaped = false;
	sb_s(&h, heads[k]);
	// payload: fields in any order, others between
	int drop = PICK(12) == 0 ? PICK(3) : -1, type = PICK(12) == 0 ? PICK(3) : -1, first = PICK(3);
	sb_c(&p, '{');
	for (int i = 0; i < 3; i++) {
		int f = (i + first) % 3;
		if (f == drop) { t->shaped = false; continue; }
		if (p.n > 1) sb_c(&p, ',');
		if (PICK(8) == 0) sb_s(&p, PICK(2) ? "\"aud\":{\"sub\":\"bob\",\"exp\":9999999999}," : "\"nbf\" : [1, \"exp\"] , ");
		bool wrong = f == type;
		if (wrong) t->shaped = false;
		if (f == 0) { sb_s(&p, "\"sub\":"); if (wrong) sb_s(&p, "1"); else json_quote(&p, names[t->user]); }
		else { sb_f(&p, "\"%s\":", f == 1 ? "iat" : "exp"); if (wrong) sb_s(&p, PICK(2) ? "\"9999999999\"" : "null"); else sb_f(&p, "%lld", (long long)(f == 1 ? t->iat : t->exp)); }
	}
	sb_c(&p, '}');
	b64(&body, h.p, h.n); sb_c(&body, '.'); b64(&body, p.p, p.n);
	sb_s(&t->text, "Bearer ");
	token_sign(t, body.p, body.n);
	sb_free(&h); sb_free(&p); sb_free(&body);
}
// changes the text of the token
static void token_alter(Token* t, Token* pool, int n)
{
	char* p = t->text.p; int size = t->text.n;
	int dot1 = -1, dot2 = -1;
	for (int i = 0; i < size; i++) if (p[i] == '.') { if (dot1 < 0) dot1 = i; else dot2 = i; }
	Sb r = { 0 };
	int old_n = size; char* old = exact(p, size);
	switch (PICK(8)) {
	case 0: { int i = PICK(size); p[i] ^= 1 << PICK(8); break; }
	case 1: { int i = PICK(size); p[i] = "AB_-.= \n"[PICK(8)]; break; }
	case 2: t->text.n = PICK(size); break;
	case 3: { int i = PICK(size + 1); sb_add(&r, p, i); sb_c(&r, "AB_-.= \n"[PICK(8)]); sb_add(&r, p + i, size - i); break; }
	case 4: { // signature or payload of another token
		Token* o = &pool[PICK(n)]; char* q = o->text.p; int d = -1; for (int i = 0; i < o->text.n; i++) if (q[i] == '.') d = i;
		if (d < 0 || dot2 < 0) break;
		if (PICK(2)) { sb_add(&r, p, dot2); sb_add(&r, q + d, o->text.n - d); } else { sb_add(&r, q, d); sb_add(&r, p + dot2, size - dot2); }
		break; }
	case 5: // other fields under the same signature
		if (dot2 < 0) break;
		sb_add(&r, p, dot1 + 1);
		{ Sb b = { 0 }; sb_s(&b, "{\"sub\":"); json_quote(&b, names[PICK(NAMES)]); sb_f(&b, ",\"iat\":1,\"exp\":%lld}", (long long)now_s + 1000000); b64(&r, b.p, b.n); sb_free(&b); }
		sb_add(&r, p + dot2, size - dot2);
		break;
	case 6: if (dot2 >= 0) t->text.n = dot2 + PICK(2); break;
	case 7: sb_add(&r, p + 7, size - 7); break;
	}
	if (r.n) { sb_free(&t->text); t->text = r; }
	if (t->text.n != old_n || memcmp(t->text.p, old, old_n)) {
		// still the same signature bytes, written in another way?
		bool same_body = dot2 >= 0 && t->text.n > dot2 && ! memcmp(t->text.p, old, dot2 + 1);
		t->sig_ok = false;
		if (same_body) {
			int i = dot2 + 1, ok = 0; uint64_t acc = 0; int bits = 0; unsigned char mac[64], mac0[64]; int m = 0, m0 = 0;
			for (; i < t->text.n && m < 40; i++) { int x = b64_val(t->text.p[i]); if (x < 0) continue; acc = acc << 6 | x; bits += 6; if (bits >= 8) { mac[m++] = acc >> (bits -= 8); } }
			acc = 0; bits = 0;
			for (i = dot2 + 1; i < old_n && m0 < 40; i++) { int x = b64_val(old[i]); if (x < 0) continue; acc = acc << 6 | x; bits += 6; if (bits >= 8) { mac0[m0++] = acc >> (bits -= 8); } }
			ok = m >= 32 && m0 >= 32 && ! memcmp(mac, mac0, 32);
			if (ok) t->maybe = true;
		}
		pbt_class("altered token");
	}
	free(old);
}
static bool allowed(Token* t, View* v)
{
	return t->shaped && (t->sig_ok || t->maybe) && v->u[t->user].has && t->iat && t->exp && t->iat <= t->exp && now_s < t->exp &&
	       v->u[t->user].secret_n > 0 && v->u[t->user].secret_n == t->secret_n && ! memcmp(v->u[t->user].secret, t->secret, t->secret_n);
}
static void one(Auth* a, Token* t, View* v)
{
	char* e = exact(t->text.p, t->text.n);
	Str s; str_of_(&s, e, t->text.n);
	auto u = auth(a, &s);
	bool want = allowed(t, v);
	pbt_note("token %s (user %s iat %lld exp %lld now %lld%s%s) -> %s\n", show(t->text.p, t->text.n), names[t->user], (long long)t->iat, (long long)t->exp, (long long)now_s,
	         t->shaped ? "" : ", malformed", t->sig_ok ? "" : ", altered", u ? "accepted" : "refused");
	if (u) {
		pbt_check(want, "a token is accepted which must be refused (%s%s)", ! t->shaped ? "malformed" : ! t->sig_ok ? "altered" : "", now_s >= t->exp ? " expired" : "");
		pbt_check(str_is(&u->config->name, (char*)names[t->user], strlen(names[t->user])), "the token of '%s' is accepted for '%s'", names[t->user], show(str_of(&u->config->name), str_size(&u->config->name)));
		pbt_count("accepted", 1);
	} else {
		pbt_check(! want || t->maybe, "a valid token is refused: %.*s", (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
		pbt_count("refused", 1);
	}
	free(e);
}
static void run_case(void)
{
	base_create();
	snprintf(state_path, sizeof(state_path), "%s/state.json", base_dir);
	UserMgr mgr; user_mgr_init(&mgr);
	View now = { 0 }, synced = { 0 };
	Auth* a = malloc(sizeof(*a)); auth_init(a);
	set_time(1000000000 + PICK(1000000));
	enum { POOL = 24 };
	Token pool[POOL]; int n = 0, accepted = 0;
	for (int i = 0; i < 3; i++) change(&mgr, &now);
	auth_sync(a, &mgr.cache); synced = now;
	while (pbt_more(30)) {
		switch (PICK(10)) {
		case 0: change(&mgr, &now); if (PICK(4)) { auth_sync(a, &mgr.cache); synced = now; registry_check(&a->user_cache, &synced, "synced"); } break;
		case 1: set_time(now_s + (PICK(2) ? PICK(20) : PICK(2000))); break;
		case 2: if (PICK(3) == 0) set_time(now_s - PICK(500)); break;
		case 3: { // many tokens in the cache
			if (PICK(25) || ! synced.n) break;
			int u = synced.order[PICK(synced.n)], k = 100 + PICK(400), r;
			for (int i = 0; i < k; i++) {
				Token t; memset(&t, 0, sizeof(t)); t.shaped = t.sig_ok = true; t.user = u; memcpy(t.secret, synced.u[u].secret, t.secret_n = synced.u[u].secret_n); t.iat = now_s; t.exp = now_s + 1 + i % 7;
				Sb p = { 0 }, body = { 0 }; sb_s(&p, "{\"sub\":"); json_quote(&p, names[u]); sb_f(&p, ",\"iat\":%lld,\"exp\":%lld,\"n\":%d}", (long long)t.iat, (long long)t.exp, i);
				b64(&body, "{\"alg\":\"HS256\",\"typ\":\"JWT\"}", 27); sb_c(&body, '.'); b64(&body, p.p, p.n); sb_s(&t.text, "Bearer "); token_sign(&t, body.p, body.n); sb_free(&p); sb_free(&body);
				for (r = 0; r < 2; r++) one(a, &t, &synced);
				sb_free(&t.text);
			}
			pbt_class("cache resized"); break; }
		default: {
			int i;
			if (n < POOL && (! n || PICK(3) == 0)) { token_make(&pool[n], &now); i = n++; }
			else i = PICK(n);
			Token t = pool[i]; memset(&t.text, 0, sizeof(t.text)); sb_add(&t.text, pool[i].text.p, pool[i].text.n);
			if (PICK(3) == 0) { if (PICK(2)) one(a, &t, &synced); token_alter(&t, pool, n); }
			one(a, &t, &synced);
			if (allowed(&t, &synced)) accepted++;
			sb_free(&t.text);
			break; }
		}
	}
	if (accepted > 1) pbt_nontrivial();
	for (int i = 0; i < n; i++) sb_free(&pool[i].text);
	auth_free(a); free(a);
	user_mgr_free(&mgr);
	base_drop();
}
#else
// ------------------------------------------------------------------ registry
// the state file as a killed process could have left it: after every call which changes files
#include <fcntl.h>
#include <sys/uio.h>
static bool recording; static int crash_n;
static void copy_dir(const char* from, const char* to)
{
	mkdir(to, 0755);
	auto d = opendir(from); if (! d) return;
	struct dirent* e;
	while ((e = readdir(d))) {
		if (e->d_name[0] == '.' || ! strcmp(e->d_name, "storage")) continue;
		char a[2300], b[2300]; snprintf(a, sizeof(a), "%s/%s", from, e->d_name); snprintf(b, sizeof(b), "%s/%s", to, e->d_name);
		struct stat st; if (stat(a, &st) || ! S_ISREG(st.st_mode)) continue;
		int n; char* p = file_load(a, &n); if (p) { file_store(b, p, n); free(p); }
	}
	closedir(d);
}
static void crash_point(void)
{
	if (! recording || crash_n >= 40) return;
	recording = false;
	char to[1100]; snprintf(to, sizeof(to), "%s/crash%d", pbt_dir(), crash_n++);
	rm_tree(to); copy_dir(base_dir, to);
	recording = true;
}
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* p, size_t n)
{
	if (! recording) return __real_write(fd, p, n);
	size_t half = n / 2;
	if (half && __real_write(fd, p, half) != (ssize_t)half) return -1;
	crash_point();
	if (__real_write(fd, (char*)p + half, n - half) != (ssize_t)(n - half)) return -1;
	crash_point();
	return n;
}
int __real_rename(const char*, const char*);
int __wrap_rename(const char* a, const char* b) { int rc = __real_rename(a, b); crash_point(); return rc; }
int __real_unlink(const char*);
int __wrap_unlink(const char* a) { int rc = __real_unlink(a); crash_point(); return rc; }
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t n) { int rc = __real_ftruncate(fd, n); crash_point(); return rc; }
int __real_open(const char*, int, ...);
int __wrap_open(const char* p, int flags, ...)
{
	int mode = 0; if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
	int rc = __real_open(p, flags, mode); if (flags & (O_CREAT | O_TRUNC)) crash_point(); return rc;
}
static void reopen(UserMgr* mgr, const char* path)
{
	user_mgr_free(mgr); user_mgr_init(mgr);
	str_free(&state()->users.string); str_init(&state()->users.string);
	state_open(state(), path);
	user_mgr_open(mgr);
}
static bool same(UserMgr* mgr, View* v)
{
	if (mgr->cache.list_count != v->n) return false;
	for (int i = 0; i < NAMES; i++) {
		Str s; str_of_(&s, names[i], strlen(names[i]));
		auto u = user_cache_find(&mgr->cache, &s);
		if (!! u != v->u[i].has) return false;
		if (u && (str_size(&u->config->secret) != v->u[i].secret_n || memcmp(str_of(&u->config->secret), v->u[i].secret, v->u[i].secret_n))) return false;
	}
	return true;
}
static void run_case(void)
{
	base_create();
	snprintf(state_path, sizeof(state_path), "%s/state.json", base_dir);
	opt_int_set(&state()->repl, 0); str_free(&state()->users.string); str_init(&state()->users.string);
	opt_string_set_cstr(&state()->repl_primary, "");
	state_save(state(), state_path);
	UserMgr mgr; user_mgr_init(&mgr);
	View now = { 0 }; UserCache copy; user_cache_init(&copy); View synced = { 0 };
	int made = 0, restarts = 0;
	while (pbt_more(14)) {
		switch (PICK(8)) {
		default: made += change(&mgr, &now); registry_check(&mgr.cache, &now, "registry"); break;
		case 5: { // sync of a copy, as the frontends have
			user_cache_sync(&copy, &mgr.cache); synced = now; registry_check(&copy, &synced, "copy"); break; }
		case 6: { // restart, other settings changed before it
			bool repl = PICK(2); char prim[30]; sprintf(prim, "%d\"\\\n", PICK(1000));
			opt_int_set(&state()->repl, repl); opt_string_set_cstr(&state()->repl_primary, prim);
			control_save_state();
			opt_int_set(&state()->repl, ! repl); opt_string_set_cstr(&state()->repl_primary, "x");
			reopen(&mgr, state_path); restarts++;
			registry_check(&mgr.cache, &now, "after restart"); registry_check(&copy, &synced, "copy");
			pbt_check(opt_int_of(&state()->repl) == repl, "a saved setting is lost"); pbt_check(str_is_cstr(opt_string_of(&state()->repl_primary), prim), "a saved setting is lost");
			break; }
		case 7: { // killed within a change: the registry before or after it
			View before = now; crash_n = 0; recording = true;
			volatile bool changed = change(&mgr, &now);
			recording = false;
			for (int i = 0; i < crash_n; i++) {
				char path[1100]; snprintf(path, sizeof(path), "%s/crash%d/state.json", pbt_dir(), i);
				auto err = error_catch( reopen(&mgr, path); );
				pbt_check(! err, "killed at point %d of %d of a change: the state cannot be opened: %.*s", i + 1, crash_n, (int)buf_size(&am_self()->error.text), buf_cstr(&am_self()->error.text));
				pbt_check(same(&mgr, &before) || same(&mgr, &now), "killed at point %d of %d of a change: the users are neither those before nor after it", i + 1, crash_n);
				char d[1100]; snprintf(d, sizeof(d), "%s/crash%d", pbt_dir(), i); rm_tree(d);
			}
			if (changed) { pbt_check(crash_n > 0, "no file was written by a change"); pbt_class("crash in save"); pbt_count("crash points", crash_n); }
			reopen(&mgr, state_path); restarts++;
			registry_check(&mgr.cache, &now, "after restart");
			break; }
		}
	}
	reopen(&mgr, state_path); registry_check(&mgr.cache, &now, "after the last restart");
	if (made > 2 && restarts) pbt_nontrivial();
	user_cache_free(&copy); user_mgr_free(&mgr);
	base_drop();
}
#endif
static void setup(void) { runtime()->iface = &iface; }
PbtHarness pbt_harness = { .name = "auth", .setup = setup, .run = run_case };
