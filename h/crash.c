// C03: the whole database in a child process which is killed at a generated file operation (during writes, DDL,
// checkpoints, starts and stops), by a process kill or a power loss (data not synced is lost), then started again
// and compared with the acknowledged history.
#define _GNU_SOURCE
#include "db.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <sys/poll.h>
#include <fcntl.h>
#include <signal.h>
#include <pthread.h>
#include <errno.h>

// faults (child) ----------------------------------------------------------------------------------
typedef struct { ino_t ino; int64_t synced; char path[256]; bool gone; } SFile;
static struct {
	pthread_mutex_t lock;
	bool    on, armed, dying;
	int     left;          // operations until the kill
	bool    power;
	int     part;          // part of a write done before the kill, and of the lost data kept
	SFile   f[512];
	int     n;
	char    dir[PATH_MAX];
} F = { .lock = PTHREAD_MUTEX_INITIALIZER };

int __real_open(const char*, int, ...); ssize_t __real_write(int, const void*, size_t); ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __real_pwrite(int, const void*, size_t, off_t); ssize_t __real_pwritev(int, const struct iovec*, int, off_t);
int __real_rename(const char*, const char*); int __real_unlink(const char*); int __real_mkdir(const char*, mode_t); int __real_rmdir(const char*);
int __real_fsync(int); int __real_fdatasync(int); int __real_ftruncate(int, off_t);

static SFile* f_of(int fd, ino_t ino, bool create)
{
	for (int i = 0; i < F.n; i++) if (! F.f[i].gone && F.f[i].ino == ino) return &F.f[i];
	if (! create || F.n == 512) return NULL;
	SFile* s = &F.f[F.n++];
	memset(s, 0, sizeof(*s));
	s->ino = ino;
	char l[64];
	snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
	int n = readlink(l, s->path, sizeof(s->path) - 1);
	s->path[n < 0 ? 0 : n] = 0;
	struct stat st;
	s->synced = fstat(fd, &st) == 0 ? st.st_size : 0;
	return s;
}
static void f_die(void)
{
	// data which was not synced is lost
	if (F.power) {
		for (int i = 0; i < F.n; i++) {
			struct stat st;
			if (F.f[i].gone || stat(F.f[i].path, &st) || st.st_ino != F.f[i].ino || st.st_size <= F.f[i].synced) continue;
			int64_t lost = st.st_size - F.f[i].synced;
			truncate(F.f[i].path, F.f[i].synced + (F.part == 0 ? 0 : F.part == 1 ? lost / 2 : lost - 1));
		}
	}
	_exit(99);
}
// an operation is about to be done: true if it is the last one
static bool f_op(void)
{
	pthread_mutex_lock(&F.lock);
	if (F.dying) { pthread_mutex_unlock(&F.lock); for (;;) pause(); }
	if (F.on && F.armed && F.left-- == 0) { F.dying = true; return true; }
	return false;
}
static void f_done(void) { pthread_mutex_unlock(&F.lock); }
static bool f_regular(int fd, struct stat* st) { return F.on && fstat(fd, st) == 0 && S_ISREG(st->st_mode) && st->st_nlink > 0; }

int __wrap_open(const char* path, int flags, mode_t mode)
{
	if (! F.on || ! (flags & (O_CREAT | O_TRUNC))) return __real_open(path, flags, mode);
	if (f_op()) f_die();
	int fd = __real_open(path, flags, mode);
	struct stat st;
	if (fd >= 0 && fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) { SFile* s = f_of(fd, st.st_ino, true); if (s && st.st_size < s->synced) s->synced = st.st_size; }
	f_done();
	return fd;
}
#define DATA_OP(call, partial) \
	struct stat st; \
	if (! f_regular(fd, &st)) return call; \
	if (f_op()) { partial; f_die(); } \
	f_of(fd, st.st_ino, true); \
	ssize_t rc = call; \
	f_done(); \
	return rc
ssize_t __wrap_write(int fd, const void* b, size_t n) { DATA_OP(__real_write(fd, b, n), __real_write(fd, b, F.part == 0 ? 0 : F.part == 1 ? n / 2 : n)); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { DATA_OP(__real_pwrite(fd, b, n, o), __real_pwrite(fd, b, F.part == 0 ? 0 : F.part == 1 ? n / 2 : n, o)); }
static void f_partv(int fd, const struct iovec* v, int n)
{
	if (F.part == 0) return;
	for (int i = 0; i < n; i++) { size_t k = F.part == 1 && i == n / 2 ? v[i].iov_len / 2 : v[i].iov_len; __real_write(fd, v[i].iov_base, k); if (F.part == 1 && i == n / 2) break; }
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { DATA_OP(__real_writev(fd, v, n), f_partv(fd, v, n)); }
ssize_t __wrap_pwritev(int fd, const struct iovec* v, int n, off_t o) { DATA_OP(__real_pwritev(fd, v, n, o), (void)0); }
int __wrap_ftruncate(int fd, off_t size)
{
	struct stat st;
	if (! f_regular(fd, &st)) return __real_ftruncate(fd, size);
	if (f_op()) f_die();
	SFile* s = f_of(fd, st.st_ino, true);
	int rc = __real_ftruncate(fd, size);
	if (s && s->synced > size) s->synced = size;
	f_done();
	return rc;
}
static int f_sync(int fd)
{
	struct stat st;
	if (! f_regular(fd, &st)) return 0;
	if (f_op()) f_die();
	SFile* s = f_of(fd, st.st_ino, true);
	if (s && fstat(fd, &st) == 0) s->synced = st.st_size;
	f_done();
	return 0;
}
int __wrap_fsync(int fd) { return F.on ? f_sync(fd) : __real_fsync(fd); }
int __wrap_fdatasync(int fd) { return F.on ? f_sync(fd) : __real_fdatasync(fd); }
int __wrap_rename(const char* a, const char* b)
{
	if (! F.on) return __real_rename(a, b);
	if (f_op()) f_die();
	struct stat sa, sb;
	bool ha = stat(a, &sa) == 0, hb = stat(b, &sb) == 0;
	int rc = __real_rename(a, b);
	if (rc == 0) {
		if (hb) { SFile* s = f_of(-1, sb.st_ino, false); if (s) s->gone = true; }
		if (ha) {
			SFile* s = f_of(-1, sa.st_ino, false);
			if (s) snprintf(s->path, sizeof(s->path), "%s", b);
			// a directory: the files in it move
			size_t n = strlen(a);
			if (S_ISDIR(sa.st_mode))
				for (int i = 0; i < F.n; i++)
					if (! strncmp(F.f[i].path, a, n) && F.f[i].path[n] == '/') {
						char t[600];
						snprintf(t, sizeof(t), "%s%s", b, F.f[i].path + n);
						snprintf(F.f[i].path, sizeof(F.f[i].path), "%s", t);
					}
		}
	}
	f_done();
	return rc;
}
int __wrap_unlink(const char* p)
{
	if (! F.on) return __real_unlink(p);
	if (f_op()) f_die();
	struct stat st;
	SFile* s = stat(p, &st) == 0 ? f_of(-1, st.st_ino, false) : NULL;
	int rc = __real_unlink(p);
	if (rc == 0 && s) s->gone = true;
	f_done();
	return rc;
}
int __wrap_mkdir(const char* p, mode_t m) { if (! F.on) return __real_mkdir(p, m); if (f_op()) f_die(); int rc = __real_mkdir(p, m); f_done(); return rc; }
int __wrap_rmdir(const char* p) { if (! F.on) return __real_rmdir(p); if (f_op()) f_die(); int rc = __real_rmdir(p); f_done(); return rc; }

// child -------------------------------------------------------------------------------------------
#define NS 3
typedef struct { char op; int s, a, b, c, len; } Cmd;
typedef struct { int code, len; } Rep;
static void io_all(int fd, void* p, int n, bool out)
{
	char* b = p;
	while (n > 0) {
		ssize_t rc = out ? __real_write(fd, b, n) : read(fd, b, n);
		if (rc <= 0) { if (rc < 0 && errno == EINTR) continue; _exit(98); }
		b += rc; n -= rc;
	}
}
static void child_main(int in, int out, const char* dir)
{
	amelie_session_t* se[NS] = { 0 };
	amelie_request_t* rq[NS] = { 0 };
	char* text[NS] = { 0 };
	amelie_t* env = NULL;
	snprintf(F.dir, sizeof(F.dir), "%s", dir);
	for (;;) {
		Cmd c;
		Rep r = { 0 };
		char* data = NULL;
		io_all(in, &c, sizeof(c), false);
		char* p = malloc(c.len + 1);
		io_all(in, p, c.len, false);
		p[c.len] = 0;
		switch (c.op) {
		case 'K':
			F.on = true; F.armed = c.a >= 0; F.left = c.a; F.power = c.b; F.part = c.c;
			continue;
		case 'O': {
			char* av[16]; int n = 0;
			for (char* t = strtok(p, " "); t; t = strtok(NULL, " ")) av[n++] = t;
			env = amelie_init();
			r.code = amelie_open(env, dir, n, av);
			if (r.code == 0) for (int i = 0; i < NS; i++) se[i] = amelie_connect(env, "amelie://");
			break;
		}
		case 'E':
			text[c.s] = p;
			rq[c.s] = amelie_execute(se[c.s], p, 0, NULL, NULL, NULL);
			continue;
		case 'W': {
			amelie_arg_t res = { 0 };
			r.code = amelie_wait(rq[c.s], -1, &res);
			r.len = res.data ? res.data_size : 0;
			data = malloc(r.len + 1);
			memcpy(data, res.data ? res.data : "", r.len);
			amelie_free(rq[c.s]);
			free(text[c.s]);
			break;
		}
		case 'C':
			for (int i = 0; i < NS; i++) amelie_free(se[i]);
			amelie_free(env);
			break;
		}
		io_all(out, &r, sizeof(r), true);
		if (r.len) io_all(out, data, r.len, true);
		free(data);
		if (c.op == 'C') _exit(0);
	}
}

// parent ------------------------------------------------------------------------------------------
static char Dir[PATH_MAX], Log[PATH_MAX + 16];
static int  Pid = -1, In = -1, Out = -1, Status;
static bool Killed;        // the child was killed as planned
static Tx   Res;

static void show_log(void)
{
	int fd = __real_open(Log, O_RDONLY);
	if (fd < 0) return;
	char b[6000];
	struct stat st;
	fstat(fd, &st);
	if (st.st_size > (off_t)sizeof(b)) lseek(fd, st.st_size - sizeof(b), SEEK_SET);
	int n = read(fd, b, sizeof(b));
	fprintf(stderr, "---- database log\n");
	if (n > 0) fwrite(b, 1, n, stderr);
	fprintf(stderr, "----\n");
	close(fd);
}
static void child_reap(void)
{
	if (Pid < 0) return;
	waitpid(Pid, &Status, 0);
	close(In); close(Out);
	Pid = -1;
	if (WIFEXITED(Status) && WEXITSTATUS(Status) == 99) { Killed = true; return; }
	if (WIFEXITED(Status) && WEXITSTATUS(Status) == 0) return;
	show_log();
	pbt_fail("the database process died: status %x", Status);
}
static void child_stop(void)
{
	if (Pid < 0) return;
	kill(Pid, SIGKILL);
	waitpid(Pid, &Status, 0);
	close(In); close(Out);
	Pid = -1;
}
static void child_start(void)
{
	int a[2], b[2];
	if (pipe(a) || pipe(b)) pbt_fail("pipe");
	Killed = false;
	Pid = fork();
	if (Pid == 0) {
		close(a[1]); close(b[0]);
		int fd = __real_open(Log, O_CREAT | O_WRONLY | O_APPEND, 0600);
		dup2(fd, 1);
		signal(SIGPIPE, SIG_IGN);
		child_main(a[0], b[1], Dir);
	}
	close(a[0]); close(b[1]);
	Out = a[1]; In = b[0];
}
static void send_cmd(char op, int s, int a, int b, int c, const char* text)
{
	Cmd m = { op, s, a, b, c, text ? strlen(text) : 0 };
	if (Pid < 0) return;
	signal(SIGPIPE, SIG_IGN);
	if (__real_write(Out, &m, sizeof(m)) != sizeof(m)) return;
	int n = 0;
	while (n < m.len) { int rc = __real_write(Out, text + n, m.len - n); if (rc <= 0) return; n += rc; }
}
static bool read_all(void* p, int n)
{
	char* b = p;
	while (n > 0) {
		struct pollfd pf = { .fd = In, .events = POLLIN };
		int rc = poll(&pf, 1, 40000);
		if (rc == 0) { show_log(); child_stop(); pbt_fail("TIMEOUT: the database does not answer"); }
		rc = read(In, b, n);
		if (rc <= 0) return false;
		b += rc; n -= rc;
	}
	return true;
}
// false: killed
static bool reply(int* code)
{
	Rep r;
	if (Pid < 0) return false;
	if (! read_all(&r, sizeof(r))) { child_reap(); if (! Killed) pbt_fail("the database process ended"); return false; }
	tx_reset(&Res);
	if (r.len) {
		char* b = malloc(r.len);
		bool ok = read_all(b, r.len);
		if (ok) tx_add(&Res, b, r.len);
		free(b);
		if (! ok) { child_reap(); if (! Killed) pbt_fail("the database process ended"); return false; }
	} else tx_add(&Res, "", 0);
	*code = r.code;
	return true;
}
static bool call(const char* sql, int* code) { send_cmd('E', 0, 0, 0, 0, sql); send_cmd('W', 0, 0, 0, 0, NULL); return reply(code); }
static bool good(int code) { return code == 200 || code == 204; }

// model -------------------------------------------------------------------------------------------
#define NT 2
#define NK 16
typedef struct { bool on; int64_t v, g; int len; int letter; bool enull; int64_t e; } Rw;
typedef struct { Rw r[NT][NK]; } Part_;              // the keys of one session
typedef struct { bool exists, hash, idx, has_e; int parts; } Sch;
typedef struct { Sch t[NT]; Part_ p[NS]; } St;
typedef struct { int s; char* sql; bool fail; Part_ after; } Op;

static St   M;                      // known state
static St   Alt[80];                // other states it may be in (schema changes, not acknowledged)
static int  NAlt;
static bool Ambig[NS];              // the last statement of the session may or may not be done
static Part_ May[NS];
static int  Sessions;
static bool Loose;         // the log is not synced and power is lost: a prefix of the history remains
static bool Dropped, Checkpointed, Abandon;
static Tx   Sql;

static int64_t key_of(int s, int k) { return s * 1000 + k; }
static void row_sql(Tx* t, Sch* c, int s, int k, Rw* r)
{
	tx_f(t, "(%" PRId64 ", %" PRId64 ", '", key_of(s, k), r->v);
	char* b = malloc(r->len + 1);
	memset(b, 'a' + r->letter, r->len);
	tx_add(t, b, r->len);
	free(b);
	tx_f(t, "', %" PRId64, r->g);
	if (c->has_e) { if (r->enull) tx_f(t, ", null"); else tx_f(t, ", %" PRId64, r->e); }
	tx_f(t, ")");
}
static Rw gen_row(void)
{
	Rw r = { .on = true, .v = PICK(1000), .g = PICK(20) };
	r.len = PICK(10) == 9 ? PICK(3000) : PICK(20);
	r.letter = PICK(26);
	r.enull = PICK(4) == 0;
	r.e = r.enull ? 0 : PICK(100);
	return r;
}
// one statement of a session; true if it succeeds
static bool gen_stmt(Tx* t, int s, Part_* p)
{
	int n = PICK(NT);
	while (! M.t[n].exists) n = (n + 1) % NT;
	Sch* c = &M.t[n];
	Rw* r = p->r[n];
	switch (PICK(6)) {
	case 0: case 1: case 2: {
		int policy = PICK(4), cnt = 1 + PICK(4), k0 = PICK(NK);
		tx_f(t, "insert into t%d values ", n);
		bool ok = true;
		bool seen[NK] = { 0 };
		for (int i = 0; i < cnt; i++) {
			int k = policy >= 2 ? (k0 + i) % NK : PICK(NK);
			if (policy < 2 && r[k].on && PICK(4)) for (int q = 0; q < NK; q++) if (! r[q].on && ! seen[q]) { k = q; break; }
			Rw w = gen_row();
			if (! c->has_e) { w.enull = true; w.e = 0; }
			if (i) tx_f(t, ", ");
			row_sql(t, c, s, k, &w);
			if (policy < 2) {
				if (r[k].on || seen[k]) ok = false;
				seen[k] = true;
				r[k] = w;
			} else if (policy == 2) {
				if (! r[k].on) r[k] = w;
			} else {
				if (! r[k].on) r[k] = w; else r[k].v += 5;
			}
		}
		if (policy == 2) tx_f(t, " on conflict do nothing");
		if (policy == 3) tx_f(t, " on conflict do update set v = v + 5");
		return ok;
	}
	case 3: case 4: {
		int a = PICK(NK), b = a + PICK(NK - a) + 1, d = 1 + PICK(50);
		if (c->has_e && PICK(2)) {
			tx_f(t, "update t%d set e = %d, v = v + %d where k >= %" PRId64 " and k < %" PRId64, n, d, d + 1, key_of(s, a), key_of(s, b));
			for (int k = a; k < b; k++) if (r[k].on) { r[k].v += d + 1; r[k].e = d; r[k].enull = false; }
		} else {
			tx_f(t, "update t%d set v = v + %d where k >= %" PRId64 " and k < %" PRId64, n, d, key_of(s, a), key_of(s, b));
			for (int k = a; k < b; k++) if (r[k].on) r[k].v += d;
		}
		return true;
	}
	default: {
		int a = PICK(NK), b = a + PICK(PICK(4) == 0 ? NK - a : NK - a < 3 ? NK - a : 3) + 1;
		tx_f(t, "delete from t%d where k >= %" PRId64 " and k < %" PRId64, n, key_of(s, a), key_of(s, b));
		for (int k = a; k < b; k++) r[k].on = false;
		return true;
	}
	}
}
static void gen_op(Op* o, int s)
{
	o->s = s;
	o->after = M.p[s];
	o->fail = false;
	tx_reset(&Sql);
	if (PICK(3) == 2) {
		tx_f(&Sql, "begin ");
		int n = 2 + PICK(3);
		for (int i = 0; i < n; i++) {
			if (! gen_stmt(&Sql, s, &o->after)) o->fail = true;
			tx_f(&Sql, "; ");
		}
		if (PICK(6) == 5) { tx_f(&Sql, "select error('abort'); "); o->fail = true; }
		tx_f(&Sql, "end;");
		pbt_class("transaction");
	} else if (! gen_stmt(&Sql, s, &o->after)) o->fail = true;
	if (o->fail) o->after = M.p[s];
	o->sql = strdup(Sql.p);
}

// contents ----------------------------------------------------------------------------------------
// reads "select k, v, s, g[, e]" of a table into the parts of all sessions; false: killed
static const char* parse_table(const char* p, bool has_e, Part_* out, int n)
{
	for (int s = 0; s < NS; s++) memset(out[s].r[n], 0, sizeof(out[s].r[n]));
	if (*p++ != '[') return "no array";
	while (*p && *p != ']') {
		while (*p == ',' || *p == ' ' || *p == '\n') p++;
		if (*p == ']') break;
		if (*p++ != '[') return "no row";
		char* e;
		int64_t k = strtoll(p, &e, 10); p = e + 1;
		Rw r = { .on = true, .enull = true };
		r.v = strtoll(p, &e, 10); p = e + 1;
		while (*p == ' ') p++;
		if (*p++ != '"') return "no string";
		const char* b = p;
		while (*p && *p != '"') { if (*p != *b) return "a damaged string"; p++; }
		r.len = p - b; r.letter = r.len ? *b - 'a' : 0;
		p += 2;
		r.g = strtoll(p, &e, 10); p = e;
		if (has_e) {
			if (*p++ != ',') return "no column";
			while (*p == ' ') p++;
			if (*p == 'n') p += 4; else { r.enull = false; r.e = strtoll(p, &e, 10); p = e; }
		}
		if (*p++ != ']') return "a row with more columns";
		int s = k / 1000, i = k % 1000;
		if (s < 0 || s >= NS || i < 0 || i >= NK) return "a row with a key never written";
		if (out[s].r[n][i].on) return "a row twice";
		out[s].r[n][i] = r;
	}
	return NULL;
}
static bool rw_eq(Rw* a, Rw* b, bool has_e)
{
	if (a->on != b->on) return false;
	if (! a->on) return true;
	return a->v == b->v && a->g == b->g && a->len == b->len && (! a->len || a->letter == b->letter) &&
	       (! has_e || (a->enull == b->enull && (a->enull || a->e == b->e)));
}
static bool part_eq(Part_* a, Part_* b, Sch* sc)
{
	for (int n = 0; n < NT; n++) if (sc[n].exists) for (int k = 0; k < NK; k++) if (! rw_eq(&a->r[n][k], &b->r[n][k], sc[n].has_e)) return false;
	return true;
}
static void diff(Tx* t, Part_* want, Part_* got, Sch* sc, int s)
{
	for (int n = 0; n < NT; n++) if (sc[n].exists) for (int k = 0; k < NK; k++) if (! rw_eq(&want->r[n][k], &got->r[n][k], sc[n].has_e)) {
		Rw *a = &want->r[n][k], *b = &got->r[n][k];
		tx_f(t, " t%d key %" PRId64 ":", n, key_of(s, k));
		if (a->on) tx_f(t, " expected v=%" PRId64 " len=%d g=%" PRId64, a->v, a->len, a->g); else tx_f(t, " expected no row");
		if (b->on) tx_f(t, " found v=%" PRId64 " len=%d g=%" PRId64 ";", b->v, b->len, b->g); else tx_f(t, " found no row;");
		if (t->n > 600) return;
	}
}
// compare the database with the model; false: killed
static bool check_all(const char* when)
{
	static Part_ got[NS], byidx[NS];
	static St cand[81];
	int nc = 0, code;
	Sch real[NT];
	memset(got, 0, sizeof(got));
	// the schema found
	for (int n = 0; n < NT; n++) {
		char b[100];
		memset(&real[n], 0, sizeof(real[n]));
		snprintf(b, sizeof(b), "select k, v, s, g, e from t%d", n);
		if (! call(b, &code)) return false;
		if (good(code)) { real[n].exists = real[n].has_e = true; }
		else {
			snprintf(b, sizeof(b), "select k, v, s, g from t%d", n);
			if (! call(b, &code)) return false;
			if (good(code)) real[n].exists = true;
		}
		if (! real[n].exists) continue;
		const char* e = parse_table(Res.p, real[n].has_e, got, n);
		if (e) pbt_fail("%s: '%s': %s: %s", when, b, e, Res.p);
		snprintf(b, sizeof(b), "select k, v, s, g%s from t%d use index (i%d)", real[n].has_e ? ", e" : "", n, n);
		if (! call(b, &code)) return false;
		if (good(code)) {
			real[n].idx = true;
			memcpy(byidx, got, sizeof(got));
			e = parse_table(Res.p, real[n].has_e, byidx, n);
			if (e) pbt_fail("%s: '%s': %s: %s", when, b, e, Res.p);
			for (int s = 0; s < NS; s++) if (! part_eq(&got[s], &byidx[s], real)) pbt_fail("%s: table t%d differs when read by its secondary index", when, n);
		}
		// point lookups by the primary key
		for (int i = 0; i < 2; i++) {
			int s = i, k = (n * 7 + i * 3) % NK;
			snprintf(b, sizeof(b), "select k from t%d where k = %" PRId64, n, key_of(s, k));
			if (! call(b, &code)) return false;
			if (! good(code)) pbt_fail("%s: '%s' fails", when, b);
			bool found = ! strstr(Res.p, "[]") && strchr(Res.p, '1' ) + 0 != NULL;
			char want[64];
			snprintf(want, sizeof(want), "%" PRId64, key_of(s, k));
			found = strstr(Res.p, want) != NULL;
			if (found != got[s].r[n][k].on) pbt_fail("%s: key %s of t%d is %s by a lookup, but %s by a scan", when, want, n, found ? "found" : "not found", got[s].r[n][k].on ? "found" : "not found");
		}
	}
	cand[nc++] = M;
	for (int i = 0; i < NAlt; i++) cand[nc++] = Alt[i];
	int pick = -1;
	static bool took[NS];
	for (int i = 0; i < nc && pick < 0; i++) {
		bool ok = true;
		for (int n = 0; n < NT && ok; n++)
			if (cand[i].t[n].exists != real[n].exists || cand[i].t[n].has_e != real[n].has_e || cand[i].t[n].idx != real[n].idx) ok = false;
		for (int s = 0; s < NS && ok; s++) {
			took[s] = false;
			if (part_eq(&cand[i].p[s], &got[s], real)) continue;
			if (Ambig[s] && part_eq(&May[s], &got[s], real)) { took[s] = true; continue; }
			ok = false;
		}
		if (ok) pick = i;
	}
	if (pick < 0) {
		Tx d = { 0 };
		for (int n = 0; n < NT; n++) tx_f(&d, " t%d: expected%s%s%s, found%s%s%s;", n, M.t[n].exists ? " table" : " none", M.t[n].has_e ? "+e" : "", M.t[n].idx ? "+index" : "",
			real[n].exists ? " table" : " none", real[n].has_e ? "+e" : "", real[n].idx ? "+index" : "");
		Sch both[NT];
		for (int n = 0; n < NT; n++) { both[n] = M.t[n]; both[n].exists = M.t[n].exists && real[n].exists; both[n].has_e = M.t[n].has_e && real[n].has_e; }
		for (int s = 0; s < NS; s++) { diff(&d, &M.p[s], &got[s], both, s); if (Ambig[s]) tx_f(&d, " (session %d had a statement in flight)", s); }
		if (Loose && Checkpointed) {
			child_stop();
			pbt_known("checkpoint-unsynced", "a checkpoint stores partitions before the log they depend on is synced: a power loss leaves parts of transactions");
			Abandon = true;
			return false;
		}
		show_log();
		pbt_fail("%s: the contents are not those of the acknowledged statements (%d other states possible):%s", when, NAlt, d.p);
	}
	St st = cand[pick];
	for (int s = 0; s < NS; s++) if (took[s]) { st.p[s] = May[s]; pbt_class("statement in flight was kept"); }
	for (int n = 0; n < NT; n++) if (! st.t[n].exists) for (int s = 0; s < NS; s++) memset(st.p[s].r[n], 0, sizeof(st.p[s].r[n]));
	M = st;
	NAlt = 0;
	memset(Ambig, 0, sizeof(Ambig));
	return true;
}

// histories ---------------------------------------------------------------------------------------
static bool Sync;          // the log is synced by every commit
static int  Arm, Power, PartW;
static int  Kills, Acks;

static bool log_has(const char* s)
{
	FILE* f = fopen(Log, "r");
	char b[1000];
	bool found = false;
	while (f && fgets(b, sizeof(b), f)) if (strstr(b, s)) found = true;
	if (f) fclose(f);
	return found;
}
static bool start_db(bool armed)
{
	child_start();
	char args[512];
	snprintf(args, sizeof(args), "--log_to_stdout=true --listen=[] --backends=%d --frontends=%d --wal_worker=%s --wal_crc=true --wal_sync_on_write=%s --wal_size=%d",
	         1 + PICK(3), 1 + PICK(2), PICK(2) ? "false" : "true", Sync ? "true" : "false", PICK(2) ? 4096 : 67108864);
	if (armed) { send_cmd('K', 0, Arm, Power, PartW, NULL); } else send_cmd('K', 0, -1, 0, 0, NULL);
	send_cmd('O', 0, 0, 0, 0, args);
	int code;
	if (! reply(&code)) { pbt_class("killed while starting"); return false; }
	if (code != 0 && Loose && Dropped && log_has("partition files are missing")) {
		child_stop();
		pbt_known("drop-lost", "a table is dropped, its files are removed, the record of the drop is not synced and lost: the database does not open");
		Abandon = true;
		return false;
	}
	if (code != 0) { show_log(); child_stop(); pbt_fail("the database does not open after a %s", Power ? "power loss" : "kill"); }
	return true;
}
static void alt_add(St* s) { if (NAlt < 80) Alt[NAlt++] = *s; }
// a statement which must be alone; false: killed
static bool ddl(const char* sql, St* after, bool allow_fail)
{
	pbt_note("  %s", sql);
	int code;
	St before = M;
	send_cmd('E', 0, 0, 0, 0, sql);
	send_cmd('W', 0, 0, 0, 0, NULL);
	if (! reply(&code)) { alt_add(after); (void)before; return false; }
	if (! good(code)) { if (allow_fail) return true; pbt_fail("'%s' fails: %d %s", sql, code, Res.p); }
	if (Loose) alt_add(&M);
	M = *after;
	Acks++;
	return true;
}
static void table_sql(Tx* t, int n, Sch* c)
{
	tx_reset(t);
	tx_f(t, "create table t%d (k int primary key%s, v int, s text, g int not null) partitions %d", n, c->hash ? " using hash" : "", c->parts);
}
static bool gen_ddl(void)
{
	St a = M;
	int n = PICK(NT);
	Sch* c = &a.t[n];
	char b[200];
	switch (PICK(7)) {
	case 0: case 1:
		pbt_class("checkpoint");
		Checkpointed = true;
		return ddl("checkpoint", &a, false);
	case 2:
		if (! c->exists) break;
		if (c->idx) { snprintf(b, sizeof(b), "drop index i%d on t%d", n, n); c->idx = false; pbt_class("drop index"); }
		else { snprintf(b, sizeof(b), "create index i%d on t%d (g) using %s", n, n, PICK(2) ? "hash" : "tree"); c->idx = true; pbt_class("create index"); }
		return ddl(b, &a, false);
	case 3:
		if (! c->exists) break;
		if (c->has_e) { snprintf(b, sizeof(b), "alter table t%d drop column e", n); c->has_e = false; for (int s = 0; s < NS; s++) for (int k = 0; k < NK; k++) { a.p[s].r[n][k].enull = true; a.p[s].r[n][k].e = 0; } }
		else { snprintf(b, sizeof(b), "alter table t%d add column e int", n); c->has_e = true; }
		pbt_class("alter table");
		return ddl(b, &a, false);
	case 4:
		if (! c->exists) break;
		snprintf(b, sizeof(b), "truncate t%d", n);
		for (int s = 0; s < NS; s++) memset(a.p[s].r[n], 0, sizeof(a.p[s].r[n]));
		pbt_class("truncate");
		return ddl(b, &a, false);
	default:
		if (c->exists) {
			if (! M.t[1 - n].exists) break;
			snprintf(b, sizeof(b), "drop table t%d", n);
			memset(c, 0, sizeof(*c));
			for (int s = 0; s < NS; s++) memset(a.p[s].r[n], 0, sizeof(a.p[s].r[n]));
			pbt_class("drop table");
			Dropped = true;
			return ddl(b, &a, false);
		}
		memset(c, 0, sizeof(*c));
		c->exists = true; c->hash = PICK(3) == 2; c->parts = 1 + PICK(3);
		table_sql(&Sql, n, c);
		pbt_class("create table");
		return ddl(Sql.p, &a, false);
	}
	return true;
}
// statements of several sessions at once; false: killed
static bool gen_phase(void)
{
	Op o[NS];
	int m = 1 + PICK(Sessions);
	if (m > Sessions) m = Sessions;
	for (int s = 0; s < m; s++) {
		gen_op(&o[s], s);
		pbt_note("  [%d] %.300s%s", s, o[s].sql, o[s].fail ? "    (must fail)" : "");
	}
	for (int s = 0; s < m; s++) send_cmd('E', s, 0, 0, 0, o[s].sql);
	for (int s = 0; s < m; s++) send_cmd('W', s, 0, 0, 0, NULL);
	bool alive = true;
	bool anyfail = false;
	for (int s = 0; s < m; s++) anyfail |= o[s].fail;
	for (int s = 0; s < m; s++) {
		int code;
		if (alive && reply(&code)) {
			if (good(code)) {
				if (o[s].fail) pbt_fail("'%s' does not fail", o[s].sql);
				if (Loose) alt_add(&M);
				M.p[s] = o[s].after;
				Acks++;
			} else {
				if (! o[s].fail && ! (anyfail && m > 1)) pbt_fail("'%s' fails: %d %s", o[s].sql, code, Res.p);
				pbt_class("failed statement");
			}
		} else {
			alive = false;
			if (! o[s].fail) { Ambig[s] = true; May[s] = o[s].after; }
		}
		free(o[s].sql);
	}
	if (! alive) pbt_class("killed in a statement");
	return alive;
}
static void arm(void)
{
	Power = PICK(2);
	if (Loose) Power = 1;
	PartW = PICK(3);
	Arm = PICK(2) ? PICK(12) : PICK(60);
}
static void case_run(void)
{
	child_stop();
	snprintf(Dir, sizeof(Dir), "%s/db", pbt_dir());
	snprintf(Log, sizeof(Log), "%s/db.log", pbt_dir());
	char b[PATH_MAX * 2];
	snprintf(b, sizeof(b), "rm -rf '%s' '%s'", Dir, Log);
	if (strlen(pbt_dir()) < 4 || system(b)) pbt_fail("cleanup");
	memset(&M, 0, sizeof(M));
	NAlt = 0; Kills = Acks = 0; Power = 0;
	Dropped = Abandon = Checkpointed = false;
	memset(Ambig, 0, sizeof(Ambig));
	Sync = PICK(2);
	Loose = ! Sync && PICK(4) == 3;
	Sessions = Loose ? 1 : 1 + PICK(NS);
	int killings = 1 + PICK(4);
	if (! start_db(false)) pbt_fail("not started");
	for (int n = 0; n < NT; n++) {
		St a = M;
		if (n == 1 && PICK(2)) break;
		a.t[n].exists = true; a.t[n].hash = PICK(4) == 3; a.t[n].parts = 1 + PICK(3);
		table_sql(&Sql, n, &a.t[n]);
		ddl(Sql.p, &a, false);
		if (PICK(2)) { a = M; a.t[n].idx = true; snprintf(b, sizeof(b), "create index i%d on t%d (g)", n, n); ddl(b, &a, false); }
	}
	// in the loose mode the first state which may be found again is this one
	NAlt = 0;
	if (Loose) {
		// what is there now must be durable: stop
		send_cmd('C', 0, 0, 0, 0, NULL);
		int code;
		reply(&code);
		child_reap();
		arm();
		if (! start_db(false)) pbt_fail("not started");
	}
	for (int life = 0; life < killings; life++) {
		bool alive = true;
		int ops = 0;
		// some work, then the kill comes during the rest of it
		int quiet = PICK(6);
		if (Loose) quiet = 0;
		for (int i = 0; i < quiet && alive; i++) alive = PICK(5) == 4 ? gen_ddl() : gen_phase();
		arm();
		// the power loss takes what the previous statements did not sync: only when the log is synced
		if (! Sync && ! Loose) Power = 0;
		pbt_note("kill after %d file operations%s", Arm, Power ? " by power loss" : "");
		send_cmd('K', 0, Arm, Power, PartW, NULL);
		while (alive && ops++ < 14) {
			if (PICK(14) == 13) {
				pbt_note("  shutdown");
				send_cmd('C', 0, 0, 0, 0, NULL);
				int code;
				alive = reply(&code);
				if (alive) { child_reap(); break; }
				pbt_class("killed while stopping");
			} else alive = PICK(4) == 3 ? gen_ddl() : gen_phase();
		}
		if (Pid >= 0) { pbt_note("kill"); child_stop(); alive = false; Killed = true; if (Power && Loose) NAlt = NAlt; }
		if (Killed) { Kills++; pbt_class(Power ? "power loss" : "process kill"); }
		// start again, which may be killed too
		for (int tries = 0; ; tries++) {
			bool armed = tries < 3 && PICK(3) == 2;
			if (armed) { int l = Loose; arm(); (void)l; if (! Sync && ! Loose) Power = 0; pbt_note("start, killed after %d file operations%s", Arm, Power ? " by power loss" : ""); }
			else pbt_note("start");
			if (! start_db(armed)) { if (Abandon) return; Kills++; continue; }
			if (armed && PICK(2)) send_cmd('K', 0, -1, 0, 0, NULL);
			if (check_all("after the start")) break;
			if (Abandon) return;
			Kills++;
		}
		send_cmd('K', 0, -1, 0, 0, NULL);
		pbt_count("restarts", 1);
	}
	// the database goes on working
	for (int i = 0; i < 3; i++) { if (! gen_phase()) break; }
	if (Pid >= 0) check_all("at the end");
	child_stop();
	pbt_count("acknowledged statements", Acks);
	pbt_count("kills", Kills);
	if (Kills && Acks > 3) pbt_nontrivial();
}
PbtHarness pbt_harness = { .name = "crash", .run = case_run, .no_runtime = true };
