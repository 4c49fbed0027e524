// the whole database in this process, by its embedded interface
#pragma once
#include <amelie.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>
#include <inttypes.h>
#include <limits.h>
#include "pbt.h"

typedef struct { char* p; int n, cap; } Tx;
static void tx_add(Tx* t, const char* s, int n)
{
	if (t->n + n + 1 > t->cap) { t->cap = (t->n + n + 1) * 2; t->p = realloc(t->p, t->cap); }
	memcpy(t->p + t->n, s, n);
	t->n += n;
	t->p[t->n] = 0;
}
static void tx_f(Tx* t, const char* fmt, ...)
{
	char b[512];
	va_list ap, again;
	va_start(ap, fmt);
	va_copy(again, ap);
	int n = vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	if (n < (int)sizeof(b)) tx_add(t, b, n);
	else {
		char* big = malloc(n + 1);
		vsnprintf(big, n + 1, fmt, again);
		tx_add(t, big, n);
		free(big);
	}
	va_end(again);
}
static void tx_reset(Tx* t) { t->n = 0; if (t->p) t->p[0] = 0; }
static void tx_free(Tx* t) { free(t->p); memset(t, 0, sizeof(*t)); }

static struct {
	amelie_t*         env;
	amelie_session_t* se;
	char              path[PATH_MAX];
	Tx                out;
	int               code;
} Db;

static bool db_try_open(const char* path, int backends, int frontends)
{
	char b[64], f[64];
	snprintf(b, sizeof(b), "--backends=%d", backends);
	snprintf(f, sizeof(f), "--frontends=%d", frontends);
	char* argv[] = { "--log_to_stdout=false", "--listen=[]", b, f };
	if (path != Db.path) snprintf(Db.path, sizeof(Db.path), "%s", path);
	Db.env = amelie_init();
	if (amelie_open(Db.env, Db.path, 4, argv) != 0) return false;
	Db.se = amelie_connect(Db.env, "amelie://");
	return true;
}
static void db_open(const char* path, int backends, int frontends)
{
	if (! db_try_open(path, backends, frontends)) pbt_fail("the database does not open");
}
static void db_close(void)
{
	if (Db.se) amelie_free(Db.se);
	amelie_free(Db.env);
	Db.env = NULL;
	Db.se = NULL;
}
// returns the code; the result is in Db.out. The text is given in an allocation of its exact size.
static int db_exec_as(amelie_session_t* se, const char* sql, Tx* out)
{
	char* copy = strdup(sql);
	amelie_request_t* req = amelie_execute(se, copy, 0, NULL, NULL, NULL);
	amelie_arg_t res = { 0 };
	int code = amelie_wait(req, -1, &res);
	tx_reset(out);
	tx_add(out, res.data ? res.data : "", res.data ? res.data_size : 0);
	amelie_free(req);
	free(copy);
	return code;
}
static int db_exec(const char* sql)
{
	Db.code = db_exec_as(Db.se, sql, &Db.out);
	return Db.code;
}
static bool db_ok(void) { return Db.code == 200 || Db.code == 204; }
static void db_must(const char* fmt, ...)
{
	char b[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	db_exec(b);
	if (! db_ok()) pbt_fail("'%s' fails: %d %s", b, Db.code, Db.out.p);
}
