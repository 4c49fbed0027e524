// C43: SQL texts and bytes over connections: each gets a result or an error, nothing crashes or hangs, the stored data stays.
#define _GNU_SOURCE
#include "db.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/time.h>
#include <errno.h>
#include <time.h>
#include <ctype.h>

#define PICK(n) ((int)pbt_pick(n))
#define OF(a) a[PICK((int)(sizeof(a) / sizeof(a[0])))]
int __wrap_fsync(int fd) { (void)fd; return 0; }
int __wrap_fdatasync(int fd) { (void)fd; return 0; }

// grammar -----------------------------------------------------------------------------------------
static Tx*  T;
static int  Fuel, Lam, Vars;
static void s(const char* x) { tx_add(T, x, strlen(x)); }
static void expr(int depth);
static void query(int depth);

static const char* Ints[] = { "0", "1", "2", "3", "7", "10", "255", "256", "-1", "-2", "1000", "65536", "2147483647", "2147483648", "-2147483648",
	"4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "99999999999999999999", "0001" };
static const char* Reals[] = { "1.5", "0.0", "-0.5", "1e10", "1e308", "1e309", "1e-400", "3.", "2.e1", "0e0", "1.7976931348623157e308", "1e", "1e+", "1.2.3" };
static const char* Strs[] = { "''", "'a'", "\"b\"", "'abc'", "'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa'", "'%'", "'a%b_'", "'%%%a%'", "'\xd0\xb6\xd1\x83'", "'\xff\xfe'",
	"'2024-02-30'", "'2024-02-29'", "'2024-01-01 10:00:00'", "'1 day'", "'-3 months 2 days'", "'day'", "'month'", "'UTC'", "'Asia/Nicosia'", "'{\"a\": [1, 2, {\"b\": null}]}'", "'[1,2,3]'", "'[1.5, 2]'", "'{'",
	"'b0a1b2c3-0000-4000-8000-000000000001'", "'('", "'a+'", "'(a*)*b'", "'\\d+'", "'base64'", "'hex'", "'md5'", "'123'", "'-9223372036854775808'", "'1e309'", "'a.b[0]'", "''''", "'$.a'" };
static const char* Cols[] = { "k", "v", "s", "j", "d", "ts", "iv", "u", "ve", "b", "r" };
static const char* Aliases[] = { "a", "b", "x", "y", "t1", "c1" };
static const char* Types[] = { "int", "bigint", "int8", "int16", "int32", "int64", "bool", "double", "float", "text", "string", "json", "date", "timestamp", "interval", "uuid", "vector", "serial", "real" };
static const char* Fns[] = { "abs", "acos", "acosh", "append", "asin", "asinh", "at_timezone", "atan", "atan2", "atanh", "bool", "ceil", "coalesce", "concat", "cos", "cos_distance", "cosh", "date", "date_bin",
	"date_trunc", "decode", "double", "encode", "error", "exp", "extract", "fabs", "floor", "fmod", "fpow", "greatest", "has", "int", "interval", "interval_trunc", "json", "least",
	"length", "like", "ln", "log", "log10", "log2", "lower", "ltrim", "md5", "mod", "now", "nullif", "object", "octet_length", "pi", "pop", "pop_back", "pow", "push", "push_back", "put",
	"random", "random_uuid", "regexp_like", "regexp_match", "regexp_replace", "regexp_substr", "remove", "replace", "round", "rtrim", "set", "sha1", "sign", "sin", "sinh", "size", "sqrt", "string",
	"strpos", "substr", "tan", "tanh", "timestamp", "trim", "trunc", "type", "unset", "upper", "uuid", "vector", "user", "table", "tables", "index", "indexes", "databases", "users",
	"functions", "config", "state", "metrics", "partition", "partitions", "storages", "locks", "locks_count", "identity_of", "databases", "replicas", "wal", "f1", "f2", "nofn" };
static const char* Ops[] = { "+", "-", "*", "/", "%", "||", "=", "<>", ">", "<", ">=", "<=", "and", "or", "&", "|", "^", "<<", ">>" };
static const char* Units[] = { "year", "month", "week", "day", "hour", "minute", "second", "ms", "us", "dow", "century", "nounit" };

static void literal(void)
{
	switch (PICK(12)) {
	case 0: case 1: case 2: s(OF(Ints)); break;
	case 3: s(OF(Strs)); break;
	case 4: s("null"); break;
	case 5: s(PICK(2) ? "true" : "false"); break;
	case 6: s(OF(Reals)); break;
	case 7: s("date '"); s(PICK(4) ? "2024-02-29" : "9999-12-31"); s("'"); break;
	case 8: s("timestamp '"); s(PICK(4) ? "2024-03-31 02:30:00.123456+03" : "0001-01-01 00:00:00"); s("'"); break;
	case 9: s("interval '"); s(PICK(3) ? "1 day 2 hours" : PICK(2) ? "9223372036854775807 months" : "-178956970 years"); s("'"); break;
	case 10: s("uuid 'b0a1b2c3-0000-4000-8000-00000000000"); { char c[2] = { '0' + PICK(10), 0 }; s(c); } s("'"); break;
	case 11: s("vector ["); for (int n = PICK(4), i = 0; i < n; i++) { if (i) s(", "); s(PICK(2) ? OF(Ints) : OF(Reals)); } s("]"); break;
	}
}
static void args(int depth)
{
	s("(");
	for (int n = PICK(4), i = 0; i < n; i++) { if (i) s(", "); expr(depth - 1); }
	s(")");
}
static void expr(int depth)
{
	if (depth <= 0 || Fuel-- <= 0) {
		if (PICK(2)) { if (PICK(4) == 3) { s(OF(Aliases)); s("."); } s(OF(Cols)); } else literal();
		return;
	}
	switch (PICK(26)) {
	case 0: literal(); break;
	case 1: if (PICK(3) == 2) { s(OF(Aliases)); s("."); } s(OF(Cols)); break;
	case 2: case 3: case 4: expr(depth - 1); s(" "); s(OF(Ops)); s(" "); expr(depth - 1); break;
	case 5: s("("); expr(depth - 1); s(")"); break;
	case 6: case 7: case 8: s(OF(Fns)); args(depth); break;
	case 9: expr(depth - 1); s("::"); s(PICK(2) ? OF(Types) : OF(Fns)); if (PICK(2)) args(depth); break;
	case 10: s("cast("); expr(depth - 1); s(" as "); s(OF(Types)); s(")"); break;
	case 11: s("case "); if (PICK(3) == 2) { expr(depth - 1); s(" "); } for (int n = PICK(3), i = 0; i < n; i++) { s("when "); expr(depth - 1); s(" then "); expr(depth - 1); s(" "); } if (PICK(2)) { s("else "); expr(depth - 1); s(" "); } s("end"); break;
	case 12: expr(depth - 1); s(PICK(2) ? " between " : " not between "); expr(depth - 1); s(" and "); expr(depth - 1); break;
	case 13: expr(depth - 1); s(PICK(2) ? " in " : " not in "); if (PICK(2)) args(depth); else { s("("); query(depth - 1); s(")"); } break;
	case 14: expr(depth - 1); s(PICK(2) ? " like " : " not like "); expr(depth - 1); break;
	case 15: expr(depth - 1); s(PICK(2) ? " is null" : " is not null"); break;
	case 16: expr(depth - 1); s(" "); s(OF(Ops)); s(PICK(2) ? " any(" : " all("); if (PICK(2)) query(depth - 1); else expr(depth - 1); s(")"); break;
	case 17: s(PICK(3) ? "(" : "exists ("); query(depth - 1); s(")"); break;
	case 18: { static const char* g[] = { "count", "sum", "avg", "min", "max" }; s(OF(g)); s("("); if (PICK(4) == 3) s("distinct "); if (PICK(3)) expr(depth - 1); else s("*"); s(")"); break; }
	case 19: s("["); for (int n = PICK(4), i = 0; i < n; i++) { if (i) s(", "); expr(depth - 1); } s("]"); break;
	case 20: s("{"); for (int n = PICK(3), i = 0; i < n; i++) { if (i) s(", "); if (PICK(4)) { s(OF(Strs)); } else expr(depth - 1); s(": "); expr(depth - 1); } s("}"); break;
	case 21: expr(depth - 1); if (PICK(2)) { s("["); expr(depth - 1); s("]"); } else { s("."); s(PICK(2) ? OF(Cols) : OF(Strs)); } break;
	case 22: { static const char* g[] = { "-", "not ", "~", "- -", "not not " }; s(OF(g)); expr(depth - 1); break; }
	case 23: s("extract("); s(OF(Units)); s(" from "); expr(depth - 1); s(")"); break;
	case 24: if (PICK(2)) { expr(depth - 1); s(" at timezone "); expr(depth - 1); } else { s(PICK(2) ? "current_timestamp" : "current_date"); } break;
	case 25: if (PICK(2)) { expr(depth - 1); s(" -> "); s(PICK(2) ? "self + 1" : "self"); } else s(PICK(2) ? "vx" : "it.a"); break;
	}
}
static const char* Tabs[] = { "a", "b", "a", "b", "t1", "nope", "a.j", "main.a", "vt" };
static void source(int depth)
{
	if (depth > 0 && PICK(5) == 4) { s("("); query(depth - 1); s(")"); if (PICK(3)) { s(PICK(2) ? " as " : " "); s(OF(Aliases)); } return; }
	if (PICK(12) == 11) { s(OF(Fns)); args(1); } else s(OF(Tabs));
	if (PICK(8) == 7) { s(" use index ("); s(PICK(2) ? "ai" : "bi"); s(")"); }
	if (PICK(2)) { s(PICK(2) ? " as " : " "); s(OF(Aliases)); }
}
static void query(int depth)
{
	if (Fuel-- <= 0) { s("select 1"); return; }
	s("select ");
	if (PICK(6) == 5) s(PICK(2) ? "distinct " : "all ");
	if (PICK(20) == 19) { s("distinct on ("); expr(1); s(") "); }
	for (int n = 1 + PICK(3), i = 0; i < n; i++) { if (i) s(", "); if (PICK(5) == 4) s(PICK(3) ? "*" : "a.*"); else { expr(depth); if (PICK(3) == 2) { s(" as "); s(OF(Aliases)); } } }
	if (PICK(20) == 19) { s(" into vx"); }
	if (PICK(5)) {
		s(" from ");
		source(depth);
		for (int n = PICK(3), i = 0; i < n; i++) {
			static const char* js[] = { " join ", ", ", " inner join ", " left join " };
			s(OF(js)); source(depth);
			if (PICK(4)) { if (PICK(5)) { s(" on "); expr(depth - 1); } else { s(" using ("); s(OF(Cols)); s(")"); } }
		}
	}
	if (PICK(2)) { s(" where "); expr(depth); }
	if (PICK(4) == 3) { s(" group by "); for (int n = 1 + PICK(2), i = 0; i < n; i++) { if (i) s(", "); if (PICK(2)) s(OF(Cols)); else expr(1); } if (PICK(2)) { s(" having "); expr(depth - 1); } }
	if (PICK(4) == 3) { s(" order by "); for (int n = 1 + PICK(2), i = 0; i < n; i++) { if (i) s(", "); expr(1); if (PICK(2)) s(PICK(2) ? " asc" : " desc"); } }
	if (PICK(6) == 5) { s(" limit "); if (PICK(3)) s(OF(Ints)); else expr(1); }
	if (PICK(6) == 5) { s(" offset "); if (PICK(3)) s(OF(Ints)); else expr(1); }
	if (PICK(30) == 29) s(" format 'json-pretty'");
}
static void columns(int n)
{
	s("(");
	for (int i = 0; i < n; i++) {
		if (i) s(", ");
		s(OF(Cols)); s(" "); s(OF(Types));
		switch (PICK(8)) {
		case 0: s(" primary key"); break;
		case 1: s(" not null"); break;
		case 2: s(" default "); expr(1); break;
		case 3: s(" generated always as ("); expr(1); s(") stored"); break;
		case 4: s(" as identity"); break;
		case 5: s(" random"); break;
		}
	}
	if (PICK(2)) { s(", primary key ("); s(OF(Cols)); if (PICK(2)) { s(", "); s(OF(Cols)); } s(")"); if (PICK(2)) { s(" using "); s(PICK(2) ? "hash" : "tree"); } }
	s(")");
}
static bool Ddl;
static void statement(int depth, bool nested)
{
	int k = PICK(nested ? 16 : 24);
	if (k < 5) { query(depth); return; }
	switch (k) {
	case 5: case 6: case 7:
		s("insert into "); s(OF(Tabs));
		if (PICK(3) == 2) { s(" ("); for (int n = 1 + PICK(3), i = 0; i < n; i++) { if (i) s(", "); s(OF(Cols)); } s(")"); }
		if (PICK(4) == 3) { s(" "); query(depth); }
		else {
			s(" values ");
			for (int n = 1 + PICK(2), i = 0; i < n; i++) {
				if (i) s(", ");
				s("(");
				// the columns of table a mostly
				if (PICK(3)) {
					char b[256];
					snprintf(b, sizeof(b), "%d, %d, 'q', {\"x\": [1, %d]}, date '2024-01-0%d', timestamp '2024-01-01 00:00:00', interval '1 day', uuid 'b0a1b2c3-0000-4000-8000-000000000001', vector [1.5, 2], true, 1.5", PICK(8), PICK(5), PICK(3), 1 + PICK(9));
					s(b);
				} else for (int m = 1 + PICK(11), j = 0; j < m; j++) { if (j) s(", "); expr(1); }
				s(")");
			}
		}
		if (PICK(3) == 2) { s(" on conflict "); switch (PICK(4)) { case 0: s("do nothing"); break; case 1: s("error"); break; case 2: s("do update set v = "); expr(2); if (PICK(2)) { s(" where "); expr(1); } break; case 3: s("do update set v = excluded.v + a.v, s = excluded.s"); break; } }
		if (PICK(4) == 3) { s(" returning "); expr(1); }
		break;
	case 8: case 9: case 10:
		s("update "); s(OF(Tabs)); s(" set ");
		for (int n = 1 + PICK(2), i = 0; i < n; i++) { if (i) s(", "); s(OF(Cols)); if (PICK(5) == 4) { s("."); s(OF(Cols)); } s(" = "); expr(depth); }
		if (PICK(3)) { s(" where "); expr(depth); }
		if (PICK(4) == 3) { s(" returning "); expr(1); }
		break;
	case 11: case 12:
		s("delete from "); s(OF(Tabs));
		if (PICK(4)) { s(" where "); expr(depth); }
		if (PICK(4) == 3) { s(" returning "); expr(1); }
		break;
	case 13: s("if "); expr(2); s(" then "); if (depth > 0) statement(depth - 1, true); s("; "); if (PICK(3) == 2) { s("elsif "); expr(1); s(" then "); statement(depth - 1, true); s("; "); } if (PICK(2)) { s("else "); statement(depth - 1, true); s("; "); } s("end"); break;
	case 14: s("for "); s(PICK(2) ? "it" : "vt"); s(" in "); if (PICK(3)) { s("("); query(depth - 1); s(")"); } else expr(1); s(" do "); statement(depth - 1, true); s("; "); if (PICK(6) == 5) s(PICK(2) ? "break; " : "continue; "); s("end"); break;
	case 15: if (PICK(2)) { s("vx := "); expr(2); } else { s("declare "); s(PICK(2) ? "vx " : "vy "); if (PICK(4)) s(OF(Types)); else s("table(a int, b string)"); if (PICK(3) == 2) { s(" := "); expr(1); } } break;
	case 16: Ddl = true; s("create "); if (PICK(8) == 7) s("unlogged "); s("table "); if (PICK(3) == 2) s("if not exists "); s(PICK(4) ? "t1" : "a"); s(" "); columns(1 + PICK(4)); if (PICK(3) == 2) { s(" partitions "); s(PICK(3) ? (PICK(2) ? "1" : "4") : PICK(2) ? "0" : "-1"); } if (PICK(8) == 7) s(" with (fillfactor = 1)"); break;
	case 17:
		Ddl = true;
		s("alter table "); if (PICK(4) == 3) s("if exists "); s(PICK(2) ? "a " : "t1 ");
		switch (PICK(9)) {
		case 0: s("add column "); if (PICK(2)) s("z "); else s("v "); s(OF(Types)); if (PICK(2)) { s(" default "); expr(1); } break;
		case 1: s("drop column "); s(OF(Cols)); break;
		case 2: s("rename column "); s(OF(Cols)); s(" to "); s(PICK(2) ? "z" : OF(Cols)); break;
		case 3: s("rename to t1"); break;
		case 4: s("set column "); s(OF(Cols)); s(" default "); expr(1); break;
		case 5: s("unset column "); s(OF(Cols)); s(" default"); break;
		case 6: s("set column "); s(OF(Cols)); s(" as ("); expr(1); s(PICK(2) ? ") stored" : ") resolved"); break;
		case 7: s("unset column "); s(OF(Cols)); s(PICK(2) ? " as stored" : " as identity"); break;
		case 8: s("set identity to "); s(OF(Ints)); break;
		}
		break;
	case 18:
		Ddl = true;
		switch (PICK(4)) {
		case 0: case 1: s("create "); if (PICK(3) == 2) s("unique "); s("index "); s(PICK(2) ? "i1" : "ai"); s(" on "); s(OF(Tabs)); s(" ("); s(OF(Cols)); if (PICK(3) == 2) { s(", "); s(OF(Cols)); } s(")"); if (PICK(2)) s(PICK(2) ? " using hash" : " using tree"); break;
		case 2: s("drop index "); if (PICK(2)) s("if exists "); s(PICK(2) ? "i1" : "ai"); s(" on "); s(OF(Tabs)); break;
		case 3: s("alter index ai on a rename to "); s(PICK(2) ? "i1" : "ai"); break;
		}
		break;
	case 19:
		Ddl = true;
		switch (PICK(3)) {
		case 0: s("create "); if (PICK(2)) s("or replace "); s("function "); s(PICK(2) ? "f1 " : "f2 "); if (PICK(2)) s("(x int, y string)"); else s("()"); if (PICK(2)) { s(" return "); s(OF(Types)); } s(" begin "); for (int n = 1 + PICK(2), i = 0; i < n; i++) { if (PICK(3) == 2) { s("return "); expr(2); } else statement(depth - 1, true); s("; "); } s("end"); break;
		case 1: s("drop function "); if (PICK(2)) s("if exists "); s("f1"); break;
		case 2: s("alter function f1 rename to "); s(PICK(2) ? "f2" : "f1"); break;
		}
		break;
	case 20: Ddl = true; if (PICK(2)) { s("truncate "); s(OF(Tabs)); } else { s("drop table "); if (PICK(2)) s("if exists "); s(PICK(2) ? "t1" : "a"); } break;
	case 21: s(PICK(2) ? "explain " : "profile "); if (PICK(2)) s("("); statement(depth, true); break;
	case 22: s("show "); { static const char* g[] = { "tables", "table", "indexes", "users", "state", "config", "metrics", "databases", "partitions", "locks", "wal", "functions", "storages", "nosuch" }; s(OF(g)); } if (PICK(3) == 2) { s(" a"); if (PICK(2)) s(" on a"); if (PICK(2)) s(" extended"); } break;
	case 23: s("with "); for (int n = 1 + PICK(2), i = 0; i < n; i++) { if (i) s(", "); s(OF(Aliases)); if (PICK(2)) { s(" ("); s(OF(Cols)); s(")"); } s(" as ("); statement(depth - 1, true); s(")"); } s(" "); statement(depth - 1, true); break;
	}
}
static void script(void)
{
	int k = PICK(8);
	int depth = 1 + PICK(4);
	if (k < 4) { statement(depth, false); return; }
	if (k == 4) { s("execute "); s(PICK(2) ? "f1" : "f2"); args(2); return; }
	s("begin ");
	if (PICK(2)) s("declare vx int; ");
	if (PICK(4) == 3) s("declare vt table(a int, b string); ");
	for (int n = 1 + PICK(4), i = 0; i < n; i++) { statement(depth, true); s("; "); }
	s(PICK(8) == 7 ? "commit" : "end"); if (PICK(2)) s(";");
}
// tokens of a text
static const char* Toks[] = { "select", "from", "where", "insert", "into", "values", "update", "set", "delete", "begin", "end", "declare", "if", "then", "else", "elsif", "for", "in", "do", "case", "when", "join", "on",
	"group", "by", "order", "having", "limit", "offset", "distinct", "all", "any", "as", "and", "or", "not", "between", "like", "is", "null", "exists", "union", "returning", "conflict", "nothing",
	"create", "table", "index", "function", "primary", "key", "partitions", "default", "generated", "stored", "resolved", "unique", "truncate", "rename", "to", "add", "column", "alter", "drop", "with", "cascade",
	"return", "execute", "call", "explain", "profile", "extract", "cast", "interval", "timestamp", "date", "uuid", "vector", "self", "count", "sum", "avg", "min", "max", "error", "random", "replace", "unset",
	"break", "continue", "commit", "use", "using", "hash", "tree", "identity", "timezone", "at", "current_date", "show", "extended", "void", "view", "outer", "left", "false", "true",
	"(", ")", "[", "]", "{", "}", ",", ";", ".", ":", "::", ":=", "->", "=", "<>", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "||", "|", "&", "^", "~", "<<", ">>", "!", "@", "#", "$", "?", "\\", "`", "'", "\"", "--", "\n",
	"a", "b", "a.", "a.*", "*", ".j", "_", "_x", "$1", "`a b`", "it", "vx", "vt", "f1", "k", "v", "s", "j", "x" };
static void soup(int n)
{
	for (int i = 0; i < n; i++) {
		switch (PICK(6)) { case 0: s(OF(Ints)); break; case 1: s(OF(Strs)); break; case 2: s(OF(Fns)); break; default: s(OF(Toks)); }
		if (PICK(5)) s(" ");
	}
}
static bool word(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.'; }
static void mutate_tokens(Tx* t)
{
	// cut into tokens
	static char* at[4096]; static int len[4096];
	int n = 0;
	char* p = t->p, *e = t->p + t->n;
	while (p < e && n < 4000) {
		while (p < e && *p == ' ') p++;
		if (p == e) break;
		char* q = p;
		if (*p == '\'' || *p == '"') { q++; while (q < e && *q != *p) q++; if (q < e) q++; }
		else if (word(*p)) while (q < e && word(*q)) q++;
		else q++;
		at[n] = p; len[n++] = q - p;
		p = q;
	}
	if (! n) return;
	static const char* one[8]; static int on;
	on = 0;
	for (int m = 1 + PICK(4); m > 0; m--) {
		int i = PICK(n), j = PICK(n);
		switch (PICK(5)) {
		case 0: len[i] = 0; break;
		case 1: { char* x = at[i]; int l = len[i]; at[i] = at[j]; len[i] = len[j]; at[j] = x; len[j] = l; break; }
		case 2: at[i] = at[j]; len[i] = len[j]; break;
		case 3: if (on < 8) { one[on] = PICK(2) ? OF(Toks) : PICK(2) ? OF(Ints) : OF(Strs); at[i] = (char*)one[on]; len[i] = strlen(one[on]); on++; } break;
		case 4: n = i + 1; break;
		}
	}
	Tx r = { 0 };
	for (int i = 0; i < n; i++) { if (len[i]) { tx_add(&r, at[i], len[i]); tx_add(&r, " ", 1); } }
	if (! r.p) tx_add(&r, "", 0);
	tx_free(t);
	*t = r;
}
static void mutate_bytes(Tx* t)
{
	for (int m = 1 + PICK(4); m > 0 && t->n > 0; m--) {
		int i = PICK(t->n);
		switch (PICK(4)) {
		case 0: t->p[i] ^= 1 << PICK(8); break;
		case 1: t->p[i] = PICK(256); break;
		case 2: memmove(t->p + i, t->p + i + 1, t->n - i); t->n--; break;
		case 3: t->n = i; t->p[i] = 0; break;
		}
	}
}
static void rep(const char* x, int n) { for (int i = 0; i < n; i++) s(x); }
static void deep(void)
{
	int n = 1 << PICK(15);
	n += PICK(3);
	switch (PICK(22)) {
	case 0: s("select "); rep("(", n); s("1"); rep(")", PICK(3) ? n : 0); break;
	case 1: s("select 1"); rep(" + 1", n); break;
	case 2: s("select "); rep("[", n); rep("]", n); break;
	case 3: s("select "); rep("{\"a\": ", n); s("1"); rep("}", n); break;
	case 4: s("select "); rep("not ", n); s("true"); break;
	case 5: s("select "); rep("- ", n); s("k from a"); break;
	case 6: s("select "); rep("abs(", n); s("1"); rep(")", n); break;
	case 7: s("select "); rep("(select ", n); s("1"); rep(")", n); break;
	case 8: s("select * from "); rep("(select * from ", n); s("a"); rep(")", n); break;
	case 9: rep("if true then ", n); s("select 1; "); rep("end; ", n); break;
	case 10: rep("begin ", n); s("select 1; "); rep("end; ", n); break;
	case 11: s("select * from a where k = 1"); rep(" and k = 1", n); break;
	case 12: s("select * from a where k = 1"); rep(" or k = 1", n); break;
	case 13: s("select "); rep("case when true then ", n); s("1"); rep(" end", n); break;
	case 14: s("select k"); rep("::abs", n); s(" from a"); break;
	case 15: s("select j"); rep(".x", n); s(" from a"); break;
	case 16: s("select j"); rep("[0]", n); s(" from a"); break;
	case 17: s("select k in (1"); rep(", 1", n); s(") from a"); break;
	case 18: s("select 1"); rep(", 1", n); break;
	case 19: s("insert into b values (1, 'a')"); rep(", (1, 'b')", n); break;
	case 20: s("select * from a"); rep(", a", PICK(40)); s(" where false"); break;
	case 21: s("select '"); rep("x", n); s("'"); break;
	case 22: rep("explain ", n); s("select 1"); break;
	}
}
static bool forbidden(const char* t)
{
	// endless by their meaning, or administration of the server
	static const char* no[] = { "while", "watch", "sleep", "breakpoint", "lock", "subscribe", "repl", "json_import", "database", "drop user", "keep", "tier", "storage" };
	for (int i = 0; i < (int)(sizeof(no) / sizeof(no[0])); i++) { const char* p = strcasestr(t, no[i]); if (p && ! strncasecmp(p, "replace", 7)) continue; if (p && ! strncasecmp(p, "storages", 8)) continue; if (p && ! strncasecmp(p, "databases", 9)) continue; if (p) return true; }
	return false;
}

// http --------------------------------------------------------------------------------------------
static char Socket[PATH_MAX];
static int dial(void)
{
	int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
	struct sockaddr_un a = { .sun_family = AF_UNIX };
	snprintf(a.sun_path, sizeof(a.sun_path), "%s", Socket);
	if (connect(fd, (struct sockaddr*)&a, sizeof(a)) != 0) pbt_fail("cannot connect to '%s': %s", Socket, strerror(errno));
	struct timeval tv = { 15, 0 };
	setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv));
	setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
	return fd;
}
// sends, closes that direction and reads everything
static Tx Reply;
static void talk(const char* d, int n, bool keep_open)
{
	int fd = dial();
	int pieces = PICK(4) == 3 ? 1 + PICK(8) : 1, at = 0;
	tx_reset(&Reply);
	for (int i = 0; i < pieces && at < n; i++) {
		int k = i == pieces - 1 ? n - at : PICK(n - at) + 1;
		while (k > 0) {
			ssize_t rc = send(fd, d + at, k, MSG_NOSIGNAL);
			if (rc <= 0) { if (errno == EAGAIN) pbt_fail("the server does not read the connection"); goto sent; }
			at += rc; k -= rc;
		}
	}
sent:
	if (keep_open) { close(fd); return; }
	shutdown(fd, SHUT_WR);
	for (;;) {
		char b[65536];
		ssize_t rc = recv(fd, b, sizeof(b), 0);
		if (rc == 0) break;
		if (rc < 0) { if (errno == EAGAIN || errno == EWOULDBLOCK) pbt_fail("the server does not answer and does not close the connection after: %.300s", d); break; }
		tx_add(&Reply, b, rc);
	}
	close(fd);
}
static void request(Tx* t, const char* path, const char* type, const char* body, int n)
{
	tx_f(t, "POST %s HTTP/1.1\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n", path, type, n);
	tx_add(t, body, n);
}
// the replies are whole messages
static int replies(void)
{
	int n = 0;
	char* p = Reply.p, *e = Reply.p + Reply.n;
	while (p && p < e) {
		if (strncmp(p, "HTTP/1.1 ", 9)) pbt_fail("a reply does not start by the status: '%.100s'", p);
		int code = atoi(p + 9);
		if (code != 200 && code != 204 && code != 400 && code != 403 && code != 413) pbt_fail("code %d", code);
		char* end = memmem(p, e - p, "\r\n\r\n", 4);
		if (! end) pbt_fail("a reply is cut: '%.100s'", p);
		char* cl = strcasestr(p, "Content-Length:");
		long len = cl && cl < end ? atol(cl + 15) : 0;
		if (len < 0 || len > e - end - 4) pbt_fail("a reply is cut: %ld of %ld", (long)(e - end - 4), len);
		p = end + 4 + len;
		n++;
	}
	return n;
}

// checks ------------------------------------------------------------------------------------------
static bool Opened;
static char Dir[PATH_MAX];
static amelie_session_t* Fz;
static Tx Out, Before, After;
static const char* Kept = "[[0, \"zero\"], [1, \"one\"], [2, \"two\"], [3, \"three\"], [4, \"four\"]]";
static int64_t now_ms(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000LL + t.tv_nsec / 1000000; }
static void sentinel(const char* when)
{
	db_must("select k, s from keep order by k");
	if (strcmp(Db.out.p, Kept)) pbt_fail("%s: the kept table is %s", when, Db.out.p);
}
static void dump(Tx* t)
{
	tx_reset(t);
	static const char* q[] = { "select * from a order by k", "select * from b order by k", "select count(*) from a use index (ai)" };
	for (int i = 0; i < 3; i++) { db_exec(q[i]); tx_f(t, "%d ", Db.code); tx_add(t, Db.out.p, Db.out.n); tx_f(t, "\n"); }
}
static int Plan;
static void scratch(void)
{
	static const char* drop[] = { "drop function if exists f1", "drop function if exists f2", "drop function if exists f1", "drop table if exists a", "drop table if exists b", "drop table if exists t1", "drop table if exists z" };
	for (int i = 0; i < (int)(sizeof(drop) / sizeof(drop[0])); i++) db_exec(drop[i]);
	int parts = 1 + Plan % 3;
	db_must("create table a (k int primary key, v int, s string not null, j json, d date, ts timestamp, iv interval, u uuid, ve vector, b bool, r double) partitions %d", parts);
	db_must("create table b (k int primary key, s string) partitions %d", parts);
	db_must("create index ai on a (s)");
	for (int k = 0; k < 4; k++)
		db_must("insert into a values (%d, %d, 's%d', {\"x\": [%d, {\"y\": \"z\"}]}, date '2024-02-0%d', timestamp '2024-03-31 0%d:00:00', interval '%d days', uuid 'b0a1b2c3-0000-4000-8000-00000000000%d', vector [%d, 1.5], %s, %d.5), (%d, null, '', null, null, null, null, null, null, null, null)",
			k, k * 3, k % 2, k, k + 1, k, k, k, k, k % 2 ? "true" : "false", k, k + 10);
	db_must("insert into b values (1, 'b1'), (2, null), (3, 's1')");
	db_exec("create function f1 (x int, y string) return int begin return x + 1; end");
}
static void last(const char* d, int n)
{
	static const char* to = "";
	if (to && ! *to) to = getenv("PBT_LAST");
	if (! to) return;
	FILE* f = fopen(to, "w");
	if (f) { fwrite(d, 1, n, f); fclose(f); }
}
static int fuzz_exec(const char* sql)
{
	last(sql, strlen(sql));
	char* copy = strdup(sql);
	amelie_request_t* req = amelie_execute(Fz, copy, 0, NULL, NULL, NULL);
	amelie_arg_t res = { 0 };
	int64_t from = now_ms();
	int code = amelie_wait(req, 20000, &res);
	if (code == 408) pbt_fail("no answer in %d ms: %.2000s", (int)(now_ms() - from), sql);
	tx_reset(&Out);
	tx_add(&Out, res.data ? res.data : "", res.data ? res.data_size : 0);
	amelie_free(req);
	free(copy);
	return code;
}
static void case_run(void)
{
	if (! Opened) {
		snprintf(Dir, sizeof(Dir), "%s/db", pbt_dir());
		snprintf(Socket, sizeof(Socket), "%s/socket", Dir);
		db_open(Dir, 2, 2);
		Opened = true;
		db_must("create table keep (k int primary key, s string) partitions 3");
		db_must("insert into keep values (0, 'zero'), (1, 'one'), (2, 'two'), (3, 'three'), (4, 'four')");
		Ddl = true;
	}
	if (Fz && PICK(8) == 7) { amelie_free(Fz); Fz = NULL; }
	if (! Fz) Fz = amelie_connect(Db.env, "amelie://");
	if (Ddl || PICK(4) == 3) { Plan = PICK(3); scratch(); Ddl = false; }
	int n = 1 + PICK(4), good = 0, bad = 0;
	bool late = false; // a request of a closed connection can be executed later
	for (int i = 0; i < n; i++) {
		Tx t = { 0 };
		tx_add(&t, "", 0);
		T = &t;
		Fuel = 60;
		bool web = PICK(3) == 2;
		int how = PICK(16);
		if (how < 6) { script(); pbt_class("grammar"); }
		else if (how < 11) { script(); mutate_tokens(&t); pbt_class("tokens"); }
		else if (how < 12) { script(); mutate_bytes(&t); pbt_class("bytes"); }
		else if (how < 13) { soup(1 + PICK(25)); pbt_class("soup"); }
		else if (how < 14) { deep(); if (PICK(8) == 7) mutate_tokens(&t); pbt_class("deep"); }
		else web = true, how = 99;
		T = NULL;
		if (forbidden(t.p)) { tx_free(&t); continue; }
		if (strcasestr(t.p, "create") || strcasestr(t.p, "drop") || strcasestr(t.p, "alter") || strcasestr(t.p, "truncate")) Ddl = true;
		if (! web) {
			pbt_note("%.1500s", t.p);
			dump(&Before);
			// texts end by a zero here
			int code = fuzz_exec(t.p);
			pbt_note("  => %d %.200s", code, Out.p);
			if (code != 200 && code != 204 && code != 400) pbt_fail("code %d", code);
			if (code == 400) { bad++; if (! Out.n) pbt_fail("an error without text"); } else good++;
			dump(&After);
			if (code == 400 && ! late && (Before.n != After.n || memcmp(Before.p, After.p, Before.n))) { pbt_note("before: %s", Before.p); pbt_note("after: %s", After.p); pbt_fail("a failed request changed tables"); }
		} else {
			Tx m = { 0 };
			static const char* paths[] = { "/v1/db/main", "/v1/db/main/a", "/v1/db/main/b", "/v1/db/main/f1", "/v1/db/nodb", "/v1/db/main?format=json-pretty", "/v1/db/main/b?columns=k,s", "/v1/db/main/a?columns=k,s&timezone=UTC", "/v1/db/main?timezone=%41sia/Nicosia&columns=", "/", "/v1/db", "/v1/", "/v2/db/main",
				"/v1/db/main/b?columns=s,k", "/v1/db/main?format=xml", "/v1/db/%6dain", "/v1/db/main/../x" };
			static const char* types[] = { "plain/text", "application/json", "text/csv", "application/jsonl", "text/plain", "x" };
			const char* path = PICK(2) ? paths[0] : OF(paths), *type = PICK(3) ? types[0] : OF(types);
			if (how == 99 && PICK(2)) {
				// rows for a table
				T = &t;
				type = types[1 + PICK(3)]; path = paths[1 + PICK(3)];
				if (PICK(4) == 3) soup(1 + PICK(12));
				else {
					s("[");
					for (int r = PICK(5); r > 0; r--) {
						int f = PICK(4);
						if (f == 0) { s("["); s(OF(Ints)); s(", "); s(OF(Strs)); s("]"); }
						else if (f == 1) { s("{\"k\": "); s(OF(Ints)); s(", \"s\": "); s(OF(Strs)); s("}"); }
						else if (f == 2) s(OF(Ints));
						else { s("["); for (int c = PICK(13); c > 0; c--) { s(PICK(3) ? OF(Ints) : PICK(2) ? "null" : OF(Strs)); if (c > 1) s(","); } s("]"); }
						s(r > 1 ? (PICK(4) ? ", " : "\n") : "");
					}
					s("]");
					if (PICK(4) == 3) mutate_bytes(&t);
				}
				T = NULL;
			}
			Ddl = true;
			int msgs = 1 + PICK(2);
			for (int k = 0; k < msgs; k++) request(&m, path, type, t.p, t.n);
			bool whole = true;
			if (how == 99 && PICK(2)) {
				whole = false;
				int k = PICK(4);
				if (k == 0) { m.n = 0; for (int c = PICK(300); c > 0; c--) { char x = PICK(256); tx_add(&m, &x, 1); } }
				else if (k == 1) { static const char* hs[] = { "GET / HTTP/1.1\r\n\r\n", "POST\r\n\r\n", "POST / HTTP/9.9\r\n\r\n", "\r\n\r\n", "POST /v1/db/main HTTP/1.1\r\nContent-Length: -5\r\n\r\nabc", "POST /v1/db/main HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\n",
					"POST /v1/db/main HTTP/1.1\r\nContent-Length: 5000000000\r\n\r\nselect 1", "POST /v1/db/main HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n8\r\nselect 1\r\n0\r\n\r\n", "POST /v1/db/main HTTP/1.1\r\nAuthorization: Bearer a.b.c\r\nContent-Length: 0\r\n\r\n", "POST /v1/db/main HTTP/1.1\r\n: x\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n" };
					m.n = 0; const char* h = OF(hs); tx_add(&m, h, strlen(h)); }
				else if (k == 2) { Tx h = m; mutate_bytes(&h); m = h; }
				else { m.n = PICK(m.n + 1); }
			}
			m.p[m.n] = 0;
			if (forbidden(m.p) || memmem(m.p, m.n, "backup", 6)) { tx_free(&t); tx_free(&m); continue; }
			pbt_note("http %d bytes: %.1500s", m.n, m.p);
			pbt_class(whole ? "http" : "malformed http");
			bool gone = PICK(10) == 9;
			last(m.p, m.n);
			talk(m.p, m.n, gone);
			if (gone) { late = true; usleep(20000); }
			int got = 0;
			if (! gone) { got = replies(); pbt_note("  => %d replies %.200s", got, Reply.p ? Reply.p : ""); }
			if (whole && ! gone && got != msgs) pbt_fail("%d replies to %d requests", got, msgs);
			good++;
			tx_free(&m);
			// a new connection works
			Tx q = { 0 };
			request(&q, "/v1/db/main", "plain/text", "select k, s from keep order by k", 32);
			talk(q.p, q.n, false);
			if (! Reply.n || strncmp(Reply.p, "HTTP/1.1 200", 12) || ! strstr(Reply.p, Kept)) pbt_fail("after the request, a new connection reads: %.500s", Reply.p ? Reply.p : "");
			tx_free(&q);
		}
		sentinel("after the request");
		tx_free(&t);
	}
	pbt_count("accepted", good);
	pbt_count("refused", bad);
	if (good) pbt_class("some accepted");
	if (good + bad > 0) pbt_nontrivial();
	if (Plan == 2 && ! late && PICK(40) == 39) {
		pbt_note("restart");
		pbt_class("restart");
		dump(&Before);
		amelie_free(Fz); Fz = NULL;
		db_close();
		db_open(Dir, 2, 2);
		dump(&After);
		if (Before.n != After.n || memcmp(Before.p, After.p, Before.n)) { pbt_note("before: %s", Before.p); pbt_note("after: %s", After.p); pbt_fail("the tables differ after a restart"); }
		sentinel("after a restart");
	}
}
PbtHarness pbt_harness = { .name = "fuzz", .run = case_run, .no_runtime = true };
