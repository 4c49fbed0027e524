// C16: dates, timestamps, timezones and intervals against a proleptic Gregorian reference
#include <amelie_test_scope>
#include <arpa/inet.h>
#include "pbt.h"
#include "util.h"

typedef __int128 i128;

// reference calendar ---------------------------------------------------------
static int64_t civil_days(int64_t y, int m, int d)
{
	// days since 1970-01-01
	y -= m <= 2;
	int64_t era = (y >= 0 ? y : y - 399) / 400;
	int64_t yoe = y - era * 400;
	int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
	int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + doe - 719468;
}
static void days_civil(int64_t z, int64_t* y, int* m, int* d)
{
	// slow and obvious: walk from a nearby year
	*y = 1970 + z / 366;
	if (z < 0) *y = 1970 + z / 365 - 1;
	while (civil_days(*y + 1, 1, 1) <= z) (*y)++;
	for (*m = 12; civil_days(*y, *m, 1) > z; (*m)--) ;
	*d = z - civil_days(*y, *m, 1) + 1;
}
static bool leap(int64_t y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); }
static int mdays(int64_t y, int m)
{
	static const int t[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
	return m == 2 && leap(y) ? 29 : t[m - 1];
}
#define JDN_EPOCH 2440588
#define US 1000000LL

static bool two(const char* p) { return p[0] >= '0' && p[0] <= '9' && p[1] >= '0' && p[1] <= '9'; }
static int num(const char* p, int n) { int v = 0; while (n--) v = v * 10 + *p++ - '0'; return v; }

static int gen_year(int lo, int hi)
{
	switch (PICK(5)) {
	case 0: return pbt_range(lo, hi);
	case 1: { static const int y[] = { 2000, 1900, 2100, 2400, 1996, 2023, 2024, 1, 4, 100, 400, 9999, 1970, 1971, 2038, 1582, 1600, 9996 }; int v = y[PICK(NELEM(y))]; return v < lo ? lo : v > hi ? hi : v; }
	default: { int v = 1970 + PICK(80); return v < lo ? lo : v > hi ? hi : v; }
	}
}
static void gen_date(int lo, int hi, int* y, int* m, int* d)
{
	*y = gen_year(lo, hi);
	*m = 1 + PICK(12);
	*d = PICK(3) == 0 ? mdays(*y, *m) : 1 + PICK(mdays(*y, *m));
}
static void mutate(Sb* s)
{
	static const char cs[] = "0123456789-: TZ.+,xZ/\t\xc3\0";
	int n = 1 + PICK(2);
	while (n--) {
		int at = s->n ? PICK(s->n) : 0;
		switch (PICK(4)) {
		case 0: if (s->n) s->p[at] = cs[PICK(sizeof(cs) - 1)]; break;
		case 1: if (s->n) { memmove(s->p + at, s->p + at + 1, s->n - at); s->n--; } break;
		case 2: { sb_c(s, 0); memmove(s->p + at + 1, s->p + at, s->n - 1 - at); s->p[at] = cs[PICK(sizeof(cs) - 1)]; break; }
		case 3: if (s->n) { s->n = PICK(s->n); s->p[s->n] = 0; } break;
		}
	}
}

// dates -----------------------------------------------------------------------
// months and days out of the calendar are normalized (0000-13-01 is 0001-01-01) or rejected
static bool ref_date(const char* p, int n, int64_t* jdn, bool* overflow)
{
	*overflow = false;
	if (n != 10 || p[4] != '-' || p[7] != '-' || ! two(p) || ! two(p + 2) || ! two(p + 5) || ! two(p + 8)) return false;
	int y = num(p, 4), m = num(p + 5, 2), d = num(p + 8, 2);
	if (y < 1 || m < 1 || m > 12 || d < 1 || d > mdays(y, m)) {
		*overflow = true;
		*jdn = civil_days(y + (m + 11) / 12 - 1, (m + 11) % 12 + 1, d) + JDN_EPOCH;
		if (*jdn < 1721426 || *jdn > 5373484) return false;
		if (m > 14) *jdn = -1;
		return true;
	}
	*jdn = civil_days(y, m, d) + JDN_EPOCH;
	return true;
}
static void case_date_text(void)
{
	pbt_class("date text");
	Sb s = {0};
	if (PICK(4) == 0)
		sb_f(&s, "%04d-%02d-%02d", PICK(3) ? gen_year(0, 9999) : PICK(10000), PICK(PICK(4) ? 16 : 100), PICK(PICK(4) ? 33 : 100));
	else {
		int y, m, d;
		gen_date(1, 9999, &y, &m, &d);
		sb_f(&s, "%04d-%02d-%02d", y, m, d);
	}
	if (PICK(3) == 0) mutate(&s);
	int64_t want = 0;
	bool overflow;
	bool valid = ref_date(s.p ? s.p : "", s.n, &want, &overflow);
	pbt_note("date '%s'%s", show(s.p, s.n), overflow ? " (overflow)" : valid ? "" : " (invalid)");
	char* copy = exact(s.p, s.n);
	Str str; str_set(&str, copy, s.n);
	int64_t got = 0;
	auto on_error = error_catch ( got = date_set(&str); );
	free(copy);
	if (overflow) {
		pbt_class("date with an overflowing month or day");
		if (! on_error) {
			if (want == -1) pbt_check(got >= 1721426 && got <= 5373484, "julian day %" PRIi64 " is out of range", got);
			else pbt_check(valid && got == want, "julian day %" PRIi64 ", expected %" PRIi64, got, want);
			pbt_nontrivial();
		}
		sb_free(&s);
		return;
	}
	pbt_check(on_error == ! valid, "date is %s", on_error ? "rejected" : "accepted");
	if (valid) {
		pbt_check(got == want, "julian day %" PRIi64 ", expected %" PRIi64, got, want);
		char out[32];
		int n = date_get(got, out, sizeof(out));
		pbt_check(n == s.n && ! memcmp(out, s.p, n), "printed as '%.*s'", n, out);
		pbt_nontrivial();
	}
	sb_free(&s);
}
static void case_date_math(void)
{
	pbt_class("date arithmetic");
	int y, m, d;
	gen_date(1, 9999, &y, &m, &d);
	int64_t j = civil_days(y, m, d) + JDN_EPOCH;
	pbt_check(date_set_gregorian(y, m, d) == j, "%04d-%02d-%02d is day %d, expected %" PRIi64, y, m, d, date_set_gregorian(y, m, d), j);
	int gy, gm, gd;
	date_get_gregorian(j, &gy, &gm, &gd);
	pbt_check(gy == y && gm == m && gd == d, "day %" PRIi64 " is %d-%d-%d, expected %d-%d-%d", j, gy, gm, gd, y, m, d);
	int64_t delta = PICK(3) == 0 ? (int32_t)pbt_int64() : pbt_range(-4000, 4000);
	if (delta == INT32_MIN) delta = 0;
	bool sub = PICK(2);
	pbt_note("%04d-%02d-%02d %c %" PRIi64, y, m, d, sub ? '-' : '+', delta);
	int64_t want = sub ? j - delta : j + delta, got = 0;
	bool valid = want >= 1721426 && want <= 5373484;
	auto on_error = error_catch ( got = sub ? date_sub(j, delta) : date_add(j, delta); );
	pbt_check(on_error == ! valid, "%s", on_error ? "rejected" : "accepted out of range");
	if (valid) {
		pbt_check(got == want, "got %" PRIi64 ", expected %" PRIi64, got, want);
		int64_t ry; int rm, rd;
		days_civil(want - JDN_EPOCH, &ry, &rm, &rd);
		Str f;
		str_set_cstr(&f, "year"); pbt_check(date_extract(got, &f) == ry, "wrong year");
		str_set_cstr(&f, "month"); pbt_check(date_extract(got, &f) == rm, "wrong month");
		str_set_cstr(&f, "day"); pbt_check(date_extract(got, &f) == rd, "wrong day");
		pbt_nontrivial();
	}
	// timestamp <-> date
	if (y >= 1970) {
		int64_t us = (j - JDN_EPOCH) * 86400 * US + pbt_range(0, 86399) * US + PICK(US);
		pbt_check(timestamp_date(us) == j, "date of timestamp %" PRIi64 " is %d, expected %" PRIi64, us, timestamp_date(us), j);
		Timestamp ts;
		timestamp_init(&ts);
		timestamp_set_date(&ts, j);
		pbt_check(timestamp_get_unixtime(&ts, NULL) == (j - JDN_EPOCH) * 86400 * US, "timestamp of the date is wrong");
	}
}

// timezones --------------------------------------------------------------------
static char* zones[700];
static int zones_count;
static int zone_current = -1;
static void zones_load(const char* dir, const char* prefix)
{
	DIR* d = opendir(dir);
	if (! d) return;
	struct dirent* e;
	while ((e = readdir(d)) && zones_count < 650) {
		if (e->d_name[0] == '.') continue;
		char path[PATH_MAX], name[PATH_MAX];
		snprintf(path, sizeof(path), "%s/%s", dir, e->d_name);
		snprintf(name, sizeof(name), "%s%s%s", prefix, prefix[0] ? "/" : "", e->d_name);
		struct stat st;
		if (stat(path, &st) == -1) continue;
		if (S_ISDIR(st.st_mode)) { if (! prefix[0]) zones_load(path, e->d_name); continue; }
		int fd = open(path, O_RDONLY);
		char magic[4] = "";
		if (read(fd, magic, 4) == 4 && ! memcmp(magic, "TZif", 4)) zones[zones_count++] = strdup(name);
		close(fd);
	}
	closedir(d);
}
static int zone_cmp(const void* a, const void* b) { return strcmp(*(char**)a, *(char**)b); }
static void setup(void)
{
	zones_load("/usr/share/zoneinfo", "");
	qsort(zones, zones_count, sizeof(char*), zone_cmp);
}
static int libc_offset(int zone, int64_t t)
{
	if (zone_current != zone) {
		char z[PATH_MAX];
		snprintf(z, sizeof(z), ":%s", zones[zone]);
		setenv("TZ", z, 1);
		tzset();
		zone_current = zone;
	}
	time_t tt = t;
	struct tm tm;
	localtime_r(&tt, &tm);
	return tm.tm_gmtoff;
}
static void libc_utc(void) { setenv("TZ", "UTC", 1); tzset(); zone_current = -1; }
static int gen_zone(void)
{
	static const char* often[] = { "America/New_York", "Europe/Berlin", "Australia/Lord_Howe", "Asia/Kolkata", "Asia/Kathmandu", "Africa/Casablanca", "America/St_Johns", "Pacific/Apia", "UTC", "Europe/Dublin", "America/Sao_Paulo" };
	if (zones_count == 0) return -1;
	if (PICK(2)) return PICK(zones_count);
	const char* z = often[PICK(NELEM(often))];
	for (int i = 0; i < zones_count; i++) if (! strcmp(zones[i], z)) return i;
	return PICK(zones_count);
}
#define T2037 2114380800LL
static int64_t gen_zone_time(int zone)
{
	int64_t t = pbt_range(0, T2037 - 1);
	if (PICK(2)) {
		// move near a transition
		int64_t a = t, b = t + 200 * 86400;
		if (b >= T2037) return t;
		int oa = libc_offset(zone, a);
		if (libc_offset(zone, b) != oa) {
			while (b - a > 1) { int64_t m = (a + b) / 2; if (libc_offset(zone, m) == oa) a = m; else b = m; }
			t = b + pbt_range(-3 * 3600, 3 * 3600);
			if (PICK(4) == 0) t = b - PICK(2);
			if (t < 0 || t >= T2037) t = 0;
			pbt_class("near a timezone transition");
		}
	}
	return t;
}
static Timezone* zone_find(int zone)
{
	char name[PATH_MAX];
	strcpy(name, zones[zone]);
	if (PICK(4) == 0) for (char* p = name; *p; p++) if (PICK(2)) *p = *p >= 'a' && *p <= 'z' ? *p - 32 : *p >= 'A' && *p <= 'Z' ? *p + 32 : *p;
	Str s; str_set_cstr(&s, name);
	auto tz = timezone_mgr_find(&runtime()->timezone_mgr, &s);
	pbt_check(tz, "timezone '%s' is not found", name);
	return tz;
}
static void fmt_ts(Sb* s, int64_t secs, int us, bool with_zone, int off)
{
	int64_t y; int m, d;
	int64_t day = secs / 86400;
	int64_t rem = secs % 86400;
	if (rem < 0) { rem += 86400; day--; }
	days_civil(day, &y, &m, &d);
	sb_f(s, "%04d-%02d-%02d %02d:%02d:%02d", (int)y, m, d, (int)(rem / 3600), (int)(rem / 60 % 60), (int)(rem % 60));
	if (us) { if (us % 1000) sb_f(s, ".%06d", us); else sb_f(s, ".%03d", us / 1000); }
	if (with_zone) {
		int a = abs(off);
		sb_f(s, "%c%02d", off < 0 ? '-' : '+', a / 3600);
		if (a / 60 % 60) sb_f(s, ":%02d", a / 60 % 60);
	}
}
static void case_timezone(void)
{
	int zone = gen_zone();
	if (zone < 0) return;
	pbt_class("timezone");
	int64_t t = gen_zone_time(zone);
	int off = libc_offset(zone, t);
	auto tz = zone_find(zone);
	pbt_note("zone %s time %" PRIi64, zones[zone], t);
	auto m = timezone_match(tz, t);
	pbt_check(m->utoff == off, "offset %d, expected %d", m->utoff, off);
	// UTC -> text
	int us = PICK(3) == 0 ? PICK(US) : PICK(3) == 0 ? PICK(1000) * 1000 : 0;
	int64_t value = t * US + us;
	Sb want = {0};
	fmt_ts(&want, t + off, us, true, off);
	// other offsets which give the same local time
	int64_t local = t + off;
	int same = 0;
	for (int64_t at = local - 86400 * 2; at <= local + 86400 * 2; at += 1800) {
		int o = libc_offset(zone, at);
		static int seen[256]; static int seen_n;
		if (at == local - 86400 * 2) seen_n = 0;
		bool dup = false;
		for (int i = 0; i < seen_n; i++) if (seen[i] == o) dup = true;
		if (dup) continue;
		seen[seen_n++] = o;
		if (libc_offset(zone, local - o) == o) same++;
	}
	libc_utc();
	char out[128];
	int n = timestamp_get(value, tz, out, sizeof(out));
	pbt_check(n == want.n && ! memcmp(out, want.p, n), "printed as '%.*s', expected '%s'", n, out, want.p);
	// extract uses the local time
	int64_t y; int mo, d;
	days_civil((local - (((local % 86400) + 86400) % 86400)) / 86400, &y, &mo, &d);
	int64_t sod = ((local % 86400) + 86400) % 86400;
	static const char* fields[] = { "year", "month", "day", "hour", "hr", "minute", "min", "second", "sec", "ms", "millisecond", "milliseconds", "us", "microsecond", "microseconds" };
	int64_t expect[] = { y, mo, d, sod / 3600, sod / 3600, sod / 60 % 60, sod / 60 % 60, sod % 60, sod % 60, us / 1000, us / 1000, us / 1000, us, us, us };
	int f = PICK(NELEM(fields));
	Str fs; str_set_cstr(&fs, fields[f]);
	int64_t e = timestamp_extract(value, tz, &fs);
	pbt_check(e == expect[f], "extract %s is %" PRIi64 ", expected %" PRIi64, fields[f], e, expect[f]);
	// text -> UTC
	if (off % 60 == 0 && local >= 0) {
		Timestamp ts;
		timestamp_init(&ts);
		char* copy = exact(out, n);
		Str s; str_set(&s, copy, n);
		timestamp_set(&ts, &s);
		free(copy);
		int64_t back = timestamp_get_unixtime(&ts, tz);
		pbt_check(back == value, "'%s' is read back as %" PRIi64 ", expected %" PRIi64, want.p, back, value);
	}
	if (same == 1) {
		// local time without zone, when it denotes one instant
		Sb l = {0};
		fmt_ts(&l, local, us, false, 0);
		if (strncmp(l.p, "1969", 4)) {
			Timestamp ts;
			timestamp_init(&ts);
			Str s; str_set(&s, l.p, l.n);
			timestamp_set(&ts, &s);
			int64_t back = timestamp_get_unixtime(&ts, tz);
			pbt_check(back == value, "local time '%s' is %" PRIi64 ", expected %" PRIi64, l.p, back, value);
		}
		sb_free(&l);
	}
	sb_free(&want);
	pbt_nontrivial();
}
static void case_timezone_file(void)
{
	// any valid table of transitions
	pbt_class("timezone file");
	int n = pbt_size(12);
	if (PICK(6) == 0) n = PICK(200);
	int types = 1 + PICK(5);
	int64_t* at = calloc(n + 1, 8);
	int* type = calloc(n + 1, sizeof(int));
	int offs[5];
	for (int i = 0; i < types; i++) offs[i] = pbt_range(-15 * 3600, 15 * 3600);
	int64_t t = n ? pbt_range(PICK(2) ? -2147483647 : 0, 1000000000) : 0;
	for (int i = 0; i < n; i++) { at[i] = t; type[i] = PICK(types); t += 1 + (PICK(3) ? PICK(20000000) : PICK(4)); if (t > INT32_MAX) { n = i + 1; break; } }
	Sb f = {0};
	sb_add(&f, "TZif", 4); sb_c(&f, PICK(2) ? 0 : '2');
	for (int i = 0; i < 15; i++) sb_c(&f, 0);
	uint32_t h[6] = { 0, 0, 0, htonl(n), htonl(types), htonl(4) };
	sb_add(&f, h, sizeof(h));
	for (int i = 0; i < n; i++) { uint32_t v = htonl((uint32_t)at[i]); sb_add(&f, &v, 4); }
	for (int i = 0; i < n; i++) sb_c(&f, type[i]);
	for (int i = 0; i < types; i++) { uint32_t v = htonl((uint32_t)offs[i]); sb_add(&f, &v, 4); sb_c(&f, i & 1); sb_c(&f, 0); }
	sb_add(&f, "ABC", 4);
	char path[PATH_MAX];
	snprintf(path, sizeof(path), "%s/zone", pbt_dir());
	FILE* fp = fopen(path, "w"); fwrite(f.p, 1, f.n, fp); fclose(fp);
	Str name; str_set_cstr(&name, "test");
	auto tz = timezone_create(&name, path);
	pbt_check(tz, "valid timezone file is rejected");
	pbt_note("zone file with %d transitions, %d types", n, types);
	for (int q = 0; q < 12; q++) {
		int64_t when;
		if (n && PICK(3)) when = at[PICK(n)] + pbt_range(-1, 1); else when = pbt_range(0, 4000000000LL);
		if (PICK(4) == 0 && n) when = PICK(2) ? at[0] - 1 : at[n - 1] + PICK(3) - 1;
		int want = offs[0];
		for (int i = 0; i < n; i++) if (at[i] <= when) want = offs[type[i]];
		auto m = timezone_match(tz, when);
		pbt_check(m->utoff == want, "at %" PRIi64 " offset %d, expected %d", when, m->utoff, want);
	}
	if (n > 1) pbt_nontrivial();
	timezone_free(tz);
	sb_free(&f); free(at); free(type);
}

// timestamps -------------------------------------------------------------------
typedef struct { int64_t secs; int us; bool zone_set; int zone; bool odd_zone, odd_day; } RefTs;
// yyyy-mm-dd< |T>hh:mm:ss[.f{1,6}][Z|+/-hh[[:]mm]]; after optional whitespace;
// the time of the day is normalized (00:00:70 is 00:01:10)
static bool ref_ts(const char* p, int n, RefTs* r)
{
	memset(r, 0, sizeof(*r));
	const char* e = p + n;
	while (p < e && isspace((unsigned char)*p)) p++;
	if (e - p < 19) return false;
	if (! two(p) || ! two(p + 2) || p[4] != '-' || ! two(p + 5) || p[7] != '-' || ! two(p + 8)) return false;
	if (p[10] != ' ' && p[10] != 'T') return false;
	if (! two(p + 11) || p[13] != ':' || ! two(p + 14) || p[16] != ':' || ! two(p + 17)) return false;
	int y = num(p, 4), m = num(p + 5, 2), d = num(p + 8, 2), hh = num(p + 11, 2), mm = num(p + 14, 2), ss = num(p + 17, 2);
	if (y < 1970 || m < 1 || m > 12 || d < 1 || d > 31) return false;
	r->odd_day = d > mdays(y, m);
	r->secs = civil_days(y, m, d) * 86400 + hh * 3600 + mm * 60 + ss;
	p += 19;
	if (p < e && *p == '.') {
		p++;
		int k = 0;
		while (p < e && *p >= '0' && *p <= '9') { if (k == 6) return false; r->us = r->us * 10 + *p++ - '0'; k++; }
		if (k == 0) return false;
		for (; k < 6; k++) r->us *= 10;
	}
	if (p == e) return true;
	r->zone_set = true;
	if (*p == 'Z') return p + 1 == e;
	if (*p != '+' && *p != '-') return false;
	int sign = *p++ == '-' ? -1 : 1;
	if (e - p < 2 || ! two(p)) return false;
	int zh = num(p, 2), zm = 0;
	p += 2;
	if (p < e) {
		if (*p == ':') p++;
		if (e - p != 2 || ! two(p)) return false;
		zm = num(p, 2);
	}
	r->zone = sign * (zh * 3600 + zm * 60);
	r->odd_zone = zm > 59;
	if (abs(r->zone) > 86400) return false;
	return true;
}
static void case_ts_text(void)
{
	pbt_class("timestamp text");
	Sb s = {0};
	if (PICK(8) == 0) for (int i = PICK(3); i >= 0; i--) sb_c(&s, PICK(2) ? ' ' : '\t');
	int y, m, d;
	gen_date(1970, 9999, &y, &m, &d);
	if (PICK(8) == 0) { y = PICK(10000); m = PICK(14); d = PICK(33); }
	sb_f(&s, "%04d-%02d-%02d%c%02d:%02d:%02d", y, m, d, PICK(2) ? ' ' : 'T', PICK(PICK(8) ? 24 : 100), PICK(PICK(8) ? 60 : 100), PICK(PICK(8) ? 60 : 100));
	if (PICK(2)) {
		sb_c(&s, '.');
		int k = PICK(PICK(8) ? 7 : 9);
		for (int i = 0; i < k; i++) sb_c(&s, '0' + PICK(10));
	}
	switch (PICK(5)) {
	case 1: sb_c(&s, 'Z'); break;
	case 2: sb_f(&s, "%c%02d", "+-"[PICK(2)], PICK(PICK(4) ? 15 : 30)); break;
	case 3: sb_f(&s, "%c%02d:%02d", "+-"[PICK(2)], PICK(PICK(4) ? 15 : 30), PICK(PICK(4) ? 60 : 100)); break;
	case 4: sb_f(&s, "%c%02d%02d", "+-"[PICK(2)], PICK(PICK(4) ? 15 : 30), PICK(PICK(4) ? 60 : 100)); break;
	}
	if (PICK(4) == 0) mutate(&s);
	RefTs r;
	bool valid = ref_ts(s.p, s.n, &r);
	pbt_note("timestamp '%s'%s", show(s.p, s.n), valid ? "" : " (invalid)");
	char* copy = exact(s.p, s.n);
	Str str; str_set(&str, copy, s.n);
	Timestamp ts;
	timestamp_init(&ts);
	auto on_error = error_catch ( timestamp_set(&ts, &str); );
	free(copy);
	if (valid && r.odd_zone) { sb_free(&s); return; } // minutes over 59 in a zone: not specified
	if (valid && r.odd_day && on_error) { sb_free(&s); return; } // may be rejected too
	pbt_check(on_error == ! valid, "timestamp is %s", on_error ? "rejected" : "accepted");
	if (valid) {
		bool with_tz = PICK(2);
		Str utc; str_set_cstr(&utc, "UTC");
		auto tz = with_tz ? timezone_mgr_find(&runtime()->timezone_mgr, &utc) : NULL;
		int64_t want = (r.secs - (tz && r.zone_set ? r.zone : 0)) * US + r.us, got = 0;
		bool in = want >= 0 && want <= TIMESTAMP_MAX;
		on_error = error_catch ( got = timestamp_get_unixtime(&ts, tz); );
		pbt_check(on_error == ! in, "value %" PRIi64 " is %s", want, on_error ? "rejected" : "accepted out of range");
		if (in) {
			pbt_check(got == want, "value %" PRIi64 ", expected %" PRIi64, got, want);
			char out[128];
			int n = timestamp_get(got, NULL, out, sizeof(out));
			Sb w = {0};
			fmt_ts(&w, want / US, want % US, false, 0);
			pbt_check(n == w.n && ! memcmp(out, w.p, n), "printed as '%.*s', expected '%s'", n, out, w.p);
			sb_free(&w);
			pbt_nontrivial();
		}
	}
	sb_free(&s);
}
static int64_t gen_ts(void)
{
	int y, m, d;
	gen_date(1970, 9999, &y, &m, &d);
	return (civil_days(y, m, d) * 86400 + pbt_range(0, 86399)) * US + (PICK(2) ? PICK(US) : 0);
}
static void gen_interval(Interval* iv)
{
	interval_init(iv);
	if (PICK(2)) iv->m = pbt_range(-30, 30);
	if (PICK(2)) iv->d = pbt_range(-400, 400);
	if (PICK(2)) iv->us = (PICK(2) ? pbt_range(-100000, 100000) * US : 0) + (PICK(2) ? pbt_range(-2 * US, 2 * US) : 0);
	if (PICK(6) == 0) { iv->m = pbt_range(-12 * 9000, 12 * 9000); iv->d = pbt_range(-3000000, 3000000); }
	if (PICK(6) == 0) iv->us = pbt_range(-4000LL * 86400 * US, 4000LL * 86400 * US);
}
static void case_ts_math(void)
{
	pbt_class("timestamp arithmetic");
	int64_t v = gen_ts();
	Interval iv;
	gen_interval(&iv);
	bool sub = PICK(2);
	pbt_note("timestamp %" PRIi64 " %c interval %dm %dd %" PRIi64 "us", v, sub ? '-' : '+', iv.m, iv.d, iv.us);
	int sign = sub ? -1 : 1;
	int64_t y; int m, d;
	int64_t day = v / US / 86400;
	days_civil(day, &y, &m, &d);
	int64_t months = y * 12 + (m - 1) + (int64_t)sign * iv.m;
	int64_t yy = months / 12, mm = months % 12;
	if (mm < 0) { mm += 12; yy--; }
	int64_t want = (civil_days(yy, mm + 1, 1) + d - 1 + (int64_t)sign * iv.d) * 86400 * US + v % (86400 * US) + sign * iv.us;
	bool in = want >= 0 && want <= TIMESTAMP_MAX;
	Timestamp ts;
	timestamp_init(&ts);
	timestamp_set_unixtime(&ts, v);
	int64_t got = 0;
	auto on_error = error_catch (
		if (sub) timestamp_sub(&ts, &iv); else timestamp_add(&ts, &iv);
		got = timestamp_get_unixtime(&ts, NULL);
	);
	if (want > -2 * US && want < 2 * US) return; // first second: not specified
	pbt_check(on_error == ! in, "result %" PRIi64 " is %s", want, on_error ? "rejected" : "accepted out of range");
	if (in) {
		pbt_check(got == want, "result %" PRIi64 ", expected %" PRIi64, got, want);
		if (iv.m || iv.d || iv.us) pbt_nontrivial();
	}
}
static void case_ts_trunc(void)
{
	pbt_class("timestamp truncate");
	int64_t v = gen_ts();
	static const char* fields[] = { "year", "month", "day", "hour", "hr", "minute", "min", "second", "sec", "ms", "millisecond", "milliseconds", "us", "microsecond", "microseconds", "week", "", "mon", "Year", "years", "u", "d" };
	int f = PICK(NELEM(fields));
	bool known = f < 15;
	Timestamp ts;
	timestamp_init(&ts);
	timestamp_set_unixtime(&ts, v);
	char* copy = exact(fields[f], strlen(fields[f]) + 1);
	Str fs; str_set(&fs, copy, strlen(fields[f]));
	int64_t got = 0;
	auto on_error = error_catch ( timestamp_trunc(&ts, &fs); got = timestamp_get_unixtime(&ts, NULL); );
	free(copy);
	pbt_note("truncate %" PRIi64 " to '%s'", v, fields[f]);
	pbt_check(on_error == ! known, "field is %s", on_error ? "rejected" : "accepted");
	if (! known) return;
	int64_t y; int m, d;
	days_civil(v / US / 86400, &y, &m, &d);
	int64_t want;
	switch (f) {
	case 0: want = civil_days(y, 1, 1) * 86400 * US; break;
	case 1: want = civil_days(y, m, 1) * 86400 * US; break;
	case 2: want = v - v % (86400 * US); break;
	case 3: case 4: want = v - v % (3600 * US); break;
	case 5: case 6: want = v - v % (60 * US); break;
	case 7: case 8: want = v - v % US; break;
	case 9: case 10: case 11: want = v - v % 1000; break;
	default: want = v;
	}
	pbt_check(got == want, "result %" PRIi64 ", expected %" PRIi64, got, want);
	pbt_nontrivial();
}

// intervals --------------------------------------------------------------------
typedef struct { const char* names[6]; int kind; i128 mul; } Unit; // 0 m 1 d 2 us
static const Unit units[] = {
	{ { "years", "year" }, 0, 12 }, { { "months", "month" }, 0, 1 },
	{ { "weeks", "week" }, 1, 7 }, { { "days", "day" }, 1, 1 },
	{ { "hours", "hour", "hrs", "hr" }, 2, 3600000000LL }, { { "minutes", "minute", "mins", "min" }, 2, 60000000LL },
	{ { "seconds", "second", "secs", "sec" }, 2, 1000000LL }, { { "ms", "millisecond", "milliseconds" }, 2, 1000 },
	{ { "us", "microsecond", "microseconds" }, 2, 1 },
};
static int ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static bool ref_interval(const char* p, int n, i128* out)
{
	const char* e = p + n;
	out[0] = out[1] = out[2] = 0;
	for (;;) {
		while (p < e && ws(*p)) p++;
		if (p == e) return true;
		int sign = 1;
		if (*p == '-') { sign = -1; p++; }
		i128 v = 0;
		int k = 0;
		while (p < e && *p >= '0' && *p <= '9') { v = v * 10 + *p++ - '0'; k++; if (v > INT64_MAX) return false; }
		if (k == 0 || p == e || ! ws(*p)) return false;
		while (p < e && ws(*p)) p++;
		const char* t = p;
		while (p < e && ((*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z'))) p++;
		const Unit* u = NULL;
		for (int i = 0; i < NELEM(units); i++)
			for (int j = 0; j < 6 && units[i].names[j]; j++)
				if ((int)strlen(units[i].names[j]) == p - t && ! memcmp(units[i].names[j], t, p - t)) u = &units[i];
		if (! u) return false;
		i128 x = sign * v * u->mul;
		if (x < INT64_MIN || x > INT64_MAX) return false;
		out[u->kind] += x;
		i128 r = out[u->kind];
		if (u->kind == 2 ? (r < INT64_MIN || r > INT64_MAX) : (r < INT32_MIN || r > INT32_MAX)) return false;
	}
}
static void case_interval_text(void)
{
	pbt_class("interval text");
	Sb s = {0};
	sb_s(&s, "");
	int n = 1 + pbt_size(7);
	for (int i = 0; i < n; i++) {
		if (i && PICK(10) == 0) ; else if (i || PICK(6) == 0) sb_s(&s, PICK(6) ? " " : " \t ");
		int64_t v = PICK(6) == 0 ? pbt_int64() : PICK(3) ? PICK(100) : pbt_range(0, 100000000);
		if (v < 0 && v != INT64_MIN) v = -v;
		if (PICK(4) == 0) sb_c(&s, '-');
		if (v == INT64_MIN) sb_s(&s, "9223372036854775808"); else sb_f(&s, "%" PRIi64, v);
		sb_s(&s, PICK(8) ? " " : "  ");
		const Unit* u = &units[PICK(NELEM(units))];
		int k = 0; while (k < 6 && u->names[k]) k++;
		sb_s(&s, u->names[PICK(k)]);
	}
	if (PICK(4) == 0) mutate(&s);
	i128 want[3];
	bool valid = ref_interval(s.p, s.n, want);
	pbt_note("interval '%s'%s", show(s.p, s.n), valid ? "" : " (invalid)");
	char* copy = exact(s.p, s.n);
	Str str; str_set(&str, copy, s.n);
	Interval iv;
	interval_init(&iv);
	auto on_error = error_catch ( interval_set(&iv, &str); );
	free(copy);
	pbt_check(on_error == ! valid, "interval is %s", on_error ? "rejected" : "accepted");
	if (valid) {
		pbt_check(iv.m == want[0] && iv.d == want[1] && iv.us == want[2], "read as %dm %dd %" PRIi64 "us, expected %" PRIi64 "m %" PRIi64 "d %" PRIi64 "us",
		          iv.m, iv.d, iv.us, (int64_t)want[0], (int64_t)want[1], (int64_t)want[2]);
		char out[512];
		int len = interval_get(&iv, out, sizeof(out));
		// printing gives the same interval (also by the strict reader)
		i128 again[3];
		pbt_check(ref_interval(out, len, again) && again[0] == want[0] && again[1] == want[1] && again[2] == want[2], "printed as '%.*s'", len, out);
		Interval back;
		interval_init(&back);
		str_set(&str, out, len);
		interval_set(&back, &str);
		pbt_check(! memcmp(&back, &iv, sizeof(iv)), "'%.*s' is read back differently", len, out);
		if (n > 1) pbt_nontrivial();
	}
	sb_free(&s);
}
static int sgn(int64_t v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static int ref_cmp(Interval* a, Interval* b)
{
	if (a->m != b->m) return a->m < b->m ? -1 : 1;
	if (a->d != b->d) return a->d < b->d ? -1 : 1;
	return a->us < b->us ? -1 : a->us > b->us;
}
static void case_interval_math(void)
{
	pbt_class("interval arithmetic");
	Interval a, b, r;
	gen_interval(&a);
	gen_interval(&b);
	if (PICK(4) == 0) b.m = a.m;
	if (PICK(4) == 0) { b.m = a.m; b.d = a.d; }
	pbt_note("intervals %dm %dd %" PRIi64 "us and %dm %dd %" PRIi64 "us", a.m, a.d, a.us, b.m, b.d, b.us);
	interval_add(&r, &a, &b);
	pbt_check(r.m == a.m + b.m && r.d == a.d + b.d && r.us == a.us + b.us, "sum is wrong");
	Interval q;
	interval_sub(&q, &r, &b);
	pbt_check(! memcmp(&q, &a, sizeof(a)), "(a + b) - b is not a");
	interval_neg(&q, &a);
	interval_add(&r, &q, &a);
	pbt_check(! r.m && ! r.d && ! r.us, "a + -a is not zero");
	int c = ref_cmp(&a, &b);
	pbt_check(sgn(interval_compare(&a, &b)) == c && sgn(interval_compare(&b, &a)) == -c, "compare is %d, expected %d", interval_compare(&a, &b), c);
	static const char* fields[] = { "year", "month", "day", "hour", "hr", "minute", "min", "second", "sec", "ms", "millisecond", "milliseconds", "us", "microsecond", "microseconds", "week", "mon", "years", "d" };
	int f = PICK(NELEM(fields));
	bool known = f < 15;
	Str fs; str_set_cstr(&fs, fields[f]);
	Interval t = a;
	int64_t x = 0;
	auto on_error = error_catch ( interval_trunc(&t, &fs); );
	pbt_check(on_error == ! known, "truncate field '%s' is %s", fields[f], on_error ? "rejected" : "accepted");
	on_error = error_catch ( x = interval_extract(&a, &fs); );
	pbt_check(on_error == ! known, "extract field '%s' is %s", fields[f], on_error ? "rejected" : "accepted");
	if (! known) return;
	Interval w = a;
	int64_t wx;
	switch (f) {
	case 0: w.m -= w.m % 12; w.d = 0; w.us = 0; wx = a.m / 12; break;
	case 1: w.d = 0; w.us = 0; wx = a.m % 12; break;
	case 2: w.us -= w.us % (86400 * US); wx = a.d; break;
	case 3: case 4: w.us -= w.us % (3600 * US); wx = a.us / (3600 * US); break;
	case 5: case 6: w.us -= w.us % (60 * US); wx = a.us / (60 * US) % 60; break;
	case 7: case 8: w.us -= w.us % US; wx = a.us / US % 60; break;
	case 9: case 10: case 11: w.us -= w.us % 1000; wx = a.us / 1000 % 1000; break;
	default: wx = a.us % 1000;
	}
	pbt_check(! memcmp(&t, &w, sizeof(w)), "truncated to %s: %dm %dd %" PRIi64 "us, expected %dm %dd %" PRIi64 "us", fields[f], t.m, t.d, t.us, w.m, w.d, w.us);
	pbt_check(x == wx, "extract %s is %" PRIi64 ", expected %" PRIi64, fields[f], x, wx);
	pbt_nontrivial();
}

static void run_case(void)
{
	static const int w[] = { 3, 3, 3, 1, 5, 4, 2, 4, 3 };
	switch (pbt_weighted(w, NELEM(w))) {
	case 0: case_date_text(); break;
	case 1: case_date_math(); break;
	case 2: case_timezone(); break;
	case 3: case_timezone_file(); break;
	case 4: case_ts_text(); break;
	case 5: case_ts_math(); break;
	case 6: case_ts_trunc(); break;
	case 7: case_interval_text(); break;
	case 8: case_interval_math(); break;
	}
}

PbtHarness pbt_harness = { .name = "datetime", .setup = setup, .run = run_case };
