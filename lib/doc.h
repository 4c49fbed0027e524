#pragma once
#include <math.h>
// reference document -------------------------------------------------------
typedef struct Doc Doc;
enum { D_NULL, D_BOOL, D_INT, D_REAL, D_STR, D_ARR, D_OBJ };
struct Doc
{
	int     type;
	int64_t i;
	double  r;
	char*   s; int n;
	Doc**   item;       // array items or object values
	Doc**   key;
	int     count;
};

static Doc* pool[200000];
static int  pool_n;
static Doc* doc_new(int type)
{
	Doc* d = calloc(1, sizeof(Doc));
	d->type = type;
	if (pool_n == NELEM(pool)) abort();
	pool[pool_n++] = d;
	return d;
}
static void doc_free_all(void)
{
	for (int i = 0; i < pool_n; i++) {
		free(pool[i]->s); free(pool[i]->item); free(pool[i]->key); free(pool[i]);
	}
	pool_n = 0;
}
static void doc_push(Doc* d, Doc* key, Doc* v)
{
	d->item = realloc(d->item, sizeof(Doc*) * (d->count + 1));
	d->key  = realloc(d->key, sizeof(Doc*) * (d->count + 1));
	d->item[d->count] = v;
	d->key[d->count] = key;
	d->count++;
}

static int utf8_put(char* o, unsigned c)
{
	if (c < 0x80) { o[0] = c; return 1; }
	if (c < 0x800) { o[0] = 0xc0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; }
	if (c < 0x10000) { o[0] = 0xe0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; }
	o[0] = 0xf0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63);
	return 4;
}

static unsigned gen_cp(void)
{
	switch (pbt_pick(10)) {
	case 0: return "\"\\/'{}[],: "[pbt_pick(11)];
	case 1: return 1 + pbt_pick(31);
	case 2: return 0x80 + pbt_pick(0x780);
	case 3: { unsigned c = 0x800 + pbt_pick(0xf800); return c >= 0xd800 && c < 0xe000 ? 0x20ac : c; }
	case 4: return 0x10000 + pbt_pick(0x100000);
	case 5: { static const unsigned at[] = { 0x1f, 0x20, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x1e };
		return at[pbt_pick(sizeof(at) / sizeof(*at))]; }
	}
	return 'a' + pbt_pick(26);
}

static Doc* gen_str(void)
{
	Doc* d = doc_new(D_STR);
	Sb s = {0};
	int n;
	switch (pbt_pick(8)) {
	case 0: n = 30 + pbt_pick(4); break;
	case 1: n = 126 + pbt_pick(4); break;
	case 2: n = pbt_size(400); break;
	case 3: n = pbt_pick(12) == 0 ? 32766 + pbt_pick(4) : pbt_size(10); break;
	default: n = pbt_size(12); break;
	}
	// long strings: repeat one character (few choices)
	if (n > 40) {
		char o[4]; int l = utf8_put(o, gen_cp());
		while (s.n + l <= n) sb_add(&s, o, l);
		while (s.n < n) sb_c(&s, 'x');
	} else
		for (int i = 0; i < n; i++) { char o[4]; sb_add(&s, o, utf8_put(o, gen_cp())); }
	d->s = s.p ? s.p : strdup(""); d->n = s.n;
	return d;
}

static Doc* gen_doc(int depth)
{
	int t = pbt_pick(depth > 0 ? 9 : 5);
	switch (t) {
	case 0: return doc_new(D_NULL);
	case 1: { Doc* d = doc_new(D_BOOL); d->i = pbt_pick(2); return d; }
	case 2: { Doc* d = doc_new(D_INT); d->i = pbt_int64(); if (d->i == INT64_MIN) d->i++; return d; }
	case 3: {
		Doc* d = doc_new(D_REAL);
		switch (pbt_pick(5)) {
		case 4: {
			static const double at[] = { 1.7976931348623157e308, 2.2250738585072014e-308, 4.9406564584124654e-324, 3.5e-310, 1e-305, 3.4028234663852886e38, 9007199254740993.0, 0.1, 9.999999e99, 0.0, 1e300 };
			d->r = at[pbt_pick(sizeof(at) / sizeof(*at))]; if (d->r != 0 && pbt_pick(2)) d->r = -d->r; break; }
		case 0: d->r = (double)(int64_t)pbt_range(-100000, 100000) / 8; break;
		case 1: d->r = (double)pbt_int64() * pow(10, (double)pbt_range(-12, 12)); break;
		case 2: d->r = (double)pbt_int64() * pow(10, (double)pbt_range(-250, 250)); break;
		default: d->r = (double)(int64_t)pbt_range(-1000, 1000) / 100; break;
		}
		return d;
	}
	case 4: return gen_str();
	}
	Doc* d = doc_new(t <= 6 ? D_ARR : D_OBJ);
	int n = pbt_size(6);
	for (int i = 0; i < n && ! pbt_exhausted(); i++)
		doc_push(d, d->type == D_OBJ ? gen_str() : NULL, gen_doc(depth - 1));
	return d;
}

