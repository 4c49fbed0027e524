#pragma once
// small helpers independent from the code under test
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

typedef struct { char* p; int n, cap; } Sb;

static inline void sb_add(Sb* s, const void* d, int n)
{
	if (s->n + n + 1 > s->cap) {
		s->cap = (s->n + n + 1) * 2;
		s->p = realloc(s->p, s->cap);
	}
	if (n) memcpy(s->p + s->n, d, n);
	s->n += n;
	s->p[s->n] = 0;
}
static inline void sb_c(Sb* s, char c) { sb_add(s, &c, 1); }
static inline void sb_s(Sb* s, const char* z) { sb_add(s, z, strlen(z)); }
static inline void sb_f(Sb* s, const char* fmt, ...)
{
	char tmp[4096];
	va_list a;
	va_start(a, fmt);
	int n = vsnprintf(tmp, sizeof(tmp), fmt, a);
	va_end(a);
	if (n >= (int)sizeof(tmp)) n = sizeof(tmp) - 1;
	sb_add(s, tmp, n);
}
static inline void sb_reset(Sb* s) { s->n = 0; if (s->p) s->p[0] = 0; }
static inline void sb_free(Sb* s) { free(s->p); memset(s, 0, sizeof(*s)); }
// printable form of bytes; rotating static buffers
static inline const char* show(const void* d, int n)
{
	static char out[4][4200];
	static int k;
	char* o = out[k = (k + 1) & 3];
	int j = 0;
	const unsigned char* p = d;
	for (int i = 0; i < n && j < 4100; i++) {
		if (p[i] >= 32 && p[i] < 127 && p[i] != '\\') o[j++] = p[i];
		else j += sprintf(o + j, "\\x%02x", p[i]);
	}
	if (j >= 4100) j += sprintf(o + j, "...");
	o[j] = 0;
	return o;
}
// exact-size heap copy (so that the address sanitizer sees any overread)
static inline char* exact(const void* d, int n)
{
	char* p = malloc(n ? n : 1);
	if (n) memcpy(p, d, n);
	return p;
}
