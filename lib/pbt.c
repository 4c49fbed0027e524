#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include "pbt.h"
#include "pbt_main.h"

#define MAX_CHOICES (1 << 20)
#define MAX_NOTE    (64 * 1024)
#define MAX_CLASS   256
#define MAX_SAMPLES 6

// per process
static struct
{
	// arguments
	bool        replay;
	bool        verbose;
	bool        thorough;
	uint64_t    seed;
	uint64_t    cases;
	double      secs;
	const char* out;
	const char* replay_file;
	int64_t     only_until;
	double      hang_cpu, hang_wall;

	// random
	uint64_t    rng;

	// current case
	volatile uint64_t case_no;
	uint64_t*   rec;          // mapped: [0] count, [1] case no, [2..]
	uint64_t*   src;          // source sequence (replay or mutation)
	uint64_t    src_size;
	uint64_t    pos;
	uint64_t    max;
	bool        nontrivial;
	bool        known;
	uint64_t    class_seen[MAX_CLASS];

	char        note[MAX_NOTE];
	int         note_size;

	// totals
	uint64_t    done;
	uint64_t    nontrivial_total;
	struct { char name[64]; int64_t cases; int64_t sum; } cls[MAX_CLASS];
	int         cls_count;
	uint64_t*   hashes;
	uint64_t    hashes_count, hashes_max;
	char*       samples[MAX_SAMPLES];
	int         samples_count;
	uint64_t    next_sample;

	// corpus
	struct Seq { uint64_t* v; uint64_t n; }* corpus;
	int         corpus_count, corpus_max;
	uint64_t    edges;
	char        dir[256];
} P;

// coverage ------------------------------------------------------------------
#define MAX_COV 64
static struct { uint8_t* start; uint8_t* end; uint8_t* virgin; } cov[MAX_COV];
static int cov_count;

void __sanitizer_cov_8bit_counters_init(uint8_t* start, uint8_t* end);
void __sanitizer_cov_8bit_counters_init(uint8_t* start, uint8_t* end)
{
	if (start == end)
		return;
	for (int i = 0; i < cov_count; i++)
		if (cov[i].start == start)
			return;
	if (cov_count == MAX_COV)
		return;
	cov[cov_count].start  = start;
	cov[cov_count].end    = end;
	cov[cov_count].virgin = NULL;
	cov_count++;
}

static inline uint8_t cov_bucket(uint8_t c)
{
	if (c == 0)  return 0;
	if (c == 1)  return 1;
	if (c == 2)  return 2;
	if (c == 3)  return 4;
	if (c < 8)   return 8;
	if (c < 16)  return 16;
	if (c < 32)  return 32;
	if (c < 128) return 64;
	return 128;
}

static void cov_reset(void)
{
	for (int i = 0; i < cov_count; i++)
		memset(cov[i].start, 0, cov[i].end - cov[i].start);
}

static bool cov_collect(void)
{
	bool found = false;
	for (int i = 0; i < cov_count; i++)
	{
		size_t n = cov[i].end - cov[i].start;
		if (! cov[i].virgin)
			cov[i].virgin = calloc(1, n);
		uint8_t* c = cov[i].start;
		uint8_t* v = cov[i].virgin;
		size_t j = 0;
		for (; j + 8 <= n; j += 8)
		{
			uint64_t w;
			memcpy(&w, c + j, 8);
			if (! w)
				continue;
			for (size_t k = j; k < j + 8; k++)
			{
				uint8_t b = cov_bucket(c[k]);
				if (b & ~v[k])
				{
					if (! v[k])
						P.edges++;
					v[k] |= b;
					found = true;
				}
			}
		}
		for (; j < n; j++)
		{
			uint8_t b = cov_bucket(c[j]);
			if (b & ~v[j])
			{
				if (! v[j])
					P.edges++;
				v[j] |= b;
				found = true;
			}
		}
	}
	return found;
}

// random --------------------------------------------------------------------
static inline uint64_t mix(uint64_t z)
{
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

static inline uint64_t rng_next(void)
{
	P.rng += 0x9e3779b97f4a7c15ull;
	return mix(P.rng);
}

static inline uint64_t rng_pick(uint64_t n)
{
	return n ? rng_next() % n : 0;
}

// choices -------------------------------------------------------------------
uint64_t pbt_pick(uint64_t n)
{
	uint64_t v;
	if (n == 0)
		n = 1;
	if (P.pos < P.src_size)
		v = P.src[P.pos] % n;
	else
	if (P.replay)
		v = 0;
	else
		v = rng_next() % n;
	if (P.pos < MAX_CHOICES - 2)
	{
		P.rec[2 + P.pos] = v;
		P.rec[0] = P.pos + 1;
	}
	P.pos++;
	return v;
}

bool pbt_exhausted(void)
{
	return P.pos >= P.max || (P.replay && P.pos >= P.src_size);
}

int64_t pbt_range(int64_t lo, int64_t hi)
{
	uint64_t n = (uint64_t)hi - (uint64_t)lo + 1;
	if (n == 0)
		return (int64_t)pbt_pick(UINT64_MAX);
	return (int64_t)((uint64_t)lo + pbt_pick(n));
}

bool pbt_chance(int num, int den)
{
	return pbt_pick(den) >= (uint64_t)(den - num);
}

int pbt_size(int max)
{
	// biased to small: half of the picks under sqrt-ish bounds
	int c = pbt_pick(4);
	int m = max;
	if (c == 0) m = max < 4 ? max : 4;
	else if (c == 1) m = max < 16 ? max : 16;
	else if (c == 2) m = max / 4 > 16 ? max / 4 : (max < 16 ? max : 16);
	return pbt_pick((uint64_t)m + 1);
}

int64_t pbt_int64(void)
{
	static const int64_t special[] = {
		0, 1, -1, 2, 9, 10, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, -128, -129, 255, 256, 257,
		32767, 32768, -32768, -32769, 65535, 65536, 65537, 2147483647, 2147483648ll, -2147483648ll,
		-2147483649ll, 4294967295ll, 4294967296ll, 9007199254740991ll, 9007199254740993ll,
		INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, 1000000, 999999999, 1000000000000ll };
	switch (pbt_pick(5)) {
	case 0: return (int64_t)pbt_pick(100);
	case 1: return special[pbt_pick(NELEM(special))];
	case 2: return (int64_t)pbt_pick(2001) - 1000;
	case 3: {
		int bits = pbt_pick(64);
		uint64_t v = pbt_pick(UINT64_MAX);
		v >>= bits;
		return pbt_pick(2) ? -(int64_t)(v >> 1) : (int64_t)(v >> 1);
	}
	}
	return (int64_t)pbt_pick(UINT64_MAX);
}

void pbt_bytes(void* dst, int size)
{
	uint8_t* p = dst;
	while (size > 0)
	{
		uint64_t v = pbt_pick(UINT64_MAX);
		int n = size < 8 ? size : 8;
		memcpy(p, &v, n);
		p += n;
		size -= n;
	}
}

int pbt_weighted(const int* w, int n)
{
	uint64_t total = 0;
	for (int i = 0; i < n; i++)
		total += w[i];
	uint64_t v = pbt_pick(total);
	for (int i = 0; i < n; i++)
	{
		if (v < (uint64_t)w[i])
			return i;
		v -= w[i];
	}
	return n - 1;
}

bool pbt_more(int avg)
{
	if (pbt_exhausted())
		return false;
	return pbt_pick(avg + 1) != 0;
}

// reporting -----------------------------------------------------------------
void pbt_note(const char* fmt, ...)
{
	va_list args;
	va_start(args, fmt);
	if (P.verbose)
	{
		va_list copy;
		va_copy(copy, args);
		vprintf(fmt, copy);
		va_end(copy);
		printf("\n");
		fflush(stdout);
	}
	if (P.note_size < MAX_NOTE - 256)
	{
		int n = vsnprintf(P.note + P.note_size, MAX_NOTE - P.note_size - 2, fmt, args);
		if (n > MAX_NOTE - P.note_size - 3)
			n = MAX_NOTE - P.note_size - 3;
		P.note_size += n;
		P.note[P.note_size++] = '\n';
		P.note[P.note_size] = 0;
	}
	va_end(args);
}

static int class_find(const char* name)
{
	for (int i = 0; i < P.cls_count; i++)
		if (! strcmp(P.cls[i].name, name))
			return i;
	if (P.cls_count == MAX_CLASS)
		return -1;
	snprintf(P.cls[P.cls_count].name, sizeof(P.cls[0].name), "%s", name);
	return P.cls_count++;
}

void pbt_class(const char* name)
{
	int i = class_find(name);
	if (i < 0 || P.class_seen[i] == P.case_no + 1)
		return;
	P.class_seen[i] = P.case_no + 1;
	P.cls[i].cases++;
}

void pbt_count(const char* name, int64_t n)
{
	int i = class_find(name);
	if (i < 0)
		return;
	P.cls[i].sum += n;
	pbt_class(name);
}

void pbt_nontrivial(void)
{
	P.nontrivial = true;
}

static void write_fail(const char* kind, const char* text)
{
	char path[512];
	snprintf(path, sizeof(path), "%s/fail", P.out);
	int fd = open(path, O_CREAT|O_TRUNC|O_WRONLY, 0644);
	if (fd >= 0)
	{
		dprintf(fd, "%s\n%llu\n%s\n", kind, (unsigned long long)P.case_no, text);
		close(fd);
	}
}

void pbt_fail(const char* fmt, ...)
{
	static char text[16384];
	va_list args;
	va_start(args, fmt);
	vsnprintf(text, sizeof(text), fmt, args);
	va_end(args);
	fprintf(stderr, "%s", P.verbose ? "" : P.note);
	fprintf(stderr, "PBT-FAIL: %s\n", text);
	fflush(NULL);
	write_fail("fail", text);
	_exit(77);
}

void pbt_known(const char* key, const char* fmt, ...)
{
	// a violation identified by key: suppressed only if the known findings file lists it
	char text[2048];
	va_list args;
	va_start(args, fmt);
	vsnprintf(text, sizeof(text), fmt, args);
	va_end(args);
	const char* list = getenv("PBT_KNOWN");
	size_t n = strlen(key);
	bool listed = false;
	for (const char* p = list; p && *p; )
	{
		const char* e = strchrnul(p, ',');
		if ((size_t)(e - p) == n && ! strncmp(p, key, n))
			listed = true;
		p = *e ? e + 1 : e;
	}
	if (! listed)
		pbt_fail("[%s] %s", key, text);
	P.known = true;
	char name[96];
	snprintf(name, sizeof(name), "known:%.56s", key);
	pbt_class(name);
	pbt_note("known finding %s: %s", key, text);
}

const char* pbt_dir(void) { return P.dir; }
bool pbt_replaying(void)  { return P.replay; }
bool pbt_thorough(void)   { return P.thorough; }
uint64_t pbt_case_no(void) { return P.case_no; }

static void json_str(FILE* f, const char* s)
{
	fputc('"', f);
	for (; *s; s++)
	{
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c == '\n') fputs("\\n", f);
		else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

static int cmp_u64(const void* a, const void* b)
{
	uint64_t x = *(uint64_t*)a, y = *(uint64_t*)b;
	return x < y ? -1 : x > y;
}

static void write_stats(void)
{
	char path[512];
	snprintf(path, sizeof(path), "%s/hashes", P.out);
	qsort(P.hashes, P.hashes_count, 8, cmp_u64);
	int fd = open(path, O_CREAT|O_TRUNC|O_WRONLY, 0644);
	char* p = (char*)P.hashes;
	size_t left = P.hashes_count * 8;
	while (left > 0)
	{
		ssize_t rc = write(fd, p, left);
		if (rc <= 0) break;
		p += rc; left -= rc;
	}
	close(fd);
	snprintf(path, sizeof(path), "%s/stats.json", P.out);
	FILE* f = fopen(path, "w");
	fprintf(f, "{\"cases\":%llu,\"nontrivial\":%llu,\"edges\":%llu,\"corpus\":%d,\"classes\":{",
	        (unsigned long long)P.done, (unsigned long long)P.nontrivial_total,
	        (unsigned long long)P.edges, P.corpus_count);
	for (int i = 0; i < P.cls_count; i++)
	{
		if (i) fputc(',', f);
		json_str(f, P.cls[i].name);
		fprintf(f, ":[%lld,%lld]", (long long)P.cls[i].cases, (long long)P.cls[i].sum);
	}
	fprintf(f, "},\"samples\":[");
	for (int i = 0; i < P.samples_count; i++)
	{
		if (i) fputc(',', f);
		json_str(f, P.samples[i]);
	}
	fprintf(f, "]}\n");
	fclose(f);
}

// cases ---------------------------------------------------------------------
static void corpus_add(void)
{
	if (P.pos == 0 || P.pos > 20000)
		return;
	if (P.corpus_count == P.corpus_max)
	{
		if (P.corpus_max >= 4096)
			return;
		P.corpus_max = P.corpus_max ? P.corpus_max * 2 : 64;
		P.corpus = realloc(P.corpus, P.corpus_max * sizeof(*P.corpus));
	}
	struct Seq* s = &P.corpus[P.corpus_count++];
	s->n = P.pos;
	s->v = malloc(8 * s->n);
	memcpy(s->v, P.rec + 2, 8 * s->n);
}

static uint64_t* mut;

static void mutate(void)
{
	// build P.src from the corpus
	struct Seq* s = &P.corpus[rng_pick(P.corpus_count)];
	uint64_t n = s->n;
	memcpy(mut, s->v, 8 * n);
	int ops = 1 + rng_pick(4);
	for (int i = 0; i < ops; i++)
	{
		if (n == 0)
			break;
		switch (rng_pick(7)) {
		case 0: // overwrite one
			mut[rng_pick(n)] = rng_next();
			break;
		case 1: // tweak one
			mut[rng_pick(n)] += (int64_t)rng_pick(9) - 4;
			break;
		case 2: // truncate, random continuation
			n = rng_pick(n) + 1;
			break;
		case 3: // delete a span
		{
			uint64_t a = rng_pick(n), l = 1 + rng_pick(rng_pick(2) ? 4 : 32);
			if (a + l > n) l = n - a;
			memmove(mut + a, mut + a + l, 8 * (n - a - l));
			n -= l;
			break;
		}
		case 4: // duplicate a span
		{
			uint64_t a = rng_pick(n), l = 1 + rng_pick(32);
			if (a + l > n) l = n - a;
			if (n + l > 40000) break;
			memmove(mut + a + l, mut + a, 8 * (n - a));
			n += l;
			break;
		}
		case 5: // splice with another
		{
			struct Seq* o = &P.corpus[rng_pick(P.corpus_count)];
			uint64_t a = rng_pick(n), b = rng_pick(o->n);
			uint64_t l = o->n - b;
			memcpy(mut + a, o->v + b, 8 * l);
			n = a + l;
			break;
		}
		case 6: // overwrite a span
		{
			uint64_t a = rng_pick(n), l = 1 + rng_pick(16);
			for (uint64_t k = a; k < n && k < a + l; k++)
				mut[k] = rng_next();
			break;
		}
		}
	}
	P.src = mut;
	P.src_size = n;
}

static void case_begin(void)
{
	P.pos        = 0;
	P.rec[0]     = 0;
	P.rec[1]     = P.case_no;
	P.nontrivial = false;
	P.known      = false;
	P.note_size  = 0;
	P.note[0]    = 0;
	if (P.replay)
		return;
	P.rng = mix(P.seed * 0x2545F4914F6CDD1Dull + P.case_no) ^ mix(P.case_no + 77);
	P.src_size = 0;
	// size limit varies with the case
	uint64_t limit = pbt_harness.max_choices ? pbt_harness.max_choices : 4000;
	switch (rng_pick(4)) {
	case 0:  P.max = limit / 16 + 8; break;
	case 1:  P.max = limit / 4 + 8; break;
	default: P.max = limit; break;
	}
	if (P.corpus_count > 8 && rng_pick(2))
		mutate();
}

static void case_end(void)
{
	P.done++;
	if (! P.replay && cov_count && cov_collect())
		corpus_add();
	if (P.nontrivial)
	{
		P.nontrivial_total++;
		uint64_t h = 1469598103934665603ull;
		for (uint64_t i = 0; i < P.pos && i < MAX_CHOICES - 2; i++)
			h = mix(h ^ P.rec[2 + i]);
		if (P.hashes_count == P.hashes_max)
		{
			P.hashes_max = P.hashes_max ? P.hashes_max * 2 : 1024;
			P.hashes = realloc(P.hashes, P.hashes_max * 8);
		}
		P.hashes[P.hashes_count++] = h;
		if (P.samples_count < MAX_SAMPLES && P.done >= P.next_sample && P.note_size)
		{
			if (P.note_size > 1500)
			{
				P.note_size = 1500;
				P.note[P.note_size] = 0;
			}
			P.samples[P.samples_count++] = strdup(P.note);
			P.next_sample = P.done * 8;
		}
	}
	cov_reset();
}

static double now(clockid_t id)
{
	struct timespec ts;
	clock_gettime(id, &ts);
	return ts.tv_sec + ts.tv_nsec / 1e9;
}

static void* watchdog(void* arg)
{
	(void)arg;
	uint64_t last = (uint64_t)-1;
	double cpu = 0, wall = 0;
	for (;;)
	{
		usleep(500000);
		if (P.case_no != last)
		{
			last = P.case_no;
			cpu  = now(CLOCK_PROCESS_CPUTIME_ID);
			wall = now(CLOCK_MONOTONIC);
			continue;
		}
		if (last == (uint64_t)-2)
			continue;
		bool hang = false;
		if (now(CLOCK_PROCESS_CPUTIME_ID) - cpu > P.hang_cpu)
			hang = true;
		if (now(CLOCK_MONOTONIC) - wall > P.hang_wall)
			hang = true;
		if (hang)
		{
			fprintf(stderr, "%s", P.note);
			fprintf(stderr, "PBT-FAIL: the case did not finish\n");
			write_fail("hang", "the case did not finish");
			_exit(78);
		}
	}
	return NULL;
}

bool pbt_main_next(void)
{
	// end of the previous case
	static bool first = true;
	static double start;
	if (first)
	{
		first = false;
		start = now(CLOCK_MONOTONIC);
		pthread_t id;
		pthread_create(&id, NULL, watchdog, NULL);
		cov_reset();
	} else
	{
		case_end();
		P.case_no++;
		if (P.replay)
			return false;
	}
	if (! P.replay)
	{
		if (P.only_until >= 0)
		{
			if ((int64_t)P.case_no > P.only_until)
				goto end;
		} else
		{
			if (P.case_no >= P.cases)
				goto end;
			if ((P.case_no & 7) == 0 && now(CLOCK_MONOTONIC) - start > P.secs)
				goto end;
		}
	}
	case_begin();
	return true;
end:
	P.case_no = (uint64_t)-2;
	return false;
}

int pbt_main_finish(int rc)
{
	write_stats();
	return rc;
}

int pbt_main_args(int argc, char** argv)
{
	P.hang_cpu   = 60;
	P.hang_wall  = 180;
	P.secs       = 1e9;
	P.cases      = 1000;
	P.only_until = -1;
	P.out        = NULL;
	for (int i = 1; i < argc; i++)
	{
		const char* a = argv[i];
		const char* v = i + 1 < argc ? argv[i + 1] : "";
		if (! strcmp(a, "--seed")) { P.seed = strtoull(v, NULL, 10); i++; }
		else if (! strcmp(a, "--cases")) { P.cases = strtoull(v, NULL, 10); i++; }
		else if (! strcmp(a, "--until")) { P.only_until = strtoll(v, NULL, 10); i++; }
		else if (! strcmp(a, "--secs")) { P.secs = atof(v); i++; }
		else if (! strcmp(a, "--out")) { P.out = v; i++; }
		else if (! strcmp(a, "--replay")) { P.replay = true; P.replay_file = v; i++; }
		else if (! strcmp(a, "--hang-cpu")) { P.hang_cpu = atof(v); i++; }
		else if (! strcmp(a, "--hang-wall")) { P.hang_wall = atof(v); i++; }
		else if (! strcmp(a, "--thorough")) { P.thorough = true; }
		else if (! strcmp(a, "-v")) { P.verbose = true; }
		else { fprintf(stderr, "unknown argument %s\n", a); return -1; }
	}
	if (! P.out)
	{
		static char dir[] = "/tmp/pbt-XXXXXX";
		P.out = mkdtemp(dir);
	}
	mkdir(P.out, 0755);
	snprintf(P.dir, sizeof(P.dir), "%s/work", P.out);
	mkdir(P.dir, 0755);
	char path[512];
	snprintf(path, sizeof(path), "%s/choices", P.out);
	int fd = open(path, O_CREAT|O_TRUNC|O_RDWR, 0644);
	if (fd < 0 || ftruncate(fd, MAX_CHOICES * 8) < 0)
	{
		perror("choices");
		return -1;
	}
	P.rec = mmap(NULL, MAX_CHOICES * 8, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	mut = malloc(8 * 100000);
	if (P.replay)
	{
		// text file: one choice per line, lines starting with # are comments
		FILE* f = fopen(P.replay_file, "r");
		if (! f)
		{
			perror(P.replay_file);
			return -1;
		}
		P.src = malloc(8 * MAX_CHOICES);
		char* line = NULL;
		size_t cap = 0;
		while (getline(&line, &cap, f) > 0)
		{
			if (line[0] == '#' || line[0] == '\n')
				continue;
			if (P.src_size < MAX_CHOICES)
				P.src[P.src_size++] = strtoull(line, NULL, 10);
		}
		fclose(f);
		P.max = P.src_size;
	}
	return 0;
}
