#pragma once
//
// pbt: choice-sequence property based testing for C.
//
// A case is a pure function of a sequence of 64 bit choices. While searching, choices come from
// a seeded generator or from mutating (coverage guided) earlier sequences; while replaying, from a
// file. The sequence of the running case lives in a mapped file, so it survives any crash.
//
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

// provided by the harness
typedef struct PbtHarness
{
	const char* name;
	void      (*setup)(void);     // once per process, inside the runtime task
	void      (*run)(void);       // one case
	bool        no_runtime;       // do not boot the amelie runtime
	bool        keep_catch;       // harness handles its own errors
	int         max_choices;      // generation size limit hint (0: default)
} PbtHarness;

extern PbtHarness pbt_harness;

// choices
uint64_t pbt_pick(uint64_t n);                       // [0, n), 0 is simplest
int64_t  pbt_range(int64_t lo, int64_t hi);          // [lo, hi], lo is simplest
bool     pbt_chance(int num, int den);               // false is simplest
int64_t  pbt_int64(void);                            // any, biased to boundaries
int      pbt_size(int max);                          // [0, max], biased to small
void     pbt_bytes(void* dst, int size);             // bytes (one choice per 8)
int      pbt_weighted(const int* weights, int n);
bool     pbt_more(int avg);                          // loop continuation, avg iterations
bool     pbt_exhausted(void);                        // generator wants the case to end

// reporting
void pbt_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void pbt_class(const char* name);                    // once per case and name
void pbt_count(const char* name, int64_t n);         // accumulates
void pbt_nontrivial(void);                           // by the harness' rule
void pbt_fail(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
// a listed known finding was met: case is abandoned by the caller
void pbt_known(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
const char* pbt_dir(void);                           // scratch directory of this process
bool pbt_replaying(void);
bool pbt_thorough(void);
uint64_t pbt_case_no(void);

#define pbt_check(cond, ...) \
	do { if (! (cond)) pbt_fail(__VA_ARGS__); } while (0)

#define PICK(n)   ((int)pbt_pick(n))
#define NELEM(a)  ((int)(sizeof(a) / sizeof((a)[0])))
