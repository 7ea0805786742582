/* Replay-based exhaustive explorer ("stateless model checker").
 *
 * A harness defines h_name, h_nroots(), h_run(root).  h_run() executes one
 * behaviour of the real code, taking every decision from ch() / dev().  The
 * explorer runs all decision vectors whose number of deviations is within
 * eng_bound, for every root. */
#ifndef ENGINE_H
#define ENGINE_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>

#define MAXCH 65536

extern int eng_bound;            /* deviation bound, set by h_nroots()/h_run() */
extern int eng_thorough;
extern int eng_replaying;
extern const char *eng_mode;     /* free-form harness mode argument */

int ch(int n);                   /* free choice in 0..n-1 */
int dev(int n);                  /* choice in 0..n-1, non-zero costs one deviation */
void skip_rest(void);            /* no meaning; reserved */

/* Reports a violation of the property for the current case; does not return. */
void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
/* Reports that known finding number `id` (0..31) was hit with this detail. */
void known(int id, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
/* Accounting. */
void st_call(int n);             /* n calls of the API under test */
void st_state(uint64_t hash);    /* an observed state */
void st_trace(void);             /* one run compared with the reference model */
void st_outcome(int k);          /* histogram of outcomes, 0..31 */
bool want_sample(void);          /* cheap: true for a few runs only */
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t hash_bytes(uint64_t h, const void *p, size_t n);
uint64_t hash_u64(uint64_t h, uint64_t v);

/* Per-run arena for the reference model. */
void *ar_alloc(size_t n);
void ar_setup(void);
bool ar_contains(const void *p);
size_t ar_mark(void);
void ar_release(size_t m);

/* Scratch regions with poisoned surroundings. */
struct region { uint8_t *base; size_t cap; uint8_t *p; size_t n; size_t shown; uint8_t *shown_p; };
void region_init(struct region *r, size_t cap);
/* Makes [p, p+n) the accessible part; offset is the misalignment of p (0..63). */
uint8_t *region_set(struct region *r, size_t n, int offset);
/* Places the n bytes so that the end is exact under ASan; start is 8-aligned + offset. */
void region_check(struct region *r, const char *what); /* canaries around, in the accessible part */

extern const char *h_name;
int h_nroots(void);
void h_init(void);
void h_run(int root);
void h_describe(int root, char *buf, size_t n);
const char *h_outcome_name(int k);
void h_extra(FILE *f);           /* more members for the statistics, each with a leading comma */
int eng_choices(const int **v);  /* the choices made so far */

const char *hexs(const uint8_t *p, size_t n);
extern volatile int eng_guard_on;
#endif
