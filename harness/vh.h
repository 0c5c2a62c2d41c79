/* Support library shared by every harness: deterministic randomness, event
 * counters, violation reports, fatal-handler capture, heap ledger, watchdog. */
#ifndef VH_H_
#define VH_H_
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <stdarg.h>

/* ---- to be provided by each harness ---- */
extern const char *const vh_rule;              /* how cases are made / what is nontrivial */
uint64_t vh_case_count(int thorough);          /* number of cases of this tier */
void vh_case(uint64_t index);                  /* run one case (uses the seeded rng) */
typedef struct { const char *name; void (*fn)(void); } vh_scenario_t;
extern const vh_scenario_t vh_scenarios[];     /* {0,0}-terminated; fixed histories */

/* ---- randomness (seeded per case) ---- */
uint64_t vh_u64(void);
static inline uint32_t vh_u32(void) { return (uint32_t) (vh_u64() >> 32); }
static inline uint8_t vh_u8(void) { return (uint8_t) (vh_u64() >> 56); }
uint32_t vh_below(uint32_t n);                 /* 0..n-1 */
int64_t vh_range(int64_t lo, int64_t hi);      /* inclusive */
bool vh_chance(uint32_t num, uint32_t den);
uint64_t vh_edge64(void);                      /* boundary-biased 64-bit value */
void vh_fill(void *p, size_t n);
uint64_t vh_hash(const void *p, size_t n);

/* ---- what was observed ---- */
void vh_count(const char *name, uint64_t n);   /* event counter (string literal) */
void vh_sig(uint64_t v);                       /* mixes into this case's behaviour signature */
void vh_sigs(const void *p, size_t n);
void vh_nontrivial(void);                      /* this case exercised what the rule asks */
void vh_trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern int vh_tier_thorough;
extern uint64_t vh_seed;
extern uint64_t vh_case_index;

/* ---- verdicts ---- */
void vh_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
#define VH_CHECK(cond, key, ...) do { if (!(cond)) { vh_fail(key, __VA_ARGS__); } } while (0)

/* ---- fatal handler: the product calls embc_fatal() ---- */
extern jmp_buf vh_fatal_jmp;
extern volatile int vh_fatal_armed;
extern volatile int vh_fatal_hits;
extern char vh_fatal_msg[256];
/* evaluates to 1 if STMT invoked the fatal handler, else 0 */
#define VH_FATAL(STMT) __extension__ ({ \
    volatile int vh_r_ = 0; \
    vh_fatal_armed = 1; \
    if (0 == setjmp(vh_fatal_jmp)) { STMT; } else { vh_r_ = 1; } \
    vh_fatal_armed = 0; \
    vh_r_; })

/* ---- heap ledger behind embc_alloc/embc_free ---- */
int64_t vh_heap_live(void);                    /* live blocks */
int64_t vh_heap_total(void);                   /* allocations so far */
void vh_heap_check(int64_t expected, const char *key);

/* exact-size guarded copies: any access one byte outside is a sanitizer report */
void *vh_exact(const void *src, size_t n);
char *vh_exact_str(const char *s);

/* bytes handed out by the C allocator and not returned (also sees allocations that bypass embc_alloc) */
size_t __sanitizer_get_current_allocated_bytes(void);
static inline size_t vh_bytes_live(void) { return __sanitizer_get_current_allocated_bytes(); }

/* bound on callbacks so that a runaway loop becomes a deterministic report */
void vh_steps_reset(uint64_t limit);
void vh_step(const char *what);

#endif
