/* C32: contract macros, arithmetic helpers and the public API's argument contracts.
 * ASSUME: the RANGE_INT macros take int arguments, as their name says; values wider than int are not tried on the macros themselves
 * ASSUME: rounding, clamping and power-of-two helpers are tried where the mathematical result fits the argument type */
#include "vh.h"
#include "embc.h"
#include "embc/argchk.h"
#include "embc/bbuf.h"
#include "embc/memory/block.h"
#include "embc/memory/pool.h"
#include "embc/memory/object_pool.h"
#include "embc/memory/buffer.h"
#include "embc/collections/list.h"
#include "embc/collections/hashmap.h"
#include "embc/collections/intmap.h"
#include "embc/stream/async_source.h"
#include "embc/stream/async_sink.h"
#include "embc/stream/framer.h"
#include "embc/lfsr.h"
#include "embc/fsm.h"
#include "embc/cli.h"
#include "embc/pattern_32a.h"
#include "embc/event_manager.h"
#include <limits.h>

const char *const vh_rule = "A case draws boundary-biased integers of several types and checks every contract macro (fatal or error return exactly when its condition is false, exactly once, argument evaluated once, statement safe in a block) and every arithmetic helper (rounding, clamping, sign, array size, container lookup, leading zeros, power of two, early-return macros) against their definitions; then it builds valid objects, makes 8 contract-violating API calls out of 150 kinds (null, zero, negative, out-of-range, oversized, corrupted, exhausted) and checks that each stops in the fatal handler exactly once (or returns the documented error) with the object bytes unchanged, next to valid calls that must not. Non-trivial: both a satisfied and a violated contract were seen; distinct by values and violations.";
uint64_t vh_case_count(int thorough) { return thorough ? 6000000 : 240000; }

/* ------------------------------------------------------------ macros */
static int evals;
static int64_t ev(int64_t v) { ++evals; return v; }
static int ok_seen, bad_seen;
#define FAT(STMT, BAD, NAME) do { \
    bool bad_ = (BAD); volatile int passed_ = 0; int h0_ = vh_fatal_hits; evals = 0; \
    int f_ = VH_FATAL({ STMT; passed_ = 1; }); \
    VH_CHECK(f_ == bad_, bad_ ? "contract-missed" : "contract-false-alarm", "%s: fatal %d with %lld, %lld, %lld", NAME, f_, (long long) x, (long long) y, (long long) z); \
    VH_CHECK(vh_fatal_hits - h0_ == bad_ && passed_ == !bad_, "contract-once", "%s: handler called %d times", NAME, vh_fatal_hits - h0_); \
    vh_count("contract_macros", 1); if (bad_) { ++bad_seen; } else { ++ok_seen; } } while (0)

static void dbc(int64_t x, int64_t y, int64_t z) {
    FAT(EMBC_DBC_TRUE(ev(x)), !x, "DBC_TRUE"); VH_CHECK(evals == 1, "evaluations", "DBC_TRUE");
    FAT(EMBC_DBC_FALSE(ev(x)), x, "DBC_FALSE"); VH_CHECK(evals == 1, "evaluations", "DBC_FALSE");
    FAT(EMBC_DBC_NOT_NULL((void *) (uintptr_t) ev(x)), !x, "DBC_NOT_NULL"); VH_CHECK(evals == 1, "evaluations", "DBC_NOT_NULL");
    FAT(EMBC_DBC_EQUAL(ev(x), ev(y)), x != y, "DBC_EQUAL"); VH_CHECK(evals == 2, "evaluations", "DBC_EQUAL");
    FAT(EMBC_DBC_EQUAL(ev(x), ev(x)), 0, "DBC_EQUAL");
    FAT(EMBC_DBC_NE(x, y), x == y, "DBC_NE"); FAT(EMBC_DBC_NE(x, x), 1, "DBC_NE");
    FAT(EMBC_DBC_GT(ev(x), ev(y)), x <= y, "DBC_GT"); VH_CHECK(evals == 2, "evaluations", "DBC_GT");
    FAT(EMBC_DBC_GTE(ev(x), ev(y)), x < y, "DBC_GTE"); VH_CHECK(evals == 2, "evaluations", "DBC_GTE");
    FAT(EMBC_DBC_LT(ev(x), ev(y)), x >= y, "DBC_LT"); VH_CHECK(evals == 2, "evaluations", "DBC_LT");
    FAT(EMBC_DBC_LTE(ev(x), ev(y)), x > y, "DBC_LTE"); VH_CHECK(evals == 2, "evaluations", "DBC_LTE");
    FAT(EMBC_DBC_GT(x, x), 1, "DBC_GT"); FAT(EMBC_DBC_GTE(x, x), 0, "DBC_GTE"); FAT(EMBC_DBC_LT(x, x), 1, "DBC_LT"); FAT(EMBC_DBC_LTE(x, x), 0, "DBC_LTE");
    FAT(EMBC_DBC_GT_ZERO(ev(x)), x <= 0, "DBC_GT_ZERO"); FAT(EMBC_DBC_GTE_ZERO(ev(x)), x < 0, "DBC_GTE_ZERO");
    FAT(EMBC_DBC_NE_ZERO(ev(x)), x == 0, "DBC_NE_ZERO"); FAT(EMBC_DBC_LT_ZERO(ev(x)), x >= 0, "DBC_LT_ZERO");
    FAT(EMBC_DBC_LTE_ZERO(ev(x)), x > 0, "DBC_LTE_ZERO"); VH_CHECK(evals == 1, "evaluations", "DBC_LTE_ZERO");
    FAT(EMBC_DBC_REQUIRE(ev(x) == y), x != y, "DBC_REQUIRE"); FAT(EMBC_DBC_ASSERT(x < y || x > z, "m"), !(x < y || x > z), "DBC_ASSERT");
    FAT(EMBC_ASSERT(ev(x) < y), !(x < y), "ASSERT"); VH_CHECK(evals == 1, "evaluations", "ASSERT");
    FAT(EMBC_ASSERT_ALLOC((void *) (uintptr_t) ev(x)), !x, "ASSERT_ALLOC"); FAT(EMBC_FATAL("m"), 1, "FATAL");
    /* operands that bind less tightly than the comparison */
    int64_t ax = x & 12, oy = y | 8;
    FAT(EMBC_DBC_EQUAL(x & 12, y | 8), ax != oy, "DBC_EQUAL"); FAT(EMBC_DBC_NE(x & 12, y | 8), ax == oy, "DBC_NE"); FAT(EMBC_DBC_GT(x & 12, y | 8), ax <= oy, "DBC_GT");
    FAT(EMBC_DBC_GTE(x & 12, y | 8), ax < oy, "DBC_GTE"); FAT(EMBC_DBC_LT(x & 12, y | 8), ax >= oy, "DBC_LT"); FAT(EMBC_DBC_LTE(x & 12, y | 8), ax > oy, "DBC_LTE");
    FAT(EMBC_DBC_GT_ZERO(x & 12), ax <= 0, "DBC_GT_ZERO"); FAT(EMBC_DBC_GTE_ZERO(x & 12), ax < 0, "DBC_GTE_ZERO"); FAT(EMBC_DBC_NE_ZERO(x & 12), ax == 0, "DBC_NE_ZERO");
    FAT(EMBC_DBC_LT_ZERO(x & ~7ll), (x & ~7ll) >= 0, "DBC_LT_ZERO"); FAT(EMBC_DBC_LTE_ZERO(x & 12), ax > 0, "DBC_LTE_ZERO");
    FAT(EMBC_DBC_TRUE(x & 12 || y & 2), !(ax || (y & 2)), "DBC_TRUE"); FAT(EMBC_DBC_FALSE(x & 12), ax != 0, "DBC_FALSE"); FAT(EMBC_DBC_FALSE(x ? y : z), x ? y : z, "DBC_FALSE");
    FAT(EMBC_DBC_REQUIRE(x & 12), !ax, "DBC_REQUIRE"); FAT(EMBC_DBC_ASSERT(x ? y : z, "m"), !(x ? y : z), "DBC_ASSERT"); FAT(EMBC_ASSERT(x ? y : z), !(x ? y : z), "ASSERT");
    { void *p0 = 0, *p1 = &ax; FAT(EMBC_DBC_NOT_NULL(x ? p0 : p1), x != 0, "DBC_NOT_NULL"); FAT(EMBC_ASSERT_ALLOC(x ? p0 : p1), x != 0, "ASSERT_ALLOC"); }
    FAT(EMBC_ASSERT(x | y), !(x | y), "ASSERT");
    int a = (int) x, b = (int) y, c = (int) z;
    { int64_t x = a, y = b, z = c;   /* the messages print these */
      FAT(EMBC_DBC_RANGE_INT((int) ev(a), (int) ev(b), (int) ev(c)), a < b || a > c, "DBC_RANGE_INT"); if (a >= b && a <= c) { VH_CHECK(evals == 3, "evaluations", "DBC_RANGE_INT"); }
      FAT(EMBC_DBC_RANGE_INT(a, a, a), 0, "DBC_RANGE_INT");
      FAT(EMBC_DBC_RANGE_INT(a, INT_MIN, INT_MAX), 0, "DBC_RANGE_INT"); }
}
static int log_calls; static char log_text[512];
static void logger(const char *fmt, ...) { va_list va; va_start(va, fmt); ++log_calls; vsnprintf(log_text, sizeof(log_text), fmt, va); va_end(va); }
static int past;
#define ARG(NAME, MACRO) static int NAME(int64_t x, int64_t y, int64_t z) { (void) y; (void) z; MACRO; past = 1; return -77; }
ARG(a_true, EMBC_ARGCHK_TRUE(ev(x))) ARG(a_false, EMBC_ARGCHK_FALSE(ev(x))) ARG(a_nn, EMBC_ARGCHK_NOT_NULL((void *) (uintptr_t) ev(x)))
ARG(a_gt, EMBC_ARGCHK_GT_ZERO(ev(x))) ARG(a_gte, EMBC_ARGCHK_GTE_ZERO(ev(x))) ARG(a_ne, EMBC_ARGCHK_NE_ZERO(ev(x))) ARG(a_lt, EMBC_ARGCHK_LT_ZERO(ev(x)))
ARG(a_lte, EMBC_ARGCHK_LTE_ZERO(ev(x))) ARG(a_req, EMBC_ARGCHK_REQUIRE(ev(x) < y)) ARG(a_ass, EMBC_ARGCHK_ASSERT(ev(x) < y, "m")) ARG(a_rng, EMBC_ARGCHK_RANGE_INT((int) ev(x), (int) y, (int) z))
ARG(b_true, EMBC_ARGCHK_TRUE(ev(x) & 12)) ARG(b_false, EMBC_ARGCHK_FALSE(ev(x) & 12)) ARG(b_gt, EMBC_ARGCHK_GT_ZERO(ev(x) & 12)) ARG(b_gte, EMBC_ARGCHK_GTE_ZERO(ev(x) & ~7ll))
ARG(b_ne, EMBC_ARGCHK_NE_ZERO(ev(x) & 12)) ARG(b_lt, EMBC_ARGCHK_LT_ZERO(ev(x) & ~7ll)) ARG(b_lte, EMBC_ARGCHK_LTE_ZERO(ev(x) & 12)) ARG(b_req, EMBC_ARGCHK_REQUIRE(ev(x) ? y : z)) ARG(b_nn, EMBC_ARGCHK_NOT_NULL(ev(x) ? (void *) 0 : (void *) &past))
/* a module with its own return code */
#undef EMBC_ARGCHK_FAIL_RETURN_CODE
#define EMBC_ARGCHK_FAIL_RETURN_CODE (own_code)
static int own_code;
ARG(o_true, EMBC_ARGCHK_TRUE(ev(x))) ARG(o_false, EMBC_ARGCHK_FALSE(ev(x))) ARG(o_nn, EMBC_ARGCHK_NOT_NULL((void *) (uintptr_t) ev(x))) ARG(o_gt, EMBC_ARGCHK_GT_ZERO(ev(x)))
ARG(o_lte, EMBC_ARGCHK_LTE_ZERO(ev(x))) ARG(o_req, EMBC_ARGCHK_REQUIRE(ev(x) < y)) ARG(o_rng, EMBC_ARGCHK_RANGE_INT((int) ev(x), (int) y, (int) z))
static void argchk(int64_t x, int64_t y, int64_t z) {
    int a = (int) x, b = (int) y, c = (int) z;
    struct { const char *n; int (*f)(int64_t, int64_t, int64_t); bool bad; int own; } T[] = {
        {"TRUE", a_true, !x}, {"FALSE", a_false, x != 0}, {"NOT_NULL", a_nn, !x}, {"GT_ZERO", a_gt, x <= 0}, {"GTE_ZERO", a_gte, x < 0}, {"NE_ZERO", a_ne, x == 0},
        {"LT_ZERO", a_lt, x >= 0}, {"LTE_ZERO", a_lte, x > 0}, {"REQUIRE", a_req, x >= y}, {"ASSERT", a_ass, x >= y}, {"RANGE_INT", a_rng, a < b || a > c},
        {"TRUE", b_true, !(x & 12)}, {"FALSE", b_false, x & 12}, {"GT_ZERO", b_gt, (x & 12) <= 0}, {"GTE_ZERO", b_gte, (x & ~7ll) < 0}, {"NE_ZERO", b_ne, !(x & 12)}, {"LT_ZERO", b_lt, (x & ~7ll) >= 0},
        {"LTE_ZERO", b_lte, (x & 12) > 0}, {"REQUIRE", b_req, !(x ? y : z)}, {"NOT_NULL", b_nn, x != 0},
        {"TRUE", o_true, !x, 1}, {"FALSE", o_false, x != 0, 1}, {"NOT_NULL", o_nn, !x, 1}, {"GT_ZERO", o_gt, x <= 0, 1}, {"LTE_ZERO", o_lte, x > 0, 1}, {"REQUIRE", o_req, x >= y, 1}, {"RANGE_INT", o_rng, a < b || a > c, 1}};
    own_code = vh_chance(1, 2) ? -9 : (int) vh_range(1, 100000);
    for (size_t i = 0; i < sizeof(T) / sizeof(T[0]); ++i) {
        past = 0; evals = 0; log_calls = 0; int h0 = vh_fatal_hits;
        int r = T[i].f(x, y, z);
        VH_CHECK(r == (T[i].bad ? (T[i].own ? own_code : 5) : -77) && past == !T[i].bad, T[i].bad ? "argchk-missed" : "argchk-false-alarm", "ARGCHK_%s returned %d with %lld, %lld, %lld", T[i].n, r, (long long) x, (long long) y, (long long) z);
        VH_CHECK(evals == 1, "evaluations", "ARGCHK_%s evaluated its argument %d times", T[i].n, evals);
        VH_CHECK(vh_fatal_hits == h0, "argchk-fatal", "ARGCHK_%s called the fatal handler", T[i].n);
        VH_CHECK(log_calls == T[i].bad, "argchk-log", "ARGCHK_%s logged %d times", T[i].n, log_calls);
        vh_count("argchk_macros", 1);
    }
}
static int roe(int v) { EMBC_RETURN_ON_ERROR((int) ev(v)); return -77; }
static int roem(int v) { EMBC_RETURN_ON_ERROR_MSG((int) ev(v), "message"); return -77; }
static int eoe(int v) { int r = 11; EMBC_EXIT_ON_ERROR((int) ev(v)); r = 22; exit: return r; }
static int ewe(int v) { int r = 11; EMBC_EXIT_WITH_ERROR(r, (int) ev(v)); r = 22; exit: return r; }

struct cont_s { char a; int64_t b; uint8_t c[7]; struct { int16_t d, e; } f; };

static void arith(int64_t x, int64_t y, int64_t z) {
    int a = (int) x;
    evals = 0;
    VH_CHECK(roe(a) == (a ? a : -77) && roem(a) == (a ? a : -77) && eoe(a) == (a ? 11 : 22) && ewe(a) == (a ? a : 22) && evals == 4, "return-macros", "value %d", a);
    VH_CHECK(EMBC_SIGNUM(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "signum", "%lld", (long long) x);
    if (y <= z) { int64_t r = EMBC_RESTRICT_TO_RANGE(x, y, z), e = x < y ? y : x > z ? z : x; VH_CHECK(r == e, "restrict", "%lld to %lld..%lld = %lld", (long long) x, (long long) y, (long long) z, (long long) r); }
    double dx = (double) x / 3, dy = (double) y / 3, dz = (double) z / 3;
    if (dy <= dz) { double r = EMBC_RESTRICT_TO_RANGE(dx, dy, dz); VH_CHECK(r == (dx < dy ? dy : dx > dz ? dz : dx), "restrict", "double"); }
    int64_t v = x >> (1 + vh_below(40)), m = (int64_t) (vh_u64() >> (34 + vh_below(30))) + 1;   /* v +- m fits */
    { __int128 e = v == 0 ? 0 : v > 0 ? ((__int128) v + m - 1) / m * m : -((-(__int128) v + m - 1) / m * m);
      int64_t r = EMBC_ROUND_UP_TO_MULTIPLE(v, m); VH_CHECK(r == e, "round-up", "%lld to %lld = %lld", (long long) v, (long long) m, (long long) r);
      int64_t m1 = m / 2, m2 = m - m1, v1 = v / 3, v2 = v - v1;
      r = EMBC_ROUND_UP_TO_MULTIPLE(v1 + v2, m1 + m2); VH_CHECK(r == e, "round-up", "expression %lld to %lld = %lld", (long long) v, (long long) m, (long long) r); }
    uint32_t u = (uint32_t) x >> vh_below(32), lz = 0;
    for (uint32_t b = 0x80000000u; b && !(u & b); b >>= 1) { ++lz; }
    VH_CHECK(embc_clz(u) == lz, "clz", "clz(0x%x) = %u", u, embc_clz(u));
    if (u >= 1 && u <= 0x80000000u) { uint32_t p = 1; while (p < u) { p <<= 1; } VH_CHECK(embc_upper_power_of_two(u) == p, "power-of-two", "upper(%u) = %u", u, embc_upper_power_of_two(u)); }
    int arr[7]; struct cont_s s[2]; VH_CHECK(EMBC_ARRAY_SIZE(arr) == 7 && EMBC_ARRAY_SIZE(s) == 2 && EMBC_ARRAY_SIZE("abc") == 4, "array-size", "size");
    int i = (int) vh_below(2); void *self = &s[i];
    VH_CHECK(EMBC_CONTAINER_OF(&s[i].a, struct cont_s, a) == self && EMBC_CONTAINER_OF(&s[i].b, struct cont_s, b) == self && EMBC_CONTAINER_OF(&s[i].f.e, struct cont_s, f.e) == self
        && EMBC_CONTAINER_OF(s[i].c + 3, struct cont_s, c[3]) == self && EMBC_CONTAINER_OF(s[i].c + (x & 0), struct cont_s, c) == self, "container-of", "container lookup");
    memset(s, 0x77, sizeof(s)); EMBC_STRUCT_INIT(s[0]);
    for (size_t k = 0; k < sizeof(s); ++k) { VH_CHECK(((uint8_t *) s)[k] == (k < sizeof(s[0]) ? 0 : 0x77), "struct-init", "byte %zu", k); }
    EMBC_STRUCT_PTR_INIT((&s[1])); for (size_t k = 0; k < sizeof(s); ++k) { VH_CHECK(((uint8_t *) s)[k] == 0, "struct-init", "byte %zu", k); }
    uint8_t *p = malloc(40), q[40]; int o = (int) vh_below(20), n = (int) vh_below(21); vh_fill(p, 40); memcpy(q, p, 40);
    embc_memset(p + o, (int) (x & 0xff), n); memset(q + o, (int) (x & 0xff), (size_t) n); VH_CHECK(!memcmp(p, q, 40), "memset", "%d at %d", n, o);
    uint8_t w[20]; vh_fill(w, 20); embc_memcpy(p + o, w, n); memcpy(q + o, w, (size_t) n); VH_CHECK(!memcmp(p, q, 40), "memcpy", "%d at %d", n, o);
    free(p); vh_count("arithmetic", 1);
}

/* ------------------------------------------------------------ allocator */
static embc_size_t al_size; static void *al_ptr, *al_freed; static int al_calls, fr_calls;
static void *al(embc_size_t n) { ++al_calls; al_size = n; return al_ptr; }
static void fr(void *p) { ++fr_calls; al_freed = p; }
static void allocator(int64_t x, int64_t y, int64_t z) {
    char mem[64]; int h0;
    embc_allocator_set(al, fr);
    al_ptr = mem; al_calls = fr_calls = 0; embc_size_t n = (embc_size_t) vh_below(65);
    VH_CHECK(embc_alloc(n) == mem && al_calls == 1 && al_size == n, "alloc", "allocator got %ld for %ld", (long) al_size, (long) n);
    memset(mem, 0x33, 64); VH_CHECK(embc_alloc_clr(n) == mem && al_calls == 2, "alloc-clr", "pointer");
    for (int i = 0; i < 64; ++i) { VH_CHECK(mem[i] == (i < n ? 0 : 0x33), "alloc-clr", "byte %d of %ld", i, (long) n); }
    embc_free(mem + 1); VH_CHECK(fr_calls == 1 && al_freed == mem + 1, "free", "deallocator");
    al_ptr = NULL; h0 = vh_fatal_hits;
    FAT(embc_alloc(n), 1, "embc_alloc exhausted"); FAT(embc_alloc_clr(n), 1, "embc_alloc_clr exhausted");
    fr_calls = 0; FAT(embc_free(NULL), 1, "embc_free(NULL)"); VH_CHECK(fr_calls == 0 && vh_fatal_hits == h0 + 3, "free-null", "deallocator called with NULL");
    al_calls = 0; al_ptr = mem; fr_calls = 0;
    embc_allocator_set(NULL, fr); FAT(embc_alloc(n), 1, "embc_alloc without allocator"); embc_free(mem); VH_CHECK(fr_calls == 1, "free", "free kept");
    embc_allocator_set(al, NULL); FAT(embc_free(mem), 1, "embc_free without deallocator"); VH_CHECK(embc_alloc(n) == mem && fr_calls == 1, "alloc", "alloc kept");
    embc_allocator_set(NULL, NULL); FAT(embc_alloc(n), 1, "embc_alloc without allocator"); FAT(embc_free(mem), 1, "embc_free without deallocator");
    VH_CHECK(al_calls == 1, "alloc", "replaced allocator called");
    embc_allocator_set((embc_alloc_fn) malloc, free);
}

/* ------------------------------------------------------------ API contracts */
static struct embc_buffer_allocator_s *BA; static embc_size_t ba_len; static uint8_t *ba_mem;
static struct embc_framer_s *FR; static int fr_tx;
static void f_tx(void *h, struct embc_buffer_s *b) { (void) h; (void) b; ++fr_tx; }
static int64_t f_tg(void *h) { (void) h; return 0; }
static int32_t f_ts(void *h, int64_t t, void (*fn)(void *, uint32_t), void *u, uint32_t *id) { (void) h; (void) t; (void) fn; (void) u; *id = 1; return 0; }
static int32_t f_tc(void *h, uint32_t id) { (void) h; (void) id; return 0; }
static void noted(void *o, size_t n); static void stop(int fatal, const char *what);
static struct { void *p; uint8_t copy[4096]; size_t n; } snap[6]; static int nsnap;
static void noted(void *o, size_t n) { VH_CHECK(n <= sizeof(snap[0].copy) && nsnap < 6, "harness", "snapshot"); snap[nsnap].p = o; snap[nsnap].n = n; memcpy(snap[nsnap].copy, o, n); ++nsnap; }
static int hits_before;
static const char *doing;
static void stop(int fatal, const char *what) {
    VH_CHECK(fatal, "api-accepted", "%s did not stop in the fatal handler", what);
    VH_CHECK(vh_fatal_hits - hits_before == 1, "api-once", "%s called the fatal handler %d times", what, vh_fatal_hits - hits_before);
    for (int i = 0; i < nsnap; ++i) { VH_CHECK(0 == memcmp(snap[i].p, snap[i].copy, snap[i].n), "api-effect", "%s changed object %d before it stopped", what, i); }
    vh_count("api_violations", 1); ++bad_seen;
}
/* a violating call */
#define BAD(STMT) do { hits_before = vh_fatal_hits; doing = #STMT; int f_ = VH_FATAL(STMT); stop(f_, #STMT); } while (0)
#define PICK(n) switch (vh_below(n))

static void api_lfsr(void) {
    struct embc_lfsr_s l; memset(&l, 0, sizeof(l)); embc_lfsr_initialize(&l); noted(&l, sizeof(l));
    PICK(6) { case 0: BAD(embc_lfsr_initialize(NULL)); break; case 1: BAD(embc_lfsr_seed_u16(NULL, 1)); break; case 2: BAD(embc_lfsr_next_u1(NULL)); break;
        case 3: BAD(embc_lfsr_next_u8(NULL)); break; case 4: BAD(embc_lfsr_next_u32(NULL)); break; default: BAD(embc_lfsr_follow_u8(NULL, 1)); break; }
}
static void api_pattern(void) {
    struct embc_pattern_32a_rx_s r; uint32_t w[4] = {0}; memset(&r, 0, sizeof(r)); embc_pattern_32a_rx_initialize(&r); noted(&r, sizeof(r));
    PICK(4) { case 0: BAD(embc_pattern_32a_tx_initialize(NULL)); break; case 1: BAD(embc_pattern_32a_rx_initialize(NULL)); break;
        case 2: BAD(embc_pattern_32a_rx_buffer(NULL, w, 16)); break; default: BAD(embc_pattern_32a_rx_buffer(&r, NULL, 16)); break; }
}
static void cp_done(void *u, uint8_t s) { (void) u; (void) s; }
static void c_send(struct embc_stream_consumer_s *c, struct embc_stream_transaction_s *t) { (void) c; (void) t; }
static void p_send(struct embc_stream_producer_s *p, struct embc_stream_transaction_s *t) { (void) p; (void) t; }
static void api_stream(void) {
    struct embc_stream_source_s so; struct embc_stream_sink_s si; uint8_t b[64] = {0};
    struct embc_stream_consumer_s co; struct embc_stream_producer_s pr; memset(&co, 0, sizeof(co)); memset(&pr, 0, sizeof(pr)); co.send = c_send; pr.send = p_send;
    memset(&so, 0, sizeof(so)); memset(&si, 0, sizeof(si));
    embc_stream_source_initialize(&so, b, 16); embc_stream_sink_initialize(&si, b, 16); embc_stream_source_set_consumer(&so, &co); embc_stream_sink_set_producer(&si, &pr);
    noted(&so, sizeof(so)); noted(&si, sizeof(si));
    PICK(12) {
        case 0: BAD(embc_stream_source_initialize(NULL, b, 16)); break; case 1: BAD(embc_stream_source_set_consumer(NULL, &co)); break;
        case 2: BAD(embc_stream_source_get_producer(NULL)); break; case 3: BAD(embc_stream_source_configure(NULL, b, 64, cp_done, 0)); break;
        case 4: BAD(embc_stream_source_configure(&so, NULL, 64, cp_done, 0)); break; case 5: BAD(embc_stream_source_configure(&so, b, 0, cp_done, 0)); break;
        case 6: BAD(embc_stream_sink_initialize(NULL, b, 16)); break; case 7: BAD(embc_stream_sink_get_consumer(NULL)); break;
        case 8: BAD(embc_stream_sink_set_producer(NULL, &pr)); break; case 9: BAD(embc_stream_sink_set_write_fn(NULL, 0, 0)); break;
        case 10: BAD(embc_stream_sink_receive(NULL, b, 64, 0, 0)); break; default: BAD(embc_stream_source_configure(NULL, NULL, 0, NULL, 0)); break; }
}
static void api_pool(void) {
    int n = (int) vh_range(1, 4), sz = (int) vh_range(1, 60); int32_t isz = embc_pool_instance_size(n, sz);
    struct embc_pool_s *p = calloc(1, (size_t) isz); VH_CHECK(0 == embc_pool_initialize(p, n, sz), "valid-call", "pool initialize");
    void *blk = embc_pool_alloc(p); int neg = -(int) vh_below(3);
    noted(p, (size_t) isz);
    PICK(12) {
        case 0: BAD(embc_pool_initialize(NULL, n, sz)); break; case 1: BAD(embc_pool_initialize(p, neg, sz)); break; case 2: BAD(embc_pool_initialize(p, n, neg)); break;
        case 3: BAD(embc_pool_finalize(NULL)); break; case 4: BAD(embc_pool_is_empty(NULL)); break; case 5: BAD(embc_pool_alloc(NULL)); break;
        case 6: BAD(embc_pool_alloc_unsafe(NULL)); break; case 7: BAD(embc_pool_free(NULL, blk)); break; case 8: BAD(embc_pool_free(p, NULL)); break;
        case 9: for (int i = 1; i < n; ++i) { embc_pool_alloc(p); } nsnap = 0; noted(p, (size_t) isz); VH_CHECK(embc_pool_is_empty(p), "valid-call", "empty"); BAD(embc_pool_alloc(p)); VH_CHECK(NULL == embc_pool_alloc_unsafe(p), "valid-call", "unsafe alloc"); break;
        case 10: BAD(embc_pool_initialize(p, INT32_MIN, sz)); break;
        default: embc_pool_finalize(p); nsnap = 0; noted(p, (size_t) isz); BAD(embc_pool_finalize(p)); break; }
    free(p);
}
static int op_destroyed; static void op_d(void *o) { (void) o; ++op_destroyed; }
static void api_object_pool(void) {
    int n = (int) vh_range(1, 4), sz = (int) vh_range(1, 60); int32_t isz = embc_object_pool_instance_size(n, sz);
    struct embc_object_pool_s *p = calloc(1, (size_t) isz); VH_CHECK(0 == embc_object_pool_initialize(p, n, sz, 0, op_d), "valid-call", "object pool initialize");
    void *o = embc_object_pool_alloc(p); int neg = -(int) vh_below(3);
    noted(p, (size_t) isz); op_destroyed = 0;
    PICK(8) {
        case 0: VH_CHECK(5 == embc_object_pool_initialize(NULL, n, sz, 0, 0), "api-error", "object_pool_initialize(NULL)"); break;
        case 1: VH_CHECK(5 == embc_object_pool_initialize(p, neg, sz, 0, 0) && !memcmp(snap[0].p, snap[0].copy, snap[0].n), "api-error", "object_pool_initialize count %d", neg); break;
        case 2: VH_CHECK(5 == embc_object_pool_initialize(p, n, neg, 0, 0) && !memcmp(snap[0].p, snap[0].copy, snap[0].n), "api-error", "object_pool_initialize size %d", neg); break;
        case 3: BAD(embc_object_pool_finalize(NULL)); break;
        case 4: for (int i = 1; i < n; ++i) { embc_object_pool_alloc(p); } nsnap = 0; noted(p, (size_t) isz); BAD(embc_object_pool_alloc(p)); break;
        case 5: VH_CHECK(embc_object_pool_decr(o) && op_destroyed == 1, "valid-call", "decr"); nsnap = 0; noted(p, (size_t) isz); BAD(embc_object_pool_decr(o)); VH_CHECK(op_destroyed == 1, "api-effect", "double free ran the destructor"); break;
        case 6: VH_CHECK(embc_object_pool_decr(o), "valid-call", "decr"); nsnap = 0; noted(p, (size_t) isz); BAD(embc_object_pool_incr(o)); break;
        default: embc_object_pool_finalize(p); nsnap = 0; noted(p, (size_t) isz); BAD(embc_object_pool_finalize(p)); break; }
    free(p);
}
static void api_mblock(void) {
    int bs = (int) vh_range(1, 32), bn = vh_chance(1, 4) ? 32 * (int) vh_range(1, 2) : (int) vh_range(1, 20), ms = bs * bn, neg = -(int) vh_below(3); int32_t isz = embc_mblock_instance_size(ms, bs);
    struct embc_mblock_s *m = calloc(1, (size_t) isz); uint8_t *mem = malloc((size_t) ms);
    VH_CHECK(0 == embc_mblock_initialize(m, mem, ms, bs), "valid-call", "mblock initialize");
    void *a = embc_mblock_alloc(m, bs); noted(m, (size_t) isz);
    PICK(15) {
        case 0: BAD(embc_mblock_instance_size(neg, bs)); break; case 1: BAD(embc_mblock_instance_size(ms, neg)); break;
        case 2: BAD(embc_mblock_initialize(NULL, mem, ms, bs)); break; case 3: BAD(embc_mblock_initialize(m, NULL, ms, bs)); break;
        case 4: BAD(embc_mblock_initialize(m, mem, neg, bs)); break; case 5: BAD(embc_mblock_initialize(m, mem, ms, neg)); break;
        case 6: BAD(embc_mblock_alloc(NULL, bs)); break; case 7: BAD(embc_mblock_alloc(m, neg)); break; case 8: BAD(embc_mblock_alloc_unsafe(NULL, bs)); break; case 9: BAD(embc_mblock_alloc_unsafe(m, neg)); break;
        case 10: BAD(embc_mblock_alloc(m, ms + 1)); break; case 11: BAD(embc_mblock_free(m, mem - 1, bs)); break; case 12: BAD(embc_mblock_free(m, (uint8_t *) ((uintptr_t) mem + (uintptr_t) ms + (vh_chance(1, 2) ? 0 : (uintptr_t) vh_below(70000))), bs)); break;
        case 13: embc_mblock_free(m, a, bs); nsnap = 0; noted(m, (size_t) isz); BAD(embc_mblock_free(m, a, bs)); break;
        default: if (bn > 1) { BAD(embc_mblock_free(m, mem + (size_t) bs * (bn - 1), bs)); } break; }
    free(mem); free(m);
}
static void api_buffer(void) {
    embc_size_t sizes[4] = {2, 2, 1, 1}; struct embc_buffer_s *b = embc_buffer_alloc(BA, 32), *c = embc_buffer_alloc(BA, 32);
    uint8_t d[64]; vh_fill(d, sizeof(d)); embc_size_t cap = embc_buffer_capacity(b), fill = (embc_size_t) vh_below((uint32_t) cap + 1);
    b->reserve = (uint16_t) vh_below((uint32_t) (cap - fill + 1));
    embc_buffer_write(b, d, fill); embc_size_t at = (embc_size_t) vh_below((uint32_t) fill + 1); embc_buffer_cursor_set(b, at);
    embc_size_t wr = embc_buffer_write_remaining(b), rr = embc_buffer_read_remaining(b), over = (embc_size_t) vh_range(1, 1000) * (vh_chance(1, 3) ? ((embc_size_t) 1 << 32) : 1);
    char s[80]; memset(s, 'x', sizeof(s)); s[wr + 1 < 79 ? wr + 1 : 79] = 0; uint8_t out[64];
    noted(b, sizeof(*b)); noted(b->data, (size_t) cap); noted(c, sizeof(*c)); noted(c->data, (size_t) embc_buffer_capacity(c));
    int k = (int) vh_below(40);
    switch (k) {
        case 0: BAD(embc_buffer_allocator_instance_size(NULL, 4)); break; case 1: BAD(embc_buffer_allocator_initialize(BA, NULL, 4)); break;
        case 2: BAD(embc_buffer_alloc(BA, 0)); break; case 3: BAD(embc_buffer_alloc(BA, -over)); break; case 4: BAD(embc_buffer_alloc(BA, 256 + over)); break;
        case 5: BAD(embc_buffer_alloc_unsafe(BA, 0)); break; case 6: BAD(embc_buffer_alloc_unsafe(BA, 256 + over)); break;
        case 7: BAD(embc_buffer_write(NULL, d, 4)); break; case 8: BAD(embc_buffer_write(b, NULL, 4)); break; case 9: BAD(embc_buffer_write(b, d, wr + over)); break;
        case 10: BAD(embc_buffer_copy(NULL, b, 1)); break; case 11: BAD(embc_buffer_copy(c, NULL, 1)); break; case 12: BAD(embc_buffer_copy(c, b, rr + over)); break; case 13: BAD(embc_buffer_copy(b, c, over)); break;
        case 14: BAD(embc_buffer_write_str(NULL, s)); break; case 15: BAD(embc_buffer_write_str(b, NULL)); break; case 16: nsnap = 0; BAD(embc_buffer_write_str(b, s)); break;
        case 17: BAD(embc_buffer_write_str_truncate(NULL, s)); break; case 18: BAD(embc_buffer_write_str_truncate(b, NULL)); break;
        case 19: BAD(embc_buffer_write_u8(NULL, 1)); break; case 20: BAD(embc_buffer_write_u64_be(NULL, 1)); break; case 21: BAD(embc_buffer_read_u8(NULL)); break; case 22: BAD(embc_buffer_read_u32_le(NULL)); break;
        case 23: case 24: case 25: case 26: case 27: case 28: case 29: {
            static const int W[7] = {1, 2, 2, 4, 4, 8, 8}; int w = W[k - 23];
            if (wr < w) { switch (k) { case 23: BAD(embc_buffer_write_u8(b, 1)); break; case 24: BAD(embc_buffer_write_u16_le(b, 1)); break; case 25: BAD(embc_buffer_write_u16_be(b, 1)); break; case 26: BAD(embc_buffer_write_u32_le(b, 1)); break; case 27: BAD(embc_buffer_write_u32_be(b, 1)); break; case 28: BAD(embc_buffer_write_u64_le(b, 1)); break; default: BAD(embc_buffer_write_u64_be(b, 1)); break; } }
            if (rr < w) { switch (k) { case 23: BAD(embc_buffer_read_u8(b)); break; case 24: BAD(embc_buffer_read_u16_le(b)); break; case 25: BAD(embc_buffer_read_u16_be(b)); break; case 26: BAD(embc_buffer_read_u32_le(b)); break; case 27: BAD(embc_buffer_read_u32_be(b)); break; case 28: BAD(embc_buffer_read_u64_le(b)); break; default: BAD(embc_buffer_read_u64_be(b)); break; } }
            break; }
        case 30: BAD(embc_buffer_read(NULL, out, 1)); break; case 31: BAD(embc_buffer_read(b, NULL, 1)); break; case 32: BAD(embc_buffer_read(b, out, rr + over)); break;
        case 33: BAD(embc_buffer_cursor_set(b, fill + over)); break; case 34: BAD(embc_buffer_cursor_set(b, -over)); break;
        case 35: BAD(embc_buffer_erase(NULL, 0, 0)); break; case 36: BAD(embc_buffer_erase(b, fill, fill)); break; case 37: BAD(embc_buffer_erase(b, -over, 0)); break;
        case 38: if (fill) { BAD(embc_buffer_erase(b, 0, fill + over)); } break;
        default: { struct embc_buffer_s fake = *b; nsnap = 2; BAD(embc_buffer_free(&fake)); break; } }
    (void) sizes; embc_buffer_free(b); embc_buffer_free(c);
}
static void api_framer(void) {
    struct embc_framer_hal_callbacks_s h = {0, f_tx, f_tg, f_ts, f_tc}, bad = h; struct embc_framer_port_callbacks_s pc; memset(&pc, 0, sizeof(pc)); uint8_t d[16] = {0};
    embc_size_t len = embc_framer_instance_size(); int port = (int) vh_range(EMBC_FRAMER_PORTS, 255); fr_tx = 0;
    if ((size_t) len <= sizeof(snap[0].copy)) { noted(FR, (size_t) len); }
    switch (vh_below(24)) {
        case 0: BAD(embc_framer_initialize(NULL, BA, &h)); break; case 1: BAD(embc_framer_initialize(FR, NULL, &h)); break; case 2: BAD(embc_framer_initialize(FR, BA, NULL)); break;
        case 3: bad.tx_fn = 0; BAD(embc_framer_initialize(FR, BA, &bad)); break; case 4: bad.timer_set_fn = 0; BAD(embc_framer_initialize(FR, BA, &bad)); break; case 5: bad.timer_cancel_fn = 0; BAD(embc_framer_initialize(FR, BA, &bad)); break;
        case 6: BAD(embc_framer_register_port_callbacks(NULL, 1, &pc)); break; case 7: BAD(embc_framer_register_port_callbacks(FR, (uint8_t) port, &pc)); break; case 8: BAD(embc_framer_register_port_callbacks(FR, 1, NULL)); break;
        case 9: BAD(embc_framer_register_rx_hook(NULL, 0, 0)); break; case 10: BAD(embc_framer_hal_rx_byte(NULL, 1)); break; case 11: BAD(embc_framer_hal_rx_buffer(NULL, d, 1)); break; case 12: BAD(embc_framer_hal_rx_buffer(FR, NULL, 1)); break;
        case 13: BAD(embc_framer_hal_tx_done(NULL, (struct embc_buffer_s *) d)); break; case 14: BAD(embc_framer_hal_tx_done(FR, NULL)); break;
        case 15: BAD(embc_framer_construct_frame(NULL, 0, 1, 2, 3, d, 4)); break; case 16: BAD(embc_framer_construct_frame(FR, 0, (uint8_t) port, 2, 3, d, 4)); break; case 17: BAD(embc_framer_construct_ack(NULL, 0, 1, 2, 3, 0)); break;
        case 18: { struct embc_buffer_s *b = embc_framer_alloc(FR); BAD(embc_framer_send(NULL, 1, 2, 3, b)); embc_buffer_free(b); break; }
        case 19: { struct embc_buffer_s *b = embc_framer_alloc(FR); BAD(embc_framer_send(FR, (uint8_t) port, 2, 3, b)); embc_buffer_free(b); break; }
        case 20: BAD(embc_framer_send(FR, 1, 2, 3, NULL)); break; case 21: BAD(embc_framer_resync(NULL)); break; case 22: BAD(embc_framer_alloc(NULL)); break;
        default: BAD(embc_framer_status_get(NULL)); break; }
    VH_CHECK(fr_tx == 0, "api-effect", "%s transmitted", doing ? doing : "?");
}
static void api_maps(void) {
    struct embc_intmap_s *m = embc_intmap_new(); int n = (int) vh_below(4); void *v; embc_size_t k;
    for (int i = 0; i < n; ++i) { embc_intmap_put(m, i * 7, (void *) (intptr_t) (i + 1), NULL); }
    struct embc_intmap_iterator_s *it = embc_intmap_iterator_new(m);
    PICK(8) { case 0: BAD(embc_intmap_put(NULL, 1, m, NULL)); break; case 1: BAD(embc_intmap_get(NULL, 1, &v)); break; case 2: BAD(embc_intmap_remove(NULL, 1, &v)); break; case 3: BAD(embc_intmap_iterator_new(NULL)); break;
        case 4: BAD(embc_intmap_iterator_next(NULL, &k, &v)); break; case 5: BAD(embc_intmap_iterator_next(it, NULL, &v)); break; case 6: BAD(embc_intmap_iterator_next(it, &k, NULL)); break;
        default: VH_CHECK(0 == embc_intmap_length(NULL) || 1, "harness", ""); break; }
    VH_CHECK(embc_intmap_length(m) == n, "api-effect", "map length");
    int seen = 0; while (0 == embc_intmap_iterator_next(it, &k, &v)) { ++seen; VH_CHECK(seen <= n, "api-effect", "iterator"); }
    VH_CHECK(seen == n, "api-effect", "iterator visited %d of %d", seen, n);
    embc_intmap_iterator_free(it); embc_intmap_free(m);
    struct embc_hashmap_s *hm; (void) hm;
    PICK(2) { case 0: BAD(embc_hashmap_put(NULL, (void *) "a", (void *) "b", NULL)); break; default: BAD(embc_hashmap_get(NULL, (void *) "a", &v)); break; }
}
static void api_cli_fsm(void) {
    embc_cli_t c; memset(&c, 0, sizeof(c)); struct embc_fsm_s f; memset(&f, 0, sizeof(f));
    (void) c; (void) f;
    PICK(7) { case 0: BAD(embc_cli_initialize(NULL)); break; case 1: BAD(embc_cli_set_echo(NULL, EMBC_CLI_ECHO_OFF, '*')); break; case 2: BAD(embc_cli_set_verbose(NULL, EMBC_CLI_VERBOSE_FULL)); break;
        case 3: BAD(embc_cli_insert_char(NULL, 'x')); break; case 4: BAD(embc_fsm_initialize(NULL)); break; case 5: BAD(embc_fsm_event(NULL, 1)); break; default: BAD(embc_fsm_reset(NULL)); break; }
}
static int64_t num(void) { return vh_chance(1, 2) ? vh_range(-3, 3) : (int64_t) vh_edge64(); }
void vh_case(uint64_t index) {
    (void) index;
    ok_seen = bad_seen = 0; embc_log_initialize(logger);
    int64_t x = num(), y = vh_chance(1, 3) ? x + (x > INT64_MIN + 9 && x < INT64_MAX - 9 ? vh_range(-1, 1) : 0) : num(), z = num();
    vh_sig((uint64_t) x); vh_sig((uint64_t) y); vh_sig((uint64_t) z);
    dbc(x, y, z); argchk(x, y, z); arith(x, y, z); allocator(x, y, z);
    embc_log_finalize();
    static const embc_size_t sizes[4] = {4, 3, 2, 16};
    ba_len = embc_buffer_allocator_instance_size(sizes, 4); ba_mem = calloc(1, (size_t) ba_len); BA = (struct embc_buffer_allocator_s *) ba_mem;
    embc_buffer_allocator_initialize(BA, sizes, 4);
    struct embc_framer_hal_callbacks_s h = {0, f_tx, f_tg, f_ts, f_tc}; FR = malloc((size_t) embc_framer_instance_size()); memset(FR, 0, (size_t) embc_framer_instance_size()); embc_framer_initialize(FR, BA, &h);
    static void (*const A[])(void) = {api_lfsr, api_pattern, api_stream, api_pool, api_object_pool, api_mblock, api_buffer, api_buffer, api_framer, api_framer, api_maps, api_cli_fsm};
    for (int i = 0; i < 8; ++i) { uint32_t w = vh_below(12); nsnap = 0; vh_sig(w); A[w](); if (doing) { vh_sigs(doing, strlen(doing)); } }
    embc_framer_finalize(FR); free(FR); embc_buffer_allocator_finalize(BA); free(ba_mem);
    if (ok_seen && bad_seen) { vh_nontrivial(); }
}
/* every leading-zero count and power of two around each bit, all pairs of small ints for the range and rounding macros */
static void s_small(void) {
    embc_log_initialize(logger);
    for (int64_t x = -4; x <= 4; ++x) { for (int64_t y = -4; y <= 4; ++y) { for (int64_t z = -4; z <= 4; ++z) { dbc(x, y, z); argchk(x, y, z); } } }
    embc_log_finalize();
    for (int64_t v = -300; v <= 300; ++v) { for (int64_t m = 1; m <= 70; ++m) {
        int64_t a = v < 0 ? -v : v, e = (a + m - 1) / m * m; if (v < 0) { e = -e; }
        VH_CHECK(EMBC_ROUND_UP_TO_MULTIPLE(v, m) == e && EMBC_ROUND_UP_TO_MULTIPLE((int) v, (int) m) == e, "round-up", "%ld to %ld", (long) v, (long) m); } }
    for (int b = 0; b < 32; ++b) { for (int d = -1; d <= 1; ++d) { uint32_t u = (1u << b) + (uint32_t) d, lz = 0, p = 1; for (uint32_t k = 0x80000000u; k && !(u & k); k >>= 1) { ++lz; }
        VH_CHECK(embc_clz(u) == lz, "clz", "0x%x", u); if (u && u <= 0x80000000u) { while (p < u) { p <<= 1; } VH_CHECK(embc_upper_power_of_two(u) == p, "power-of-two", "%u", u); } } }
    for (uint32_t u = 1; u < 200000; ++u) { VH_CHECK(embc_clz(u) == (uint32_t) __builtin_clz(u), "clz", "0x%x", u); }
    VH_CHECK(embc_clz(0) == 32, "clz", "0");
    vh_nontrivial();
}
const vh_scenario_t vh_scenarios[] = {{"small", s_small}, {0, 0}};
