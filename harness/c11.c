/* C11: fixed-size pools hand out disjoint aligned blocks and recycle them.
 *
 * ASSUME: only blocks obtained from the pool are freed, once each; block_count * block_size stays below 2 GiB
 */
#include "vh.h"
#include "embc/memory/pool.h"

const char *const vh_rule =
    "A case is one or two pools of 1..40 blocks of 1..900 bytes in exactly sized guarded memory filled with garbage, and 20..200 random alloc/alloc_unsafe/free/is_empty calls "
    "biased towards full and towards empty, then a complete drain and refill. A byte ownership map checks disjointness and bounds, every live block carries a checked pattern over its whole "
    "size. Non-trivial: the pool was exhausted and blocks were recycled; distinct by configuration and operation sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 5000000 : 150000; }

typedef struct { uint8_t *p; uint64_t pat; } blk_t;
typedef struct { struct embc_pool_s *pool; uint8_t *mem, *owner; int32_t size, count, bsize; blk_t live[64]; int n; } pool_t;
static pool_t pools[2];
static uint64_t recycled, exhausted;

static uint8_t pat_at(uint64_t pat, int i) { return (uint8_t) ((uint8_t) (pat >> ((i & 7) * 8)) + i * 13); }
static void check_blk(pool_t *a, blk_t *b) {
    for (int i = 0; i < a->bsize; ++i) { VH_CHECK(b->p[i] == pat_at(b->pat, i), "contents", "byte %d of a live %d-byte block changed", i, a->bsize); }
}
static void empty(pool_t *a) {
    int e = embc_pool_is_empty(a->pool);
    VH_CHECK(e == (a->n == a->count), "is-empty", "is_empty=%d with %d of %d blocks allocated", e, a->n, a->count);
}
static void get(pool_t *a, bool unsafe) {
    void *volatile p = 0;
    volatile int fatal = VH_FATAL(p = unsafe ? embc_pool_alloc_unsafe(a->pool) : embc_pool_alloc(a->pool));
    vh_sig(unsafe ? 1 : 2);
    if (a->n == a->count) {
        VH_CHECK(unsafe ? (!fatal && !p) : fatal, "alloc:exhausted", "allocation %d of %d %s", a->n + 1, a->count, fatal ? "was fatal" : p ? "succeeded" : "returned null");
        ++exhausted; vh_count("exhaustion_refusals", 1);
        vh_trace("alloc refused at %d", a->n);
        return;
    }
    VH_CHECK(!fatal && p, "alloc:refused", "allocation %d of %d %s", a->n + 1, a->count, fatal ? "was fatal" : "returned null");
    uint8_t *b = p;
    VH_CHECK(b >= a->mem && b + a->bsize <= a->mem + a->size, "outside", "a block lies outside the pool");
    VH_CHECK(0 == ((uintptr_t) b & (sizeof(void *) - 1)), "align", "a block is at %p", (void *) b);
    bool again = a->owner[b - a->mem] & 2;
    for (int i = 0; i < a->bsize; ++i) {
        VH_CHECK(!(a->owner[b - a->mem + i] & 1), "overlap", "two live blocks share a byte");
        a->owner[b - a->mem + i] = 3;
    }
    recycled += again;
    blk_t *l = &a->live[a->n++];
    l->p = b; l->pat = vh_u64();
    for (int i = 0; i < a->bsize; ++i) { b[i] = pat_at(l->pat, i); }
    vh_count("allocs", 1);
    vh_trace("alloc -> +%d (%d of %d)", (int) (b - a->mem), a->n, a->count);
}
static void put(pool_t *a, int i) {
    blk_t l = a->live[i];
    check_blk(a, &l);
    a->live[i] = a->live[--a->n];
    for (int k = 0; k < a->bsize; ++k) { a->owner[l.p - a->mem + k] = 2; }
    if (vh_chance(1, 2)) { vh_fill(l.p, (size_t) a->bsize); }   /* a dying block may hold anything */
    embc_pool_free(a->pool, l.p);
    vh_sig(3); vh_sig((uint64_t) i);
    vh_count("frees", 1);
    vh_trace("free +%d", (int) (l.p - a->mem));
}

void vh_case(uint64_t index) {
    (void) index;
    int np = vh_chance(1, 4) ? 2 : 1;
    recycled = exhausted = 0;
    for (int i = 0; i < np; ++i) {
        pool_t *a = &pools[i];
        a->count = (int32_t) vh_range(1, vh_chance(1, 4) ? 40 : 6);
        a->bsize = (int32_t) (vh_chance(1, 12) ? vh_range(200, 900) : vh_chance(1, 3) ? vh_range(1, 200) : vh_range(1, 24));
        a->size = embc_pool_instance_size(a->count, a->bsize);
        a->mem = malloc((size_t) a->size);
        memset(a->mem, vh_u8(), (size_t) a->size);
        a->owner = calloc(1, (size_t) a->size);
        a->pool = (struct embc_pool_s *) a->mem;
        a->n = 0;
        if (vh_chance(1, 50)) {
            VH_CHECK(VH_FATAL(embc_pool_initialize(a->pool, 0, a->bsize)) && VH_FATAL(embc_pool_initialize(a->pool, a->count, (int32_t) -vh_range(0, 5)))
                     && VH_FATAL(embc_pool_initialize(0, 1, 1)), "init:args", "an invalid configuration was accepted");
        }
        VH_CHECK(0 == embc_pool_initialize(a->pool, a->count, a->bsize), "init", "initialize failed");
        vh_sig((uint64_t) a->count << 32 | (uint32_t) a->bsize);
        vh_trace("pool of %d x %d", a->count, a->bsize);
        empty(a);
    }
    int ops = (int) vh_range(20, vh_chance(1, 6) ? 200 : 60), bias = (int) vh_range(2, 9);
    for (int k = 0; k < ops; ++k) {
        pool_t *a = &pools[vh_below((uint32_t) np)];
        if (!a->n || vh_below(10) < (uint32_t) bias) { get(a, vh_chance(1, 2)); } else { put(a, (int) vh_below((uint32_t) a->n)); }
        empty(a);
        if (vh_chance(1, 16)) { bias = (int) vh_range(1, 9); for (int i = 0; i < np; ++i) { for (int j = 0; j < pools[i].n; ++j) { check_blk(&pools[i], &pools[i].live[j]); } } }
    }
    for (int i = 0; i < np; ++i) {
        pool_t *a = &pools[i];
        while (a->n) { put(a, (int) vh_below((uint32_t) a->n)); empty(a); }
        for (int j = 0; j <= a->count; ++j) { get(a, vh_chance(1, 2)); empty(a); }
        for (int j = 0; j < a->n; ++j) { check_blk(a, &a->live[j]); }
        VH_CHECK(a->n == a->count, "capacity", "only %d of %d blocks obtainable", a->n, a->count);
        while (a->n) { put(a, a->n - 1); }
        embc_pool_finalize(a->pool);
        VH_CHECK(VH_FATAL(embc_pool_finalize(a->pool)), "finalize:twice", "a finalized pool was finalized again without complaint");
        free(a->mem); free(a->owner);
    }
    if (exhausted && recycled) { vh_nontrivial(); }
}

/* more blocks than 16 bits count, and blocks larger than 16 bits measure */
static void s_large(void) {
    static const struct { int32_t count, size; } G[] = {{70000, 8}, {65537, 1}, {300, 700}, {3, 70000}, {1, 16 << 20}, {40, 65536}};
    for (size_t g = 0; g < sizeof(G) / sizeof(G[0]); ++g) {
        int32_t count = G[g].count, size = G[g].size, sz = embc_pool_instance_size(count, size);
        uint8_t *mem = malloc((size_t) sz), **p = calloc((size_t) count, sizeof(*p)), *owner = calloc(1, (size_t) sz);
        memset(mem, 0xa5, (size_t) sz);
        struct embc_pool_s *pool = (struct embc_pool_s *) mem;
        VH_CHECK(0 == embc_pool_initialize(pool, count, size), "init", "initialize failed");
        for (int round = 0; round < 3; ++round) {
            for (int32_t i = 0; i < count; ++i) {
                VH_CHECK(!embc_pool_is_empty(pool), "is-empty", "empty with %d of %d blocks allocated", i, count);
                p[i] = (i & 1) ? embc_pool_alloc(pool) : embc_pool_alloc_unsafe(pool);
                VH_CHECK(p[i] && p[i] >= mem && p[i] + size <= mem + sz, "outside", "block %d of %d x %d is not inside the pool", i, count, size);
                VH_CHECK(!owner[p[i] - mem] && !owner[p[i] - mem + size - 1], "overlap", "block %d overlaps another one", i);
                memset(owner + (p[i] - mem), 1, (size_t) size);
                memset(p[i], (int) (i * 7 + round), (size_t) size);
            }
            VH_CHECK(embc_pool_is_empty(pool) && !embc_pool_alloc_unsafe(pool), "alloc:exhausted", "block %d was allocated from a pool of %d", count + 1, count);
            for (int32_t k = 0; k < count; ++k) {
                int32_t i = (round & 1) ? count - 1 - k : k;
                for (int32_t b = 0; b < size; b += b < 16 ? 1 : 97) { VH_CHECK(p[i][b] == (uint8_t) (i * 7 + round), "contents", "byte %d of block %d changed", b, i); }
                VH_CHECK(p[i][size - 1] == (uint8_t) (i * 7 + round), "contents", "the last byte of block %d changed", i);
                memset(owner + (p[i] - mem), 0, (size_t) size);
                embc_pool_free(pool, p[i]);
            }
            vh_count("large_blocks", (uint64_t) count);
        }
        embc_pool_finalize(pool);
        free(mem); free(p); free(owner);
    }
}
const vh_scenario_t vh_scenarios[] = {{"large", s_large}, {0, 0}};
