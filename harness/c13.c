/* C13: the bitmap block allocator finds space whenever it exists.
 *
 * ASSUME: ranges are freed with the size they were allocated with, as documented
 */
#include "vh.h"
#include "embc/memory/block.h"

const char *const vh_rule =
    "A case is a region of 1..900 bytes managed in blocks of 1..40 bytes (region size not necessarily a multiple), region and bookkeeping both in exactly sized guarded memory, and 30..250 random "
    "allocations (edge, random, larger than the region, up to INT32_MAX) and frees in random order, with alternating fill and fragment phases. A block ownership map gives the exact success condition "
    "(a free run of enough blocks exists); live ranges carry checked patterns. Non-trivial: an allocation was refused and another succeeded in a hole below a used block; distinct by operation sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 2500000 : 60000; }

typedef struct { uint8_t *p; int32_t size; int first, blocks; uint64_t pat; } rng_t;
static uint8_t *mem; static struct embc_mblock_s *s; static int32_t mem_size, bsz; static int count, live_n;
static rng_t live[1024]; static uint8_t used[1024];
static uint64_t refused, holes;

static uint8_t pat_at(uint64_t pat, int i) { return (uint8_t) ((uint8_t) (pat >> ((i & 7) * 8)) + i * 13); }
static void check_rng(rng_t *r) {
    for (int i = 0; i < r->size; ++i) { VH_CHECK(r->p[i] == pat_at(r->pat, i), "contents", "byte %d of a live %d-byte range changed", i, r->size); }
}
/* a second allocator over other memory, used in between */
static struct embc_mblock_s *by_s; static uint8_t *by_mem, *by_p[3]; static int by_n;
static void bystander(void) {
    if (by_n < 3 && vh_chance(1, 2)) {
        uint8_t *p = embc_mblock_alloc(by_s, 20);
        VH_CHECK(p >= by_mem && p + 20 <= by_mem + 160 && (p - by_mem) % 16 == 0, "bystander", "another allocator's range is outside its memory");
        for (int i = 0; i < by_n; ++i) { VH_CHECK(p + 32 <= by_p[i] || by_p[i] + 32 <= p, "bystander", "another allocator's ranges overlap"); }
        by_p[by_n++] = p; memset(p, 0xb7, 20);
    } else if (by_n) {
        --by_n;
        for (int i = 0; i < 20; ++i) { VH_CHECK(by_p[by_n][i] == 0xb7, "bystander", "another allocator's live range changed"); }
        VH_CHECK(!VH_FATAL(embc_mblock_free(by_s, by_p[by_n], 20)), "bystander", "another allocator refused its own range");
    }
    vh_count("bystander_operations", 1);
}
static void get(int32_t size, bool unsafe) {
    void *volatile p = 0;
    volatile int fatal = VH_FATAL(p = unsafe ? embc_mblock_alloc_unsafe(s, size) : embc_mblock_alloc(s, size));
    vh_sig((uint64_t) (uint32_t) size << 1 | unsafe);
    vh_trace("alloc%s %d -> %s %d", unsafe ? "_unsafe" : "", size, fatal ? "fatal" : p ? "block" : "null", p ? (int) (((uint8_t *) p - mem) / bsz) : -1);
    if (size <= 0) {
        VH_CHECK(fatal, "alloc:nonpositive", "allocation of %d bytes was accepted", size);
        return;
    }
    int64_t need = ((int64_t) size + bsz - 1) / bsz;
    int run = 0, best = 0;
    for (int i = 0; i < count; ++i) { run = used[i] ? 0 : run + 1; if (run > best) { best = run; } }
    if (need > best) {
        VH_CHECK(unsafe ? (!fatal && !p) : fatal, "alloc:no-room", "%d bytes need %lld blocks, the longest free run is %d, yet allocation %s", size, (long long) need, best,
                 fatal ? "was fatal" : p ? "succeeded" : "returned null");
        ++refused; vh_count("refused", 1);
        return;
    }
    VH_CHECK(!fatal && p, "alloc:refused", "%d bytes need %lld blocks and a free run of %d of %d exists, yet allocation %s", size, (long long) need, best, count, fatal ? "was fatal" : "returned null");
    uint8_t *b = p;
    VH_CHECK(b >= mem && b + size <= mem + mem_size, "outside", "range outside the region");
    VH_CHECK(0 == (b - mem) % bsz, "align", "range at offset %d is not block aligned", (int) (b - mem));
    rng_t *r = &live[live_n++];
    r->p = b; r->size = size; r->first = (int) ((b - mem) / bsz); r->blocks = (int) need; r->pat = vh_u64();
    for (int i = 0; i < r->blocks; ++i) { VH_CHECK(!used[r->first + i], "overlap", "block %d is handed out twice", r->first + i); used[r->first + i] = 1; }
    for (int i = r->first + r->blocks; i < count; ++i) { if (used[i]) { ++holes; vh_count("allocated_below_used", 1); break; } }
    for (int i = 0; i < size; ++i) { b[i] = pat_at(r->pat, i); }
    vh_count("allocs", 1);
}
static void put(int i) {
    rng_t r = live[i];
    check_rng(&r);
    live[i] = live[--live_n];
    for (int k = 0; k < r.blocks; ++k) { used[r.first + k] = 0; }
    vh_sig(0x10000000u + (uint64_t) i);
    vh_trace("free block %d (%d bytes)", r.first, r.size);
    VH_CHECK(!VH_FATAL(embc_mblock_free(s, r.p, r.size)), "free:refused", "freeing a live range was fatal: %s", vh_fatal_msg);
    vh_count("frees", 1);
}

void vh_case(uint64_t index) {
    (void) index;
    bsz = (int32_t) (vh_chance(1, 3) ? 1 << vh_below(6) : vh_range(1, 40));
    count = (int) (vh_chance(1, 4) ? vh_range(1, 9) : vh_range(1, vh_chance(1, 4) ? 400 : 70));
    mem_size = bsz * count + (int32_t) vh_below((uint32_t) bsz);
    mem = vh_exact(0, (size_t) mem_size);
    memset(mem, 0x5a, (size_t) mem_size);
    int32_t sz = embc_mblock_instance_size(mem_size, bsz);
    s = vh_exact(0, (size_t) sz);
    memset(s, 0xff, (size_t) sz);
    VH_CHECK(0 == embc_mblock_initialize(s, mem, mem_size, bsz), "init", "initialize failed");
    memset(used, 0, sizeof(used)); live_n = 0; refused = holes = 0;
    bool by = vh_chance(1, 4); by_n = 0;
    if (by) {
        by_mem = vh_exact(0, 160); by_s = vh_exact(0, (size_t) embc_mblock_instance_size(160, 16));
        memset(by_mem, 1, 160); memset(by_s, 0xff, (size_t) embc_mblock_instance_size(160, 16));
        embc_mblock_initialize(by_s, by_mem, 160, 16);
    }
    vh_sig((uint64_t) mem_size << 32 | (uint32_t) bsz);
    vh_trace("region %d bytes, blocks of %d", mem_size, bsz);
    int ops = (int) vh_range(30, 250), bias = 8, typical = (int) vh_range(1, 1 + count / 3);
    for (int k = 0; k < ops; ++k) {
        if (by && vh_chance(1, 3)) { bystander(); }
        if (!live_n || (vh_below(10) < (uint32_t) bias && live_n < 1000)) {
            int32_t size;
            switch (vh_below(12)) {
                case 0: size = (int32_t) vh_range(1, mem_size + 2 * bsz); break;
                case 1: size = vh_chance(1, 2) ? INT32_MAX - (int32_t) vh_below(40) : (int32_t) vh_edge64(); break;
                case 2: size = (int32_t) vh_range(1, count) * bsz; break;
                default: size = (int32_t) vh_range(1, typical) * bsz - (int32_t) vh_below((uint32_t) bsz); break;
            }
            get(size, vh_chance(3, 4));
        } else { put((int) vh_below((uint32_t) live_n)); }
        if (vh_chance(1, 20)) { bias = (int) vh_range(1, 9); typical = (int) vh_range(1, 1 + count / 3); for (int i = 0; i < live_n; ++i) { check_rng(&live[i]); } }
    }
    while (live_n) { put((int) vh_below((uint32_t) live_n)); }
    get(count * bsz, true);   /* everything coalesced again */
    get(1, true);
    put(0);
    for (int i = 0; i < count; ++i) { get(bsz, true); }
    get(1, vh_chance(1, 2));
    while (live_n) { put(live_n - 1); }
    embc_mblock_finalize(s);
    free(s); free(mem);
    if (by) { while (by_n) { bystander(); } free(by_s); free(by_mem); }
    if (refused && holes) { vh_nontrivial(); }
}

/* more blocks than 16 bits count, blocks larger than 16 bits measure */
static void s_large(void) {
    static const struct { int32_t count, size; } G[] = {{70000, 1}, {66000, 3}, {5, 70000}, {40, 65536}, {600000, 1}, {65540, 2}, {32772, 4}};
    for (size_t g = 0; g < sizeof(G) / sizeof(G[0]); ++g) {
        int32_t n = G[g].count, b = G[g].size, total = n * b, sz = embc_mblock_instance_size(total, b);
        uint8_t *area = vh_exact(0, (size_t) total); struct embc_mblock_s *a = vh_exact(0, (size_t) sz);
        memset(a, 0xff, (size_t) sz); memset(area, 1, (size_t) total);
        VH_CHECK(0 == embc_mblock_initialize(a, area, total, b), "init", "initialize failed");
        uint8_t *whole = embc_mblock_alloc_unsafe(a, total);
        VH_CHECK(whole == area, "alloc:refused", "the whole region of %d x %d bytes cannot be allocated", n, b);
        memset(whole, 2, (size_t) total);
        VH_CHECK(!embc_mblock_alloc_unsafe(a, 1), "alloc:no-room", "a byte was allocated from a full region");
        embc_mblock_free(a, whole, total);
        for (int k = 0; k < 2; ++k) {
            int32_t hi = k ? n / 4 + 1 : 2, lo = n - hi;      /* a large range, a smaller one, then the large hole again */
            uint8_t *x = embc_mblock_alloc_unsafe(a, lo * b - (b - 1)), *y = embc_mblock_alloc_unsafe(a, hi * b);
            VH_CHECK(x && y, "alloc:refused", "ranges of %d and %d of %d blocks do not fit", lo, hi, n);
            VH_CHECK(x < y ? x + (size_t) lo * (size_t) b <= y : y + (size_t) hi * (size_t) b <= x, "overlap", "ranges of %d and %d of %d blocks at %d and %d", lo, hi, n, (int) (x - area), (int) (y - area));
            VH_CHECK(!embc_mblock_alloc_unsafe(a, 1), "alloc:no-room", "a byte was allocated from a full region");
            embc_mblock_free(a, x, lo * b - (b - 1));
            VH_CHECK(!embc_mblock_alloc_unsafe(a, (lo + 1) * b), "alloc:no-room", "%d blocks were found in a hole of %d", lo + 1, lo);
            uint8_t *z = embc_mblock_alloc_unsafe(a, lo * b);
            VH_CHECK(z == x, "alloc:refused", "the hole of %d blocks was not found again", lo);
            embc_mblock_free(a, y, hi * b); embc_mblock_free(a, z, lo * b);
        }
        for (int f = 1; f < 12 && n > 100; ++f) {       /* the rest behind a small range at the front */
            uint8_t *x = embc_mblock_alloc_unsafe(a, f * b), *y = embc_mblock_alloc_unsafe(a, (n - f) * b);
            VH_CHECK(x == area && y == area + f * b, "alloc:refused", "the %d blocks behind a range of %d were not found", n - f, f);
            VH_CHECK(!embc_mblock_alloc_unsafe(a, 1), "alloc:no-room", "a byte was allocated from a full region");
            embc_mblock_free(a, x, f * b); embc_mblock_free(a, y, (n - f) * b);
        }
        VH_CHECK(embc_mblock_alloc_unsafe(a, total) == area, "alloc:refused", "the whole region cannot be allocated again");
        vh_count("large_regions", 1);
        embc_mblock_finalize(a);
        free(a); free(area);
    }
}
const vh_scenario_t vh_scenarios[] = {{"large", s_large}, {0, 0}};
