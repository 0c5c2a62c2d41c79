/* C09: the buffer allocator hands out disjoint, adequate, recyclable buffers.
 *
 * ASSUME: single-threaded use; at most the eight documented size classes (32..4096 bytes)
 */
#include "vh.h"
#include "embc/memory/buffer.h"
#include "embc/platform.h"

const char *const vh_rule =
    "A case is one or two allocators with 0..8 size classes of 0..6 buffers each (one case in 200: up to 400 each; one scenario: 66000), placed in exactly sized guarded memory, and 20..200 random operations: allocations "
    "of edge, random, zero, negative, too large and huge sizes through both entry points, frees in any order (also of buffers still linked in a user list and through a wrapped "
    "manager), then a full drain counting the buffers of every class. A byte ownership map checks disjointness and every live buffer carries a checked pattern. "
    "Non-trivial: at least one class ran out and one freed buffer was obtained again; distinct by the operation sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 3000000 : 80000; }

#define LIVE_MAX 1500
typedef struct { struct embc_buffer_s *b; int cls, al; uint64_t pat; struct embc_buffer_manager_s const *mgr; bool in_list; uint16_t id, flags; } live_t;
typedef struct {
    struct embc_buffer_allocator_s *a; uint8_t *owner; embc_size_t size, sizes[8]; int n, used[8]; bool heap; int64_t seen_free;
} al_t;
static al_t als[2]; static int al_n;
static live_t live[2 * LIVE_MAX]; static int live_n;
static struct embc_list_s user_list;
static uint64_t recycled, exhausted;
static uint8_t scratch[4096];

static void pattern(struct embc_buffer_s *b, uint64_t pat, bool check) {
    for (int i = 0; i < b->capacity; ++i) { scratch[i] = (uint8_t) (pat >> ((i & 7) * 8)) ^ (uint8_t) (i * 7); }
    if (check) {
        VH_CHECK(0 == memcmp(scratch, b->data, b->capacity), "contents", "contents of a live %d-byte buffer changed", b->capacity);
    } else { memcpy(b->data, scratch, b->capacity); }
}

static void claim(al_t *a, void *p, size_t n, bool take) {
    uint8_t *base = (uint8_t *) a->a, *q = p;
    VH_CHECK(q >= base && q + n <= base + a->size, "outside", "a buffer lies outside the allocator memory");
    for (size_t i = (size_t) (q - base); i < (size_t) (q - base) + n; ++i) {
        VH_CHECK((a->owner[i] & 1) == (take ? 0 : 1), "overlap", "two live buffers share byte %zu of the allocator", i);
        a->owner[i] = (uint8_t) (take ? 3 : 2);   /* bit 1: was used before */
    }
}

static int class_of(embc_size_t size) { int c = 0; while (c < 8 && ((embc_size_t) 32 << c) < size) { ++c; } return c; }

static void do_alloc(int ai, embc_size_t size, bool unsafe) {
    al_t *a = &als[ai];
    struct embc_buffer_s *b = 0;
    vh_sig(1); vh_sig((uint64_t) size); vh_sig(unsafe);
    volatile int fatal = VH_FATAL(b = unsafe ? embc_buffer_alloc_unsafe(a->a, size) : embc_buffer_alloc(a->a, size));
    int cls = size > 0 ? class_of(size) : -1;
    vh_trace("alloc%s %d size=%lld class=%d -> %s", unsafe ? "_unsafe" : "", ai, (long long) size, cls, fatal ? "fatal" : b ? "buffer" : "null");
    if (size <= 0) {
        VH_CHECK(fatal || (unsafe && !b), "alloc:nonpositive", "allocation of %lld bytes was accepted", (long long) size);
        vh_count("alloc_refused_nonpositive", 1);
        return;
    }
    if (cls >= a->n) {
        VH_CHECK(fatal || (unsafe && !b), "alloc:too-large", "allocation of %lld bytes accepted by an allocator with %d classes", (long long) size, a->n);
        vh_count("alloc_refused_too_large", 1);
        return;
    }
    if (a->used[cls] >= a->sizes[cls]) {
        VH_CHECK(unsafe ? (!fatal && !b) : fatal, "alloc:exhausted", "class %d has all %d buffers in use yet allocation %s", cls, (int) a->sizes[cls],
                 fatal ? "was fatal" : b ? "succeeded" : "returned null");
        vh_count("alloc_refused_exhausted", 1);
        ++exhausted;
        return;
    }
    VH_CHECK(!fatal && b, "alloc:refused", "class %d has %d of %d buffers in use but allocation of %lld bytes %s", cls, a->used[cls], (int) a->sizes[cls],
             (long long) size, fatal ? "was fatal" : "returned null");
    VH_CHECK(b->capacity >= size, "alloc:small", "asked for %lld bytes, capacity is %d", (long long) size, b->capacity);
    VH_CHECK(b->capacity == (32 << cls), "alloc:class", "asked for %lld bytes, got capacity %d", (long long) size, b->capacity);
    VH_CHECK(0 == b->cursor && 0 == b->length && 0 == b->reserve && 0 == b->buffer_id && 0 == b->flags, "alloc:not-empty",
             "cursor=%d length=%d reserve=%d id=%d flags=%d", b->cursor, b->length, b->reserve, b->buffer_id, b->flags);
    VH_CHECK(embc_list_is_empty(&b->item), "alloc:linked", "the list item of a fresh buffer is linked");
    VH_CHECK(0 == ((uintptr_t) b->data & 7) && 0 == ((uintptr_t) b & 7), "alloc:align", "buffer not aligned");
    bool again = a->owner[(uint8_t *) b - (uint8_t *) a->a] & 2;
    claim(a, b, sizeof(*b), true);
    claim(a, b->data, b->capacity, true);
    if (again) { ++recycled; }
    ++a->used[cls];
    live_t *l = &live[live_n++];
    l->b = b; l->cls = cls; l->al = ai; l->pat = vh_u64(); l->mgr = b->manager; l->in_list = false;
    pattern(b, l->pat, false);
    l->id = b->buffer_id = (uint16_t) vh_u32(); l->flags = b->flags = (uint16_t) vh_u32();
    b->length = (uint16_t) vh_below(b->capacity + 1u); b->cursor = (uint16_t) vh_below(b->length + 1u); b->reserve = (uint16_t) vh_below(b->capacity + 1u);
    if (vh_chance(1, 4)) { embc_list_add_tail(&user_list, &b->item); l->in_list = true; }
    vh_count("alloc_ok", 1);
}

static int wrapper_calls;
typedef struct { struct embc_buffer_manager_s m; struct embc_buffer_manager_s const *orig; } wrap_t;
static void wrap_free(struct embc_buffer_manager_s const *self, struct embc_buffer_s *b) {
    wrap_t *w = (wrap_t *) self;
    ++wrapper_calls;
    b->manager = w->orig;
    w->orig->free(w->orig, b);
}

static void do_free(int i) {
    live_t l = live[i];
    al_t *a = &als[l.al];
    live[i] = live[--live_n];
    pattern(l.b, l.pat, true);
    VH_CHECK(l.b->buffer_id == l.id && l.b->flags == l.flags && l.b->manager == l.mgr && l.b->capacity == (32 << l.cls), "contents", "fields of a live buffer changed");
    claim(a, l.b->data, l.b->capacity, false);
    claim(a, l.b, sizeof(*l.b), false);
    --a->used[l.cls];
    vh_sig(2); vh_sig((uint64_t) i);
    vh_trace("free %d class=%d linked=%d", l.al, l.cls, l.in_list);
    if (vh_chance(1, 8)) {
        wrap_t w = {{wrap_free}, l.b->manager};
        l.b->manager = &w.m;
        wrapper_calls = 0;
        embc_buffer_free(l.b);
        VH_CHECK(1 == wrapper_calls, "free:wrapper", "the wrapped manager was called %d times", wrapper_calls);
    } else { embc_buffer_free(l.b); }
    vh_count("frees", 1);
}

static void audit(void) {
    int linked = 0, seen = 0;
    for (int i = 0; i < live_n; ++i) { pattern(live[i].b, live[i].pat, true); linked += live[i].in_list; }
    struct embc_list_s *it;
    embc_list_foreach(&user_list, it) {
        ++seen;
        struct embc_buffer_s *b = embc_list_entry(it, struct embc_buffer_s, item);
        bool ok = false;
        for (int i = 0; i < live_n; ++i) { ok = ok || (live[i].b == b && live[i].in_list); }
        VH_CHECK(ok && seen <= linked, "free:user-list", "the user list holds a buffer that is not live");
    }
    VH_CHECK(seen == linked, "free:user-list", "the user list holds %d of %d live linked buffers", seen, linked);
}

static embc_size_t pick_size(al_t *a) {
    switch (vh_below(8)) {
        case 0: return (embc_size_t) vh_edge64();
        case 1: return vh_range(-3, 40);
        case 2: return vh_range(1, 5000);
        case 3: return ((embc_size_t) 32 << (a->n ? a->n - 1 : 0)) + vh_range(-1, 2);
        default: return ((embc_size_t) 32 << vh_below((uint32_t) a->n + 1)) - (vh_chance(1, 2) ? vh_range(0, 1) : vh_range(-1, 16));
    }
}

static int many;   /* buffers per class, 0 for the small configurations */
static void make(al_t *a) {
    memset(a, 0, sizeof(*a));
    a->n = vh_chance(1, 20) ? 0 : (int) vh_range(1, 8);
    if (a->n > 5 && vh_chance(1, 2)) { a->n = (int) vh_range(1, 5); }
    embc_size_t *sizes = vh_exact(0, (size_t) (a->n ? a->n : 1) * sizeof(embc_size_t));
    embc_size_t total = 0;
    for (int i = 0; i < a->n; ++i) {
        a->sizes[i] = vh_chance(1, 4) ? 0 : (embc_size_t) vh_below(many && i < 3 ? (uint32_t) many : 7);
        sizes[i] = a->sizes[i];
        total += a->sizes[i];
        vh_trace("class %d: %d buffers", 32 << i, (int) a->sizes[i]);
        vh_sig((uint64_t) a->sizes[i]);
    }
    vh_sig((uint64_t) a->n);
    a->size = embc_buffer_allocator_instance_size(sizes, a->n);
    a->heap = vh_chance(1, 2);
    if (a->heap) {
        int64_t before = vh_heap_live();
        a->a = embc_buffer_allocator_new(sizes, a->n);
        VH_CHECK(vh_heap_live() == before + 1, "new:heap", "new made %lld heap allocations", (long long) (vh_heap_live() - before));
    } else {
        a->a = malloc((size_t) a->size);
        memset(a->a, vh_u8(), (size_t) a->size);
        embc_buffer_allocator_initialize(a->a, sizes, a->n);
    }
    free(sizes);   /* the allocator must not keep the caller's array */
    a->owner = calloc(1, (size_t) a->size);
}

void vh_case(uint64_t index) {
    (void) index;
    many = vh_chance(1, 200) ? (int) vh_range(100, 400) : 0;
    al_n = !many && vh_chance(1, 4) ? 2 : 1;
    live_n = 0; recycled = exhausted = 0;
    embc_list_initialize(&user_list);
    for (int i = 0; i < al_n; ++i) { make(&als[i]); }
    int ops = (int) vh_range(20, vh_chance(1, 6) ? 200 : 70);
    if (many) { ops *= 20; vh_count("large_pools", 1); }
    int bias = (int) vh_range(2, 8);
    for (int k = 0; k < ops; ++k) {
        if (live_n < (many ? LIVE_MAX : 126) && (!live_n || vh_below(10) < (uint32_t) bias)) {
            int ai = (int) vh_below((uint32_t) al_n);
            do_alloc(ai, pick_size(&als[ai]), vh_chance(1, 2));
        } else if (live_n) { do_free((int) vh_below((uint32_t) live_n)); }
        if (vh_chance(1, many ? 300 : 16)) { bias = (int) vh_range(1, 9); audit(); }
    }
    audit();
    while (live_n) { do_free((int) vh_below((uint32_t) live_n)); }
    audit();
    /* everything must be obtainable again, no more and no less */
    for (int i = 0; i < al_n; ++i) {
        for (int c = 0; c < als[i].n; ++c) {
            for (embc_size_t n = 0; n <= als[i].sizes[c]; ++n) { do_alloc(i, (32 << c) - (c ? vh_range(0, (32 << c) / 2 - 1) : vh_range(0, 31)), true); }
        }
    }
    audit();
    while (live_n) { do_free(live_n - 1); }
    for (int i = 0; i < al_n; ++i) {
        embc_buffer_allocator_finalize(als[i].a);
        if (als[i].heap) { embc_free(als[i].a); } else { free(als[i].a); }
        free(als[i].owner);
    }
    vh_count("buffers_recycled", recycled);
    if (recycled && exhausted) { vh_nontrivial(); }
}

/* more buffers of one class than a 16-bit counter holds */
static void sc_wide(void) {
    enum { N = 66000 };
    embc_size_t sizes[2] = {N, 3};
    struct embc_buffer_allocator_s *a = embc_buffer_allocator_new(sizes, 2);
    struct embc_buffer_s **b = malloc(sizeof(*b) * N);
    for (int round = 0; round < 3; ++round) {
        for (int i = 0; i < N; ++i) {
            b[i] = embc_buffer_alloc_unsafe(a, 32);
            VH_CHECK(b[i] && b[i]->capacity == 32 && !b[i]->length, "alloc:refused", "buffer %d of %d not available in round %d", i, N, round);
            memset(b[i]->data, 0, 32); memcpy(b[i]->data, &i, sizeof(i));
        }
        VH_CHECK(!embc_buffer_alloc_unsafe(a, 32), "alloc:exhausted", "more buffers than configured");
        for (int i = 0; i < 3; ++i) { VH_CHECK((b[0]->manager != 0) && embc_buffer_alloc_unsafe(a, 33 + i * 10) == 0 ? round > 0 : true, "alloc:refused", "the other class is affected"); }
        for (int i = 0; i < N; ++i) { int v; memcpy(&v, b[i]->data, sizeof(v)); VH_CHECK(v == i, "overlap", "buffer %d holds %d", i, v); }
        for (int i = 0; i < N; ++i) { embc_buffer_free(b[round == 1 ? N - 1 - i : i]); }
        vh_count("wide_buffers", N);
    }
    free(b); embc_buffer_allocator_finalize(a); embc_free(a); vh_nontrivial();
}
const vh_scenario_t vh_scenarios[] = {{"wide", sc_wide}, {0, 0}};
