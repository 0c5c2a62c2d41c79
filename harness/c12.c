/* C12: pooled objects live exactly as long as their references.
 *
 * ASSUME: reference counts reach the documented 16-bit maximum only in the dedicated scenario; obj_count * obj_size stays below 2 GiB
 */
#include "vh.h"
#include "embc/memory/object_pool.h"

const char *const vh_rule =
    "A case is one or two object pools of 1..20 objects of 1..700 bytes, with or without constructor and destructor, in exactly sized guarded memory filled with garbage, and 20..200 random "
    "allocations, reference increments and decrements (counts up to 40), releases of already released objects, objects that own other objects and release them from their destructor, and constructors that "
    "allocate. A ledger of constructor/destructor calls and reference counts is compared after every call; live objects carry checked patterns. Non-trivial: the pool ran out, an object was reused and "
    "one lived through more than one reference; distinct by configuration and operation sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 5000000 : 150000; }

#define N 32
typedef struct { uint8_t *p; int refs; uint64_t pat; int child; bool dead; } obj_t;
typedef struct { struct embc_object_pool_s *pool; uint8_t *mem, *owner; int32_t size, count, osize; bool ctor, dtor; obj_t o[N]; int n; } pool_t;
static pool_t pools[2]; static int np;
static int ctor_calls, dtor_calls; static void *ctor_arg[8], *dtor_arg[N + 1];
static bool nest_alloc, self_ref, alloc_in_dtor; static void *nested; static pool_t *cur;
static uint64_t recycled, exhausted, shared;
static uint8_t *freed[16]; static int freed_n;

static uint8_t pat_at(uint64_t pat, int i) { return (uint8_t) ((uint8_t) (pat >> ((i & 7) * 8)) + i * 13); }
static void check_obj(pool_t *a, obj_t *o) {
    for (int i = 0; i < a->osize; ++i) { VH_CHECK(o->p[i] == pat_at(o->pat, i), "contents", "byte %d of a live %d-byte object changed", i, a->osize); }
}
static void check_obj_but(pool_t *a, void *p) {   /* the object under destruction keeps its contents too */
    for (int i = 0; i < a->n; ++i) { if (a->o[i].p == p) { check_obj(a, &a->o[i]); } }
}
static void ctor(void *p) {
    VH_CHECK(ctor_calls < 8, "ctor:count", "constructor called %d times for one allocation", ctor_calls + 1);
    ctor_arg[ctor_calls++] = p;
    memset(p, 0x77, (size_t) cur->osize);
    if (self_ref) { self_ref = false; embc_object_pool_incr(p); }   /* registers itself somewhere */
    if (nest_alloc) { nest_alloc = false; nested = embc_object_pool_alloc(cur->pool); VH_CHECK(nested != p, "overlap", "an object under construction was handed out again"); }
}
static int find(pool_t *a, void *p) { for (int i = 0; i < a->n; ++i) { if (a->o[i].p == p) { return i; } } return -1; }
static bool release(pool_t *a, int i);
static void born(pool_t *a, uint8_t *p, bool zeroed);
static int live_count(pool_t *a);
static void dtor(void *p) {
    VH_CHECK(dtor_calls < N, "dtor:count", "too many destructor calls");
    dtor_arg[dtor_calls++] = p;
    int i = find(cur, p);
    VH_CHECK(i >= 0 && 0 == cur->o[i].refs && !cur->o[i].dead, "dtor:object", "destructor called for an object that is not being released");
    check_obj(cur, &cur->o[i]);
    cur->o[i].dead = true;
    if (alloc_in_dtor && live_count(cur) < cur->count) {   /* objects being destroyed still count */
        alloc_in_dtor = false;
        uint8_t *q = embc_object_pool_alloc(cur->pool);
        VH_CHECK(q != p, "overlap", "an object under destruction was handed out again");
        born(cur, q, !cur->ctor);
        check_obj_but(cur, p);
        vh_count("created_in_destructor", 1);
    }
    if (cur->o[i].child >= 0) {
        int c = cur->o[i].child; cur->o[i].child = -1;
        vh_count("released_from_destructor", 1);
        release(cur, c);
    }
}
static void born(pool_t *a, uint8_t *p, bool zeroed) {
    VH_CHECK(p >= a->mem && p + a->osize <= a->mem + a->size, "outside", "an object lies outside the pool");
    VH_CHECK(0 == ((uintptr_t) p & 7), "align", "an object is at %p", (void *) p);
    for (int i = 0; i < a->osize; ++i) { VH_CHECK(p[i] == (zeroed ? 0 : 0x77), zeroed ? "not-zeroed" : "not-constructed", "byte %d of a new object is 0x%02x", i, p[i]); }
    bool again = a->owner[p - a->mem] & 2;
    for (int i = 0; i < a->osize; ++i) { VH_CHECK(!(a->owner[p - a->mem + i] & 1), "overlap", "two live objects share a byte"); a->owner[p - a->mem + i] = 3; }
    recycled += again;
    int s = 0; while (s < a->n && a->o[s].p) { ++s; }
    if (s == a->n) { ++a->n; }
    obj_t *o = &a->o[s];
    o->p = p; o->refs = 1; o->pat = vh_u64(); o->child = -1; o->dead = false;
    for (int i = 0; i < a->osize; ++i) { p[i] = pat_at(o->pat, i); }
    for (int k = 0; k < freed_n; ++k) { if (freed[k] == p) { freed[k] = freed[--freed_n]; --k; } }
    vh_count("objects_created", 1);
}
static int live_count(pool_t *a) { int k = 0; for (int i = 0; i < a->n; ++i) { k += a->o[i].p != 0; } return k; }

static void create(pool_t *a) {
    void *volatile p = 0;
    int have = live_count(a);
    cur = a; ctor_calls = dtor_calls = 0; nested = 0;
    nest_alloc = a->ctor && have + 2 <= a->count && vh_chance(1, 6);
    bool nest = nest_alloc;
    self_ref = a->ctor && vh_chance(1, 6);
    bool self = self_ref && have < a->count;
    volatile int fatal = VH_FATAL(p = embc_object_pool_alloc(a->pool));
    vh_sig(1); vh_sig(nest);
    VH_CHECK(0 == dtor_calls, "dtor:on-alloc", "allocation called the destructor");
    if (have == a->count) { self_ref = false;
        VH_CHECK(fatal, "alloc:exhausted", "allocation %d of %d succeeded", have + 1, a->count);
        VH_CHECK(0 == ctor_calls, "ctor:exhausted", "a refused allocation called the constructor");
        ++exhausted; vh_count("exhaustion_refusals", 1);
        return;
    }
    VH_CHECK(!fatal && p, "alloc:refused", "allocation %d of %d failed", have + 1, a->count);
    VH_CHECK(ctor_calls == (a->ctor ? (nest ? 2 : 1) : 0), "ctor:count", "constructor called %d times", ctor_calls);
    if (a->ctor) { VH_CHECK(ctor_arg[0] == p, "ctor:object", "constructor called with another object"); }
    if (nest) { VH_CHECK(ctor_arg[1] == nested, "ctor:object", "constructor called with another object"); }
    self_ref = false;
    born(a, p, !a->ctor);
    if (self) { int s = find(a, p); ++a->o[s].refs; ++shared; }
    if (nested) { born(a, nested, false); }
    vh_trace("alloc -> +%d%s", (int) ((uint8_t *) p - a->mem), nest ? " (and one more from its constructor)" : "");
}
static void bury(pool_t *a, int i) {
    uint8_t *p = a->o[i].p;
    for (int k = 0; k < a->osize; ++k) { a->owner[p - a->mem + k] = 2; }
    a->o[i].p = 0;
    if (freed_n < 16) { freed[freed_n++] = p; }
}
static bool release(pool_t *a, int i) {
    obj_t *o = &a->o[i];
    check_obj(a, o);
    int before = dtor_calls;
    --o->refs;
    int refs = o->refs, child = o->child;
    bool gone = embc_object_pool_decr(o->p);
    VH_CHECK(gone == (0 == refs), "decr:result", "decrement to %d references returned %d", refs, gone);
    int calls = dtor_calls - before;
    VH_CHECK((calls > 0) == (gone && a->dtor), "dtor:count", "%d destructor calls after a decrement to %d references", calls, refs);
    if (gone && a->dtor) { VH_CHECK(dtor_arg[before] == o->p && o->dead && (child >= 0 || 1 == calls), "dtor:object", "destructor called for another object or more than once"); }
    if (gone) { vh_count("objects_released", 1); bury(a, i); }
    return gone;
}

static void step(void) {
    pool_t *a = &pools[vh_below((uint32_t) np)];
    int k = live_count(a), i = -1;
    if (k) { do { i = (int) vh_below((uint32_t) a->n); } while (!a->o[i].p); }
    cur = a; ctor_calls = dtor_calls = 0;
    int what = (int) vh_below(10);
    vh_sig((uint64_t) what << 8 | (uint8_t) i);
    if (!k || what < 4) { create(a); return; }
    bool owned = false;
    for (int j = 0; j < a->n; ++j) { owned = owned || (a->o[j].p && a->o[j].child == i); }
    if (what < 6) {
        if (a->o[i].refs < 40) { embc_object_pool_incr(a->o[i].p); ++a->o[i].refs; ++shared; vh_count("increments", 1); vh_trace("incr +%d", (int) (a->o[i].p - a->mem)); }
    } else if (what < 9) {
        if (owned && 1 == a->o[i].refs) { return; }   /* its owner holds the last reference */
        vh_trace("decr +%d of %d", (int) (a->o[i].p - a->mem), a->o[i].refs);
        alloc_in_dtor = a->dtor && vh_chance(1, 4);
        release(a, i);
        alloc_in_dtor = false;
    } else if (a->dtor && vh_chance(1, 2)) {
        int c = (int) vh_below((uint32_t) a->n);
        if (c == i || !a->o[c].p || a->o[i].child >= 0) { return; }
        for (int q = c; q >= 0; q = a->o[q].child) { if (q == i) { return; } }
        for (int j = 0; j < a->n; ++j) { if (a->o[j].p && a->o[j].child == c) { return; } }
        if (owned) { return; }
        a->o[i].child = c;   /* object i now owns one reference of c */
        embc_object_pool_incr(a->o[c].p); ++a->o[c].refs;
        vh_trace("+%d owns +%d", (int) (a->o[i].p - a->mem), (int) (a->o[c].p - a->mem));
    } else if (freed_n) {
        void *p = freed[vh_below((uint32_t) freed_n)];
        bool inc = vh_chance(1, 2);
        volatile int fatal = inc ? VH_FATAL(embc_object_pool_incr(p)) : VH_FATAL(embc_object_pool_decr(p));
        VH_CHECK(fatal && 0 == dtor_calls, "stale", "a reference operation on a released object was accepted");
        vh_count("stale_references_refused", 1);
    }
}

static void open_pool(pool_t *a, int count, int osize, bool c, bool d) {
    a->count = count; a->osize = osize; a->ctor = c; a->dtor = d; a->n = 0;
    a->size = embc_object_pool_instance_size(count, osize);
    a->mem = malloc((size_t) a->size);
    memset(a->mem, vh_u8(), (size_t) a->size);
    a->owner = calloc(1, (size_t) a->size);
    a->pool = (struct embc_object_pool_s *) a->mem;
    VH_CHECK(0 == embc_object_pool_initialize(a->pool, count, osize, c ? ctor : 0, d ? dtor : 0), "init", "initialize failed");
}

void vh_case(uint64_t index) {
    (void) index;
    np = vh_chance(1, 4) ? 2 : 1;
    recycled = exhausted = shared = 0; freed_n = 0;
    if (vh_chance(1, 100)) {
        uint8_t m[8];
        VH_CHECK(embc_object_pool_initialize(0, 1, 1, 0, 0) && embc_object_pool_initialize((void *) m, 0, 4, 0, 0)
                 && embc_object_pool_initialize((void *) m, 1, -(int32_t) vh_below(3), 0, 0), "init:args", "an invalid configuration was accepted");
    }
    for (int i = 0; i < np; ++i) {
        open_pool(&pools[i], (int) vh_range(1, vh_chance(1, 4) ? 20 : 5), (int) (vh_chance(1, 12) ? vh_range(120, 700) : vh_chance(1, 3) ? vh_range(1, 120) : vh_range(1, 20)), vh_chance(1, 2), vh_chance(2, 3));
        vh_sig((uint64_t) pools[i].count << 32 | (uint32_t) pools[i].osize); vh_sig((uint64_t) pools[i].ctor * 2 + pools[i].dtor);
        vh_trace("pool of %d x %d ctor=%d dtor=%d", pools[i].count, pools[i].osize, pools[i].ctor, pools[i].dtor);
    }
    int ops = (int) vh_range(20, vh_chance(1, 6) ? 200 : 60);
    for (int k = 0; k < ops; ++k) { step(); }
    for (int i = 0; i < np; ++i) {
        pool_t *a = &pools[i];
        /* destroy everything that nothing else owns until the pool is empty, then refill it */
        for (int guard = 0; live_count(a) && guard < 100000; ++guard) {
            int j = (int) vh_below((uint32_t) a->n);
            if (!a->o[j].p) { continue; }
            bool owned = false;
            for (int q = 0; q < a->n; ++q) { owned = owned || (a->o[q].p && a->o[q].child == j); }
            if (owned && 1 == a->o[j].refs) { continue; }
            cur = a; ctor_calls = dtor_calls = 0;
            release(a, j);
        }
        VH_CHECK(0 == live_count(a), "release", "objects remain");
        while (live_count(a) < a->count) { create(a); }
        create(a);
        for (int j = 0; j < a->n; ++j) { if (a->o[j].p) { check_obj(a, &a->o[j]); cur = a; ctor_calls = dtor_calls = 0; release(a, j); } }
        embc_object_pool_finalize(a->pool);
        VH_CHECK(VH_FATAL(embc_object_pool_finalize(a->pool)), "finalize:twice", "a finalized pool was finalized again without complaint");
        free(a->mem); free(a->owner);
    }
    if (recycled && exhausted && shared) { vh_nontrivial(); }
}

static void max_refs(void) {
    np = 1; freed_n = 0;
    pool_t *a = &pools[0];
    open_pool(a, 2, 9, true, true);
    create(a); create(a);
    cur = a; ctor_calls = dtor_calls = 0;
    for (int i = 1; i < 65535; ++i) { embc_object_pool_incr(a->o[0].p); ++a->o[0].refs; }
    VH_CHECK(VH_FATAL(embc_object_pool_incr(a->o[0].p)), "refs:max", "reference 65536 was accepted");
    VH_CHECK(!release(a, 0), "decr:result", "released early");
    while (a->o[0].p) { release(a, 0); }
    VH_CHECK(1 == dtor_calls, "dtor:count", "%d destructor calls", dtor_calls);
    check_obj(a, &a->o[1]);
    create(a);
    free(a->mem); free(a->owner);
}

static uint64_t l_ctor, l_dtor;
static void lctor(void *p) { ++l_ctor; *(uint8_t *) p = 1; }
static void ldtor(void *p) { VH_CHECK(*(uint8_t *) p == 2, "dtor:object", "destroyed object holds %d", *(uint8_t *) p); ++l_dtor; }
/* more objects than 16 bits count, and objects larger than 16 bits measure */
static void large(void) {
    static const struct { int32_t count, size; } G[] = {{66000, 4}, {300, 500}, {3, 70000}, {1, 1 << 20}};
    for (size_t v = 0; v < 2 * sizeof(G) / sizeof(G[0]); ++v) {
        size_t g = v / 2;
        bool c = v & 1;
        int32_t count = G[g].count, size = G[g].size, sz = embc_object_pool_instance_size(count, size);
        uint8_t *mem = malloc((size_t) sz), **p = calloc((size_t) count, sizeof(*p)), *owner = calloc(1, (size_t) sz);
        memset(mem, 0x5c, (size_t) sz);
        struct embc_object_pool_s *pool = (struct embc_object_pool_s *) mem;
        embc_object_pool_initialize(pool, count, size, c ? lctor : 0, ldtor);
        l_ctor = l_dtor = 0;
        for (uint64_t round = 1; round <= 2; ++round) {
            for (int32_t i = 0; i < count; ++i) {
                p[i] = embc_object_pool_alloc(pool);
                VH_CHECK(p[i] && p[i] >= mem && p[i] + size <= mem + sz, "outside", "object %d of %d x %d is not inside the pool", i, count, size);
                VH_CHECK(!owner[p[i] - mem] && !owner[p[i] - mem + size - 1], "overlap", "object %d overlaps another one", i);
                VH_CHECK(p[i][0] == c, "ctor", "object %d was not constructed", i);
                for (int32_t b = 1; !c && b < size; ++b) { VH_CHECK(!p[i][b], "not-zeroed", "byte %d of new object %d of %d bytes is 0x%02x", b, i, size, p[i][b]); }
                memset(owner + (p[i] - mem), 1, (size_t) size); memset(p[i] + 1, (int) i, (size_t) size - 1); p[i][0] = 2;
            }
            VH_CHECK(l_ctor == (c ? round * (uint64_t) count : 0), "ctor:count", "%llu constructor calls", (unsigned long long) l_ctor);
            for (int32_t i = 0; i < count; i += 3) { embc_object_pool_incr(p[i]); }
            for (int32_t k = 0; k < 2; ++k) {
                for (int32_t i = 0; i < count; ++i) {
                    if (k && i % 3) { continue; }
                    for (int32_t b = 1; b < size; b += b < 16 ? 1 : 97) { VH_CHECK(p[i][b] == (uint8_t) i, "contents", "byte %d of object %d changed", b, i); }
                    bool last = k || i % 3;
                    VH_CHECK(last == !!embc_object_pool_decr(p[i]), "decr:result", "object %d, release %d", i, k + 1);
                }
            }
            VH_CHECK(l_dtor == round * (uint64_t) count, "dtor:count", "%llu destructor calls", (unsigned long long) l_dtor);
            memset(owner, 0, (size_t) sz);
            vh_count("large_objects", (uint64_t) count);
        }
        embc_object_pool_finalize(pool);
        free(mem); free(p); free(owner);
    }
}
const vh_scenario_t vh_scenarios[] = {{"max_references", max_refs}, {"large", large}, {0, 0}};
