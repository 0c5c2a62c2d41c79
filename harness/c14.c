/* C14: the integer map behaves as a map for every key and history.
 *
 * ASSUME: allocation never fails; the map is not freed while an iterator exists
 */
#include "vh.h"
#include "embc/collections/intmap.h"
#include "embc/ec.h"
#include "embc/platform.h"

typedef struct { int x; } thing_t;
EMBC_INTMAP_DECLARE(tmap, thing_t *)
EMBC_INTMAP_DEFINE_STRUCT(tmap)
EMBC_INTMAP_DEFINE(tmap, thing_t *)

const char *const vh_rule =
    "A case is one integer map driven through up to 3000 random put/get/remove/length calls over a universe of up to 900 keys drawn from one or several families (consecutive, multiples of powers of "
    "two so that whole bins collide before and after growth, random 64-bit, negative, extreme), with optional out parameters present or null, through the generic and the typed interface, growing "
    "and shrinking in phases. Every result is compared with a dictionary; a heap ledger checks that removing everything returns the entries and freeing returns everything. Non-trivial: the map "
    "grew past 14 entries (so it resized) and at least one replacement and one removal happened; distinct by the key set and operation sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 1000000 : 30000; }

static embc_size_t keys[1024]; static void *val[1024]; static bool present[1024]; static int key_n, size_;
static struct embc_intmap_s *m; static struct tmap_s *tm;
static uint64_t replaced, removed; static int peak;

static int cmp(const void *a, const void *b) { embc_size_t x = *(const embc_size_t *) a, y = *(const embc_size_t *) b; return x < y ? -1 : x > y; }
static void make_keys(int want) {
    key_n = 0;
    int families = (int) vh_range(1, 3);
    for (int f = 0; f < families; ++f) {
        int n = want / families, kind = (int) vh_below(6), sh = (int) vh_below(20);
        embc_size_t base = vh_chance(1, 2) ? (embc_size_t) vh_below(64) : (embc_size_t) vh_edge64() / 4;
        for (int i = 0; i < n; ++i) {
            embc_size_t k;
            switch (kind) {
                case 0: k = base + i; break;
                case 1: k = base + ((embc_size_t) i << sh); break;
                case 2: k = (embc_size_t) vh_u64(); break;
                case 3: k = (embc_size_t) vh_edge64(); break;
                case 4: k = -(embc_size_t) i; break;
                default: k = base + ((embc_size_t) i << (3 + 2 * vh_below(4))); break;
            }
            keys[key_n++] = k;
        }
    }
    qsort(keys, (size_t) key_n, sizeof(keys[0]), cmp);
    int d = 0;
    for (int i = 0; i < key_n; ++i) { if (!i || keys[i] != keys[i - 1]) { keys[d++] = keys[i]; } }
    key_n = d;
    memset(present, 0, sizeof(present)); size_ = 0;
}
static void *fresh_value(void) { return vh_chance(1, 10) ? 0 : (void *) (uintptr_t) vh_u64(); }
#define OUT_NONE ((void *) (uintptr_t) 0xdeadbeef12345678ULL)

static void op_put(int i) {
    void *v = fresh_value(); thing_t *old = OUT_NONE; bool want = vh_chance(3, 4);
    int rc = tm ? tmap_put(tm, keys[i], v, want ? &old : 0) : embc_intmap_put(m, keys[i], v, want ? (void **) &old : 0);
    VH_CHECK(0 == rc, "put:rc", "put returned %d", rc);
    if (want) {
        void *e = present[i] ? val[i] : 0;
        VH_CHECK(old == e, "put:old", "put of %s key %lld reported the old value %p, expected %p", present[i] ? "an existing" : "a new", (long long) keys[i], (void *) old, e);
    }
    if (present[i]) { ++replaced; vh_count("replacements", 1); } else { ++size_; present[i] = true; vh_count("insertions", 1); }
    val[i] = v;
    if (size_ > peak) { peak = size_; }
}
static void op_get(int i) {
    thing_t *v = OUT_NONE; bool want = vh_chance(9, 10);
    int rc = tm ? tmap_get(tm, keys[i], want ? &v : 0) : embc_intmap_get(m, keys[i], want ? (void **) &v : 0);
    VH_CHECK(rc == (present[i] ? 0 : EMBC_ERROR_NOT_FOUND), "get:rc", "get of %s key %lld returned %d (%d entries)", present[i] ? "a present" : "an absent", (long long) keys[i], rc, size_);
    if (want && present[i]) { VH_CHECK(v == val[i], "get:value", "get of key %lld returned %p, expected %p", (long long) keys[i], (void *) v, val[i]); }
    vh_count(present[i] ? "hits" : "misses", 1);
}
static void op_remove(int i) {
    thing_t *v = OUT_NONE; bool want = vh_chance(3, 4);
    int rc = tm ? tmap_remove(tm, keys[i], want ? &v : 0) : embc_intmap_remove(m, keys[i], want ? (void **) &v : 0);
    VH_CHECK(rc == (present[i] ? 0 : EMBC_ERROR_NOT_FOUND), "remove:rc", "remove of %s key %lld returned %d", present[i] ? "a present" : "an absent", (long long) keys[i], rc);
    if (present[i]) {
        if (want) { VH_CHECK(v == val[i], "remove:value", "remove of key %lld returned %p, expected %p", (long long) keys[i], (void *) v, val[i]); }
        present[i] = false; --size_; ++removed; vh_count("removals", 1);
    }
}
/* a second map with the same keys and other values, used in between */
static struct embc_intmap_s *by; static void *by_val[8]; static bool by_present[8];
static void bystander(void) {
    int i = (int) vh_below(8); void *v = OUT_NONE; int rc; embc_size_t n = 0;
    switch (vh_below(3)) {
        case 0: by_val[i] = fresh_value(); rc = embc_intmap_put(by, keys[i], by_val[i], 0); VH_CHECK(!rc, "bystander", "put in another map returned %d", rc); by_present[i] = true; break;
        case 1: rc = embc_intmap_remove(by, keys[i], &v); VH_CHECK(rc == (by_present[i] ? 0 : EMBC_ERROR_NOT_FOUND) && (rc || v == by_val[i]), "bystander", "remove from another map"); by_present[i] = false; break;
        default: rc = embc_intmap_get(by, keys[i], &v); VH_CHECK(rc == (by_present[i] ? 0 : EMBC_ERROR_NOT_FOUND) && (rc || v == by_val[i]), "bystander", "get from another map"); break;
    }
    for (int k = 0; k < 8; ++k) { n += by_present[k]; }
    VH_CHECK(embc_intmap_length(by) == n, "bystander", "another map has length %lld, %lld keys are present", (long long) embc_intmap_length(by), (long long) n);
    vh_count("bystander_operations", 1);
}
static void op_length(void) {
    embc_size_t n = tm ? tmap_length(tm) : embc_intmap_length(m);
    VH_CHECK(n == size_, "length", "length is %lld, %d keys are present", (long long) n, size_);
}

void vh_case(uint64_t index) {
    size_t bytes = vh_bytes_live();
    int64_t blocks = vh_heap_live();
    make_keys((int) (index % 16 == 0 ? vh_range(300, 900) : vh_range(4, 120)));
    bool typed = vh_chance(1, 3);
    replaced = removed = 0; peak = 0;
    if (typed) { tm = tmap_new(); m = 0; } else { m = embc_intmap_new(); tm = 0; }
    int64_t empty_blocks = vh_heap_live();
    VH_CHECK(0 == embc_intmap_length(0), "length:null", "length of a null map");
    int ops = key_n * (int) vh_range(1, 4) + 10, bias = 8;
    by = key_n >= 8 && vh_chance(1, 4) ? embc_intmap_new() : 0; memset(by_present, 0, sizeof(by_present));
    vh_trace("%d keys, %d ops, typed=%d", key_n, ops, typed);
    for (int k = 0; k < ops; ++k) {
        int i = (int) vh_below((uint32_t) key_n), what = (int) vh_below(12);
        vh_sig((uint64_t) keys[i]); vh_sig((uint64_t) what);
        if (k < 60) { vh_trace("%s %lld", what < bias ? "put" : what == 11 ? "get" : "remove", (long long) keys[i]); }
        if (what == 11) { op_get(i); } else if (what < bias) { op_put(i); } else { op_remove(i); }
        if (by && vh_chance(1, 3)) { bystander(); }
        if (vh_chance(1, 8)) { op_length(); }
        if (vh_chance(1, 4)) { op_get((int) vh_below((uint32_t) key_n)); }
        if (vh_chance(1, 150)) { bias = (int) vh_range(2, 10); for (int j = 0; j < key_n; ++j) { op_get(j); } }
    }
    for (int j = 0; j < key_n; ++j) { op_get(j); }
    op_length();
    embc_intmap_free(by); by = 0;
    if (vh_chance(1, 2)) {
        int at = (int) vh_below((uint32_t) key_n);
        for (int j = 0; j < key_n; ++j) { op_remove((j + at) % key_n); }
        op_length();
        VH_CHECK(vh_heap_live() <= empty_blocks, "leak:entries", "%lld heap blocks remain after removing every entry, an empty map has %lld", (long long) vh_heap_live(), (long long) empty_blocks);
        for (int j = 0; j < key_n && j < 40; ++j) { op_put(j); }
        for (int j = 0; j < key_n; ++j) { op_get(j); }
    }
    if (typed) { tmap_free(tm); } else { embc_intmap_free(m); }
    vh_heap_check(blocks, "leak:free");
    VH_CHECK(vh_bytes_live() == bytes, "leak:bytes", "%lld bytes remain allocated after free", (long long) (vh_bytes_live() - bytes));
    if (peak > 14 && replaced && removed) { vh_nontrivial(); }
}

static void null_free(void) { embc_intmap_free(0); }
/* more entries than 16 bits count */
static void large(void) {
    size_t bytes = vh_bytes_live(); void *o;
    for (int f = 0; f < 3; ++f) {
        struct embc_intmap_s *q = embc_intmap_new();
        const embc_size_t N = f ? 70000 : 300000;
#define KEY(i) ((embc_size_t) (f == 0 ? (i) : f == 1 ? (i) - 35000 : (embc_size_t) ((uint64_t) (i) * 0x9e3779b97f4a7c15ULL)))
        for (embc_size_t i = 0; i < N; ++i) {
            o = OUT_NONE;
            VH_CHECK(0 == embc_intmap_put(q, KEY(i), (void *) (i * 3 + 1), &o) && !o, "put:old", "put of entry %lld", (long long) i);
            VH_CHECK(embc_intmap_length(q) == i + 1, "length", "length %lld after %lld insertions", (long long) embc_intmap_length(q), (long long) i + 1);
        }
        for (embc_size_t i = 0; i < N; ++i) { VH_CHECK(0 == embc_intmap_get(q, KEY(i), &o) && o == (void *) (i * 3 + 1), "get:value", "entry %lld of %lld", (long long) i, (long long) N); }
        for (embc_size_t i = 0; i < N; i += 2) { VH_CHECK(0 == embc_intmap_remove(q, KEY(i), &o) && o == (void *) (i * 3 + 1), "remove:value", "entry %lld of %lld", (long long) i, (long long) N); }
        VH_CHECK(embc_intmap_length(q) == N / 2, "length", "length %lld, %lld entries are present", (long long) embc_intmap_length(q), (long long) N / 2);
        for (embc_size_t i = 0; i < N; ++i) { VH_CHECK(embc_intmap_get(q, KEY(i), &o) == ((i & 1) ? 0 : EMBC_ERROR_NOT_FOUND), "get:rc", "entry %lld of %lld", (long long) i, (long long) N); }
        vh_count("large_entries", (uint64_t) N);
        embc_intmap_free(q);
    }
    VH_CHECK(vh_bytes_live() == bytes, "leak:bytes", "%lld bytes remain allocated after free", (long long) (vh_bytes_live() - bytes));
}
const vh_scenario_t vh_scenarios[] = {{"free_null", null_free}, {"large", large}, {0, 0}};
