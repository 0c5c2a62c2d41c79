/* C16: the hash map behaves as a map for every key and history.
 *
 * ASSUME: keys stay valid and unchanged while in the map; only the implemented operations are used (the header also declares remove and iterator functions that have no definition)
 */
#include "vh.h"
#include "embc/collections/hashmap.h"
#include "embc/ec.h"
#include "embc/platform.h"

const char *const vh_rule =
    "A case is one or two hash maps driven through up to 1500 random put/get/length calls over up to 300 keys compared by content (so equal keys at different addresses are one key), with hash "
    "functions that spread, return one constant, agree in the low bits only, return extreme or negative values, or are adversarially equal for different keys. Results are compared with a dictionary; "
    "a heap ledger checks that free returns everything. Non-trivial: at least one replacement and one key sharing its bin or full hash with another; distinct by keys and operation sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 4000000 : 150000; }

typedef struct { uint32_t id; embc_size_t hash; } hkey_t;
static hkey_t key_a[512], key_b[512];
static void *val[2][512]; static bool present[2][512]; static int key_n, size_[2];
static struct embc_hashmap_s *m[2]; static uint64_t hashes, equivs;

static embc_size_t hash_fn(void *k) { ++hashes; return ((hkey_t *) k)->hash; }
static bool equiv_fn(void *a, void *b) { ++equivs; return ((hkey_t *) a)->id == ((hkey_t *) b)->id; }
#define OUT_NONE ((void *) (uintptr_t) 0xdeadbeef12345678ULL)

void vh_case(uint64_t index) {
    (void) index;
    int64_t blocks = vh_heap_live(); size_t bytes = vh_bytes_live();
    int n = (int) (vh_chance(1, 10) ? vh_range(50, 300) : vh_range(1, 40)), kind = (int) vh_below(5), nm = vh_chance(1, 5) ? 2 : 1;
    uint64_t replaced = 0; bool shared = false;
    key_n = n; memset(present, 0, sizeof(present)); memset(size_, 0, sizeof(size_));
    vh_sig((uint64_t) kind);
    for (int i = 0; i < n; ++i) {
        embc_size_t h;
        switch (kind) {
            case 0: h = (embc_size_t) vh_u64(); break;
            case 1: h = -7; break;
            case 2: h = (embc_size_t) vh_below(100) << (3 + vh_below(3)); break;
            case 3: h = (embc_size_t) vh_edge64(); break;
            default: h = (embc_size_t) vh_below(4); break;
        }
        key_a[i].id = key_b[i].id = (uint32_t) i; key_a[i].hash = key_b[i].hash = h;
        for (int j = 0; j < i; ++j) { shared = shared || ((key_a[j].hash ^ h) & 7) == 0; }
        vh_sig((uint64_t) h);
    }
    VH_CHECK(!embc_hashmap_new(0, equiv_fn) && !embc_hashmap_new(hash_fn, 0), "new:args", "a map without functions was created");
    VH_CHECK(0 == embc_hashmap_length(0), "length:null", "length of a null map");
    for (int i = 0; i < nm; ++i) { m[i] = embc_hashmap_new(hash_fn, equiv_fn); VH_CHECK(m[i], "new", "no map"); }
    int ops = n * (int) vh_range(1, 4) + 5;
    for (int k = 0; k < ops; ++k) {
        int i = (int) vh_below((uint32_t) n), w = (int) vh_below((uint32_t) nm);
        void *key = vh_chance(1, 2) ? &key_a[i] : &key_b[i];
        void *out = OUT_NONE; bool want = vh_chance(3, 4);
        if (vh_chance(1, 2)) {
            void *v = vh_chance(1, 10) ? 0 : (void *) (uintptr_t) vh_u64();
            int rc = embc_hashmap_put(m[w], key, v, want ? &out : 0);
            VH_CHECK(0 == rc, "put:rc", "put returned %d", rc);
            if (want) { VH_CHECK(out == (present[w][i] ? val[w][i] : 0), "put:old", "put of %s key %d reported %p", present[w][i] ? "an existing" : "a new", i, out); }
            if (present[w][i]) { ++replaced; vh_count("replacements", 1); } else { ++size_[w]; vh_count("insertions", 1); }
            present[w][i] = true; val[w][i] = v;
            vh_sig((uint64_t) i * 2);
            if (k < 50) { vh_trace("put %d", i); }
        } else {
            int rc = embc_hashmap_get(m[w], key, want ? &out : 0);
            VH_CHECK(rc == (present[w][i] ? 0 : EMBC_ERROR_NOT_FOUND), "get:rc", "get of %s key %d returned %d", present[w][i] ? "a present" : "an absent", i, rc);
            if (want && present[w][i]) { VH_CHECK(out == val[w][i], "get:value", "get of key %d returned another value", i); }
            vh_count(present[w][i] ? "hits" : "misses", 1);
            vh_sig((uint64_t) i * 2 + 1);
        }
        VH_CHECK(embc_hashmap_length(m[w]) == size_[w], "length", "length %lld, %d keys present", (long long) embc_hashmap_length(m[w]), size_[w]);
    }
    for (int w = 0; w < nm; ++w) {
        for (int i = 0; i < n; ++i) {
            void *out = OUT_NONE;
            int rc = embc_hashmap_get(m[w], &key_b[i], &out);
            VH_CHECK(rc == (present[w][i] ? 0 : EMBC_ERROR_NOT_FOUND) && (!present[w][i] || out == val[w][i]), "final", "key %d: rc=%d", i, rc);
        }
        embc_hashmap_free(m[w]);
    }
    vh_heap_check(blocks, "leak:free");
    VH_CHECK(vh_bytes_live() == bytes, "leak:bytes", "%lld bytes remain allocated after free", (long long) (vh_bytes_live() - bytes));
    vh_count("hash_calls", hashes); vh_count("equivalence_calls", equivs); hashes = equivs = 0;
    if (replaced && shared) { vh_nontrivial(); }
}

static void null_free(void) { embc_hashmap_free(0); }
/* more entries than 16 bits count */
static void large(void) {
    void *o; const int N = 66000; hkey_t *k = calloc((size_t) N, sizeof(*k));
    size_t bytes = vh_bytes_live();
    struct embc_hashmap_s *q = embc_hashmap_new(hash_fn, equiv_fn);
    for (int i = 0; i < N; ++i) {
        k[i].id = (uint32_t) i; k[i].hash = (embc_size_t) ((uint64_t) (i / 2) * 0x9e3779b97f4a7c15ULL);    /* in pairs */
        o = OUT_NONE;
        VH_CHECK(0 == embc_hashmap_put(q, &k[i], (void *) (intptr_t) (i + 1), &o) && !o, "put:old", "put of entry %d", i);
        VH_CHECK(embc_hashmap_length(q) == i + 1, "length", "length %lld after %d insertions", (long long) embc_hashmap_length(q), i + 1);
    }
    for (int i = 0; i < N; i += 509) { VH_CHECK(0 == embc_hashmap_put(q, &k[i], (void *) (intptr_t) (i + 2), &o) && o == (void *) (intptr_t) (i + 1), "put:old", "replacement of entry %d", i); }
    for (int i = N - 1; i >= 0; i -= 41) { VH_CHECK(0 == embc_hashmap_get(q, &k[i], &o) && o == (void *) (intptr_t) (i + 1 + (i % 509 == 0)), "get:value", "entry %d of %d", i, N); }
    VH_CHECK(embc_hashmap_length(q) == N, "length", "length %lld with %d entries", (long long) embc_hashmap_length(q), N);
    hkey_t x = {0xffffffffu, k[5].hash};
    VH_CHECK(EMBC_ERROR_NOT_FOUND == embc_hashmap_get(q, &x, &o), "get:rc", "an absent key was found");
    embc_hashmap_free(q); hashes = equivs = 0;
    vh_count("large_entries", (uint64_t) N);
    VH_CHECK(vh_bytes_live() == bytes, "leak:bytes", "%lld bytes remain allocated after free", (long long) (vh_bytes_live() - bytes));
    free(k);
}
const vh_scenario_t vh_scenarios[] = {{"free_null", null_free}, {"large", large}, {0, 0}};
