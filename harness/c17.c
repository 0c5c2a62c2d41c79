/* C17: the string map behaves as a map for every key and history.
 *
 * ASSUME: keys are non-null NUL-terminated strings; allocation never fails
 */
#include "vh.h"
#include "embc/collections/strmap.h"
#include "embc/platform.h"

const char *const vh_rule =
    "A case is one or two string maps driven through up to 1500 random put/get/remove/length calls over up to 300 distinct keys: empty, one byte, shared prefixes, prefixes of each other, bytes above 127, "
    "up to 3000 characters, and families with identical djb2 hashes. Every key is passed in an exactly sized heap string that is overwritten and freed right after the call. Results are compared with a "
    "dictionary; a heap ledger checks removal and free. Non-trivial: at least one replacement, one removal and two keys with equal hash or bin; distinct by keys and operation sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 3000000 : 100000; }

static char *keys[320]; static void *val[2][320]; static bool present[2][320]; static int key_n, size_[2];
static struct embc_strmap_s *m[2];
#define OUT_NONE ((void *) (uintptr_t) 0xdeadbeef12345678ULL)

static uint64_t djb2(const char *s) { uint64_t h = 5381; while (*s) { h = h * 33 + (uint64_t) (int64_t) *s++; } return h; }
static void add_key(const char *s) {
    for (int i = 0; i < key_n; ++i) { if (0 == strcmp(keys[i], s)) { return; } }
    keys[key_n++] = vh_exact_str(s);
}
static void gen_key(void) {
    char b[3100]; int n = 0;
    switch (vh_below(6)) {
        case 0: n = (int) vh_below(4); for (int i = 0; i < n; ++i) { b[i] = (char) vh_range(1, 255); } break;
        case 1: n = (int) vh_range(0, 40); for (int i = 0; i < n; ++i) { b[i] = "ab"[vh_below(2)]; } break;
        case 2: {   /* same hash: every Ez may be an FY */
            n = (int) vh_range(1, 8) * 2; for (int i = 0; i < n; i += 2) { memcpy(b + i, vh_chance(1, 2) ? "Ez" : "FY", 2); } break;
        }
        case 3:   /* extension or prefix of an existing key */
            if (key_n) {
                const char *k = keys[vh_below((uint32_t) key_n)]; n = (int) strlen(k); if (n > 3000) { n = 3000; }
                memcpy(b, k, (size_t) n);
                if (vh_chance(1, 2) && n) { n = (int) vh_below((uint32_t) n); } else { b[n++] = (char) vh_range(1, 255); }
            }
            break;
        case 4: n = vh_chance(1, 10) ? (int) vh_range(100, 3000) : (int) vh_range(8, 80); for (int i = 0; i < n; ++i) { b[i] = (char) vh_range(128, 255); } break;
        default: n = snprintf(b, sizeof(b), "key%u", vh_below(1000)); break;
    }
    b[n] = 0;
    add_key(b);
}

void vh_case(uint64_t index) {
    (void) index;
    key_n = 0; memset(present, 0, sizeof(present)); memset(size_, 0, sizeof(size_));
    int want = (int) (vh_chance(1, 12) ? vh_range(60, 300) : vh_range(1, 30));
    for (int i = 0; i < want; ++i) { gen_key(); }
    bool shared = false;
    for (int i = 0; i < key_n && i < 60; ++i) { for (int j = 0; j < i; ++j) { shared = shared || 0 == ((djb2(keys[i]) ^ djb2(keys[j])) & 63); } vh_sig(djb2(keys[i])); }
    size_t bytes = vh_bytes_live(); int64_t blocks = vh_heap_live();
    int nm = vh_chance(1, 6) ? 2 : 1;
    uint64_t replaced = 0, removed = 0;
    VH_CHECK(0 == embc_strmap_length(0), "length:null", "length of a null map");
    int64_t empty_blocks = 0;
    for (int w = 0; w < nm; ++w) { m[w] = embc_strmap_new(); }
    empty_blocks = vh_heap_live();
    int ops = key_n * (int) vh_range(2, 5) + 5;
    for (int k = 0; k < ops; ++k) {
        int i = (int) vh_below((uint32_t) key_n), w = (int) vh_below((uint32_t) nm), what = (int) vh_below(10);
        char *key = vh_exact_str(keys[i]);
        void *out = OUT_NONE; bool want_out = vh_chance(3, 4);
        vh_sig((uint64_t) i * 4 + (what < 5 ? 0 : what < 8 ? 1 : 2));
        if (k < 40) { vh_trace("%s #%d \"%.20s\" (%d bytes)", what < 5 ? "put" : what < 8 ? "get" : "remove", i, key, (int) strlen(key)); }
        if (what < 5) {
            void *v = vh_chance(1, 10) ? 0 : (void *) (uintptr_t) vh_u64();
            int rc = embc_strmap_put(m[w], key, v, want_out ? &out : 0);
            VH_CHECK(0 == rc, "put:rc", "put returned %d", rc);
            if (want_out) { VH_CHECK(out == (present[w][i] ? val[w][i] : 0), "put:old", "put of %s key reported %p", present[w][i] ? "an existing" : "a new", out); }
            if (present[w][i]) { ++replaced; vh_count("replacements", 1); } else { ++size_[w]; vh_count("insertions", 1); }
            present[w][i] = true; val[w][i] = v;
        } else {
            int rc = what < 8 ? embc_strmap_get(m[w], key, want_out ? &out : 0) : embc_strmap_remove(m[w], key, want_out ? &out : 0);
            VH_CHECK((0 == rc) == present[w][i], "found", "%s of %s key returned %d", what < 8 ? "get" : "remove", present[w][i] ? "a present" : "an absent", rc);
            if (want_out && present[w][i]) { VH_CHECK(out == val[w][i], "value", "%s returned another value", what < 8 ? "get" : "remove"); }
            vh_count(present[w][i] ? "hits" : "misses", 1);
            if (what >= 8 && present[w][i]) { present[w][i] = false; --size_[w]; ++removed; vh_count("removals", 1); }
        }
        memset(key, 'x', strlen(key));
        free(key);
        VH_CHECK(embc_strmap_length(m[w]) == size_[w], "length", "length %lld, %d keys present", (long long) embc_strmap_length(m[w]), size_[w]);
    }
    for (int w = 0; w < nm; ++w) {
        for (int i = 0; i < key_n; ++i) {
            void *out = OUT_NONE;
            int rc = embc_strmap_get(m[w], keys[i], &out);
            VH_CHECK((0 == rc) == present[w][i] && (!present[w][i] || out == val[w][i]), "final", "key %d: rc=%d", i, rc);
        }
    }
    if (vh_chance(1, 2)) {
        for (int w = 0; w < nm; ++w) { for (int i = 0; i < key_n; ++i) { if (present[w][i]) { VH_CHECK(0 == embc_strmap_remove(m[w], keys[i], 0), "remove", "remove failed"); } } VH_CHECK(0 == embc_strmap_length(m[w]), "length", "not empty"); }
        VH_CHECK(vh_heap_live() <= empty_blocks, "leak:entries", "%lld heap blocks remain after removing every entry, an empty map has %lld", (long long) vh_heap_live(), (long long) empty_blocks);
    }
    for (int w = 0; w < nm; ++w) { embc_strmap_free(m[w]); }
    vh_heap_check(blocks, "leak:free");
    VH_CHECK(vh_bytes_live() == bytes, "leak:bytes", "%lld bytes remain allocated after free", (long long) (vh_bytes_live() - bytes));
    for (int i = 0; i < key_n; ++i) { free(keys[i]); }
    if (replaced && removed && shared) { vh_nontrivial(); }
}

static void null_free(void) { embc_strmap_free(0); }
/* many keys, and keys longer than 16 bits measure */
static void large(void) {
    size_t bytes = vh_bytes_live(); void *o; char b[24];
    struct embc_strmap_s *q = embc_strmap_new();
    const int N = 70000;
    for (int i = 0; i < N; ++i) {
        snprintf(b, sizeof(b), "item/%d", i); o = OUT_NONE;
        VH_CHECK(0 == embc_strmap_put(q, b, (void *) (intptr_t) (i + 1), &o) && !o, "put:old", "put of \"%s\"", b);
        VH_CHECK(embc_strmap_length(q) == i + 1, "length", "length %lld after %d insertions", (long long) embc_strmap_length(q), i + 1);
    }
    for (int i = 0; i < N; i += 7) { snprintf(b, sizeof(b), "item/%d", i); VH_CHECK(0 == embc_strmap_get(q, b, &o) && o == (void *) (intptr_t) (i + 1), "value", "get of \"%s\"", b); }
    for (int i = 0; i < N; i += 2) { snprintf(b, sizeof(b), "item/%d", i); VH_CHECK(0 == embc_strmap_remove(q, b, &o) && o == (void *) (intptr_t) (i + 1), "value", "remove of \"%s\"", b); }
    for (int i = 0; i < N; i += 11) { snprintf(b, sizeof(b), "item/%d", i); VH_CHECK((0 == embc_strmap_get(q, b, &o)) == (i & 1), "found", "get of \"%s\" with every other key removed", b); }
    VH_CHECK(embc_strmap_length(q) == N / 2, "length", "length %lld", (long long) embc_strmap_length(q));
    static const int L[] = {255, 256, 257, 65535, 65536, 65537, 200000};
    char *t[8];
    for (int i = 0; i < 7; ++i) { t[i] = vh_exact(0, (size_t) L[i] + 1); memset(t[i], 'k', (size_t) L[i]); t[i][L[i]] = 0; o = OUT_NONE; VH_CHECK(0 == embc_strmap_put(q, t[i], t[i], &o) && !o, "put:old", "put of a key of %d characters", L[i]); }
    char *other = vh_exact(0, 65538); memset(other, 'k', 65537); other[65536] = 'j'; other[65537] = 0;
    VH_CHECK(embc_strmap_get(q, other, &o), "found", "a long key that differs in its last character was found");
    free(other);
    for (int i = 0; i < 7; ++i) { VH_CHECK(0 == embc_strmap_get(q, t[i], &o) && o == t[i], "value", "get of a key of %d characters", L[i]); }
    for (int i = 0; i < 7; ++i) { VH_CHECK(0 == embc_strmap_remove(q, t[i], &o) && o == t[i], "value", "remove of a key of %d characters", L[i]); free(t[i]); }
    embc_strmap_free(q);
    vh_count("large_entries", (uint64_t) N);
    VH_CHECK(vh_bytes_live() == bytes, "leak:bytes", "%lld bytes remain allocated after free", (long long) (vh_bytes_live() - bytes));
}
const vh_scenario_t vh_scenarios[] = {{"free_null", null_free}, {"large", large}, {0, 0}};
