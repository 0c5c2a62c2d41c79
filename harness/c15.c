/* C15: integer-map iteration visits every entry once and terminates.
 *
 * ASSUME: entries added while iterating may or may not be visited, as documented; the map outlives its iterators
 */
#include "vh.h"
#include "embc/collections/intmap.h"
#include "embc/ec.h"
#include "embc/platform.h"

typedef struct { int x; } thing_t;
EMBC_INTMAP_DECLARE(tmap, thing_t *)
EMBC_INTMAP_DEFINE_STRUCT(tmap)
EMBC_INTMAP_DEFINE(tmap, thing_t *)

const char *const vh_rule =
    "A case is one integer map filled with up to 200 keys (all bins, single bins, the last bin only, chains) and one to three iterators advanced in random interleaving with removals of arbitrary entries "
    "(next, current, last, all), lookups, value replacements and insertions, until every iterator reports the end, after which it must keep doing so. A visit ledger per iterator checks exactly-once. "
    "Non-trivial: an entry was removed or replaced while an iterator was in the middle; distinct by the key set and event sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 5000000 : 150000; }

#define K 512
static embc_size_t keys[K]; static uintptr_t val[K]; static bool present[K]; static int key_n, size_;
static uint32_t birth[K];
static uint32_t clock_;
typedef struct { struct embc_intmap_iterator_s *it; struct tmap_iterator_s *tit; uint32_t born; uint32_t seen[K]; bool end, done; int visits; } iter_t;
static iter_t its[3]; static int it_n;
static struct embc_intmap_s *m; static struct tmap_s *tm;

static int cmp(const void *a, const void *b) { embc_size_t x = *(const embc_size_t *) a, y = *(const embc_size_t *) b; return x < y ? -1 : x > y; }
static int find(embc_size_t k) { embc_size_t *p = bsearch(&k, keys, (size_t) key_n, sizeof(keys[0]), cmp); return p ? (int) (p - keys) : -1; }
static void put(int i) {
    val[i] = (uintptr_t) vh_u64();
    int rc = tm ? tmap_put(tm, keys[i], (void *) val[i], 0) : embc_intmap_put(m, keys[i], (void *) val[i], 0);
    VH_CHECK(0 == rc, "put", "put returned %d", rc);
    if (!present[i]) { present[i] = true; birth[i] = ++clock_; ++size_; }
}
static void removal(int i) {
    int rc = tm ? tmap_remove(tm, keys[i], 0) : embc_intmap_remove(m, keys[i], 0);
    VH_CHECK(rc == (present[i] ? 0 : EMBC_ERROR_NOT_FOUND), "remove", "remove returned %d", rc);
    if (present[i]) { present[i] = false; --size_; }
}
static void open_it(iter_t *t) {
    memset(t, 0, sizeof(*t));
    t->born = ++clock_;
    if (tm) { t->tit = tmap_iterator_new(tm); } else { t->it = embc_intmap_iterator_new(m); }
    VH_CHECK(t->it || t->tit, "new", "no iterator");
}
static void advance(iter_t *t) {
    embc_size_t k = 0; uintptr_t v = 0;
    int rc = tm ? tmap_iterator_next(t->tit, &k, (thing_t **) &v) : embc_intmap_iterator_next(t->it, &k, (void **) &v);
    if (rc) {
        VH_CHECK(EMBC_ERROR_NOT_FOUND == rc, "next:rc", "next returned %d", rc);
        vh_trace("iterator %d: end", (int) (t - its));
        if (!t->end) {
            for (int i = 0; i < key_n; ++i) {
                if (present[i] && birth[i] < t->born) { VH_CHECK(t->seen[i] == birth[i], "missed", "key %lld was never visited (%d visits, %d entries)", (long long) keys[i], t->visits, size_); }
            }
            vh_count("complete_iterations", 1);
        }
        t->end = true;
        return;
    }
    VH_CHECK(!t->end, "restart", "an iterator that reported the end returned key %lld", (long long) k);
    int i = find(k);
    vh_trace("iterator %d: key %lld", (int) (t - its), (long long) k);
    VH_CHECK(i >= 0 && present[i], "phantom", "iterator returned key %lld which is not in the map", (long long) k);
    VH_CHECK(v == val[i], "value", "iterator returned a stale value for key %lld", (long long) k);
    VH_CHECK(t->seen[i] != birth[i], "twice", "key %lld visited twice", (long long) k);
    t->seen[i] = birth[i];
    ++t->visits;
    vh_count("visits", 1);
    vh_sig((uint64_t) (t - its)); vh_sig((uint64_t) k);
}

/* a second map with its own iterator, used in between */
static struct embc_intmap_s *by; static struct embc_intmap_iterator_s *by_it; static int by_n, by_seen;
static void bystander(void) {
    embc_size_t k = 0; void *v = 0;
    if (!by_it) { by_it = embc_intmap_iterator_new(by); by_seen = 0; }
    int rc = embc_intmap_iterator_next(by_it, &k, &v);
    if (!rc) { VH_CHECK((uintptr_t) v == (uintptr_t) k + 1000, "bystander", "an iterator over another map returned key %lld", (long long) k); ++by_seen; return; }
    VH_CHECK(by_seen == by_n, "bystander", "an iterator over another map visited %d of %d entries", by_seen, by_n);
    embc_intmap_iterator_free(by_it); by_it = 0; ++by_n;
    embc_intmap_put(by, by_n * 5, (void *) (uintptr_t) (by_n * 5 + 1000), 0);
    vh_count("bystander_iterations", 1);
}
void vh_case(uint64_t index) {
    (void) index;
    size_t bytes = vh_bytes_live();
    key_n = size_ = 0; clock_ = 1; it_n = 0;
    bool typed = vh_chance(1, 3), mutated = false;
    int want = (int) (vh_chance(1, 12) ? vh_range(40, 200) : vh_range(0, 24));
    int fams = (int) vh_range(1, 2);
    for (int f = 0; f < fams; ++f) {
        int kind = (int) vh_below(5); embc_size_t base = vh_chance(1, 3) ? 7 : (embc_size_t) vh_below(40); int sh = 3 + 2 * (int) vh_below(3);
        for (int i = 0; i < want / fams + 1; ++i) {
            keys[key_n++] = kind == 0 ? base + i : kind == 1 ? base + ((embc_size_t) i << sh) : kind == 2 ? (embc_size_t) vh_u64() : kind == 3 ? -1 - ((embc_size_t) i << sh) : 31 + 32 * (embc_size_t) vh_below(1000);
        }
    }
    qsort(keys, (size_t) key_n, sizeof(keys[0]), cmp);
    int d = 0;
    for (int i = 0; i < key_n; ++i) { if (!i || keys[i] != keys[i - 1]) { keys[d++] = keys[i]; } }
    key_n = d;
    memset(present, 0, sizeof(present)); memset(birth, 0, sizeof(birth));
    if (typed) { tm = tmap_new(); m = 0; } else { m = embc_intmap_new(); tm = 0; }
    int fill = vh_chance(1, 10) ? 0 : (int) vh_range(1, 10);
    for (int i = key_n - 1; i >= 0; --i) { int j = (int) vh_below((uint32_t) key_n); if (vh_below(10) < (uint32_t) fill) { put(i); } if (vh_chance(1, 4) && fill) { put(j); } }
    vh_trace("%d keys, %d present", key_n, size_);
    int want_its = (int) vh_range(1, 3);
    bool puts = vh_chance(1, 3);
    int rem = vh_chance(1, 4) ? 0 : (int) vh_range(1, 6);
    vh_steps_reset(20000);
    bool use_by = vh_chance(1, 4); by_n = 0; by_it = 0;
    if (use_by) { by = embc_intmap_new(); }
    for (;;) {
        vh_step("iteration");
        if (use_by && vh_chance(1, 2)) { bystander(); }
        if (it_n < want_its && (0 == it_n || vh_chance(1, 6))) { open_it(&its[it_n++]); }
        bool all = it_n == want_its;
        for (int i = 0; i < it_n; ++i) { all = all && its[i].done; }
        if (all) { break; }
        iter_t *t = &its[vh_below((uint32_t) it_n)];
        if (!t->done) {
            bool was = t->end;
            advance(t);
            if (was && vh_chance(1, 2)) {
                if (tm) { tmap_iterator_free(t->tit); } else { embc_intmap_iterator_free(t->it); }
                t->done = true;
            }
        }
        bool middle = false;
        for (int i = 0; i < it_n; ++i) { middle = middle || (!its[i].end && its[i].visits); }
        if (vh_below(10) < (uint32_t) rem && key_n) {
            int burst = vh_chance(1, 8) ? (int) vh_range(2, 10) : 1;
            while (burst--) {
                int i = (int) vh_below((uint32_t) key_n);
                vh_sig(0x9000000u + (uint64_t) i);
                if (present[i]) { vh_trace("remove %lld", (long long) keys[i]); mutated = mutated || middle; vh_count("removals", 1); }
                removal(i);
            }
        }
        if (key_n && vh_chance(1, 12)) { int i = (int) vh_below((uint32_t) key_n); if (present[i]) { vh_trace("replace %lld", (long long) keys[i]); mutated = mutated || middle; put(i); } }
        for (int n = vh_chance(1, 4) && key_n ? (int) vh_range(1, 3) : 0; n; --n) {       /* looking entries up changes nothing */
            int i = (int) vh_below((uint32_t) key_n); thing_t *v = 0;
            int rc = tm ? tmap_get(tm, keys[i], &v) : embc_intmap_get(m, keys[i], (void **) &v);
            vh_trace("get %lld", (long long) keys[i]);
            VH_CHECK(rc == (present[i] ? 0 : EMBC_ERROR_NOT_FOUND) && (!present[i] || (uintptr_t) v == val[i]), "get", "wrong value for key %lld while iterating", (long long) keys[i]);
            VH_CHECK((tm ? tmap_length(tm) : embc_intmap_length(m)) == size_, "length", "wrong length while iterating");
            vh_count("lookups_while_iterating", 1);
        }
        bool ended = false;   /* an insertion may revive nothing once an iterator ended, so keep the oracle simple */
        for (int i = 0; i < it_n; ++i) { ended = ended || (its[i].end && !its[i].done); }
        if (puts && key_n && !ended && clock_ < 300 && vh_chance(1, 6)) { int i = (int) vh_below((uint32_t) key_n); vh_trace("put %lld", (long long) keys[i]); vh_count("insertions_while_iterating", !present[i]); put(i); }
    }
    if (use_by) { embc_intmap_iterator_free(by_it); embc_intmap_free(by); }
    for (int i = 0; i < key_n; ++i) {   /* the map itself is unharmed */
        thing_t *v = 0;
        int rc = tm ? tmap_get(tm, keys[i], &v) : embc_intmap_get(m, keys[i], (void **) &v);
        VH_CHECK(rc == (present[i] ? 0 : EMBC_ERROR_NOT_FOUND) && (!present[i] || (uintptr_t) v == val[i]), "map", "map damaged by iteration");
    }
    if (tm) { tmap_free(tm); } else { embc_intmap_free(m); }
    VH_CHECK(vh_bytes_live() == bytes, "leak", "%lld bytes remain allocated", (long long) (vh_bytes_live() - bytes));
    if (mutated) { vh_nontrivial(); }
}

static void null_free(void) { embc_intmap_iterator_free(0); }
/* more entries than 16 bits count; in the second pass nearly all of them are removed as they are visited */
static void large(void) {
    embc_size_t k; void *v;
    const embc_size_t N = 150000;
    uint8_t *seen = calloc(1, (size_t) N);
    size_t bytes = vh_bytes_live();
    struct embc_intmap_s *q = embc_intmap_new();
    for (embc_size_t i = 0; i < N; ++i) { embc_intmap_put(q, i * 5 - 999, (void *) (i + 1), 0); }
    for (int pass = 0; pass < 3; ++pass) {
        struct embc_intmap_iterator_s *it = embc_intmap_iterator_new(q);
        embc_size_t visits = 0, removed = 0;
        memset(seen, 0, (size_t) N);
        while (0 == embc_intmap_iterator_next(it, &k, &v)) {
            embc_size_t i = (embc_size_t) v - 1;
            VH_CHECK(i >= 0 && i < N && k == i * 5 - 999, "visit", "key %lld with another key's value", (long long) k);
            VH_CHECK(!seen[i], "twice", "key %lld visited twice", (long long) k);
            seen[i] = 1; ++visits;
            if (pass == 1 && i % 100) { VH_CHECK(0 == embc_intmap_remove(q, k, 0), "remove", "the visited key %lld is not there", (long long) k); ++removed; }
        }
        VH_CHECK(visits == (pass < 2 ? N : N / 100), "missed", "pass %d visited %lld entries of %lld, length %lld", pass, (long long) visits, (long long) N, (long long) embc_intmap_length(q));
        VH_CHECK(EMBC_ERROR_NOT_FOUND == embc_intmap_iterator_next(it, &k, &v), "end", "the iterator came back after the end");
        embc_intmap_iterator_free(it);
        VH_CHECK(embc_intmap_length(q) == (pass ? N / 100 : N), "length", "length %lld after pass %d", (long long) embc_intmap_length(q), pass);
        vh_count("large_visits", (uint64_t) visits);
    }
    embc_intmap_free(q);
    VH_CHECK(vh_bytes_live() == bytes, "leak", "%lld bytes remain allocated", (long long) (vh_bytes_live() - bytes));
    free(seen);
}
const vh_scenario_t vh_scenarios[] = {{"free_null", null_free}, {"large", large}, {0, 0}};
