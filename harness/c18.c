/* C18: linked lists stay well formed under every operation sequence.
 *
 * ASSUME: items are initialised before use; an item is not inserted next to itself; a list is not appended to itself
 */
#include "vh.h"
#include <assert.h>
#include "embc/collections/list.h"

const char *const vh_rule =
    "A case is 1..4 lists sharing 1..14 items and 30..300 random operations: add at either end, insert before/after, remove, remove head/tail, peek, append (also of and to empty lists), moves of items that are "
    "already in the same or another list, removal of unlinked items, and forward/reverse traversals in which the visited item is removed or moved. After every operation every list is walked in both directions "
    "and compared with a sequence model, with length, index, index_of, contains and the four traversal macros. Non-trivial: an item moved between lists, a removal during traversal and an append happened; "
    "distinct by operation sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 4000000 : 120000; }

#define NI 16
#define NL 4
typedef struct { int tag; struct embc_list_s node; } item_t;
static struct embc_list_s lists[NL]; static item_t items[NI]; static int nl, ni;
static int seq[NL][NI], len[NL];

static int where(int i, int *pos) { for (int l = 0; l < nl; ++l) { for (int k = 0; k < len[l]; ++k) { if (seq[l][k] == i) { *pos = k; return l; } } } return -1; }
static void m_remove(int i) { int k, l = where(i, &k); if (l >= 0) { memmove(&seq[l][k], &seq[l][k + 1], sizeof(int) * (size_t) (len[l] - k - 1)); --len[l]; } }
static void m_insert(int l, int k, int i) { memmove(&seq[l][k + 1], &seq[l][k], sizeof(int) * (size_t) (len[l] - k)); seq[l][k] = i; ++len[l]; }

static void audit(const char *what) {
    for (int l = 0; l < nl; ++l) {
        struct embc_list_s *L = &lists[l], *p = L, *it;
        for (int k = 0; k < len[l]; ++k) {
            VH_CHECK(p->next == &items[seq[l][k]].node && p->next->prev == p, "forward", "after %s: list %d position %d is not item %d", what, l, k, seq[l][k]);
            p = p->next;
        }
        VH_CHECK(p->next == L && L->prev == p, "forward", "after %s: list %d does not end after %d items", what, l, len[l]);
        VH_CHECK(embc_list_length(L) == len[l], "length", "after %s: list %d has length %d, model %d", what, l, (int) embc_list_length(L), len[l]);
        VH_CHECK(embc_list_is_empty(L) == (0 == len[l]), "is-empty", "after %s: list %d", what, l);
        VH_CHECK(embc_list_peek_head(L) == (len[l] ? &items[seq[l][0]].node : 0), "peek-head", "after %s: list %d", what, l);
        VH_CHECK(embc_list_peek_tail(L) == (len[l] ? &items[seq[l][len[l] - 1]].node : 0), "peek-tail", "after %s: list %d", what, l);
        int k = 0;
        embc_list_foreach_unsafe(L, it) { VH_CHECK(k < len[l] && it == &items[seq[l][k]].node, "foreach-unsafe", "position %d", k); ++k; }
        VH_CHECK(k == len[l], "foreach-unsafe", "visited %d of %d", k, len[l]);
        k = 0;
        embc_list_foreach(L, it) { VH_CHECK(k < len[l] && it == &items[seq[l][k]].node, "foreach", "position %d", k); ++k; }
        VH_CHECK(k == len[l], "foreach", "visited %d of %d", k, len[l]);
        k = len[l];
        embc_list_foreach_reverse(L, it) { --k; VH_CHECK(k >= 0 && it == &items[seq[l][k]].node, "foreach-reverse", "position %d", k); }
        VH_CHECK(k == 0, "foreach-reverse", "left %d of %d", k, len[l]);
        k = len[l];
        embc_list_foreach_reverse_unsafe(L, it) { --k; VH_CHECK(k >= 0 && it == &items[seq[l][k]].node, "foreach-reverse-unsafe", "position %d", k); }
        VH_CHECK(k == 0, "foreach-reverse-unsafe", "left %d of %d", k, len[l]);
        for (int i = 0; i < ni; ++i) {
            int pos = -1, w = where(i, &pos);
            VH_CHECK(embc_list_index_of(L, &items[i].node) == (w == l ? pos : -1), "index-of", "after %s: item %d in list %d", what, i, l);
            VH_CHECK(embc_list_contains(L, &items[i].node) == (w == l), "contains", "after %s: contains(list %d, item %d) is %d", what, l, i, embc_list_contains(L, &items[i].node));
        }
        for (int j = -1; j <= len[l] + 1; ++j) {
            struct embc_list_s *e = (j >= 0 && j < len[l]) ? &items[seq[l][j]].node : 0;
            VH_CHECK(embc_list_index(L, j) == e, "index", "after %s: index(%d) of list %d with %d items", what, j, l, len[l]);
        }
    }
    for (int i = 0; i < ni; ++i) {
        int pos;
        if (where(i, &pos) < 0) { VH_CHECK(items[i].node.next == &items[i].node && items[i].node.prev == &items[i].node, "unlinked", "after %s: item %d in no list still has links", what, i); }
        VH_CHECK(embc_list_entry(&items[i].node, item_t, node) == &items[i] && items[i].tag == i, "entry", "item %d", i);
    }
    vh_count("audits", 1);
}

void vh_case(uint64_t index) {
    (void) index;
    nl = (int) vh_range(1, NL); ni = (int) vh_range(1, 14);
    for (int l = 0; l < nl; ++l) { memset(&lists[l], 0xee, sizeof(lists[l])); embc_list_initialize(&lists[l]); len[l] = 0; }
    for (int i = 0; i < ni; ++i) { items[i].tag = i; memset(&items[i].node, 0xee, sizeof(items[i].node)); embc_list_initialize(&items[i].node); }
    audit("initialize");
    bool moved = false, mid = false, appended = false;
    int ops = (int) vh_range(30, vh_chance(1, 6) ? 300 : 80);
    for (int n = 0; n < ops; ++n) {
        int l = (int) vh_below((uint32_t) nl), i = (int) vh_below((uint32_t) ni), kind = (int) vh_below(13), k = -1;
        int from = where(i, &k);
        char what[80] = "";
        struct embc_list_s *L = &lists[l], *it = &items[i].node;
        switch (kind) {
            case 0: case 1:
                snprintf(what, sizeof(what), "add_head(%d, item %d of list %d)", l, i, from);
                embc_list_add_head(L, it); m_remove(i); m_insert(l, 0, i); moved = moved || (from >= 0 && from != l); break;
            case 2: case 3: case 4:
                snprintf(what, sizeof(what), "add_tail(%d, item %d of list %d)", l, i, from);
                embc_list_add_tail(L, it); m_remove(i); m_insert(l, len[l], i); moved = moved || (from >= 0 && from != l); break;
            case 5: case 6: {
                if (!len[l]) { continue; }
                int q = seq[l][vh_below((uint32_t) len[l])];
                if (q == i) { continue; }
                snprintf(what, sizeof(what), "insert_%s(item %d of list %d, item %d of list %d)", 5 == kind ? "before" : "after", q, l, i, from);
                if (5 == kind) { embc_list_insert_before(&items[q].node, it); } else { embc_list_insert_after(&items[q].node, it); }
                m_remove(i); int p; where(q, &p); m_insert(l, 5 == kind ? p : p + 1, i);
                moved = moved || (from >= 0 && from != l);
                break;
            }
            case 7: snprintf(what, sizeof(what), "remove(item %d of list %d)", i, from); embc_list_remove(it); m_remove(i); break;
            case 8: case 9: {
                snprintf(what, sizeof(what), "remove_%s(%d)", 8 == kind ? "head" : "tail", l);
                struct embc_list_s *r = 8 == kind ? embc_list_remove_head(L) : embc_list_remove_tail(L);
                int e = len[l] ? seq[l][8 == kind ? 0 : len[l] - 1] : -1;
                VH_CHECK(r == (e < 0 ? 0 : &items[e].node), "remove-end", "%s returned another item", what);
                if (e >= 0) { m_remove(e); }
                break;
            }
            case 10: {
                int o = (int) vh_below((uint32_t) nl);
                if (o == l) { continue; }
                snprintf(what, sizeof(what), "append(%d with %d items, %d with %d items)", l, len[l], o, len[o]);
                embc_list_append(L, &lists[o]);
                for (int j = 0; j < len[o]; ++j) { seq[l][len[l]++] = seq[o][j]; }
                len[o] = 0; appended = true;
                break;
            }
            default: {   /* traverse, removing or moving some of the visited items */
                int vis[NI], nv = len[l], pos = 0, o = (int) vh_below((uint32_t) nl);
                memcpy(vis, seq[l], sizeof(vis));
                uint32_t mask = vh_u32() & vh_u32();
                bool fwd = 11 == kind, clear = vh_chance(1, 6);
                snprintf(what, sizeof(what), "foreach%s(%d)", fwd ? "" : "_reverse", l);
                struct embc_list_s *p;
#define BODY do { \
                    int e = vis[fwd ? pos : nv - 1 - pos]; \
                    VH_CHECK(pos < nv && p == &items[e].node, "foreach-removal", "%s with removals visited the wrong item at step %d", what, pos); \
                    ++pos; \
                    if (clear || ((mask >> pos) & 1)) { \
                        mid = true; \
                        if (o != l && vh_chance(1, 2)) { embc_list_add_tail(&lists[o], p); m_remove(e); m_insert(o, len[o], e); } else { embc_list_remove(p); m_remove(e); } \
                        vh_sig((uint64_t) e + 100); \
                    } } while (0)
                if (fwd) { embc_list_foreach(L, p) { BODY; } } else { embc_list_foreach_reverse(L, p) { BODY; } }
                VH_CHECK(pos == nv, "foreach-removal", "%s with removals visited %d of %d items", what, pos, nv);
                break;
            }
        }
        vh_trace("%s", what);
        vh_sig((uint64_t) kind * 4096 + (uint64_t) l * 64 + (uint64_t) i);
        vh_count("operations", 1);
        audit(what);
    }
    if (moved && mid && appended) { vh_nontrivial(); }
}

static void nulls(void) { VH_CHECK(!embc_list_peek_head(0) && !embc_list_peek_tail(0) && !embc_list_remove_head(0) && !embc_list_remove_tail(0), "null", "a null list has items"); }
/* more items than 16 bits count */
static void large(void) {
    enum { N = 70000 };
    static const int P[] = {0, 1, 127, 128, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 69998, 69999};
    item_t *t = calloc((size_t) N, sizeof(*t)); struct embc_list_s a, b, *p; int k = 0;
    embc_list_initialize(&a); embc_list_initialize(&b);
    for (int i = 0; i < N; ++i) { t[i].tag = i; embc_list_initialize(&t[i].node); embc_list_add_tail(i < N / 2 ? &a : &b, &t[i].node); }
    embc_list_append(&a, &b);
    VH_CHECK(embc_list_is_empty(&b) && embc_list_length(&a) == N, "length", "length %lld with %d items", (long long) embc_list_length(&a), N);
    for (size_t i = 0; i < sizeof(P) / sizeof(P[0]); ++i) {
        VH_CHECK(embc_list_index(&a, P[i]) == &t[P[i]].node, "index", "index(%d) of %d items", P[i], N);
        VH_CHECK(embc_list_index_of(&a, &t[P[i]].node) == P[i], "index-of", "item %d of %d is said to be at %lld", P[i], N, (long long) embc_list_index_of(&a, &t[P[i]].node));
        VH_CHECK(embc_list_contains(&a, &t[P[i]].node) && !embc_list_contains(&b, &t[P[i]].node), "contains", "item %d of %d", P[i], N);
    }
    VH_CHECK(!embc_list_index(&a, N) && !embc_list_index(&a, N + 65536), "index", "an item past the end was found");
    embc_list_foreach_reverse(&a, p) { ++k; VH_CHECK(p == &t[N - k].node, "foreach-reverse", "step %d", k); }
    VH_CHECK(k == N, "foreach-reverse", "visited %d of %d", k, N);
    k = 0;
    embc_list_foreach(&a, p) { VH_CHECK(p == &t[k].node, "foreach", "step %d", k); if (k++ & 1) { embc_list_remove(p); } }
    VH_CHECK(k == N && embc_list_length(&a) == N / 2, "length", "length %lld after removing every other item of %d", (long long) embc_list_length(&a), N);
    vh_count("large_items", (uint64_t) N);
    free(t);
}
const vh_scenario_t vh_scenarios[] = {{"null_list", nulls}, {"large", large}, {0, 0}};
