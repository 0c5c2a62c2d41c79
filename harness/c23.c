/* C23: string utilities are bounded and agree with their definitions.
 *
 * ASSUME: case folding is ASCII only; the order of strings that first differ at a character between upper and lower case ('[' to '`') or above 0x7f is not fixed by the documentation, only that they differ
 */
#include "vh.h"
#include "embc/cstr.h"

const char *const vh_rule =
    "A case makes two related strings (equal, case-changed, prefix, one character off, unrelated; 0..40 characters of letters, punctuation, control and high bytes) in exact-size heap blocks and runs copy at a random target size "
    "in a target surrounded by guard bytes, casecmp, starts_with, toupper, to_index over a random table, to_bool on every spelling and near misses, and the hex digit conversions, each against its definition. "
    "Non-trivial: copy truncated or filled the target exactly, or a case-insensitive match was found; distinct by inputs.";

uint64_t vh_case_count(int thorough) { return thorough ? 60000000 : 3000000; }

static int up(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
static int low(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
static char letter(void) {
    switch (vh_below(8)) {
        case 0: return (char) vh_range(1, 255);
        case 1: return "@[`{_^\\]AZaz09 "[vh_below(15)];
        case 2: return (char) vh_range(32, 126);
        default: return (char) (vh_chance(1, 2) ? vh_range('a', 'e') : vh_range('A', 'E'));
    }
}
static void text(char *s, int max) { int n = (int) vh_below((uint32_t) max + 1); for (int i = 0; i < n; ++i) { s[i] = letter(); } s[n] = 0; }

static void check_copy(const char *src) {
    int size = vh_chance(1, 3) ? (int) vh_range(-2, vh_chance(1, 8) ? 400 : 45) : (int) strlen(src) + (int) vh_range(-2, 3);
    char *tgt = malloc(size > 0 ? (size_t) size : 1), first = 'h';
    memset(tgt, 'h', size > 0 ? (size_t) size : 1);
    int rc = embc_cstr_copy(size > 0 || vh_chance(1, 2) ? tgt : 0, src, size);
    int n = (int) strlen(src);
    if (size <= 0) { VH_CHECK(rc == -1 && tgt[0] == first, "copy-no-room", "size %d returned %d", size, rc); }
    else {
        int k = n < size ? n : size - 1;
        VH_CHECK(rc == (n < size ? 0 : 1), "copy-rc", "copying %d characters into %d bytes returned %d", n, size, rc);
        VH_CHECK(!memcmp(tgt, src, (size_t) k) && tgt[k] == 0, "copy-text", "copying %d characters into %d bytes", n, size);
        if (n >= size - 1) { vh_nontrivial(); }
        vh_count(rc ? "copies_truncated" : "copies_whole", 1);
    }
    free(tgt);
}

static void check_casecmp(const char *a, const char *b) {
    int i = 0, want = 0, strict = 1;
    while (a[i] && b[i] && up((uint8_t) a[i]) == up((uint8_t) b[i])) { ++i; }
    int x = (uint8_t) a[i], y = (uint8_t) b[i];
    if (up(x) != up(y)) {
        int w1 = up(x) < up(y) ? -1 : 1, w2 = low(x) < low(y) ? -1 : 1;
        want = w1; strict = !(x && y) || (w1 == w2 && x < 128 && y < 128);
        if (!x) { want = -1; } else if (!y) { want = 1; }
    }
    int r = embc_cstr_casecmp(a, b), q = embc_cstr_casecmp(b, a);
    if (strict) { VH_CHECK(r == want, "casecmp", "\"%s\" and \"%s\" compare as %d, expected %d", a, b, r, want); }
    else { VH_CHECK(r == 1 || r == -1, "casecmp", "\"%s\" and \"%s\" differ and compare as %d", a, b, r); }
    VH_CHECK(q == -r, "casecmp-order", "\"%s\" and \"%s\": %d one way and %d the other", a, b, r, q);
    if (!r && *a) { vh_nontrivial(); vh_count("case_matches", 1); }
}

void vh_case(uint64_t index) {
    (void) index;
    char a[400], b[400];
    int max = vh_chance(1, 20) ? 390 : 40;
    text(a, max);
    switch (vh_below(6)) {
        case 0: strcpy(b, a); break;
        case 1: strcpy(b, a); for (char *p = b; *p; ++p) { if (vh_chance(1, 2)) { *p = (char) (vh_chance(1, 2) ? up((uint8_t) *p) : low((uint8_t) *p)); } } break;
        case 2: strcpy(b, a); b[vh_below((uint32_t) strlen(a) + 1)] = 0; break;
        case 3: strcpy(b, a); if (*b) { b[vh_below((uint32_t) strlen(b))] ^= 0x20; for (char *p = b; *p; ++p) { } } break;
        case 4: strcpy(b, a); if (*b) { b[vh_below((uint32_t) strlen(b))] = letter(); } break;
        default: text(b, max); break;
    }
    char *ea = vh_exact_str(a), *eb = vh_exact_str(b);
    check_copy(ea);
    check_casecmp(ea, eb);

    const char *s = embc_cstr_starts_with(ea, eb);
    size_t n = strlen(b);
    VH_CHECK(s == (strncmp(a, b, n) ? 0 : ea + n), "starts-with", "\"%s\" / \"%s\": offset %d", a, b, s ? (int) (s - ea) : -1);
    vh_count(s ? "prefixes" : "not_prefixes", 1);
    VH_CHECK(!strcmp(ea, a) && !strcmp(eb, b), "inputs-changed", "an input string changed");

    static char words[64][400]; const char *table[65]; int tn = (int) vh_below(vh_chance(1, 20) ? 65 : 9), want = -1, idx = -77;
    for (int i = 0; i < tn; ++i) { if (vh_chance(1, 3)) { strcpy(words[i], vh_chance(1, 2) ? a : b); } else { text(words[i], 4); } table[i] = words[i]; if (want < 0 && !strcmp(words[i], a)) { want = i; } }
    table[tn] = 0;
    char **et = vh_exact(table, sizeof(table[0]) * (size_t) (tn + 1));
    int rc = embc_cstr_to_index(ea, (const char *const *) et, &idx);
    VH_CHECK(want >= 0 ? (rc == 0 && idx == want) : (rc != 0 && idx == -77), "to-index", "\"%s\" in a table of %d: rc %d index %d, expected %d", a, tn, rc, idx, want);
    free(et);

    rc = embc_cstr_toupper(ea);
    VH_CHECK(rc == 0, "toupper-rc", "%d", rc);
    for (size_t i = 0; i <= strlen(a); ++i) { VH_CHECK((uint8_t) ea[i] == (uint8_t) up((uint8_t) a[i]), "toupper", "\"%s\" became \"%s\"", a, ea); }

    static const struct { const char *t; int v; } words2[] = {{"ON", 1}, {"1", 1}, {"ENABLE", 1}, {"TRUE", 1}, {"OFF", 0}, {"0", 0}, {"DISABLE", 0}, {"FALSE", 0}};
    char w[64]; uint32_t pick = vh_below(8); strcpy(w, words2[pick].t);
    for (char *p = w; *p; ++p) { if (vh_chance(1, 2)) { *p = (char) low((uint8_t) *p); } }
    size_t wl = strlen(w);
    switch (vh_below(6)) {
        case 0: w[wl] = letter(); w[wl + 1] = 0; break;
        case 1: w[wl - 1] = 0; break;
        case 2: w[vh_below((uint32_t) wl)] = letter(); break;
        case 3: while (strlen(w) < 30) { strcat(w, vh_chance(1, 2) ? " " : "e"); } break;
        default: break;
    }
    int bw = -1;
    for (int i = 0; i < 8; ++i) { size_t j = 0; while (w[j] && up((uint8_t) w[j]) == words2[i].t[j]) { ++j; } if (!w[j] && !words2[i].t[j]) { bw = words2[i].v; } }
    char *ew = vh_exact_str(w); bool bv = vh_chance(1, 2), before = bv;
    rc = embc_cstr_to_bool(ew, &bv);
    VH_CHECK(bw >= 0 ? (rc == 0 && bv == (bw == 1)) : (rc != 0 && bv == before), "to-bool", "\"%s\": rc %d value %d, expected %d", w, rc, bv, bw);
    VH_CHECK(!strcmp(ew, w), "inputs-changed", "to_bool changed its input");
    vh_count(bw >= 0 ? "booleans" : "not_booleans", 1);
    free(ew);

    vh_sigs(a, strlen(a)); vh_sigs(b, strlen(b));
    free(ea); free(eb);
}

static void sc_characters(void) {
    for (int c = -128; c < 256; ++c) {
        int u = c & 0xff, v = (u >= '0' && u <= '9') ? u - '0' : (u >= 'a' && u <= 'f') ? u - 'a' + 10 : (u >= 'A' && u <= 'F') ? u - 'A' + 10 : 0;
        VH_CHECK(embc_cstr_hex_to_u4((char) u) == v, "hex-to-u4", "character %d gives %d", u, embc_cstr_hex_to_u4((char) u));
        VH_CHECK(embc_cstr_u4_to_hex((uint8_t) u) == (u < 16 ? "0123456789ABCDEF"[u] : '0'), "u4-to-hex", "value %d gives %c", u, embc_cstr_u4_to_hex((uint8_t) u));
        for (int d = 1; d < 256; ++d) { if (u) { char a[2] = {(char) u, 0}, b[2] = {(char) d, 0}; check_casecmp(a, b); } }
        vh_count("characters", 1);
    }
}
static void sc_null(void) {
    char t[4] = "abc"; int i = 5; bool b = true; static const char *const table[] = {"a", 0};
    VH_CHECK(embc_cstr_copy(t, 0, 4) == 0 && t[0] == 0 && t[1] == 'b', "null-copy", "copy of NULL");
    VH_CHECK(embc_cstr_copy(0, "a", 4) == -1 && embc_cstr_copy(0, 0, 0) == -1, "null-copy", "copy to NULL");
    VH_CHECK(embc_cstr_casecmp(0, "a") == -1 && embc_cstr_casecmp("a", 0) == 1, "null-casecmp", "casecmp of NULL");
    VH_CHECK(embc_cstr_starts_with(0, "a") == 0, "null-prefix", "starts_with NULL");
    VH_CHECK(embc_cstr_toupper(0) != 0, "null-toupper", "toupper of NULL");
    VH_CHECK(embc_cstr_to_index(0, table, &i) && embc_cstr_to_index("a", 0, &i) && embc_cstr_to_index("a", table, 0) && i == 5, "null-index", "to_index of NULL");
    VH_CHECK(embc_cstr_to_bool(0, &b) && embc_cstr_to_bool("TRUE", 0) && b, "null-bool", "to_bool of NULL");
    char arr[5]; VH_CHECK(embc_cstr_array_copy(arr, "123456") == 1 && !strcmp(arr, "1234"), "array-copy", "array copy truncation");
    VH_CHECK(embc_cstr_array_copy(arr, "1234") == 0 && !strcmp(arr, "1234"), "array-copy", "array copy exact");
    vh_count("null_calls", 10);
}

/* strings and tables longer than 8 and 16 bits measure */
static void sc_large(void) {
    static const int L[] = {127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70001};
    for (size_t q = 0; q < sizeof(L) / sizeof(L[0]); ++q) {
        int n = L[q];
        char *a = vh_exact(0, (size_t) n + 1), *b = vh_exact(0, (size_t) n + 1);
        for (int i = 0; i < n; ++i) { a[i] = (char) ('a' + i % 26); b[i] = (char) ('A' + i % 26); } a[n] = b[n] = 0;
        for (int size = n - 1; size <= n + 2; ++size) {
            char *t = malloc((size_t) size);
            int rc = embc_cstr_copy(t, a, size), k = n < size ? n : size - 1;
            VH_CHECK(rc == (n < size ? 0 : 1) && !memcmp(t, a, (size_t) k) && t[k] == 0, "copy-text", "copying %d characters into %d bytes returned %d", n, size, rc);
            free(t);
        }
        check_casecmp(a, b);
        VH_CHECK(!embc_cstr_starts_with(a, b) && embc_cstr_starts_with(a, a) == a + n, "starts-with", "strings of %d characters", n);
        b[n - 1] = '!'; check_casecmp(a, b); b[n - 1] = (char) ('A' + (n - 1) % 26);
        VH_CHECK(0 == embc_cstr_toupper(a) && !memcmp(a, b, (size_t) n + 1), "toupper", "a string of %d characters", n);
        VH_CHECK(embc_cstr_starts_with(a, b) == a + n, "starts-with", "strings of %d characters", n);
        a[n - 1] = '?'; VH_CHECK(!embc_cstr_starts_with(a, b), "starts-with", "strings of %d characters that differ in the last", n);
        a[n - 1] = 0; VH_CHECK(!embc_cstr_starts_with(a, b) && embc_cstr_starts_with(b, a) == b + n - 1, "starts-with", "a prefix of %d characters", n - 1);
        check_casecmp(a, b);
        free(a); free(b);
        char (*w)[8] = malloc((size_t) n * sizeof(*w)); const char **table = malloc(((size_t) n + 1) * sizeof(*table));
        for (int i = 0; i < n; ++i) { snprintf(w[i], sizeof(w[i]), "%d", i); table[i] = w[i]; } table[n] = 0;
        for (int i = n - 1; i >= 0; i -= i > n - 3 ? 1 : n / 3) { int idx = -1; VH_CHECK(0 == embc_cstr_to_index(w[i], table, &idx) && idx == i, "to-index", "entry %d of %d is found at %d", i, n, idx); }
        int idx = -77; VH_CHECK(0 != embc_cstr_to_index("x", table, &idx) && idx == -77, "to-index", "an absent string was found in a table of %d", n);
        free(w); free(table);
        vh_count("large_strings", 1);
    }
}
const vh_scenario_t vh_scenarios[] = {{"characters", sc_characters}, {"large", sc_large}, {"null", sc_null}, {0, 0}};
