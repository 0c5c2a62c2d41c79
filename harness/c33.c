/* C33: the bundled formatter against the C library.  VH_USE_TINYPRINTF
 * ASSUME: a precision (read and ignored, the width being filled with zeros, as the formatter documents) is tried on integers only; h/hh/t/j sizes, + and space flags, * widths and floating point are not supported by the formatter and not tried; %c ignores a width; %p of NULL is not compared (C leaves the text to the implementation)
 * ASSUME: the flags - 0 # are used with the conversions C defines them for */
#include "vh.h"
#include "tinyprintf.h"
#include <limits.h>

const char *const vh_rule = "A case builds a format of 1..6 conversions with literal text around them (flags in any order and repeated, width absent or 0..40 (now and then 300), size none/l/ll/z), boundary-biased arguments and strings of 0..50 (now and then 300) characters, and formats it with the C library and with tfp_snprintf, tfp_sprintf, tfp_format and tfp_printf, at every kind of buffer size (0, 1, exact, one less, larger); text, length, terminator and the bytes after the buffer are compared. Non-trivial: the text is longer than the format's literal part; distinct by text and buffer size.";
uint64_t vh_case_count(int thorough) { return thorough ? 16000000 : 600000; }

static char fmt[1024], want[4096];
static size_t fl;
static void fch(char c) { fmt[fl++] = c; fmt[fl] = 0; }
static void literal(void) {
    int n = (int) vh_below(6);
    for (int i = 0; i < n; ++i) {
        if (vh_chance(1, 8)) { fch('%'); fch('%'); }
        else { char c = (char) (vh_chance(1, 10) ? vh_range(128, 255) : vh_range(1, 127)); if (c == '%') { c = 'z'; } fch(c); }
    }
}
static void flags(const char *set) {
    size_t k = strlen(set); int n = (int) vh_below(4);
    for (int i = 0; i < n && k; ++i) { fch(set[vh_below((uint32_t) k)]); }
}
static void width(void) {
    if (vh_chance(1, 2)) { char b[8]; int w = vh_chance(1, 3) ? (int) vh_below(41) : (int) vh_below(12); if (vh_chance(1, 40)) { w = (int) vh_below(301); vh_count("wide_fields", 1); } if (w) { snprintf(b, sizeof(b), "%d", w); for (char *c = b; *c; ++c) { fch(*c); } } }
}
enum { A_INT, A_LONG, A_LL, A_SIZE, A_STR, A_PTR, A_CHAR };
static void integer(int size) {
    char conv = "diuxXo"[vh_below(6)];
    fch('%');
    flags((conv == 'x' || conv == 'X' || conv == 'o') ? "-0#" : "-0");
    width();
    if (size == A_LONG) { fch('l'); } else if (size == A_LL) { fch('l'); fch('l'); } else if (size == A_SIZE) { fch('z'); }
    fch(conv);
    vh_count("integer_conversions", 1);
}
static char sbuf[3][304]; static int sn;
static const char *str(void) {
    char *s = sbuf[sn++ % 3]; int n = (int) vh_below(vh_chance(1, 40) ? 301 : vh_chance(1, 2) ? 8 : 51);
    for (int i = 0; i < n; ++i) { s[i] = (char) (vh_chance(1, 8) ? '%' : vh_range(1, 255)); }
    s[n] = 0;
    return s;
}
static void string(void) { fch('%'); flags("-"); width(); fch('s'); vh_count("string_conversions", 1); }
static void pointer(void) { fch('%'); flags("-"); width(); fch('p'); vh_count("pointer_conversions", 1); }
static void chr(void) { fch('%'); fch('c'); vh_count("char_conversions", 1); }
static void spec(int a) { if (a <= A_SIZE) { integer(a); } else if (a == A_STR) { string(); } else if (a == A_PTR) { pointer(); } else { chr(); } }

static char outb[8192]; static size_t outn; static void *out_cookie;
static void put(void *p, char c) { VH_CHECK(p == out_cookie, "cookie", "output cookie"); VH_CHECK(outn < sizeof(outb), "runaway", "too much output"); outb[outn++] = c; }

static void vfmt(void *cookie, ...) { va_list va; va_start(va, cookie); tfp_format(cookie, put, fmt, va); va_end(va); }
static int vprn(char *d, ...) { va_list va; va_start(va, d); int r = tfp_vsprintf(d, fmt, va); va_end(va); return r; }
static int vsnp(char *d, size_t n, ...) { va_list va; va_start(va, n); int r = tfp_vsnprintf(d, n, fmt, va); va_end(va); return r; }

/* compare every entry point for the argument list ARGS */
#define TRY(...) do { \
    int len = snprintf(want, sizeof(want), fmt, __VA_ARGS__); \
    VH_CHECK(len >= 0 && len < (int) sizeof(want), "harness", "libc"); \
    size_t cap; \
    switch (vh_below(6)) { case 0: cap = 0; break; case 1: cap = 1; break; case 2: cap = (size_t) len; break; case 3: cap = (size_t) len + 1; break; case 4: cap = vh_below((uint32_t) len + 2); break; default: cap = (size_t) len + 2 + vh_below(20); break; } \
    char *d = malloc(cap ? cap : 1); memset(d, 0x7e, cap ? cap : 1); \
    int r = vh_chance(1, 2) ? tfp_snprintf(cap ? d : (vh_chance(1, 2) ? NULL : d), cap, fmt, __VA_ARGS__) : vsnp(cap ? d : NULL, cap, __VA_ARGS__); \
    judge("snprintf", d, cap, r, len); free(d); \
    d = malloc((size_t) len + 1); memset(d, 0x7e, (size_t) len + 1); \
    r = vh_chance(1, 2) ? tfp_sprintf(d, fmt, __VA_ARGS__) : vprn(d, __VA_ARGS__); \
    judge("sprintf", d, (size_t) len + 1, r, len); free(d); \
    outn = 0; out_cookie = &out_cookie + vh_below(4); \
    if (vh_chance(1, 2)) { vfmt(out_cookie, __VA_ARGS__); } else { init_printf(out_cookie, put); tfp_printf(fmt, __VA_ARGS__); } \
    VH_CHECK(outn == (size_t) len && 0 == memcmp(outb, want, outn), "format-text", "format \"%s\": %zu characters \"%.*s\", C gives %d \"%s\"", fmt, outn, (int) outn, outb, len, want); \
    vh_sigs(want, (size_t) len); vh_sig(cap); vh_sigs(fmt, fl); if (len > 0) { vh_nontrivial(); } \
} while (0)
static void judge(const char *fn, const char *d, size_t cap, int r, int len) {
    vh_count("calls", 1);
    VH_CHECK(r == len, "length", "%s size %zu format \"%s\" returned %d, C returns %d (\"%s\")", fn, cap, fmt, r, len, want);
    if (!cap) { VH_CHECK(d[0] == 0x7e, "size-zero", "%s wrote with size 0", fn); vh_count("size_zero", 1); return; }
    size_t n = (size_t) len < cap ? (size_t) len : cap - 1;
    if ((size_t) len >= cap) { vh_count("truncated", 1); }
    VH_CHECK(0 == memcmp(d, want, n), "text", "%s size %zu format \"%s\" gave \"%.*s\", C gives \"%s\"", fn, cap, fmt, (int) n, d, want);
    VH_CHECK(d[n] == 0, "terminator", "%s size %zu format \"%s\": no terminator at %zu", fn, cap, fmt, n);
    for (size_t i = n + 1; i < cap; ++i) { VH_CHECK(d[i] == 0x7e, "beyond", "%s wrote after the terminator", fn); }
}
#pragma clang diagnostic ignored "-Wformat"
void vh_case(uint64_t index) {
    (void) index;
    fl = 0; fmt[0] = 0; literal();
    uint64_t v = vh_edge64(), w = vh_edge64();
    void *p = (void *) (uintptr_t) (vh_edge64() | 1);
    switch (vh_below(9)) {
        case 0: spec(A_INT); literal(); TRY((int) v); break;
        case 1: spec(A_LONG); literal(); TRY((long) v); break;
        case 2: spec(A_LL); literal(); TRY((long long) v); break;
        case 3: spec(A_SIZE); literal(); TRY((size_t) v); break;
        case 4: { const char *s = str(); spec(A_STR); literal(); TRY(s); break; }
        case 5: spec(A_PTR); literal(); spec(A_CHAR); literal(); { int c = (int) vh_range(0, 255); TRY(p, c); } break;
        case 6: { const char *s = str(); spec(A_INT); literal(); spec(A_STR); literal(); spec(A_LL); literal(); spec(A_INT); literal(); TRY((int) v, s, (long long) w, (int) w); break; }
        case 7: { const char *s = str(), *t = str(); int c = (int) vh_range(0, 255); spec(A_STR); spec(A_CHAR); spec(A_STR); spec(A_LONG); literal(); spec(A_PTR); spec(A_SIZE); literal(); TRY(s, c, t, (long) v, p, (size_t) w); break; }
        default: { spec(A_INT); spec(A_INT); spec(A_INT); literal(); spec(A_INT); spec(A_LONG); spec(A_INT); TRY((int) v, (int) w, (int) (v >> 32), (int) (w >> 32), (long) w, 0); break; }
    }
}
/* boundary values of every size, conversion, flag set and width */
static void s_matrix(void) {
    static const long long V[] = {0, 1, -1, 7, 8, 9, 10, 15, 16, 99, 100, INT_MAX, INT_MIN, (long long) INT_MAX + 1, UINT_MAX, LLONG_MAX, LLONG_MIN, LLONG_MIN + 1};
    static const char *F[] = {"", "-", "0", "-0", "0-", "#", "#0", "-#", "0#-"}, *L[] = {"", "l", "ll", "z"};
    for (size_t i = 0; i < sizeof(V) / sizeof(V[0]); ++i) { for (int f = 0; f < 9; ++f) { for (int l = 0; l < 4; ++l) { for (const char *c = "diuxXo"; *c; ++c) { for (int wd = 0; wd < 30; wd = wd < 4 ? wd + 1 : wd + 5) {
        if (strchr(F[f], '#') && strchr("diu", *c)) { continue; }
        if (wd) { snprintf(fmt, sizeof(fmt), "[%%%s%d%s%c]", F[f], wd, L[l], *c); } else { snprintf(fmt, sizeof(fmt), "[%%%s%s%c]", F[f], L[l], *c); }
        fl = strlen(fmt);
        if (l == 0) { TRY((int) V[i]); } else if (l == 1) { TRY((long) V[i]); } else if (l == 2) { TRY(V[i]); } else { TRY((size_t) V[i]); }
    } } } } }
}
/* "x.y" is read, y is ignored and the width x is filled with zeros */
static void s_dotted(void) {
    static const long long V[] = {0, 1, -1, 10, 255, INT_MAX, INT_MIN, LLONG_MAX, LLONG_MIN};
    static const char *L[] = {"", "l", "ll", "z"};
    for (size_t i = 0; i < sizeof(V) / sizeof(V[0]); ++i) { for (int l = 0; l < 4; ++l) { for (const char *c = "diuxXo"; *c; ++c) { for (int wd = 0; wd < 30; wd = wd < 4 ? wd + 1 : wd + 5) { for (int y = -1; y < 120; y = y < 10 ? y + 1 : y + 37) {
        char w[8] = "", pr[8] = "", cf[64], d[128];
        if (wd) { snprintf(w, sizeof(w), "%d", wd); }
        if (y >= 0) { snprintf(pr, sizeof(pr), "%d", y); }
        snprintf(fmt, sizeof(fmt), "[%%%s.%s%s%c|%%d]", w, pr, L[l], *c);
        snprintf(cf, sizeof(cf), wd ? "[%%0%s%s%c|%%d]" : "[%%%s%s%c|%%d]", w, L[l], *c);
        fl = strlen(fmt); memset(d, 0x7e, sizeof(d));
        int len, r;
        if (l == 0) { len = snprintf(want, sizeof(want), cf, (int) V[i], 7); r = tfp_snprintf(d, sizeof(d), fmt, (int) V[i], 7); }
        else if (l == 1) { len = snprintf(want, sizeof(want), cf, (long) V[i], 7); r = tfp_snprintf(d, sizeof(d), fmt, (long) V[i], 7); }
        else if (l == 2) { len = snprintf(want, sizeof(want), cf, V[i], 7); r = tfp_snprintf(d, sizeof(d), fmt, V[i], 7); }
        else { len = snprintf(want, sizeof(want), cf, (size_t) V[i], 7); r = tfp_snprintf(d, sizeof(d), fmt, (size_t) V[i], 7); }
        judge("snprintf", d, sizeof(d), r, len);
    } } } } }
}
/* widths and texts longer than 8 and 16 bits measure */
static void s_large(void) {
    static const int L[] = {41, 99, 100, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 70001};
    static char w[80000], d[80000];
    for (size_t q = 0; q < sizeof(L) / sizeof(L[0]); ++q) {
        for (int kind = 0; kind < 7; ++kind) {
            static const char *F[] = {"%%%dd|", "%%0%dx|", "%%-%dlld|", "%%%ds|", "%%-%ds|", "%%#%do|", "%%-%dp|"};
            char f[32]; int len, r, n = L[q];
            snprintf(f, sizeof(f), F[kind], n);
#define BOTH(a) do { len = snprintf(w, sizeof(w), f, a); r = tfp_snprintf(d, sizeof(d), f, a); } while (0)
            switch (kind) { case 0: BOTH(-12345); break; case 1: BOTH(0xbeef); break; case 2: BOTH(-1234567890123LL); break; case 3: case 4: BOTH("text"); break; case 5: BOTH(0777); break; default: BOTH((void *) d); break; }
            VH_CHECK(r == len && !strcmp(w, d), "text", "format \"%s\" gave %d characters, C gives %d", f, r, len);
            vh_count("large_texts", 1);
        }
        char *s = vh_exact(0, (size_t) L[q] + 1); memset(s, 'y', (size_t) L[q]); s[L[q]] = 0;
        for (int cap = 0; cap < 4; ++cap) {
            size_t size = cap == 0 ? 0 : cap == 1 ? 10 : cap == 2 ? (size_t) L[q] : (size_t) L[q] + 3;
            memset(d, 0x7e, sizeof(d)); memset(w, 0x7e, sizeof(w));
            int len = snprintf(w, size, "<%s>", s), r = tfp_snprintf(d, size, "<%s>", s);
            VH_CHECK(r == len && !memcmp(w, d, sizeof(w)), "text", "a string of %d characters into %zu bytes: returned %d, C returns %d", L[q], size, r, len);
        }
        free(s);
    }
}
const vh_scenario_t vh_scenarios[] = {{"matrix", s_matrix}, {"dotted", s_dotted}, {"large", s_large}, {0, 0}};
