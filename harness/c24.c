/* C24: numeric parsing accepts exactly valid in-range numbers.
 *
 * ASSUME: not fixed by the documentation and therefore accepted either way (but with the right value): white space between sign and digits, a leading '+' for unsigned, an upper-case 0X prefix, a decimal point with digits on only one side, a NULL value pointer for the scaled parser; for the optional float parser (built here with it enabled: VH_USE_FLOAT) numbers whose magnitude a float cannot hold, hexadecimal floats, "inf" and "nan"
 */
#include "vh.h"
#include "embc/cstr.h"

const char *const vh_rule =
    "A case is one string put in an exact-size heap block and given to all three parsers (the scaled one with exponents -3..40). Strings come from the number grammar around the int32/uint32 boundaries (scaled by every exponent), "
    "with white space, signs, hex prefixes, leading zeros, excess fraction digits and up to 60 digits, then often one mutation (insert, delete, replace, truncate, append), plus random short strings over the relevant characters. "
    "A saturating 128-bit reference parser decides acceptance and value; the output must be untouched on failure. Non-trivial: some parser must accept the string and another must reject it, or the value is within 10 of a limit; distinct by string.";

uint64_t vh_case_count(int thorough) { return thorough ? 120000000 : 6000000; }

typedef __int128 i128;
#define BIG ((i128) 1 << 100)
typedef struct { int ok; int maybe; i128 v; } ref_t;       /* maybe: acceptance is optional */

static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool dg(char c) { return c >= '0' && c <= '9'; }
static int hx(char c) { return dg(c) ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : -1; }

static ref_t magnitude(const char *s) {
    ref_t r = {0, 0, 0}; int n = 0;
    if (s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) {
        r.maybe = s[1] == 'X'; s += 2;
        while (hx(*s) >= 0) { if (r.v < BIG) { r.v = r.v * 16 + hx(*s); } ++s; ++n; }
    } else { while (dg(*s)) { if (r.v < BIG) { r.v = r.v * 10 + (*s - '0'); } ++s; ++n; } }
    while (sp(*s)) { ++s; }
    r.ok = n > 0 && !*s;
    return r;
}
static ref_t ref_u32(const char *s) {
    while (sp(*s)) { ++s; }
    int plus = *s == '+'; if (plus) { ++s; if (sp(*s)) { return (ref_t) {0, 0, 0}; } }
    ref_t r = magnitude(s); r.maybe |= plus;
    if (r.v > UINT32_MAX) { r.ok = 0; }
    return r;
}
static ref_t ref_i32(const char *s) {
    while (sp(*s)) { ++s; }
    int neg = *s == '-', gap = 0;
    if (*s == '-' || *s == '+') { ++s; while (sp(*s)) { ++s; gap = 1; } }
    ref_t r = magnitude(s); r.maybe |= gap;
    if (neg) { r.v = -r.v; }
    if (r.v > INT32_MAX || r.v < INT32_MIN) { r.ok = 0; }
    return r;
}
static ref_t ref_i32s(const char *s, int e) {
    ref_t r = {0, 0, 0}; int before = 0, after = 0, kept = 0, point = 0, gap = 0;
    if (e < 0) { return r; }
    while (sp(*s)) { ++s; }
    int neg = *s == '-';
    if (*s == '-' || *s == '+') { ++s; while (sp(*s)) { ++s; gap = 1; } }
    while (dg(*s)) { if (r.v < BIG) { r.v = r.v * 10 + (*s - '0'); } ++s; ++before; }
    if (*s == '.') { point = 1; ++s; while (dg(*s)) { if (kept < e) { if (r.v < BIG) { r.v = r.v * 10 + (*s - '0'); } ++kept; } ++s; ++after; } }
    while (sp(*s)) { ++s; }
    for (; kept < e; ++kept) { if (r.v < BIG) { r.v *= 10; } }
    if (neg) { r.v = -r.v; }
    r.ok = (before + after > 0) && !*s && r.v <= INT32_MAX && r.v >= INT32_MIN;
    r.maybe = gap || (point && (!before || !after));
    return r;
}

static void judge(const char *what, const char *s, ref_t r, int rc, int64_t got, int64_t untouched) {
    if (rc) {
        VH_CHECK(got == untouched, "output-touched", "%s(\"%s\") failed but changed the output", what, s);
        VH_CHECK(!r.ok || r.maybe, "rejected", "%s rejected \"%s\" = %lld", what, s, (long long) r.v);
    } else {
        VH_CHECK(r.ok, "accepted", "%s accepted \"%s\" and gave %lld", what, s, (long long) got);
        VH_CHECK(got == (int64_t) r.v, "value", "%s(\"%s\") gave %lld, expected %lld", what, s, (long long) got, (long long) r.v);
    }
    vh_count(rc ? "rejected" : "accepted", 1);
}

static bool near(i128 v) { i128 a = v < 0 ? -v : v; return (a > (i128) INT32_MAX - 10 && a < (i128) INT32_MAX + 10) || (a > (i128) UINT32_MAX - 10 && a < (i128) UINT32_MAX + 10); }

static void try_all(const char *s, int e) {
    char *x = vh_exact_str(s);
    uint32_t u = 0xa5a51234u; int32_t i = 0x5a5a4321; int32_t f = 0x5a5a4321;
    ref_t ru = ref_u32(s), ri = ref_i32(s), rf = ref_i32s(s, e);
    /* a sentinel equal to the expected value would hide a write */
    judge("to_u32", s, ru, embc_cstr_to_u32(x, &u), u, 0xa5a51234u);
    judge("to_i32", s, ri, embc_cstr_to_i32(x, &i), i, 0x5a5a4321);
    char what[40]; snprintf(what, sizeof(what), "to_i32s[%d]", e);
    judge(what, s, rf, embc_cstr_to_i32s(x, e, &f), f, 0x5a5a4321);
    VH_CHECK(!strcmp(x, s), "input-changed", "the input string changed");
    if ((ru.ok + ri.ok + rf.ok) % 3 || near(ru.v) || near(ri.v) || near(rf.v)) { vh_nontrivial(); }
    free(x);
}

/* the optional float parser: every finite float comes back from its shortest exact text; text that is not a decimal number is refused */
static ref_t ref_f32(const char *s) {                       /* v: 1 when the magnitude is certainly one a float holds */
    ref_t r = {0, 0, 0}; int digits = 0, ex = 0, xd = 0, xneg = 0, lead = -1000, pos = 0, point = -1, nz = 0;
    while (sp(*s)) { ++s; }
    if (*s == '-' || *s == '+') { ++s; }
    if (s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { r.maybe = 1; }
    if (*s == 'i' || *s == 'I' || *s == 'n' || *s == 'N') { r.maybe = 1; }
    while (dg(*s) || (*s == '.' && point < 0)) {
        if (*s == '.') { point = pos; } else { ++digits; if (*s != '0' && !nz) { nz = 1; lead = pos; } ++pos; }
        ++s;
    }
    if (point < 0) { point = pos; }
    if (digits && (*s == 'e' || *s == 'E')) {
        ++s; if (*s == '-' || *s == '+') { xneg = *s == '-'; ++s; }
        while (dg(*s)) { if (ex < 100000) { ex = ex * 10 + (*s - '0'); } ++s; ++xd; }
        if (!xd) { digits = 0; }
        if (xneg) { ex = -ex; }
    }
    while (sp(*s)) { ++s; }
    r.ok = digits > 0 && !*s;
    int mag = nz ? point - lead + ex : 0;                   /* value is 0.d... * 10^mag */
    r.v = mag < 38 && mag > -36;
    return r;
}
static void try_float(const char *s) {
    char *x = vh_exact_str(s); float f = 12345.678f, keep = f;
    ref_t r = ref_f32(s);
    int rc = embc_cstr_to_f32(x, &f);
    if (rc) { VH_CHECK(!memcmp(&f, &keep, sizeof(f)), "output-touched", "to_f32(\"%s\") failed but changed the output", s); VH_CHECK(!r.ok || !r.v, "rejected", "to_f32 rejected \"%s\"", s); }
    else {
        VH_CHECK(r.ok || r.maybe, "accepted", "to_f32 accepted \"%s\" and gave %g", s, (double) f);
        if (r.ok && r.v) {
            long double want = strtold(s, 0), d = (long double) f - want, m = want < 0 ? -want : want; if (d < 0) { d = -d; }
            VH_CHECK(d <= m * 1.2e-7L, "value", "to_f32(\"%s\") gave %.9g", s, (double) f);
        }
    }
    VH_CHECK(!strcmp(x, s), "input-changed", "the input string changed");
    vh_count(rc ? "floats_rejected" : "floats_accepted", 1);
    free(x);
}
static int blanks(char *s, int p);
static void float_case(void) {
    char s[120]; int n = 0; union { uint32_t u; float f; } v;
    do { v.u = (uint32_t) vh_u64(); } while ((v.u & 0x7f800000u) == 0x7f800000u);
    static const char *const fmt[] = {"%.9g", "%.8e", "%.12g", "%.10E"};
    if (vh_chance(1, 3)) { v.f = (float) vh_range(-2000000, 2000000) / 1000; }
    n += blanks(s, 3); int a = n; n += sprintf(s + n, fmt[vh_below(4)], (double) v.f); int b = n; n += blanks(s + n, 3); s[n] = 0;
    char *x = vh_exact_str(s); float got = 99;
    VH_CHECK(0 == embc_cstr_to_f32(x, &got), "rejected", "to_f32 rejected \"%s\"", s);
    VH_CHECK(got == v.f, "round-trip", "to_f32(\"%s\") gave %.9g", s, (double) got);
    free(x);
    static const char set[] = " .-+,eExX_a\x80\t0";
    int at = (int) vh_range(a, b);
    switch (vh_below(4)) {
        case 0: memmove(s + at + 1, s + at, (size_t) (n - at + 1)); s[at] = set[vh_below(sizeof(set) - 1)]; break;
        case 1: memmove(s + at, s + at + 1, (size_t) (n - at)); break;
        case 2: if (at < n) { s[at] = set[vh_below(sizeof(set) - 1)]; } break;
        default: { int k = (int) vh_below(7); for (int i = 0; i < k; ++i) { s[i] = "0019.-+ eE,5"[vh_below(12)]; } s[k] = 0; break; }
    }
    try_float(s);
}
static int blanks(char *s, int p) { int n = 0; if (vh_chance(1, (uint32_t) p)) { n = (int) vh_range(1, 3); for (int i = 0; i < n; ++i) { s[i] = " \t\n\v\f\r  "[vh_below(8)]; } } return n; }

void vh_case(uint64_t index) {
    (void) index;
    char s[200]; int n = 0, e = vh_chance(1, 30) ? (int) vh_range(-3, 40) : (int) vh_range(0, 11);
    if (vh_chance(1, 8)) {
        static const char set[] = "0019x.-+, \taAfFgGX\n25";
        int k = (int) vh_below(8); for (; n < k; ++n) { s[n] = set[vh_below(sizeof(set) - 1)]; }
    } else {
        n += blanks(s + n, 3);
        if (vh_chance(1, 2)) { s[n++] = vh_chance(2, 3) ? '-' : '+'; }
        n += blanks(s + n, 30);
        int z = vh_chance(1, 6) ? (int) vh_range(1, 12) : 0; 
        uint64_t lim = vh_chance(1, 2) ? 0x7fffffffull : 0xffffffffull, v;
        switch (vh_below(6)) {
            case 0: v = lim + (uint64_t) vh_range(-5, 5); break;
            case 1: v = vh_u64() >> vh_range(0, 63); break;
            case 2: v = lim * (uint64_t) vh_range(1, 12) + (uint64_t) vh_range(-3, 3); break;
            case 3: v = (1ull << vh_range(30, 63)) + (uint64_t) vh_range(-2, 2); break;
            default: v = vh_u64() >> vh_range(28, 60); break;
        }
        if (vh_chance(1, 4)) { s[n++] = '0'; s[n++] = vh_chance(1, 12) ? 'X' : 'x'; while (z--) { s[n++] = '0'; } n += sprintf(s + n, vh_chance(1, 2) ? "%llx" : "%llX", (unsigned long long) v); }
        else {
            while (z--) { s[n++] = '0'; }
            if (vh_chance(1, 2)) {                      /* a value at the limit once scaled */
                char d[40]; int k = sprintf(d, "%llu", (unsigned long long) v), point = vh_chance(1, 2) && e >= 0 ? k - e : (int) vh_range(-3, k);
                if (point <= 0) { s[n++] = '0'; s[n++] = '.'; while (point++ < 0 && n < 100) { s[n++] = '0'; } memcpy(s + n, d, (size_t) k); n += k; }
                else { if (point > k) { point = k; } memcpy(s + n, d, (size_t) point); n += point; s[n++] = '.'; memcpy(s + n, d + point, (size_t) (k - point)); n += k - point; }
                if (vh_chance(1, 3)) { int m = (int) vh_range(1, 20); while (m--) { s[n++] = (char) vh_range('0', '9'); } }
            } else { n += sprintf(s + n, "%llu", (unsigned long long) v); if (vh_chance(1, 10)) { int m = (int) vh_range(1, 60); while (m--) { s[n++] = (char) vh_range('0', '9'); } } }
        }
        n += blanks(s + n, 3);
        if (vh_chance(1, 4) && n) {
            static const char set[] = " .-+,xX0_eEaf\x80";
            int at = (int) vh_below((uint32_t) n);
            switch (vh_below(5)) {
                case 0: memmove(s + at + 1, s + at, (size_t) (n - at)); s[at] = set[vh_below(sizeof(set) - 1)]; ++n; break;
                case 1: memmove(s + at, s + at + 1, (size_t) (n - at - 1)); --n; break;
                case 2: s[at] = vh_chance(1, 2) ? set[vh_below(sizeof(set) - 1)] : (char) vh_range(1, 255); break;
                case 3: n = at; break;
                default: s[n++] = set[vh_below(sizeof(set) - 1)]; break;
            }
        }
    }
    s[n] = 0;
    try_all(s, e);
    if (vh_chance(1, 8)) { try_float(s); float_case(); }
    vh_sigs(s, (size_t) n); vh_sig((uint64_t) e);
}

/* every string of up to 6 characters over the characters the grammars distinguish */
static void sc_short(void) {
    static const char set[] = {'0', '7', 'x', 'a', '.', '-', '+', ' ', ','};
    char s[8]; int idx[8];
    for (int len = 0; len <= 5; ++len) {
        memset(idx, 0, sizeof(idx));
        while (1) {
            for (int i = 0; i < len; ++i) { s[i] = set[idx[i]]; } s[len] = 0;
            for (int e = -1; e <= 3; ++e) { try_all(s, e); }
            try_float(s);
            int k = 0; while (k < len && ++idx[k] == (int) sizeof(set)) { idx[k++] = 0; }
            vh_count("short_strings", 1);
            if (k == len) { break; }
        }
    }
}
static void sc_null(void) {
    float fl = 7; VH_CHECK(embc_cstr_to_f32(0, &fl) && embc_cstr_to_f32("1", 0) && fl == 7, "null", "a NULL argument was accepted");
    uint32_t u = 7; int32_t i = 7;
    VH_CHECK(embc_cstr_to_u32(0, &u) && embc_cstr_to_u32("1", 0) && embc_cstr_to_i32(0, &i) && embc_cstr_to_i32("1", 0) && embc_cstr_to_i32s(0, 1, &i) && u == 7 && i == 7, "null", "a NULL argument was accepted");
    (void) embc_cstr_to_i32s("1", 1, 0);
}

/* numbers behind and in front of more characters than 8 and 16 bits count */
static void sc_large(void) {
    static const int L[] = {60, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 32768, 65534, 65535, 65536, 65537, 70001};
    static const char *const V[] = {"0", "7", "2147483647", "2147483648", "4294967295", "4294967296", "12.5", "0x7fffffff", "0xffffffff", ".25", "x", ""};
    for (size_t q = 0; q < sizeof(L) / sizeof(L[0]); ++q) {
        for (size_t v = 0; v < sizeof(V) / sizeof(V[0]); ++v) {
            for (int kind = 0; kind < 6; ++kind) {
                int n = L[q]; char *s = malloc((size_t) n + 40), *p = s;
                bool hex = V[v][0] == '0' && V[v][1] == 'x';
                const char *d = hex ? V[v] + 2 : V[v];
                switch (kind) {
                    case 0: memset(p, ' ', (size_t) n); p += n; strcpy(p, V[v]); break;
                    case 1: strcpy(p, V[v]); p += strlen(p); memset(p, '\t', (size_t) n); p[n] = 0; break;
                    case 2: if (hex) { *p++ = '0'; *p++ = 'x'; } memset(p, '0', (size_t) n); p += n; strcpy(p, d); break;
                    case 3: *p++ = '-'; if (hex) { *p++ = '0'; *p++ = 'x'; } memset(p, '0', (size_t) n); p += n; strcpy(p, d); break;
                    case 4: strcpy(p, V[v]); p += strlen(p); if (!hex && !strchr(V[v], '.')) { *p++ = '.'; } memset(p, '0', (size_t) n); p[n] = 0; break;
                    default: *p++ = '0'; *p++ = '.'; memset(p, '0', (size_t) n); p += n; strcpy(p, d); break;
                }
                for (int e = 0; e <= 10; e += 5) { try_all(s, e); }
                free(s);
                vh_count("large_numbers", 1);
            }
        }
    }
}
const vh_scenario_t vh_scenarios[] = {{"short", sc_short}, {"large", sc_large}, {"null", sc_null}, {0, 0}};
