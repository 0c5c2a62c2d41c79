/* C30: byte order encodings against a shift-based reference at every alignment,
 * in exactly sized memory between canaries. */
#include "vh.h"
#include "embc/bbuf.h"

const char *const vh_rule = "A case draws a value per width (boundary, single-bit, byte-distinct, random), an alignment 0..15 and a sequence of 1..24 macro or function encodes of mixed width and order laid out back to back in an exactly sized buffer, then decodes them through a separate path (macro or function) and also decodes reference bytes; every byte, every returned value, the cursor after each call and the bytes around are compared. Non-trivial: two or more items; distinct by the encoded bytes and layout.";
uint64_t vh_case_count(int thorough) { return thorough ? 40000000 : 1500000; }

enum { U8, U16B, U16L, U32B, U32L, U64B, U64L, KINDS };
static const int W[KINDS] = {1, 2, 2, 4, 4, 8, 8};
static void ref(uint8_t *o, int k, uint64_t v) {
    int w = W[k], le = (k == U16L || k == U32L || k == U64L);
    for (int i = 0; i < w; ++i) { o[le ? i : w - 1 - i] = (uint8_t) (v >> (8 * i)); }
}
static uint64_t mask(int k, uint64_t v) { return W[k] == 8 ? v : v & ((1ull << (8 * W[k])) - 1); }
static uint64_t draw(void) {
    switch (vh_below(5)) { case 0: return vh_edge64(); case 1: return 1ull << vh_below(64); case 2: return 0x8182838485868788ull ^ ((uint64_t) vh_u8() << 56); case 3: return ~(0xffull << (8 * vh_below(8))); default: return vh_u64(); }
}
static void enc_macro(uint8_t *b, int k, uint64_t v) {
    switch (k) {
        case U8: EMBC_BBUF_ENCODE_U8(b, (uint8_t) v); break;
        case U16B: EMBC_BBUF_ENCODE_U16_BE(b, (uint16_t) v); break;
        case U16L: EMBC_BBUF_ENCODE_U16_LE(b, (uint16_t) v); break;
        case U32B: EMBC_BBUF_ENCODE_U32_BE(b, (uint32_t) v); break;
        case U32L: EMBC_BBUF_ENCODE_U32_LE(b, (uint32_t) v); break;
        case U64B: EMBC_BBUF_ENCODE_U64_BE(b, v); break;
        default: EMBC_BBUF_ENCODE_U64_LE(b, v); break;
    }
}
/* pointer and value given as expressions, from a wider or signed type */
static void enc_macro_expr(uint8_t *b, int off, int k, uint64_t v) {
    uint8_t *a = b - 1; int64_t s = (int64_t) v; uint64_t h = v / 3, r = v - h;
    switch (k) {
        case U8: EMBC_BBUF_ENCODE_U8(a + 1 + off, (uint8_t) (h + r)); break;
        case U16B: EMBC_BBUF_ENCODE_U16_BE(a + 1 + off, h + r); break;
        case U16L: EMBC_BBUF_ENCODE_U16_LE(a + 1 + off, s); break;
        case U32B: EMBC_BBUF_ENCODE_U32_BE(a + 1 + off, h + r); break;
        case U32L: EMBC_BBUF_ENCODE_U32_LE(off ? a + 1 + off : b, s); break;
        case U64B: EMBC_BBUF_ENCODE_U64_BE(off ? a + 1 + off : b, h + r); break;
        default: EMBC_BBUF_ENCODE_U64_LE(a + 1 + off, s); break;
    }
}
/* operands whose operators bind less tightly than a shift or a mask */
static void enc_macro_loose(uint8_t *b, int k, uint64_t v) {
    volatile uint64_t lo = v & 0x5555555555555555ull, hi = v & ~0x5555555555555555ull; int yes = (int) (v != 0), zero = 0;
    switch (k) {
        case U8: EMBC_BBUF_ENCODE_U8(yes ? b : b, (uint8_t) hi | (uint8_t) lo); break;
        case U16B: EMBC_BBUF_ENCODE_U16_BE(yes ? b : b, (uint16_t) hi | (uint16_t) lo); break;
        case U16L: EMBC_BBUF_ENCODE_U16_LE(yes ? b : b, (uint16_t) hi | (uint16_t) lo); break;
        case U32B: EMBC_BBUF_ENCODE_U32_BE(yes ? b : b, (uint32_t) hi | (uint32_t) lo); break;
        case U32L: EMBC_BBUF_ENCODE_U32_LE(yes ? b : b, yes ? (uint32_t) v : (uint32_t) zero); break;
        case U64B: EMBC_BBUF_ENCODE_U64_BE(yes ? b : b, hi ^ lo); break;
        default: EMBC_BBUF_ENCODE_U64_LE(yes ? b : b, yes ? v : (uint64_t) zero); break;
    }
}
static uint8_t *enc_fn(uint8_t *b, int k, uint64_t v) {
    switch (k) {
        case U8: embc_bbuf_unsafe_encode_u8(&b, (uint8_t) v); break;
        case U16B: embc_bbuf_unsafe_encode_u16_be(&b, (uint16_t) v); break;
        case U16L: embc_bbuf_unsafe_encode_u16_le(&b, (uint16_t) v); break;
        case U32B: embc_bbuf_unsafe_encode_u32_be(&b, (uint32_t) v); break;
        case U32L: embc_bbuf_unsafe_encode_u32_le(&b, (uint32_t) v); break;
        case U64B: embc_bbuf_unsafe_encode_u64_be(&b, v); break;
        default: embc_bbuf_unsafe_encode_u64_le(&b, v); break;
    }
    return b;
}
static uint64_t dec_macro(const uint8_t *b, int k, int expr) {
    const uint8_t *a = b - 1;
    if (expr) {
        switch (k) {
            case U8: return EMBC_BBUF_DECODE_U8(a + 1) + 0u;
            case U16B: return EMBC_BBUF_DECODE_U16_BE(a + 1) + 0u;
            case U16L: return EMBC_BBUF_DECODE_U16_LE(expr > 1 ? a + 1 : b);
            case U32B: return EMBC_BBUF_DECODE_U32_BE(expr > 1 ? a + 1 : b);
            case U32L: return EMBC_BBUF_DECODE_U32_LE(expr > 1 ? a + 1 : b);
            case U64B: return EMBC_BBUF_DECODE_U64_BE(expr > 1 ? a + 1 : b);
            default: return EMBC_BBUF_DECODE_U64_LE(expr > 1 ? a + 1 : b);
        }
    }
    switch (k) {
        case U8: return EMBC_BBUF_DECODE_U8(b);
        case U16B: return EMBC_BBUF_DECODE_U16_BE(b);
        case U16L: return EMBC_BBUF_DECODE_U16_LE(b);
        case U32B: return EMBC_BBUF_DECODE_U32_BE(b);
        case U32L: return EMBC_BBUF_DECODE_U32_LE(b);
        case U64B: return EMBC_BBUF_DECODE_U64_BE(b);
        default: return EMBC_BBUF_DECODE_U64_LE(b);
    }
}
static uint64_t dec_fn(const uint8_t **b, int k) {
    switch (k) {
        case U8: return embc_bbuf_unsafe_decode_u8(b);
        case U16B: return embc_bbuf_unsafe_decode_u16_be(b);
        case U16L: return embc_bbuf_unsafe_decode_u16_le(b);
        case U32B: return embc_bbuf_unsafe_decode_u32_be(b);
        case U32L: return embc_bbuf_unsafe_decode_u32_le(b);
        case U64B: return embc_bbuf_unsafe_decode_u64_be(b);
        default: return embc_bbuf_unsafe_decode_u64_le(b);
    }
}
static const char *KN[KINDS] = {"u8", "u16_be", "u16_le", "u32_be", "u32_le", "u64_be", "u64_le"};

static void layout(int n, const int *kind, const uint64_t *v, int align) {
    size_t total = 0, pos = 0;
    for (int i = 0; i < n; ++i) { total += (size_t) W[kind[i]]; }
    uint8_t *mem = malloc((size_t) align + total), *base = mem + align, want[24 * 8];
    memset(mem, 0x5a, (size_t) align + total);
    memset(want, 0x5a, sizeof(want));
    uint8_t *cur = base;
    for (int i = 0; i < n; ++i) {
        int k = kind[i], how = (int) vh_below(align ? 4 : 3);
        if (how == 0) { enc_macro(base + pos, k, v[i]); }
        else if (how == 1) { uint8_t *e = enc_fn(base + pos, k, v[i]); VH_CHECK(e == base + pos + W[k], "encode-cursor", "encode_%s advanced by %ld", KN[k], (long) (e - (base + pos))); }
        else if (how == 2) { enc_macro_loose(base + pos, k, v[i]); }
        else { enc_macro_expr(base, (int) pos, k, v[i]); }
        ref(want + pos, k, v[i]); pos += (size_t) W[k]; cur = base + pos;
        VH_CHECK(0 == memcmp(base, want, total), "encode-bytes", "encode_%s(0x%llx) at alignment %d: wrong bytes (item %d)", KN[k], (unsigned long long) v[i], align, i);
        vh_count("encodes", 1);
    }
    (void) cur;
    for (int i = 0; i < align; ++i) { VH_CHECK(mem[i] == 0x5a, "encode-before", "byte before the buffer changed"); }
    const uint8_t *rd = base; pos = 0;
    for (int i = 0; i < n; ++i) {
        int k = kind[i]; uint64_t g, m = mask(k, v[i]);
        if (vh_chance(1, 2)) {
            const uint8_t *b4 = rd; g = dec_fn(&rd, k);
            VH_CHECK(rd == b4 + W[k], "decode-cursor", "decode_%s advanced by %ld", KN[k], (long) (rd - b4));
        } else { g = dec_macro(base + pos, k, (align || pos) ? (int) vh_below(3) : 0); rd = base + pos + W[k]; }
        pos += (size_t) W[k];
        VH_CHECK(g == m, "decode-value", "decode_%s = 0x%llx, expected 0x%llx (alignment %d)", KN[k], (unsigned long long) g, (unsigned long long) m, align);
        vh_count("decodes", 1);
    }
    VH_CHECK(0 == memcmp(base, want, total), "decode-changed", "decoding changed the buffer");
    vh_sigs(base, total); vh_sig((uint64_t) align);
    if (n > 1) { vh_nontrivial(); }
    free(mem);
}
void vh_case(uint64_t index) {
    (void) index;
    int n = 1 + (int) vh_below(24), kind[24]; uint64_t v[24];
    for (int i = 0; i < n; ++i) { kind[i] = (int) vh_below(KINDS); v[i] = draw(); }
    layout(n, kind, v, (int) vh_below(16));
}
/* every 16-bit value in both orders through every path */
static void s_all16(void) {
    uint8_t *mem = malloc(3);
    for (uint32_t v = 0; v < 65536; ++v) {
        for (int k = U16B; k <= U16L; ++k) {
            uint8_t w[2]; ref(w, k, v); const uint8_t *rd = mem + 1;
            enc_macro(mem + 1, k, v); VH_CHECK(0 == memcmp(mem + 1, w, 2), "encode-bytes", "u16 0x%x", v);
            enc_fn(mem + 1, k, v); VH_CHECK(0 == memcmp(mem + 1, w, 2), "encode-bytes", "u16 0x%x", v);
            VH_CHECK(dec_macro(mem + 1, k, 0) == v && dec_fn(&rd, k) == v, "decode-value", "u16 0x%x", v);
        }
    }
    vh_nontrivial(); free(mem);
}
/* every byte at every position of the wider kinds, with all others zero and all others 0xff */
static void s_positions(void) {
    uint8_t *mem = malloc(8);
    for (int k = U32B; k < KINDS; ++k) { for (int pos = 0; pos < W[k]; ++pos) { for (int inv = 0; inv < 2; ++inv) { for (uint32_t b = 0; b < 256; ++b) {
        uint64_t v = ((uint64_t) b << (8 * pos)) | (inv ? mask(k, ~(0xffull << (8 * pos))) : 0); uint8_t w[8]; ref(w, k, v);
        const uint8_t *rd = mem + 8 - W[k];
        enc_macro(mem + 8 - W[k], k, v); VH_CHECK(0 == memcmp(rd, w, (size_t) W[k]), "encode-bytes", "%s 0x%llx", KN[k], (unsigned long long) v);
        memcpy(mem + 8 - W[k], w, (size_t) W[k]);
        VH_CHECK(dec_macro(rd, k, 0) == v && dec_fn(&rd, k) == v, "decode-value", "%s 0x%llx", KN[k], (unsigned long long) v);
    } } } }
    vh_nontrivial(); free(mem);
}
const vh_scenario_t vh_scenarios[] = {{"all16", s_all16}, {"positions", s_positions}, {0, 0}};
