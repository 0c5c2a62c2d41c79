/* C25: CRCs equal their definitions for all data and any split.
 *
 * ASSUME: burst errors are contiguous in the bit order of the CRC (LSB first for CRC-8 and CRC-32, MSB first for CRC-16)
 */
#include "vh.h"
#include "embc/crc.h"

const char *const vh_rule =
    "A case is one block (0..80 bytes, sometimes up to 6000; random, constant, sparse or counting content) in an exact-size heap copy at a random alignment. Each of the three CRCs is compared with a bit-serial shift register, "
    "computed again over a random partition (including empty pieces) and, for short blocks, every two-way split, with a random starting value, and after injecting a single-bit error, and a burst no longer than the CRC. "
    "Non-trivial: at least 2 bytes; distinct by block content.";

uint64_t vh_case_count(int thorough) { return thorough ? 8000000 : 200000; }

/* division by the polynomial one bit at a time; all three registers start and end complemented */
static uint32_t serial(int width, int msb_first, uint32_t poly, uint32_t crc, const uint8_t *p, size_t n) {
    uint32_t mask = width == 32 ? 0xffffffffu : (1u << width) - 1, r = ~crc & mask;
    if (!n) { return crc; }
    for (size_t i = 0; i < n; ++i) {
        for (int b = 0; b < 8; ++b) {
            uint32_t in = (uint32_t) (p[i] >> (msb_first ? 7 - b : b)) & 1u;
            if (msb_first) { uint32_t out = (r >> (width - 1)) & 1u; r = (r << 1) & mask; if (out ^ in) { r ^= poly; } }
            else { uint32_t out = r & 1u; r >>= 1; if (out ^ in) { r ^= poly; } }
        }
    }
    return ~r & mask;
}
static uint32_t reflect(uint32_t v, int w) { uint32_t r = 0; for (int i = 0; i < w; ++i) { if (v & (1u << i)) { r |= 1u << (w - 1 - i); } } return r; }
static const int width[3] = {8, 16, 32}, msb[3] = {0, 1, 0};
static uint32_t ref(int k, uint32_t crc, const uint8_t *p, size_t n) {
    static const uint32_t poly[3] = {0x07, 0x1021, 0x04c11db7};
    return serial(width[k], msb[k], msb[k] ? poly[k] : reflect(poly[k], width[k]), crc, p, n);
}
static uint32_t real(int k, uint32_t crc, const uint8_t *p, size_t n) {
    switch (k) { case 0: return embc_crc_ccitt_8((uint8_t) crc, p, (uint32_t) n); case 1: return embc_crc_ccitt_16((uint16_t) crc, p, (uint32_t) n); default: return embc_crc32(crc, p, (uint32_t) n); }
}
static const char *const name[3] = {"crc8", "crc16", "crc32"};

void vh_case(uint64_t index) {
    (void) index;
    size_t n = vh_chance(1, 40) ? (size_t) vh_range(81, 6000) : (size_t) vh_below(81);
    size_t off = vh_below(8);
    uint8_t *base = malloc(n + off + 1), *p = base + off + 1;      /* the block ends where the allocation ends */
    switch (vh_below(5)) {
        case 0: memset(p, vh_chance(1, 2) ? 0 : 0xff, n); break;
        case 1: memset(p, vh_u8(), n); break;
        case 2: memset(p, 0, n); for (int i = 0; n && i < 3; ++i) { p[vh_below((uint32_t) n)] = vh_u8(); } break;
        case 3: for (size_t i = 0; i < n; ++i) { p[i] = (uint8_t) (i + index); } break;
        default: vh_fill(p, n); break;
    }
    for (int k = 0; k < 3; ++k) {
        uint32_t full = real(k, 0, p, n), want = ref(k, 0, p, n);
        VH_CHECK(full == want, name[k], "%s of %d bytes is %x, the bit-serial definition gives %x", name[k], (int) n, full, want);
        uint32_t start = vh_u32() & (width[k] == 32 ? 0xffffffffu : (1u << width[k]) - 1);
        VH_CHECK(real(k, start, p, n) == ref(k, start, p, n), "continued", "%s of %d bytes continued from %x", name[k], (int) n, start);
        uint32_t c = start;
        for (size_t at = 0; at < n;) { size_t m = vh_chance(1, 5) ? 0 : (size_t) vh_range(1, (int64_t) (n - at)); c = real(k, c, p + at, m); at += m; vh_count("pieces", 1); }
        VH_CHECK(c == real(k, start, p, n), "partition", "%s over a partition of %d bytes is %x, at once %x", name[k], (int) n, c, real(k, start, p, n));
        if (n <= 64 && vh_chance(1, 4)) { for (size_t s = 0; s <= n; ++s) { c = real(k, real(k, 0, p, s), p + s, n - s); VH_CHECK(c == full, "split", "%s of %d bytes split at %d", name[k], (int) n, (int) s); } vh_count("all_splits", 1); }
        if (n) {
            for (int t = 0; t < 3; ++t) {
                size_t bits = n * 8, len = t == 0 ? 1 : (size_t) vh_range(1, width[k]), at = (size_t) vh_below((uint32_t) bits);
                if (at + len > bits) { len = bits - at; }
                uint8_t *q = vh_exact(p, n);
                for (size_t i = 0; i < len; ++i) {      /* both ends of a burst are wrong, the middle is arbitrary */
                    if (i == 0 || i == len - 1 || vh_chance(1, 2)) { size_t b = at + i; q[b / 8] ^= (uint8_t) (msb[k] ? 0x80u >> (b % 8) : 1u << (b % 8)); }
                }
                VH_CHECK(real(k, 0, q, n) != full, "burst", "%s does not see an error burst of %d bits at bit %d of %d bytes", name[k], (int) len, (int) at, (int) n);
                vh_count("bursts", 1); free(q);
            }
        }
    }
    vh_count("bytes", n); vh_sigs(p, n); if (n >= 2) { vh_nontrivial(); }
    free(base);
}

static void sc_vectors(void) {
    const uint8_t *m = (const uint8_t *) "123456789";
    VH_CHECK(embc_crc32(0, m, 9) == 0xcbf43926u && embc_crc_ccitt_16(0, m, 9) == 0xd64e && embc_crc_ccitt_8(0, m, 9) == 0x2f, "vectors", "published check values (got %x %x %x)", embc_crc32(0, m, 9), embc_crc_ccitt_16(0, m, 9), embc_crc_ccitt_8(0, m, 9));
    for (int k = 0; k < 3; ++k) {
        for (uint32_t v = 0; v < 65536; ++v) {
            uint8_t b[2] = {(uint8_t) v, (uint8_t) (v >> 8)};
            VH_CHECK(real(k, 0, b, 2) == ref(k, 0, b, 2), name[k], "two bytes %04x", v);
            if (v < 256) { for (uint32_t s = 0; s < 256; ++s) { VH_CHECK(real(k, s * 0x01010101u & (width[k] == 32 ? ~0u : (1u << width[k]) - 1), b, 1) == ref(k, s * 0x01010101u & (width[k] == 32 ? ~0u : (1u << width[k]) - 1), b, 1), name[k], "byte %02x from %02x", v, s); } }
        }
        VH_CHECK(real(k, 0x5a, 0, 0) == 0x5a && real(k, 0x5a, 0, 10) == 0x5a && real(k, 0x5a, m, 0) == 0x5a, "empty", "%s of nothing", name[k]);
    }
    vh_count("exhaustive_pairs", 3 * 65536);
}
static void sc_long(void) {
    size_t n = 300000; uint8_t *p = malloc(n); vh_fill(p, n);
    for (int k = 0; k < 3; ++k) { VH_CHECK(real(k, 0, p, n) == ref(k, 0, p, n), name[k], "%s of %d bytes", name[k], (int) n); }
    free(p);
}

const vh_scenario_t vh_scenarios[] = {{"vectors", sc_vectors}, {"long", sc_long}, {0, 0}};
