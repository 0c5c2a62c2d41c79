/* C26: the LFSR sequence has full period and its follower finds every break.
 *
 * ASSUME: after two zero bytes (which no position of the sequence produces) the follower's next prediction is not fixed, except that a third zero byte is an error
 */
#include "vh.h"
#include "embc/lfsr.h"

const char *const vh_rule =
    "Scenario period walks every state from several seeds; scenario follow_all starts a follower at all 65535 positions. A case is a random interleaving of bit, byte, 16-bit and 32-bit reads compared with a bit-by-bit reference of "
    "x^16+x^14+x^13+x^11+1, then a follower fed 20..400 bytes of the sequence with random corruption, loss, duplication, jumps and stuck-at runs; every return code and the error count are compared with a reference follower. "
    "Non-trivial: at least two breaks; distinct by stream.";

uint64_t vh_case_count(int thorough) { return thorough ? 20000000 : 600000; }

/* reference: the sequence as bits b[n+16] = b[n] ^ b[n+2] ^ b[n+3] ^ b[n+5], oldest bit lowest in the state */
static uint16_t step(uint16_t v) { unsigned b = ((v >> 0) ^ (v >> 2) ^ (v >> 3) ^ (v >> 5)) & 1u; return (uint16_t) ((v >> 1) | (b << 15)); }
static uint16_t steps(uint16_t v, int n) { while (n--) { v = step(v); } return v; }

typedef struct { uint8_t prev, cur; int need; int errors; } follow_t;   /* need: bytes until synchronised */

static void feed(struct embc_lfsr_s *f, follow_t *m, uint8_t d, bool *lenient_error) {
    int rc = embc_lfsr_follow_u8(f, d), want = 0;
    *lenient_error = false;
    if (m->need) { --m->need; }
    else {
        uint16_t v = (uint16_t) (m->prev | (m->cur << 8));
        uint8_t e = (uint8_t) (steps(v, 8) >> 8);
        if (v == 0) {
            VH_CHECK(rc == 0 || rc == -1, "follow-rc", "follow returned %d", rc);
            VH_CHECK(d != 0 || rc == -1, "stuck-zero", "an all-zero stream was accepted as being in sequence");
            want = rc; *lenient_error = true;
            if (rc == 0) { VH_CHECK(f->error_count == m->errors, "error-count", "%d errors counted, expected %d", f->error_count, m->errors); }
        } else { want = d == e ? 0 : -1; }
        if (want) { ++m->errors; m->need = 1; vh_count("breaks_reported", 1); }
    }
    VH_CHECK(rc == want, "follow-rc", "byte %02x after %02x %02x: follow returned %d, expected %d", d, m->prev, m->cur, rc, want);
    VH_CHECK(f->error_count == m->errors, "error-count", "%d errors counted, expected %d", f->error_count, m->errors);
    m->prev = m->cur; m->cur = d;
    vh_count("followed", 1);
    VH_CHECK(f->resync_bit_count == 8 * m->need, "resync-bits", "%d bits left before resynchronisation, expected %d", f->resync_bit_count, 8 * m->need);
}

void vh_case(uint64_t index) {
    (void) index;
    struct embc_lfsr_s g; memset(&g, 0x77, sizeof(g));
    uint16_t v = LFSR16_INITIAL_VALUE;
    embc_lfsr_initialize(&g);
    if (vh_chance(2, 3)) { v = vh_chance(1, 20) ? 0 : (uint16_t) vh_u32(); embc_lfsr_seed_u16(&g, v); if (!v) { v = 1; } }
    else if (vh_chance(1, 10)) { g.value = 0; v = 1; }
    struct embc_lfsr_s by; uint16_t bv = (uint16_t) vh_range(1, 65535); embc_lfsr_initialize(&by); embc_lfsr_seed_u16(&by, bv);   /* a second sequence, used in between */
    int n = (int) vh_range(1, 30);
    while (n--) {
        uint32_t r, w; int kind = (int) vh_below(4);
        if (vh_chance(1, 4)) { bv = steps(bv, 8); VH_CHECK(embc_lfsr_next_u8(&by) == bv >> 8, "bystander", "another sequence was disturbed"); }
        switch (kind) {
            case 0: v = step(v); w = v >> 15; r = (uint32_t) embc_lfsr_next_u1(&g); break;
            case 1: v = steps(v, 8); w = v >> 8; r = embc_lfsr_next_u8(&g); break;
            case 2: v = steps(v, 16); w = v; r = embc_lfsr_next_u16(&g); break;
            default: v = steps(v, 16); w = (uint32_t) v << 16; v = steps(v, 16); w |= v; r = embc_lfsr_next_u32(&g); break;
        }
        VH_CHECK(r == w, "next", "read of %d bits gave %x, expected %x", 1 << (kind ? kind + 2 : 0), r, w);
        VH_CHECK(g.value == v, "state", "state %04x, expected %04x", g.value, v);
        vh_count("reads", 1);
    }

    struct embc_lfsr_s f; memset(&f, 0x5a, sizeof(f)); embc_lfsr_initialize(&f);
    follow_t m = {0, 0, 2, 0};
    embc_lfsr_initialize(&by); by.error_count = 0;
    int len = (int) vh_range(20, vh_chance(1, 10) ? 400 : 60), breaks = 0; uint32_t rate = vh_chance(1, 4) ? 0 : (uint32_t) vh_range(3, 40);
    uint16_t s = (uint16_t) vh_range(1, 65535); bool len_err; int clean = 0;
    for (int i = 0; i < len; ++i) {
        uint8_t d;
        s = steps(s, 8); d = (uint8_t) (s >> 8); ++clean;
        if (vh_chance(1, 6)) { bv = steps(bv, 8); VH_CHECK(embc_lfsr_follow_u8(&by, (uint8_t) (bv >> 8)) == 0 && by.error_count == 0, "bystander", "another follower was disturbed"); }
        if (rate && vh_chance(1, rate)) {
            ++breaks; clean = 0;
            switch (vh_below(6)) {
                case 0: d ^= (uint8_t) (1u << vh_below(8)); break;
                case 1: d = vh_u8(); break;
                case 2: s = steps(s, (int) vh_range(1, 80)); d = (uint8_t) (s >> 8); break;               /* bits or bytes lost */
                case 3: feed(&f, &m, d, &len_err); break;                                                 /* byte repeated */
                case 4: s = (uint16_t) vh_range(1, 65535); break;
                default: { int k = (int) vh_range(1, 12); uint8_t stuck = vh_chance(2, 3) ? 0 : vh_u8(); while (k--) { feed(&f, &m, stuck, &len_err); } }
            }
            if (vh_chance(1, 25)) { embc_lfsr_initialize(&f); m = (follow_t) {0, 0, 2, 0}; }
        }
        int before = m.errors;
        feed(&f, &m, d, &len_err);
        if (clean > 8) { VH_CHECK(m.errors == before, "no-recovery", "still reporting errors %d bytes after the last fault", clean); }
        vh_sig(d);
    }
    if (breaks >= 2) { vh_nontrivial(); }
}

static void sc_period(void) {
    static const uint16_t seeds[] = {LFSR16_INITIAL_VALUE, 1, 0x8000, 0xffff, 0x1234};
    static uint8_t seen[65536];
    for (int k = 0; k < 5; ++k) {
        struct embc_lfsr_s g; embc_lfsr_initialize(&g); embc_lfsr_seed_u16(&g, seeds[k]);
        memset(seen, 0, sizeof(seen));
        uint16_t v = seeds[k];
        for (int i = 0; i < LFSR16_LENGTH; ++i) {
            VH_CHECK(g.value != 0 && !seen[g.value], "period", "state %04x repeats after %d steps", g.value, i);
            seen[g.value] = 1;
            int b = embc_lfsr_next_u1(&g); v = step(v);
            VH_CHECK(b == (v >> 15) && g.value == v, "next", "step %d from seed %04x: bit %d state %04x, expected %04x", i, seeds[k], b, g.value, v);
        }
        VH_CHECK(g.value == seeds[k], "period", "after %d steps the state is %04x", LFSR16_LENGTH, g.value);
        vh_count("states_walked", LFSR16_LENGTH);
    }
}
static void sc_follow_all(void) {
    for (uint32_t s = 1; s < 65536; ++s) {
        struct embc_lfsr_s f, g; embc_lfsr_initialize(&f); embc_lfsr_initialize(&g); embc_lfsr_seed_u16(&g, (uint16_t) s);
        for (int i = 0; i < 6; ++i) { VH_CHECK(embc_lfsr_follow_u8(&f, embc_lfsr_next_u8(&g)) == 0 && f.error_count == 0, "follow-clean", "position %04x byte %d reported as an error", s, i); }
        /* every single-byte corruption is reported at once */
        uint8_t d = (uint8_t) (embc_lfsr_next_u8(&g) ^ (uint8_t) (1 + s % 255));
        VH_CHECK(embc_lfsr_follow_u8(&f, d) == -1 && f.error_count == 1, "follow-corrupt", "position %04x: a wrong byte was accepted", s);
        vh_count("positions", 1);
    }
    VH_CHECK(VH_FATAL(embc_lfsr_initialize(0)) && VH_FATAL(embc_lfsr_seed_u16(0, 1)) && VH_FATAL(embc_lfsr_next_u1(0)) && VH_FATAL(embc_lfsr_next_u8(0)) && VH_FATAL(embc_lfsr_next_u16(0)) && VH_FATAL(embc_lfsr_next_u32(0)) && VH_FATAL(embc_lfsr_follow_u8(0, 1)), "null", "a NULL instance was accepted");
}

const vh_scenario_t vh_scenarios[] = {{"period", sc_period}, {"follow_all", sc_follow_all}, {0, 0}};
