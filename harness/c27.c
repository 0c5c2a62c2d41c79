/* C27: the test-pattern receiver accounts for every word.
 *
 * ASSUME: a corrupted word is one that could not occur anywhere in the pattern; jumps are less than half a period (documented); a receiver that has lost its place is not offered two successive pattern words of opposite kind from different places (no receiver can tell such a splice from a real pair)
 */
#include "vh.h"
#include "embc/pattern_32a.h"

const char *const vh_rule =
    "A case is one receiver joined at a random position of the 4325376-word pattern (sometimes after garbage), fed 1..12 faults (words lost, words repeated, jump back, words corrupted, words inserted, biased to period boundaries "
    "and to jumps that keep one of the two sub-patterns aligned) separated by clean runs, through single words and blocks of random size. Words come from a closed formula checked against the real transmitter. After every clean "
    "run all five counters are compared with the fault ledger. Half of the cases are dense instead: jumps, single pattern words, junk and clean runs of 0..5 words in any order, so that faults strike a receiver which is still resynchronizing, judged "
    "after every word by an ideal receiver that is told the true position of each word. Non-trivial: two different kinds of fault; distinct by fault list.";

uint64_t vh_case_count(int thorough) { return thorough ? 20000000 : 600000; }

#define PERIOD EMBC_PATTERN_32A_PERIOD
static uint32_t word(uint64_t n) {
    uint64_t i = (n / 2) % (PERIOD / 2);
    if (n & 1) { uint32_t c = (uint32_t) (i & 0xffff); return ((c ^ 0xffff) << 16) | c; }
    uint32_t p = (uint32_t) (i % 33);
    return p ? 1u << (p - 1) : 0;
}
static bool in_pattern(uint32_t v) { return (v & (v - 1)) == 0 || (((v >> 16) ^ 0xffff) == (v & 0xffff)); }
static uint32_t junk(uint32_t near) {
    uint32_t v;
    do { v = vh_chance(1, 2) ? near ^ (1u << vh_below(32)) : vh_chance(1, 3) ? near + (uint32_t) vh_range(-2, 2) : vh_u32(); } while (in_pattern(v));
    return v;
}

static struct embc_pattern_32a_rx_s rx;
static struct { uint64_t receive, missing, dup, error, resync; } want;
static uint32_t pend[64]; static uint32_t npend;
static bool blocks;
static bool by_on; static uint64_t by_n; static struct embc_pattern_32a_rx_s by_rx; static struct embc_pattern_32a_tx_s by_tx;    /* a second link, used in between */
static void flush(void) { if (npend) { uint32_t *x = vh_exact(pend, npend * 4); embc_pattern_32a_rx_buffer(&rx, x, npend * 4); free(x); npend = 0; } }
static void give(uint32_t v) {
    ++want.receive; vh_count("words", 1);
    if (by_on && vh_chance(1, 4)) {
        embc_pattern_32a_rx_next(&by_rx, embc_pattern_32a_tx_next(&by_tx)); ++by_n;
        VH_CHECK(by_rx.receive_count == by_n && !by_rx.missing_count && !by_rx.duplicate_count && !by_rx.error_count && !by_rx.resync_count, "bystander", "another receiver was disturbed after %llu words", (unsigned long long) by_n);
        vh_count("bystander_words", 1);
    }
    if (!blocks) { embc_pattern_32a_rx_next(&rx, v); return; }
    pend[npend++] = v; if (npend == 64 || vh_chance(1, 9)) { flush(); }
}
static void compare(const char *what) {
    flush();
    VH_CHECK(rx.receive_count == want.receive, "receive-count", "after %s: %llu words received, %llu counted", what, (unsigned long long) want.receive, (unsigned long long) rx.receive_count);
    VH_CHECK(rx.missing_count == want.missing, "missing-count", "after %s: missing %llu, really %llu", what, (unsigned long long) rx.missing_count, (unsigned long long) want.missing);
    VH_CHECK(rx.duplicate_count == want.dup, "duplicate-count", "after %s: duplicate %llu, really %llu", what, (unsigned long long) rx.duplicate_count, (unsigned long long) want.dup);
    VH_CHECK(rx.error_count == want.error, "error-count", "after %s: error %llu, expected %llu", what, (unsigned long long) rx.error_count, (unsigned long long) want.error);
    VH_CHECK(rx.resync_count == want.resync, "resync-count", "after %s: resync %llu, expected %llu", what, (unsigned long long) rx.resync_count, (unsigned long long) want.resync);
    vh_count("ledger_checks", 1);
}
static uint64_t jump(void) {
    switch (vh_below(7)) {
        case 0: return (uint64_t) vh_range(1, 8);
        case 1: return 66u * (uint64_t) vh_range(1, 30);                      /* shift word unchanged */
        case 2: return 131072u * (uint64_t) vh_range(1, 16);                  /* counter word unchanged */
        case 3: return 66u * (uint64_t) vh_range(1, 30) + (uint64_t) vh_range(-1, 1);
        case 4: return 131072u * (uint64_t) vh_range(1, 16) + (uint64_t) vh_range(-2, 2);
        case 5: return (uint64_t) vh_range(PERIOD / 2 - 40, PERIOD / 2 - 2);
        default: return (uint64_t) vh_range(1, PERIOD / 2 - 2);
    }
}

/* The ideal receiver: it knows the true position of every word (-1: none). */
static int64_t i_exp, i_w1; static int i_st;        /* 0 nothing yet, 1 joining, 2 in sync, 3 lost */
static bool offer(int64_t pos, uint32_t v) {
    if (i_st == 0) { i_w1 = pos; i_st = 1; }
    else if (i_st == 2) {
        if (v == word((uint64_t) i_exp)) { i_exp = (i_exp + 1) % PERIOD; vh_count("dense_in_sync", 1); }
        else { ++want.error; ++want.resync; i_w1 = pos; i_st = 3; vh_count("dense_lost", 1); }
    } else if (pos >= 0 && i_w1 >= 0 && ((pos ^ i_w1) & 1)) {
        if (pos != (i_w1 + 1) % PERIOD) { vh_count("splice_avoided", 1); return false; }
        if (i_st == 3) {
            int64_t d = (i_w1 - i_exp + PERIOD) % PERIOD;
            if (d > PERIOD / 2 - 4 && d < PERIOD / 2 + 4) { return false; }
            if (d < PERIOD / 2) { want.missing += (uint64_t) d; } else { want.dup += (uint64_t) (PERIOD - d); }
            vh_count("dense_resynced", 1);
        }
        i_exp = (pos + 1) % PERIOD; i_st = 2;
    } else { if (i_st == 3) { vh_count("dense_still_lost", 1); } ++want.error; i_w1 = pos; }
    give(v);
    return true;
}
static void dense(void) {
    int64_t n = vh_chance(1, 2) ? (int64_t) vh_below(PERIOD) : (PERIOD + vh_range(-30, 30)) % PERIOD;
    int kinds = 0, steps = (int) vh_range(3, 40); uint64_t k;
    i_st = 0; i_exp = i_w1 = 0;
    memset(&rx, (int) vh_below(256), sizeof(rx)); memset(&want, 0, sizeof(want)); npend = 0;
    embc_pattern_32a_rx_initialize(&rx);
    while (steps--) {
        int kind = (int) vh_below(6); int64_t at = n;
        switch (kind) {
            case 0: k = jump(); n = (int64_t) (((uint64_t) n + k) % PERIOD); break;
            case 1: k = jump(); n = (int64_t) (((uint64_t) n + PERIOD - k) % PERIOD); break;
            case 2: k = (uint64_t) vh_range(1, 3); for (uint64_t i = 0; i < k; ++i) { offer(-1, junk(word((uint64_t) n))); } break;
            case 3: k = (uint64_t) vh_range(1, 3); for (uint64_t i = 0; i < k; ++i) { offer(-1, junk(word((uint64_t) n))); n = (n + 1) % PERIOD; } break;
            case 4: k = 1; at = (int64_t) vh_below(PERIOD); if (vh_chance(1, 2)) { at = (n + (int64_t) vh_range(1, 9) + PERIOD - 5) % PERIOD; } if (!offer(at, word((uint64_t) at))) { offer(-1, junk(0)); } break;   /* a stray word */
            default: k = (uint64_t) vh_range(0, vh_chance(1, 5) ? 12 : 5);
                for (uint64_t i = 0; i < k; ++i) { if (!offer(n, word((uint64_t) n))) { offer(-1, junk(word((uint64_t) n))); } n = (n + 1) % PERIOD; }
                break;
        }
        vh_sig((uint64_t) kind * 16777619u + k); kinds |= 1 << kind;
        if (!blocks || vh_chance(1, 3)) { compare("a dense step"); }
    }
    for (k = 0; k < 6; ++k) { if (!offer(n, word((uint64_t) n))) { offer(-1, junk(word((uint64_t) n))); } n = (n + 1) % PERIOD; }
    compare("a dense case");
    if (i_st == 2) { vh_count("dense_finished_in_sync", 1); }
    if (kinds & (kinds - 1)) { vh_nontrivial(); }
}

void vh_case(uint64_t index) {
    blocks = vh_chance(1, 2);
    if ((by_on = vh_chance(1, 4))) { by_n = 0; embc_pattern_32a_rx_initialize(&by_rx); embc_pattern_32a_tx_initialize(&by_tx); }
    if (index & 1) { dense(); return; }
    uint64_t n = (uint64_t) PERIOD + (vh_chance(1, 3) ? (uint64_t) vh_range(-20, 20) : (uint64_t) vh_below(PERIOD)), k; unsigned kinds = 0;
    memset(&rx, (int) vh_below(256), sizeof(rx)); memset(&want, 0, sizeof(want)); npend = 0;
    embc_pattern_32a_rx_initialize(&rx);
    compare("initialize");
    if (vh_chance(1, 4)) { k = (uint64_t) vh_range(1, 6); want.error += k; while (k--) { give(junk(word(n))); } }
    int clean = (int) vh_range(6, 80);
    while (clean--) { give(word(n++)); }
    compare("start");
    int faults = (int) vh_range(1, 12);
    while (faults--) {
        int kind = (int) vh_below(5); const char *what = "";
        switch (kind) {
            case 0: k = jump(); what = "loss"; n += k; want.missing += k; ++want.error; ++want.resync; break;
            case 1: k = vh_chance(1, 2) ? (uint64_t) vh_range(1, 6) : jump(); what = "jump back"; n += PERIOD; n -= k; want.dup += k; ++want.error; ++want.resync; break;
            case 2: k = (uint64_t) vh_range(1, vh_chance(1, 4) ? 9 : 2); what = "corruption"; want.missing += k; want.error += k + 1; ++want.resync; for (uint64_t i = 0; i < k; ++i) { give(junk(word(n++))); } break;
            case 3: k = (uint64_t) vh_range(1, vh_chance(1, 4) ? 9 : 2); what = "insertion"; want.error += k + 1; ++want.resync; for (uint64_t i = 0; i < k; ++i) { give(junk(word(n))); } break;
            default: k = 0; what = "nothing"; break;
        }
        kinds |= 1u << kind; vh_sig((uint64_t) kind * 16777619u + k);
        vh_count(what, 1);
        clean = (int) vh_range(6, vh_chance(1, 10) ? 200 : 20);
        while (clean--) { give(word(n++)); }
        compare(what);
    }
    kinds &= 15; if (kinds & (kinds - 1)) { vh_nontrivial(); }

    /* the transmitter, through words and blocks */
    if (vh_chance(1, 4)) {
        struct embc_pattern_32a_tx_s tx; memset(&tx, 0x5a, sizeof(tx)); embc_pattern_32a_tx_initialize(&tx);
        uint64_t at = 0; int ops = (int) vh_range(1, 12);
        while (ops--) {
            uint32_t m = vh_below(vh_chance(1, 12) ? 400 : 9);
            if (vh_chance(1, 3)) { VH_CHECK(embc_pattern_32a_tx_next(&tx) == word(at), "tx-next", "word %llu", (unsigned long long) at); ++at; }
            else {
                uint32_t *b = malloc(m * 4 + 1); memset(b, 0xee, m * 4);
                embc_pattern_32a_tx_buffer(&tx, b, m * 4);
                for (uint32_t i = 0; i < m; ++i) { VH_CHECK(b[i] == word(at + i), "tx-buffer", "word %llu is %08x", (unsigned long long) (at + i), b[i]); }
                at += m; free(b);
            }
        }
        if (vh_chance(1, 10)) { embc_pattern_32a_tx_initialize(&tx); VH_CHECK(embc_pattern_32a_tx_next(&tx) == 0 && embc_pattern_32a_tx_next(&tx) == 0xffff0000u, "tx-restart", "restart"); }
        vh_count("tx_words", at);
    }
}

static void sc_period(void) {
    struct embc_pattern_32a_tx_s tx, t2; embc_pattern_32a_tx_initialize(&tx); embc_pattern_32a_tx_initialize(&t2);
    embc_pattern_32a_rx_initialize(&rx); memset(&want, 0, sizeof(want)); blocks = by_on = false;
    static uint32_t b[1000];
    for (uint64_t n = 0; n < PERIOD + 1001; ++n) {
        if (n % 1000 == 0 || n % 1000 == 999) { embc_pattern_32a_tx_buffer(&t2, b, n % 1000 ? 4 : 999 * 4); }
        uint32_t v = embc_pattern_32a_tx_next(&tx);
        VH_CHECK(v == word(n), "tx-next", "word %llu is %08x, documented %08x", (unsigned long long) n, v, word(n));
        VH_CHECK(b[n % 1000 == 999 ? 0 : n % 1000] == v, "tx-buffer", "block word %llu", (unsigned long long) n);
        give(v);
        if (n % 100000 == 0) { compare("the full period"); }
    }
    compare("the full period");
    VH_CHECK(VH_FATAL(embc_pattern_32a_tx_initialize(0)) && VH_FATAL(embc_pattern_32a_rx_initialize(0)) && VH_FATAL(embc_pattern_32a_rx_buffer(0, b, 4)) && VH_FATAL(embc_pattern_32a_rx_buffer(&rx, 0, 4)), "null", "a NULL argument was accepted");
}

/* a receiver in service for long: more faults than 16 bits count, more words missed and repeated than 32 bits count */
static void sc_worn(void) {
    uint64_t n = PERIOD + 5;
    blocks = by_on = false; npend = 0; memset(&want, 0, sizeof(want));
    embc_pattern_32a_rx_initialize(&rx);
    for (int i = 0; i < 6; ++i) { give(word(n++)); }
    rx.receive_count = want.receive = UINT32_MAX - 1000; rx.error_count = want.error = UINT32_MAX - 1000;      /* after long service */
    for (uint32_t i = 0; i < 140000; ++i) {
        uint64_t k = (i % 4 == 1) ? 1 + vh_below(200) : 100000 + vh_below(PERIOD / 2 - 100010);
        if (i & 1) { n += PERIOD - k; want.dup += k; } else { n += k; want.missing += k; }
        ++want.error; ++want.resync;
        if (i % 7 == 3) { ++want.error; give(junk(word(n))); }            /* and a word that is none */
        for (int j = 0; j < 4; ++j) { give(word(n++)); }
        n = PERIOD + n % PERIOD;
        if (i % 64 == 0 || i > 139990) { compare("long service"); }
    }
    compare("long service");
    vh_count("faults_in_one_service", 140000);
}

/* one call produces, and one call consumes, more words than 16 bits count */
static void sc_block(void) {
    static const uint32_t N[] = {65535, 65536, 65537, 70001, 300000};
    struct embc_pattern_32a_tx_s t;
    embc_pattern_32a_tx_initialize(&t);
    embc_pattern_32a_rx_initialize(&rx);
    uint64_t at = 0;
    for (size_t k = 0; k < sizeof(N) / sizeof(N[0]); ++k) {
        uint32_t *b = malloc((size_t) N[k] * 4);
        memset(b, 0x5a, (size_t) N[k] * 4);
        embc_pattern_32a_tx_buffer(&t, b, N[k] * 4);
        for (uint32_t i = 0; i < N[k]; ++i) { VH_CHECK(b[i] == word(at + i), "tx-buffer", "word %llu of a block of %u is %08x", (unsigned long long) (at + i), N[k], b[i]); }
        embc_pattern_32a_rx_buffer(&rx, b, N[k] * 4);
        at += N[k];
        VH_CHECK(rx.error_count == 0 && rx.missing_count == 0 && rx.duplicate_count == 0, "counters", "after a clean block of %u words: %u errors, %u missing, %u duplicated",
                 N[k], (unsigned) rx.error_count, (unsigned) rx.missing_count, (unsigned) rx.duplicate_count);
        VH_CHECK(rx.receive_count == at, "receive-count", "%llu words received, %llu counted", (unsigned long long) at, (unsigned long long) rx.receive_count);
        vh_count("large_blocks", 1);
        free(b);
    }
}

const vh_scenario_t vh_scenarios[] = {{"period", sc_period}, {"block", sc_block}, {"worn", sc_worn}, {0, 0}};
