/* C02: the receiver accepts exactly the valid frames of any byte stream.
 *
 * ASSUME: streams are generated from frames, damaged frames, noise and false headers; a frame whose id byte is itself the start byte (reserved bits set) is not generated
 */
#include "fsim.h"
#include "embc/stream/framer_util.h"

const char *const vh_rule =
    "A case is one byte stream of valid frames, damaged/truncated/spliced/nested frames, false headers with valid CRC-8, runs of start bytes and noise, fed "
    "in random block sizes and then flushed; the frames handed to the receive hook are compared one by one with an independent decoder. Non-trivial: the "
    "stream holds at least 3 valid frames and at least one false start byte between them; distinct by stream content.";

uint64_t vh_case_count(int thorough) { return thorough ? 1500000 : 30000; }

#define S_MAX 16000
#define BULK_MAX 200000
static uint8_t st[BULK_MAX + 2048]; static size_t st_n, st_max = S_MAX;
static void put(const uint8_t *p, size_t n) { if (st_n + n <= st_max) { memcpy(st + st_n, p, n); st_n += n; } }

static size_t some_frame(uint8_t *o) {
    uint8_t p[WF_PAY_MAX];
    uint8_t len = sim_gen_len();
    if (vh_chance(1, 2)) { len = (uint8_t) vh_below(20); }
    uint8_t raw = vh_chance(7, 8) ? (uint8_t) (vh_u8() & 0x8f) : vh_u8();
    if (raw == WF_SOF) { raw = 0x0a; }
    switch (vh_below(4)) {
        case 0: for (int i = 0; i < len; ++i) { p[i] = vh_chance(1, 2) ? WF_SOF : vh_u8(); } break;
        case 1: { /* a valid frame nested in the payload: only found when the outer one is damaged */
            vh_fill(p, len);
            if (len > 60) {
                uint8_t in[64], j[20]; vh_fill(j, sizeof(j));
                size_t k = wf_build(in, vh_u8() & 0x8f, vh_u8(), vh_u8(), (uint16_t) vh_u32(), j, (uint8_t) vh_below(20));
                uint32_t at = vh_below((uint32_t) (len - k));
                memcpy(p + at, in, k);
                if (at + 2 * k < len && vh_chance(1, 2)) { memcpy(p + at + k, in, k); }
            }
            break;
        }
        default: vh_fill(p, len); break;
    }
    return wf_build(o, raw, vh_chance(3, 4) ? (uint8_t) vh_below(16) : vh_u8(), vh_u8(), (uint16_t) vh_u32(), p, len);
}

static void gen(void) {
    st_n = 0;
    int parts = 4 + (int) vh_below(40);
    uint8_t o[WF_MAX + 8];
    for (int i = 0; i < parts; ++i) {
        size_t n;
        switch (vh_below(12)) {
            case 0: case 1: case 2: case 3: n = some_frame(o); put(o, n); break;
            case 4: { uint32_t l = vh_below(vh_chance(1, 6) ? 600 : 20); for (uint32_t k = 0; k < l; ++k) { uint8_t x = vh_chance(1, 4) ? WF_SOF : vh_u8(); put(&x, 1); } break; }
            case 5: { uint32_t l = 1 + vh_below(12); uint8_t x = WF_SOF; while (l--) { put(&x, 1); } break; }
            case 6: n = some_frame(o); o[vh_below((uint32_t) n)] ^= (uint8_t) (1u << vh_below(8)); put(o, n); break;
            case 7: n = some_frame(o); put(o, vh_below((uint32_t) n + 1)); break;
            case 8: { n = some_frame(o); uint32_t a = vh_below((uint32_t) n); put(o + a, n - a); break; }
            case 9: { /* false header: valid CRC-8, any length, including too long */
                o[0] = WF_SOF; for (int k = 1; k < 7; ++k) { o[k] = vh_u8(); }
                if (o[1] == WF_SOF) { o[1] = 1; }
                o[7] = ref_crc8(o, 7); put(o, 8); break;
            }
            case 10: { /* splice of two frames */
                uint8_t q[WF_MAX + 8]; n = some_frame(o); size_t m = some_frame(q);
                uint32_t a = vh_below((uint32_t) n), b = vh_below((uint32_t) m);
                put(o, a); put(q + b, m - b); break;
            }
            default: n = some_frame(o); o[8 + vh_below((uint32_t) n - 8)] ^= (uint8_t) (1 + vh_below(255)); put(o, n); break;
        }
    }
    memset(st + st_n, WF_SOF, 1024);       /* flush: completes whatever false header is pending */
}

typedef struct { size_t at; uint16_t n; } exp_t;
static exp_t ex[20000]; static int ex_n, got_n;

static void hook(void *user, struct embc_buffer_s *f) {
    (void) user;
    uint16_t n = (uint16_t) embc_buffer_length(f);
    VH_CHECK(got_n < ex_n, "rx:extra", "accepted frame %d of %d bytes which is not in the stream", got_n, n);
    exp_t *e = &ex[got_n];
    VH_CHECK(n == e->n, "rx:wrong-frame", "frame %d: %d bytes instead of %d (stream offset %zu)", got_n, n, e->n, e->at);
    VH_CHECK(0 == memcmp(f->data, st + e->at, n), "rx:altered", "frame %d (stream offset %zu) differs from the stream", got_n, e->at);
    VH_CHECK(embc_buffer_cursor_get(f) == 0, "rx:cursor", "frame %d handed over with cursor %d", got_n, (int) embc_buffer_cursor_get(f));
    ++got_n;
    vh_count("frames_accepted", 1);
    embc_buffer_free(f);
}

static int n_out, n_mic;
static void tx(void *hal, struct embc_buffer_s *b) {
    struct embc_framer_s **f = hal;
    wf_t w;
    VH_CHECK(wf_parse(b->data, b->length, &w) == 1 && w.size == b->length && w.ack && w.len == 1 && w.pay[0] != 0, "rx:reply", "a malformed stream was answered with something that is not a negative acknowledgement");
    ++n_out;
    n_mic += w.pd != 0;
    if (w.pd) { VH_CHECK(w.pay[0] == EMBC_ERROR_MESSAGE_INTEGRITY, "rx:reply-status", "a damaged frame was answered with status %d", w.pay[0]); }
    else { VH_CHECK(w.pay[0] == EMBC_ERROR_SYNCHRONIZATION || w.pay[0] == EMBC_ERROR_TOO_BIG, "rx:reply-status", "lost synchronisation was answered with status %d", w.pay[0]); }
    vh_count("nacks_emitted", 1);
    embc_framer_hal_tx_done(*f, b);
}
static int64_t tget(void *hal) { (void) hal; return 0; }
static int32_t tset(void *hal, int64_t t, void (*c)(void *, uint32_t), void *u, uint32_t *id) { (void) hal; (void) t; (void) c; (void) u; *id = 1; return 0; }
static int32_t tcan(void *hal, uint32_t id) { (void) hal; (void) id; return 0; }

static void validate_check(void) {
    static uint8_t o[65536];
    size_t n = some_frame(o);
    switch (vh_below(4)) { case 0: o[vh_below((uint32_t) n)] ^= (uint8_t) (1u << vh_below(8)); break; case 1: o[4] = (uint8_t) (241 + vh_below(15)); o[7] = ref_crc8(o, 7); break; default: break; }
    uint16_t give = (uint16_t) (vh_chance(1, 2) ? n : vh_below((uint32_t) n + 1));
    if (vh_chance(1, 4)) {        /* other bytes follow the frame */
        uint32_t more = vh_chance(1, 20) ? vh_below(65536 - (uint32_t) n) : vh_below(400);
        vh_fill(o + n, more); give = (uint16_t) (n + more);
        vh_count("validate_calls_with_trailing_bytes", 1);
    }
    uint8_t *x = vh_exact(o, give);
    uint16_t len = 0xbeef;
    int32_t rc = embc_framer_validate(x, give, vh_chance(3, 4) ? &len : 0);
    wf_t w;
    int want = wf_parse(x, give, &w);
    if (give < WF_HDR) { VH_CHECK(rc == EMBC_ERROR_EMPTY, "validate:short", "%d bytes: %d", give, (int) rc); }
    else if (!wf_header_ok(x)) { VH_CHECK(rc == EMBC_ERROR_IO, "validate:header", "bad header: %d", (int) rc); }
    else if (x[4] > WF_PAY_MAX) { VH_CHECK(rc == EMBC_ERROR_TOO_BIG, "validate:length", "length %d: %d", x[4], (int) rc); }
    else if (want == 0) { VH_CHECK(rc == EMBC_ERROR_TOO_SMALL, "validate:partial", "partial frame: %d", (int) rc); }
    else if (want < 0) { VH_CHECK(rc == EMBC_ERROR_MESSAGE_INTEGRITY, "validate:crc", "bad CRC: %d", (int) rc); }
    else { VH_CHECK(rc == 0, "validate:good", "valid frame: %d", (int) rc); VH_CHECK(len == 0xbeef || len == w.size, "validate:size", "size %d", len); }
    free(x);
    vh_count("validate_calls", 1);
}

static int streams_rich;
static void run(int mode) {
    size_t total = st_n + 700;
    ex_n = 0; got_n = 0; n_out = 0; n_mic = 0;
    int starts = 0;
    for (size_t p = 0; p < total;) {
        wf_t w;
        if (st[p] == WF_SOF && wf_parse(st + p, total - p, &w) == 1) {
            ex[ex_n].at = p; ex[ex_n].n = w.size; ++ex_n; p += w.size;
        } else { starts += st[p] == WF_SOF && p < st_n; ++p; }
    }
    embc_size_t sizes[4] = {40, 0, 0, 4};
    struct embc_buffer_allocator_s *a = malloc((size_t) embc_buffer_allocator_instance_size(sizes, 4));
    embc_buffer_allocator_initialize(a, sizes, 4);
    struct embc_framer_s *f = malloc((size_t) embc_framer_instance_size());
    struct embc_framer_s *fp = f;
    struct embc_framer_hal_callbacks_s hal = {&fp, tx, tget, tset, tcan};
    embc_framer_initialize(f, a, &hal);
    if (vh_chance(1, 4)) { embc_framer_register_rx_hook(f, 0, vh_chance(1, 2) ? 0 : &n_out); }
    embc_framer_register_rx_hook(f, hook, 0);
    for (size_t p = 0; p < total;) {
        size_t m = mode == 0 ? 1 : (mode == 1 ? total - p : 1 + vh_below(64));
        if (m > total - p) { m = total - p; }
        if (mode == 0) { embc_framer_hal_rx_byte(f, st[p]); }
        else { uint8_t *x = vh_exact(st + p, m); embc_framer_hal_rx_buffer(f, x, (embc_size_t) m); free(x); }
        p += m;
    }
    VH_CHECK(got_n == ex_n, "rx:lost", "%d of %d frames accepted; next expected at stream offset %zu (%d bytes)", got_n, ex_n,
             got_n < ex_n ? ex[got_n].at : 0, got_n < ex_n ? ex[got_n].n : 0);
    VH_CHECK((int) embc_framer_status_get(f).rx_count == got_n, "rx:count", "rx_count %d, accepted %d", (int) embc_framer_status_get(f).rx_count, got_n);
    struct embc_framer_status_s sc = embc_framer_status_get(f);
    VH_CHECK((int) sc.rx_mic_error == n_mic, "rx:mic-count", "rx_mic_error %u, but %d damaged frames were answered", (unsigned) sc.rx_mic_error, n_mic);
    VH_CHECK((int) sc.rx_synchronization_error == n_out - n_mic, "rx:sync-count", "rx_synchronization_error %u, but %d losses of synchronisation were answered", (unsigned) sc.rx_synchronization_error, n_out - n_mic);
    vh_count("stream_bytes", total);
    vh_count("false_starts", (uint64_t) starts);
    vh_sig(vh_hash(st, st_n));
    if (ex_n >= 3 && starts) { ++streams_rich; }
    free(f); free(a);
}

void vh_case(uint64_t index) {
    (void) index;
    gen();
    streams_rich = 0;
    run((int) vh_below(3));
    for (int i = 0; i < 3; ++i) { validate_check(); }
    if (streams_rich) { vh_nontrivial(); }
}

/* more bytes than 16 bits count, handed over in one call */
static void bulk(void) {
    static uint8_t all[BULK_MAX]; size_t all_n = 0;
    for (int round = 0; round < 12; ++round) {
        st_max = BULK_MAX;
        size_t want = (size_t[]) {65535, 65536, 65537, 66000, 100000, 131072}[round % 6];
        for (all_n = 0; all_n < want;) {
            st_n = 0; st_max = S_MAX; gen();
            size_t n = st_n + 700; if (n > BULK_MAX - all_n) { n = BULK_MAX - all_n; }
            memcpy(all + all_n, st, n); all_n += n;
        }
        st_max = BULK_MAX; st_n = want - 700;
        memcpy(st, all, st_n); memset(st + st_n, WF_SOF, 1024);
        run(1);
        vh_count("bulk_streams", 1);
    }
    st_max = S_MAX;
}

const vh_scenario_t vh_scenarios[] = {{"bulk", bulk}, {0, 0}};
