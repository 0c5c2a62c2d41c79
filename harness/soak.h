#ifndef SOAK_H_
#define SOAK_H_
/* A framer that has been in service for a long time: more of every kind of event than 16 bits count, one endpoint
 * against a scripted peer that answers at once.  Every message, completion and counter is accounted for. */
#define SOAK_N 66000
static struct {
    struct embc_framer_s *f; int64_t now;
    uint32_t delivered, want_i; uint8_t want_port, want_msg; uint16_t want_pd;
    uint32_t done, acks, nacks; uint8_t last[WF_MAX]; uint16_t last_n;
    void (*timer)(void *, uint32_t); void *timer_user; int64_t timer_at; bool pending;
} sk;

static void sk_tx(void *hal, struct embc_buffer_s *b) {
    wf_t w; (void) hal;
    uint16_t n = (uint16_t) embc_buffer_length(b);
    VH_CHECK(n <= sizeof(sk.last) && wf_parse(b->data, n, &w) == 1 && w.size == n, "soak:wire", "transmitted %d bytes which are no frame", n);
    if (w.ack) { ++sk.acks; if (w.len == 1 && w.pay[0]) { ++sk.nacks; } }
    else { memcpy(sk.last, b->data, n); sk.last_n = n; }
    embc_framer_hal_tx_done(sk.f, b);
}
static int64_t sk_time(void *hal) { (void) hal; return sk.now; }
static int32_t sk_timer_set(void *hal, int64_t t, void (*cbk)(void *, uint32_t), void *user, uint32_t *id) {
    (void) hal; sk.timer = cbk; sk.timer_user = user; sk.timer_at = t; *id = 7; return 0;
}
static int32_t sk_timer_cancel(void *hal, uint32_t id) { (void) hal; (void) id; sk.timer = 0; return 0; }
static void sk_rx(void *port, uint8_t port_id, uint8_t msg, uint16_t pd, struct embc_buffer_s *b) {
    uint32_t i; (void) port;
    VH_CHECK(embc_buffer_read_remaining(b) == 4, "soak:length", "message %u delivered with %d bytes", (unsigned) sk.want_i, (int) embc_buffer_read_remaining(b));
    memcpy(&i, b->data + b->cursor, 4);
    VH_CHECK((i & 0x3f3f3f3f) == i && i == sk.want_i && port_id == sk.want_port && msg == sk.want_msg && pd == sk.want_pd, "soak:deliver",
             "delivered %08x port %d msg %d pd %04x, sent %08x port %d msg %d pd %04x", (unsigned) i, port_id, msg, pd, (unsigned) sk.want_i, sk.want_port, sk.want_msg, sk.want_pd);
    ++sk.delivered;
    embc_buffer_free(b);
}
static void sk_done(void *port, uint8_t port_id, uint8_t msg, uint16_t pd, int32_t status) {
    (void) port;
    VH_CHECK(sk.pending && port_id == sk.want_port && msg == sk.want_msg && pd == sk.want_pd && !status, "soak:done", "completion port %d msg %d pd %04x status %d", port_id, msg, pd, (int) status);
    sk.pending = false; ++sk.done;
}
static void sk_feed(const uint8_t *b, size_t n) { for (size_t i = 0; i < n; ++i) { embc_framer_hal_rx_byte(sk.f, b[i]); } }

static void soak(void) {
    embc_size_t sizes[8] = {16, 0, 0, 24, 0, 0, 0, 0};
    struct embc_buffer_allocator_s *al = malloc((size_t) embc_buffer_allocator_instance_size(sizes, 8));
    embc_buffer_allocator_initialize(al, sizes, 8);
    memset(&sk, 0, sizeof(sk));
    sk.f = malloc((size_t) embc_framer_instance_size());
    memset(sk.f, 0xA5, (size_t) embc_framer_instance_size());
    struct embc_framer_hal_callbacks_s hal = {0, sk_tx, sk_time, sk_timer_set, sk_timer_cancel};
    embc_framer_initialize(sk.f, al, &hal);
    struct embc_framer_port_callbacks_s cb = {0, sk_rx, sk_done};
    for (int i = 0; i < 16; ++i) { embc_framer_register_port_callbacks(sk.f, (uint8_t) i, &cb); }
    uint32_t good = 0, data = 0, ack = 0, dup = 0, mic = 0, sync = 0, idr = 0, sent = 0, retr = 0, want_acks = 0, bad_acks = 0;
    uint8_t id = 0, o[WF_MAX], p[4] = {0};
    for (uint32_t i = 0; i < SOAK_N; ++i) {
        sk.now += EMBC_TIME_MILLISECOND;
        sk.want_i = (i & 0x3f) | (((i >> 6) & 0x3f) << 8) | (((i >> 12) & 0x3f) << 16);
        sk.want_port = (uint8_t) (1 + i % 15); sk.want_msg = (uint8_t) i; sk.want_pd = (uint16_t) (i * 7);
        memcpy(p, &sk.want_i, 4);
        if (i == 0 || i % 4 == 3) {                                      /* the peer starts over: identifiers far from the expected one, then a resync request */
            for (int k = 0; i && k < 4; ++k) {
                id = (uint8_t) ((id + 8) & 15);
                sk_feed(o, wf_build(o, id, sk.want_port, sk.want_msg, sk.want_pd, p, 4)); ++good; ++idr; ++want_acks;
                id = (uint8_t) ((id + 1) & 15);
            }
            sk_feed(o, wf_build(o, id, 0, 0, 2, p, 0)); ++good; ++want_acks;
            id = (uint8_t) ((id + 1) & 15);
        }
        size_t n = wf_build(o, id, sk.want_port, sk.want_msg, sk.want_pd, p, 4);
        sk_feed(o, n); ++good; ++data; ++want_acks;
        VH_CHECK(sk.delivered == data, "soak:lost", "message %u was not delivered", (unsigned) i);
        sk_feed(o, n); ++good; ++dup; ++want_acks;                       /* repeated */
        for (int k = 0; i % 4 == 0 && k < 4; ++k) {                      /* faults, one in four rounds four times: as many in total */
            uint8_t q[WF_MAX]; bool sof = false;
            memcpy(q, o, n); q[WF_HDR + (k & 3)] ^= 0x40;
            for (size_t j = 1; j + 1 < n; ++j) { sof |= q[j] == WF_SOF; }
            uint8_t h[8] = {WF_SOF, o[0], o[1], o[2], o[3], o[4], o[5], o[6]};
            sof |= wf_header_ok(h);                                      /* the mark that ends the bad frame would start another one */
            if (!sof) { sk_feed(q, n); ++mic; ++want_acks; ++bad_acks; sk_feed(o, n); ++good; ++dup; ++want_acks; }
            static const uint8_t g[7] = {1, 2, 3, 4, 5, 6, 7};
            sk_feed(g, 7); ++sync; ++want_acks; ++bad_acks;
            sk_feed(o, n); ++good; ++dup; ++want_acks;
        }
        id = (uint8_t) ((id + 1) & 15);
        sk.pending = true; sk.last_n = 0;
        embc_framer_send_payload(sk.f, sk.want_port, sk.want_msg, sk.want_pd, p, 4);
        ++sent;
        for (int k = 0; k < 2; ++k) {
            wf_t w;
            VH_CHECK(sk.last_n && wf_parse(sk.last, sk.last_n, &w) == 1 && w.id == (i & 15) && w.port == sk.want_port && w.msg == sk.want_msg && w.pd == sk.want_pd && w.len == 4 && 0 == memcmp(w.pay, p, 4),
                     "soak:tx", "message %u was not transmitted as sent (%s)", (unsigned) i, k ? "again" : "first time");
            sk.last_n = 0;
            n = wf_ack(o, w.id, w.port, w.msg, 0x100, k ? 0 : 11);
            sk_feed(o, n); ++good; ++ack;
            if (!k) { ++retr; }
        }
        VH_CHECK(!sk.pending && sk.done == sent, "soak:done", "message %u acknowledged but not completed", (unsigned) i);
        if (sk.timer && sk.timer_at <= sk.now) { void (*t)(void *, uint32_t) = sk.timer; sk.timer = 0; t(sk.timer_user, 7); }
        VH_CHECK(sk.acks == want_acks && sk.nacks == bad_acks, "soak:acks", "%u acknowledgements of which %u negative, %u and %u expected", (unsigned) sk.acks, (unsigned) sk.nacks, (unsigned) want_acks, (unsigned) bad_acks);
#ifdef SOAK_COUNTERS
        struct embc_framer_status_s st = embc_framer_status_get(sk.f);
#define SK(k, v) VH_CHECK(st.k == (v), "soak:" #k, #k " is %u after %u", (unsigned) st.k, (unsigned) (v))
        SK(rx_count, good); SK(rx_data_count, data); SK(rx_ack_count, ack); SK(rx_deduplicate_count, dup); SK(rx_synchronization_error, sync);
        SK(rx_mic_error, mic); SK(rx_frame_id_error, idr); SK(tx_count, sent); SK(tx_retransmit_count, retr);
#endif
    }
    vh_count("soak_frames_received", good); vh_count("soak_messages_sent", sent); vh_count("soak_faults", mic + sync + idr);
    for (int k = 0; k < 2; ++k) {                                            /* what the framer holds: one block to receive into */
        int free_n = 0; struct embc_buffer_s *b[32];
        const embc_size_t have = k ? 24 : 16, size = k ? 256 : 32;
        while (free_n < 32 && free_n < have - (k ? 1 : 0)) { b[free_n++] = embc_buffer_alloc(al, size); }
        while (free_n) { embc_buffer_free(b[--free_n]); }
    }
    embc_framer_finalize(sk.f);
    free(sk.f); embc_buffer_allocator_finalize(al); free(al);
}
#endif
