/* C06: every data frame is acknowledged correctly and delivered in sequence.
 *
 * ASSUME: the sender is conforming: at most three frames outstanding, ids consecutive modulo 16, retransmits only frames it does not know to be received
 * ASSUME: no hole stays open for 790 ms (the receiver's documented in-order wait is 800 ms) except at the end of the session
 */
#include "fsim.h"

const char *const vh_rule =
    "A case is one receiving endpoint fed by a scripted conforming sender (window of three) that transmits any outstanding frame intact, duplicated, with a "
    "damaged payload, with a damaged header or preceded by noise, and loses acknowledgements at random; the session starts at id 0 after power up or at any id "
    "after a resync command and runs 6..60 frames. Every acknowledgement (kind, id, port, message id, mask, count) and every delivery is compared with a window "
    "model. Non-trivial: at least one frame arrived out of order and one was duplicated or damaged; distinct by the arrival pattern.";

uint64_t vh_case_count(int thorough) { return thorough ? 900000 : 25000; }

#define N_MAX 64
typedef struct { uint8_t port, msg, len; uint16_t pd; uint8_t pay[WF_PAY_MAX]; bool received, known, delivered; } fr_t;
static fr_t fr[N_MAX]; static int fr_n, base, next_rx, n_delivered;   /* fr[i] has id (base + i) & 15 */
static bool synced;
static wf_t ak[64]; static uint8_t ak_status[64]; static int ak_n;
static int64_t now, timer_at; static bool timer_on;
static void (*timer_cbk)(void *, uint32_t); static void *timer_user; static uint32_t timer_id;
static struct embc_framer_s *f;
static struct embc_list_s hal_list;

static void tx(void *hal, struct embc_buffer_s *b) {
    (void) hal;
    wf_t w;
    VH_CHECK(wf_parse(b->data, b->length, &w) == 1 && w.size == b->length, "ack:malformed", "the receiver transmitted something that is not one frame");
    VH_CHECK(w.ack && w.len == 1, "ack:not-an-ack", "the receiver transmitted a data frame or an ack with %d payload bytes", w.len);
    VH_CHECK(ak_n < 64, "ack:many", "more than 64 acknowledgements for one frame");
    ak[ak_n] = w; ak_status[ak_n++] = w.pay[0];
    vh_count("acks_observed", 1);
    embc_framer_hal_tx_done(f, b);
}
static int64_t tget(void *hal) { (void) hal; return now; }
static int32_t tset(void *hal, int64_t t, void (*c)(void *, uint32_t), void *u, uint32_t *id) {
    (void) hal; timer_on = true; timer_at = t; timer_cbk = c; timer_user = u; *id = ++timer_id; return 0;
}
static int32_t tcan(void *hal, uint32_t id) { (void) hal; (void) id; timer_on = false; return 0; }

static uint8_t pid[16];
static void rx(void *port, uint8_t port_id, uint8_t msg, uint16_t pd, struct embc_buffer_s *b) {
    VH_CHECK(*(uint8_t *) port == port_id, "deliver:port-object", "a frame for port %d was handed to the object of port %d", port_id, *(uint8_t *) port);
    VH_CHECK(n_delivered < fr_n, "deliver:extra", "delivered more frames than were sent");
    fr_t *r = &fr[n_delivered];
    uint16_t n = (uint16_t) embc_buffer_read_remaining(b);
    const uint8_t *p = b->data + b->cursor;
    VH_CHECK(r->received, "deliver:order", "frame #%d is missing but a delivery (port=%d msg=%d pd=%04x) happened", n_delivered, port_id, msg, pd);
    VH_CHECK(r->port == port_id && r->msg == msg && r->pd == pd && r->len == n && 0 == memcmp(r->pay, p, n), "deliver:wrong",
             "delivery %d is not frame #%d: port=%d msg=%d pd=%04x len=%d", n_delivered, n_delivered, port_id, msg, pd, n);
    VH_CHECK(!r->delivered, "deliver:duplicate", "frame #%d delivered twice", n_delivered);
    r->delivered = true;
    ++n_delivered;
    vh_count("frames_delivered", 1);
    embc_buffer_free(b);
}
static void done(void *port, uint8_t a, uint8_t b, uint16_t c, int32_t d) { (void) port; (void) a; (void) b; (void) c; (void) d; }

static void feed(const uint8_t *b, size_t n) {
    while (n) {
        size_t m = vh_chance(1, 3) ? n : 1 + vh_below((uint32_t) n);
        if (m == 1) { embc_framer_hal_rx_byte(f, *b); } else { embc_framer_hal_rx_buffer(f, b, (embc_size_t) m); }
        b += m; n -= m;
    }
}

static uint8_t id_of(int i) { return (uint8_t) ((base + i) & 15); }
static size_t build(uint8_t *o, int i) { return wf_build(o, id_of(i), fr[i].port, fr[i].msg, fr[i].pd, fr[i].pay, fr[i].len); }

/* the frame after a damaged one starts behind a left-over end byte: that pair must not form a valid header */
static bool safe_after_eof(int i) {
    uint8_t o[WF_MAX + 1];
    o[0] = WF_SOF;
    build(o + 1, i);
    return !wf_header_ok(o);
}

static void check_mask(int i, uint16_t mask) {
    VH_CHECK(mask & 0x100, "ack:mask-self", "ack of #%d (id %d): mask %04x does not mark the frame itself", i, id_of(i), mask);
    for (int k = 1; k <= 8; ++k) {
        int j = i - k;
        if (j < 0) { break; }
        bool bit = (mask & (0x100 >> k)) != 0;
        if (k <= 5) { VH_CHECK(bit == fr[j].received, "ack:mask-earlier", "ack of #%d (id %d): mask %04x is wrong about #%d (%s)", i, id_of(i), mask, j, fr[j].received ? "received" : "missing"); }
        else { VH_CHECK(!bit || fr[j].received, "ack:mask-earlier", "ack of #%d (id %d): mask %04x marks missing #%d", i, id_of(i), mask, j); }
    }
    for (int k = 1; k <= 7; ++k) {
        bool bit = (mask & (0x100 << k)) != 0;
        bool want = i + k < fr_n && fr[i + k].received;
        VH_CHECK(bit == want, "ack:mask-later", "ack of #%d (id %d): mask %04x is wrong about later #%d (%s)", i, id_of(i), mask, i + k, want ? "received" : "missing");
    }
    vh_count("masks_checked", 1);
}

static int n_hooked;
static void hook(void *user, struct embc_buffer_s *b) {
    VH_CHECK(user == &n_hooked, "hook:user", "the receive hook got other user data");
    ++n_hooked;
    embc_buffer_free(b);
}

static uint8_t nosof(void);
/* bytes that complete, as an invalid header, whatever a left-over end byte started */
static void flush(void) {
    uint8_t z[16];
    do { z[0] = WF_SOF; for (int k = 1; k < 16; ++k) { z[k] = nosof(); } } while (wf_header_ok(z));
    feed(z + 1, 15);
}
static uint8_t nosof(void) { uint8_t x; do { x = vh_u8(); } while (x == WF_SOF); return x; }

void vh_case(uint64_t index) {
    (void) index;
    embc_size_t sizes[4] = {40, 0, 0, 24};
    struct embc_buffer_allocator_s *a = malloc((size_t) embc_buffer_allocator_instance_size(sizes, 4));
    embc_buffer_allocator_initialize(a, sizes, 4);
    f = malloc((size_t) embc_framer_instance_size());
    struct embc_framer_hal_callbacks_s hal = {0, tx, tget, tset, tcan};
    embc_framer_initialize(f, a, &hal);
    for (int i = 0; i < 16; ++i) { pid[i] = (uint8_t) i; struct embc_framer_port_callbacks_s c = {&pid[i], rx, done}; embc_framer_register_port_callbacks(f, (uint8_t) i, &c); }
    if (vh_chance(1, 4)) { embc_framer_register_rx_hook(f, 0, vh_chance(1, 2) ? 0 : (void *) &ak_n); }     /* no hook: its user data means nothing */
    embc_list_initialize(&hal_list);
    now = MS(vh_below(1000)) + (vh_chance(1, 2) ? 0 : ((int64_t) 1 << (31 + vh_below(30))) - MS(500));      /* the time base is the driver's */
    timer_on = false; ak_n = 0; n_delivered = 0; next_rx = 0;
    if (vh_chance(1, 4)) {            /* a hook sees the frames instead of the framer, until it is removed */
        uint8_t o[WF_MAX], p[4] = {1, 2, 3, 4};
        int n = (int) vh_below(4);
        n_hooked = 0;
        embc_framer_register_rx_hook(f, hook, &n_hooked);
        for (int i = 0; i < n; ++i) { feed(o, wf_build(o, (uint8_t) vh_below(16), (uint8_t) (1 + vh_below(15)), 4, 0x1234, p, (uint8_t) vh_below(5))); }
        VH_CHECK(n_hooked == n && ak_n == 0 && n_delivered == 0, "hook:bypassed", "%d frames: %d to the hook, %d acknowledged, %d delivered", n, n_hooked, ak_n, n_delivered);
        embc_framer_register_rx_hook(f, 0, vh_chance(1, 2) ? 0 : (void *) &n_hooked);
        vh_count("hooks_removed", 1);
    }
    fr_n = 6 + (int) vh_below(N_MAX - 6);
    for (int i = 0; i < fr_n; ++i) {
        fr_t *r = &fr[i];
        memset(r, 0, sizeof(*r));
        r->port = (uint8_t) (1 + vh_below(15)); r->msg = nosof(); r->pd = (uint16_t) (nosof() | (nosof() << 8));
        r->len = vh_chance(1, 4) ? sim_gen_len() : (uint8_t) vh_below(12);
        if (r->len == WF_SOF) { --r->len; }
        for (int k = 0; k < r->len; ++k) { r->pay[k] = nosof(); }
    }
    uint8_t o[WF_MAX + 64];
    uint64_t h = 0;
    synced = vh_chance(3, 4);
    bool joins = !synced && vh_chance(1, 2);      /* the receiver starts while the sender is already at another id */
    base = joins ? (uint8_t) (4 + vh_below(7)) : 0;
    if (joins) { vh_count("late_joins", 1); }
    if (synced) {
        int times = 1 + (int) vh_below(3);
        for (int t = 0; t < times; ++t) {
            uint8_t rid = (uint8_t) vh_below(16), rm = nosof();
            ak_n = 0;
            feed(o, wf_build(o, rid, 0, rm, 2, 0, 0));
            VH_CHECK(ak_n == 1 && ak_status[0] == 0 && ak[0].id == rid && ak[0].port == 0 && ak[0].msg == rm && (ak[0].pd & 0x100), "ack:resync",
                     "resync command id %d answered by %d acks (first id %d status %d mask %04x)", rid, ak_n, ak[0].id, ak_status[0], ak[0].pd);
            base = (rid + 1) & 15;
        }
    }
    uint32_t n_dup = 0, n_mic = 0;
    h = (uint64_t) base | (synced ? 64 : 0);
    int lo = 0;                         /* oldest frame the sender does not know to be received */
    int style = (int) vh_below(4);
    uint32_t p_bad = style == 0 ? 0 : vh_below(60), p_hdr = style == 0 ? 0 : vh_below(40), p_lost = vh_below(60), p_noise = style == 3 ? 30 : 0;
    bool armed_eof = false, ooo = false, hurt = false;
    int general_allowed = 0, general = 0, steps = 0;
    int64_t last_good = now;
    while (lo < fr_n) {
        VH_CHECK(++steps < 4000, "harness", "the scripted sender makes no progress");
        int hi = lo + WINDOW < fr_n ? lo + WINDOW : fr_n;
        int i = lo + (int) vh_below((uint32_t) (hi - lo));
        if (vh_chance(1, 4) || steps > 3000) { i = lo; }
        if (fr[i].known) { continue; }
        if (armed_eof) { int t = i; while (t < hi && (!safe_after_eof(t) || fr[t].known)) { ++t; } if (t < hi) { i = t; } else { flush(); armed_eof = false; } }
        int64_t dt = MS(vh_below(30));
        if (now + dt - last_good < MS(780)) { now += dt; }
        size_t n = build(o, i);
        ak_n = 0;
        bool body_sof = false;
        for (size_t k = 1; k + 1 < n; ++k) { body_sof |= (o[k] == WF_SOF); }
        uint32_t x = vh_below(100);
        int kind = x < p_bad ? 1 : (x < p_bad + p_hdr ? 2 : 0);
        if (steps > 2500 || body_sof) { kind = 0; }
        if (vh_below(100) < p_noise && !armed_eof && steps < 2500) {
            uint8_t z[40]; uint32_t l = 1 + vh_below(40); for (uint32_t k = 0; k < l; ++k) { z[k] = nosof(); }
            feed(z, l); ++general_allowed; hurt = true;
            vh_count("noise_bursts", 1);
        }
        if (kind == 1) {
            size_t at = 8 + vh_below((uint32_t) (n - 9));
            uint8_t was = o[at];
            do { o[at] = nosof(); } while (o[at] == was);
        } else if (kind == 2) {
            uint8_t keep[8]; memcpy(keep, o, 8);
            uint8_t e[8] = {WF_SOF};
            do { memcpy(o, keep, 8); o[1 + vh_below(7)] = nosof(); memcpy(e + 1, o, 7); } while (wf_header_ok(o) || wf_header_ok(e) || 0 == memcmp(o, keep, 8));
            ++general_allowed;
        }
        vh_trace("arrival #%d id=%d kind=%d len=%d next=%d lo=%d", i, id_of(i), kind, fr[i].len, next_rx, lo);
        h = h * 1099511628211ull + (uint64_t) (i * 4 + kind);
        armed_eof = kind != 0;
        bool dup = fr[i].received;
        int before = n_delivered;
        if (kind == 0) {
            fr[i].received = true;
            if (!dup) { ooo |= (i != next_rx); last_good = now; }
            if (i >= next_rx) { next_rx = i + 1; }
        }
        char hx[40] = ""; for (size_t k = 0; k < n && k < 18; ++k) { sprintf(hx + 2 * k, "%02x", o[k]); }
        vh_trace("bytes %s", hx);
        feed(o, n);
        int ok = 0, nack = 0;
        for (int k = 0; k < ak_n; ++k) {
            wf_t *w = &ak[k];
            if (ak_status[k] == 0) {
                ++ok;
                VH_CHECK(kind == 0, "ack:damaged", "a damaged copy of #%d was acknowledged as received", i);
                VH_CHECK(w->id == id_of(i) && w->port == fr[i].port && w->msg == fr[i].msg, "ack:wrong-frame", "#%d (id %d port %d msg %d) acknowledged as id %d port %d msg %d", i, id_of(i), fr[i].port, fr[i].msg, w->id, w->port, w->msg);
                check_mask(i, w->pd);
            } else if (w->pd == 0) {
                ++general;
                VH_CHECK(w->id == 0 && w->port == 0 && w->msg == 0, "nack:general", "general negative acknowledgement with id %d port %d msg %d", w->id, w->port, w->msg);
                VH_CHECK(general <= general_allowed, "nack:unprovoked", "more general negative acknowledgements (%d) than disturbances (%d)", general, general_allowed);
            } else {
                ++nack;
                VH_CHECK(kind == 1, "nack:unprovoked", "negative acknowledgement (id %d status %d) for frame #%d that was not damaged in its payload", w->id, ak_status[k], i);
                VH_CHECK(w->id == id_of(i) && w->port == fr[i].port && w->msg == fr[i].msg, "nack:wrong-frame", "damaged #%d (id %d) reported as id %d port %d msg %d", i, id_of(i), w->id, w->port, w->msg);
                VH_CHECK(w->pd == 0x100, "nack:mask", "negative acknowledgement of #%d with mask %04x", i, w->pd);
                vh_count("nacks_observed", 1);
            }
        }
        VH_CHECK(ok == (kind == 0), "ack:count", "frame #%d (kind %d%s) was acknowledged %d times", i, kind, dup ? ", duplicate" : "", ok);
        VH_CHECK(nack == (kind == 1), "nack:count", "frame #%d (kind %d) was negatively acknowledged %d times", i, kind, nack);
        if (kind || dup) {
            hurt = true;
            VH_CHECK(n_delivered == before, "deliver:duplicate", "a %s frame #%d caused a delivery", kind ? "damaged" : "duplicate", i);
        }
        /* everything below the first hole, except what an unsynchronised receiver may still wait for */
        int ready = 0;
        while (ready < next_rx && fr[ready].received) { ++ready; }
        if (synced || next_rx >= WINDOW) { VH_CHECK(n_delivered == ready, "deliver:prompt", "%d frames delivered, %d deliverable", n_delivered, ready); }
        else { VH_CHECK(n_delivered <= ready, "deliver:order", "%d frames delivered, %d deliverable", n_delivered, ready); }
        vh_count("arrivals", 1);
        if (dup) { vh_count("duplicates", 1); }
        if (dup && kind == 0) { ++n_dup; }
        if (kind == 1) { ++n_mic; }
        if (kind == 0 && vh_below(100) >= p_lost) {
            /* the sender learns what a conforming sender would: this frame and the marked earlier ones */
            for (int k = 0; k < WINDOW; ++k) { int j = i - k; if (j >= lo && (ak[ak_n - 1].pd & (0x100 >> k))) { fr[j].known = true; } }
            while (lo < fr_n && fr[lo].known) { ++lo; }
        }
    }
    VH_CHECK(n_delivered == fr_n, "deliver:lost", "%d of %d acknowledged frames delivered", n_delivered, fr_n);
    for (int k = 0; k < 20 && timer_on; ++k) {
        timer_on = false;
        if (timer_at > now) { now = timer_at; }
        timer_cbk(timer_user, timer_id);
    }
    struct embc_framer_status_s st = embc_framer_status_get(f);
    VH_CHECK(st.rx_deduplicate_count == n_dup, "counter:dedup", "rx_deduplicate_count %u after %u duplicates", (unsigned) st.rx_deduplicate_count, (unsigned) n_dup);
    VH_CHECK(st.rx_mic_error == n_mic, "counter:mic", "rx_mic_error %u after %u damaged payloads", (unsigned) st.rx_mic_error, (unsigned) n_mic);
    VH_CHECK(st.rx_synchronization_error == (uint32_t) general, "counter:sync", "rx_synchronization_error %u after %d general negative acknowledgements", (unsigned) st.rx_synchronization_error, general);
    VH_CHECK(st.rx_frame_id_error == joins, "counter:id", "rx_frame_id_error %u", (unsigned) st.rx_frame_id_error);
    VH_CHECK(n_delivered == fr_n, "deliver:late", "a delivery happened after all frames were delivered");
    if (ooo && hurt) { vh_nontrivial(); }
    vh_sig(h);
    free(f); free(a);
}

/* the documented in-order wait: a hole that is never filled does not hold later frames for ever */
static void hole(void) {
    for (int b0 = 0; b0 < 16; ++b0) {
        embc_size_t sizes[4] = {40, 0, 0, 24};
        struct embc_buffer_allocator_s *a = malloc((size_t) embc_buffer_allocator_instance_size(sizes, 4));
        embc_buffer_allocator_initialize(a, sizes, 4);
        f = malloc((size_t) embc_framer_instance_size());
        struct embc_framer_hal_callbacks_s hal = {0, tx, tget, tset, tcan};
        embc_framer_initialize(f, a, &hal);
        for (int i = 0; i < 16; ++i) { pid[i] = (uint8_t) i; struct embc_framer_port_callbacks_s c = {&pid[i], rx, done}; embc_framer_register_port_callbacks(f, (uint8_t) i, &c); }
        uint8_t o[WF_MAX];
        timer_on = false; now = MS(5); ak_n = 0; n_delivered = 0; base = (b0 + 1) & 15; fr_n = 3;
        memset(fr, 0, sizeof(fr));
        for (int i = 0; i < 3; ++i) { fr[i].port = (uint8_t) (i + 1); fr[i].msg = (uint8_t) (i + 9); }
        feed(o, wf_build(o, (uint8_t) b0, 0, 1, 2, 0, 0));
        ak_n = 0;
        for (int i = 1; i < 3; ++i) { feed(o, build(o, i)); fr[i].received = true; }
        VH_CHECK(n_delivered == 0, "hole:early", "frames delivered past a hole");
        fr_n = 2; memmove(&fr[0], &fr[1], 2 * sizeof(fr_t));
        int64_t end = now + MS(900);
        while (timer_on && timer_at <= end) { timer_on = false; if (timer_at > now) { now = timer_at; } timer_cbk(timer_user, timer_id); }
        VH_CHECK(n_delivered == 2, "hole:stuck", "%d of 2 frames delivered 900 ms after the hole opened (id %d)", n_delivered, base);
        vh_count("holes_expired", 1);
        free(f); free(a);
    }
}
/* two receivers side by side: each keeps its own hook, hook user data, parser state and ports */
static int tw_hooked[2], tw_acks[2], tw_rx[2];
static void tw_hook(void *user, struct embc_buffer_s *b) {
    VH_CHECK(user == &tw_hooked[0] || user == &tw_hooked[1], "two:hook-user", "a receive hook got foreign user data");
    ++*(int *) user; embc_buffer_free(b);
}
static struct embc_framer_s *tw_f[2];
static void tw_tx(void *hal, struct embc_buffer_s *b) { ++tw_acks[(int) (intptr_t) hal]; embc_framer_hal_tx_done(tw_f[(int) (intptr_t) hal], b); }
static int32_t tw_tset(void *hal, int64_t t, void (*c)(void *, uint32_t), void *u, uint32_t *id) { (void) hal; (void) t; (void) c; (void) u; *id = 1; return 0; }
static int32_t tw_tcan(void *hal, uint32_t id) { (void) hal; (void) id; return 0; }
static void tw_port(void *user, uint8_t port, uint8_t msg, uint16_t pd, struct embc_buffer_s *b) { (void) port; (void) msg; (void) pd; ++*(int *) user; embc_buffer_free(b); }
static void two(void) {
    now = MS(3);
    for (int combo = 0; combo < 32; ++combo) {
        struct embc_buffer_allocator_s *a[2];
        int want_hook[2], want_rx[2];
        for (int e = 0; e < 2; ++e) {
            embc_size_t sizes[4] = {40, 0, 0, 24};
            a[e] = malloc((size_t) embc_buffer_allocator_instance_size(sizes, 4)); embc_buffer_allocator_initialize(a[e], sizes, 4);
            tw_f[e] = malloc((size_t) embc_framer_instance_size());
            struct embc_framer_hal_callbacks_s hal = {(void *) (intptr_t) e, tw_tx, tget, tw_tset, tw_tcan};
            embc_framer_initialize(tw_f[e], a[e], &hal);
            struct embc_framer_port_callbacks_s c = {&tw_rx[e], tw_port, done};
            embc_framer_register_port_callbacks(tw_f[e], 7, &c);
            tw_hooked[e] = tw_acks[e] = tw_rx[e] = 0;
        }
        int first = combo & 1;                       /* bit 1, 2: who has a hook; bit 3: the hooks were swapped on and off first; bit 4: bytes interleaved */
        for (int q = 0; q < 2; ++q) {
            int e = q ? !first : first;
            bool h = (combo >> (1 + e)) & 1;
            if (combo & 8) { embc_framer_register_rx_hook(tw_f[e], h ? 0 : tw_hook, h ? 0 : &tw_hooked[e]); }
            if (h || (combo & 8)) { embc_framer_register_rx_hook(tw_f[e], h ? tw_hook : 0, h ? &tw_hooked[e] : 0); }
            want_hook[e] = h ? 3 : 0; want_rx[e] = h ? 0 : 3;
        }
        uint8_t o[2][3 * WF_MAX]; size_t n[2] = {0, 0}, at[2] = {0, 0};
        for (int e = 0; e < 2; ++e) {
            uint8_t p[8] = {1, 2, 3, 4, 5, 6, 7, 8};
            for (int i = 0; i < 3; ++i) { n[e] += wf_build(o[e] + n[e], (uint8_t) i, 7, (uint8_t) (e * 16 + i), 0x123, p, (uint8_t) (1 + (i + e) % 7)); }
            /* a fresh receiver holds its first frames until it is synchronised: do that first, unless it has a hook */
            if (!want_hook[e]) { uint8_t r[WF_MAX]; embc_framer_hal_rx_buffer(tw_f[e], r, (embc_size_t) wf_build(r, 15, 0, 1, 2, 0, 0)); tw_acks[e] = 0; }
        }
        while (at[0] < n[0] || at[1] < n[1]) {
            for (int e = 0; e < 2; ++e) {
                size_t l = (combo & 16) ? 1 + vh_below(4) : n[e];
                if (l > n[e] - at[e]) { l = n[e] - at[e]; }
                if (l) { embc_framer_hal_rx_buffer(tw_f[e], o[e] + at[e], (embc_size_t) l); at[e] += l; }
            }
        }
        for (int e = 0; e < 2; ++e) {
            VH_CHECK(tw_hooked[e] == want_hook[e] && tw_rx[e] == want_rx[e] && tw_acks[e] == want_rx[e], "two:mixed",
                     "receiver %d of two (%s hook, the other %s): %d frames to the hook, %d delivered, %d acknowledged", e, want_hook[e] ? "with" : "without",
                     want_hook[!e] ? "with" : "without", tw_hooked[e], tw_rx[e], tw_acks[e]);
            free(tw_f[e]); free(a[e]);
        }
        vh_count("receiver_pairs", 1);
    }
}
const vh_scenario_t vh_scenarios[] = {{"hole", hole}, {"two", two}, {0, 0}};
