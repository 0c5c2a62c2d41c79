/* C08: no buffer is ever lost or freed twice, and a peer cannot exhaust the pool.
 *
 * ASSUME: all buffers of an endpoint come from its one allocator; delivered buffers are freed by the application
 * ASSUME: random sessions contain at most 12 link-management requests (the unbounded flood is the recorded scenario)
 */
#include "adv.h"

const char *const vh_rule =
    "A case is a long session of a real endpoint with a small buffer pool receiving hostile traffic (frames with skipped, repeated and random ids, "
    "invalid ports, damaged and nested frames, noise, requests, resync, forged acknowledgements) while sending, or two real endpoints over a lossy "
    "link, followed by quiet; then every buffer of the pool is counted by allocating until exhaustion. Non-trivial: at least 8 blocks were transmitted "
    "or delivered; distinct by the delivered/completed event sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 300000 : 8000; }

static void judge(sim_t *s) {
    int n = 0;
    for (int i = 0; i < s->ep_n; ++i) {
        VH_CHECK(s->ep[i].hq_n == 0, "harness", "driver not idle");
        sim_census(&s->ep[i]);
        n += s->ep[i].n_rx + s->ep[i].new_n;
    }
    if (n >= 8) { vh_nontrivial(); }
    sim_free(s);
}

/* only the receive path: a flood of data that must not pile up */
static void flood(void) {
    sim_t *s = sim_new(1, 64, 24);
    s->mon = MON_CENSUS;
    ep_t *e = &s->ep[0];
    s->hal_sync[0] = vh_chance(1, 3);
    s->hal_depth[0] = vh_chance(1, 6) ? (int) vh_range(1, 4) : 0;
    uint8_t o[WF_MAX + 8], p[WF_PAY_MAX];
    uint8_t id = vh_u8() & 15;
    int mode = (int) vh_below(8);
    for (int i = 0; i < 300; ++i) {
        uint8_t len = (uint8_t) vh_below(vh_chance(1, 3) ? 241 : 8);
        sim_gen_payload(p, len);
        uint8_t port = mode == 5 && vh_chance(1, 2) ? (uint8_t) (16 + vh_below(240)) : (uint8_t) (1 + vh_below(15));
        uint8_t raw = (uint8_t) (id | (mode == 6 ? (vh_u8() & 0x70) : 0));
        size_t n = wf_build(o, raw, port, vh_u8(), (uint16_t) vh_u32(), p, len);
        if (mode == 7 && vh_chance(1, 3)) { n = wf_build(o, raw, 0, vh_u8(), (uint16_t) (vh_chance(1, 3) ? 2 : vh_below(256) | 8), p, len); }
        if (vh_chance(1, 10)) { o[vh_below((uint32_t) n)] ^= (uint8_t) (1u << vh_below(8)); }
        if (raw != 0x2a && raw != 0xaa) { sim_feed(e, o, (uint16_t) n); }
        switch (mode) {
            case 0: id = (id + 1) & 15; break;
            case 1: id = (id + 2) & 15; break;
            case 2: id = (id + 1 + vh_below(3)) & 15; break;
            case 3: id = vh_u8() & 15; break;
            case 4: id = (id - 1) & 15; break;
            default: id = (id + vh_below(4)) & 15; break;
        }
        while (sim_step(s, s->now + US(300))) { }
        s->now += US(vh_below(600));
    }
    sim_run(s, 100000);
    /* flush a false header that may still be waiting for its payload */
    memset(o, WF_SOF, sizeof(o));
    for (int i = 0; i < 4; ++i) { sim_feed(e, o, 250); }
    sim_run(s, 100000);
    vh_count("floods", 1);
    judge(s);
}

/* the application resets the link from inside its own callbacks */
static int resync_left;
static void resync_on_done(sim_t *s, ep_t *e, rec_t *r) {
    (void) s;
    if (resync_left > 0 && !r->resync && vh_chance(1, 5)) { --resync_left; e->in_resync = true; embc_framer_resync(e->f); e->in_resync = false; }
}
static void resync_on_deliver(sim_t *s, ep_t *e, uint8_t port, uint8_t msg, uint16_t pd, const uint8_t *p, uint16_t n) {
    (void) s; (void) port; (void) msg; (void) pd; (void) p; (void) n;
    if (resync_left > 0 && vh_chance(1, 5)) { --resync_left; embc_framer_resync(e->f); }
}

void vh_case(uint64_t index) {
    sim_t *s;
    sim_unregistered = 0;             /* ports nobody listens on: the framer itself releases what arrives there */
    if (vh_chance(1, 4)) { sim_unregistered = vh_chance(1, 4) ? 0xffff : (1u << vh_below(16)) | (1u << vh_below(16)) | (vh_u32() & 0xffff); }
    switch (index & 3) {
        case 0: flood(); return;
        case 1:
            s = sim_new(2, 300, 200);
            s->mon = MON_CENSUS;
            s->max_miss = 1 + (int) vh_below(30); s->max_ack_miss = 1 + (int) vh_below(30);
            s->faults_on = true;
            for (int i = 0; i < 2; ++i) {
                ep_t *e = &s->ep[i]; fault_t *f = &s->fault[i];
                f->drop = (int) vh_below(500); f->flip = (int) vh_below(300); f->trunc = (int) vh_below(100); f->noise = (int) vh_below(100);
                s->byte_time[i] = vh_chance(1, 4) ? 0 : US(1 + vh_below(20));
                s->latency[i] = US(vh_below(20000));
                s->done_delay_ms[i] = vh_chance(1, 2) ? 0 : (int) vh_below(500);
                s->hal_sync[i] = vh_chance(1, 6);
                s->hal_depth[i] = vh_chance(1, 6) ? (int) vh_range(1, 4) : 0;
                e->to_send = 3 + (int) vh_below(40);
                e->t_next_send = s->now + MS(vh_below(50));
                e->send_gap_ms = (int) vh_below(200); e->max_pending = 1 + (int) vh_below(10);
                e->send_in_done = vh_chance(1, 2); e->send_in_rx = vh_chance(1, 3);
            }
            break;
        default:
            s = adv_session(MON_CENSUS, 200, 150, true);
            if (vh_chance(1, 3)) {
                resync_left = 1 + (int) vh_below(4);
                s->on_done = resync_on_done; s->on_deliver = resync_on_deliver;
            }
            break;
    }
    if (vh_chance(1, 4)) { /* some ports have no receive callback: the framer itself releases what arrives there */
        for (int i = 0; i < s->ep_n; ++i) { for (int k = 0; k < 16; ++k) { if (!((sim_unregistered >> k) & 1) && vh_chance(1, 4)) { sim_register(&s->ep[i], k, false); vh_count("ports_without_receiver", 1); } } }
    }
    sim_run(s, 300000);
    judge(s);
}

/* recorded finding: requests queue one response each while the peer acknowledges nothing */
static void request_flood(void) {
    sim_t *s = sim_new(1, 64, 24);
    ep_t *e = &s->ep[0];
    s->hal_sync[0] = true;
    uint8_t o[WF_MAX], p[4] = {1, 2, 3, 4};
    volatile uint8_t id = 0;
    int fatal = VH_FATAL({
        for (int i = 0; i < 200; ++i) {
            size_t n = wf_build(o, id, 0, (uint8_t) i, 4, p, sizeof(p));
            id = (id + 1) & 15;
            embc_framer_hal_rx_buffer(e->f, o, (embc_size_t) n);
        }
    });
    VH_CHECK(!fatal, "peer:request-flood", "ping requests from a peer that acknowledges nothing exhaust the buffer pool: %s", vh_fatal_msg);
    sim_free(s);
}

#include "soak.h"

const vh_scenario_t vh_scenarios[] = {{"request_flood", request_flood}, {"soak", soak}, {0, 0}};
