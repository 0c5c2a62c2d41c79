/* C07: ping, status and resync do what they say.
 *
 * ASSUME: bytes in flight are lost at a restart and the restarted endpoint stays silent long enough for acknowledgements of its old frames to drain (ids carry no session number)
 * ASSUME: after a restart both endpoints request a resync, one per direction
 */
#include "fsim.h"

const char *const vh_rule =
    "A case is one two-endpoint session of one of four kinds: ping/status requests of every payload size mixed with data on a clean link (final counters compared "
    "with the monitor's own counts) or on a lossy link; resync requested at random moments under load; one endpoint restarted at a random moment and then resynced; "
    "receive ids forced apart by a forged resync command and then resynced. Non-trivial: at least 2 requests were answered, or a resync was requested and at least 3 "
    "messages sent afterwards were delivered; distinct by the delivered/completed event sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 400000 : 10000; }

typedef struct { bool used; uint8_t cmd, len, pay[WF_PAY_MAX]; int answers; struct embc_framer_status_s before; int rec; } req_t;
static req_t rq[2][256]; static int rq_n[2];

static void request(sim_t *s, ep_t *e) {
    if (rq_n[e->id] >= 200) { return; }
    uint8_t msg = (uint8_t) rq_n[e->id]++;
    req_t *r = &rq[e->id][msg];
    memset(r, 0, sizeof(*r));
    r->used = true;
    r->cmd = vh_chance(2, 3) ? 4 : 6;
    r->len = sim_gen_len();
    if (vh_chance(1, 4)) { r->len = (uint8_t) (36 + vh_below(10)); }
    sim_gen_payload(r->pay, r->len);
    r->before = embc_framer_status_get(s->ep[1 - e->id].f);
    r->rec = e->rec_n;
    sim_send(e, 0, msg, (uint16_t) (r->cmd | (vh_u8() << 8)), r->pay, r->len);
    vh_count(r->cmd == 4 ? "pings_sent" : "status_requests_sent", 1);
}

#define CNT(k) do { \
    VH_CHECK(st.k >= r->before.k && st.k <= now.k, "status:" #k, "status response for request %d: " #k " is %u, not within %u..%u", msg, \
             (unsigned) st.k, (unsigned) r->before.k, (unsigned) now.k); } while (0)

static void on_deliver(sim_t *s, ep_t *e, uint8_t port, uint8_t msg, uint16_t pd, const uint8_t *p, uint16_t n) {
    if (port != 0 || p0_app(pd)) { return; }
    VH_CHECK(pd == 5 || pd == 7, "port0:leak", "port 0 frame with command %04x handed to the application", pd);
    req_t *r = &rq[e->id][msg];
    VH_CHECK(r->used && r->cmd + 1 == pd, "port0:unmatched", "response %d with message id %d matches no request", pd, msg);
    ++r->answers;
    VH_CHECK(e->discard || s->ep[1 - e->id].discard || r->answers == 1, "port0:twice", "request with message id %d answered %d times", msg, r->answers);
    vh_count("responses_received", 1);
    if (pd == 5) {
        VH_CHECK(n == r->len && 0 == memcmp(p, r->pay, n), "ping:payload", "ping %d of %d bytes answered with %d different bytes", msg, r->len, n);
    } else {
        struct embc_framer_status_s st, now = embc_framer_status_get(s->ep[1 - e->id].f);
        int want = r->len > (int) sizeof(st) ? r->len : (int) sizeof(st);
        VH_CHECK(n == want, "status:length", "status request of %d bytes answered with %d bytes", r->len, n);
        memcpy(&st, p, sizeof(st));
        VH_CHECK(st.version == now.version, "status:version", "version %u", (unsigned) st.version);
        CNT(rx_count); CNT(rx_data_count); CNT(rx_ack_count); CNT(rx_deduplicate_count); CNT(rx_synchronization_error);
        CNT(rx_mic_error); CNT(rx_frame_id_error); CNT(tx_count); CNT(tx_retransmit_count);
    }
}

static void setup_ep(sim_t *s, int i, bool lossy, int level) {
    ep_t *e = &s->ep[i]; fault_t *f = &s->fault[i];
    if (lossy) {
        f->drop = (int) vh_below((uint32_t) level); f->flip = (int) vh_below((uint32_t) level); f->trunc = (int) vh_below((uint32_t) level / 2);
        f->burst = (int) vh_below((uint32_t) level / 2); f->noise = (int) vh_below((uint32_t) level / 2);
    }
    s->byte_time[i] = vh_chance(1, 4) ? 0 : US(1 + vh_below(20));
    s->latency[i] = US(vh_below(20000));
    s->done_delay_ms[i] = vh_chance(1, 2) ? 0 : (int) vh_below(20);
    s->hal_sync[i] = vh_chance(1, 6);
    s->hal_depth[i] = vh_chance(1, 6) ? (int) vh_range(1, 4) : 0;
    e->to_send = (int) vh_below(25);
    e->t_next_send = s->now + MS(vh_below(50));
    e->send_gap_ms = vh_chance(1, 2) ? 5 : (int) vh_below(300);
    e->max_pending = 1 + (int) vh_below(6);
    e->send_in_done = vh_chance(1, 3);
    e->send_in_rx = vh_chance(1, 3);
    rq_n[i] = 0; memset(rq[i], 0, sizeof(rq[i]));
}

static void run_until(sim_t *s, int64_t t) {
    uint64_t n = 0;
    while (sim_step(s, t)) { VH_CHECK(++n < 200000, "runaway-events", "too many events before a point in time"); }
    if (s->now < t) { s->now = t; }
}

static uint64_t judge(sim_t *s, bool counters, bool clean) {
    uint64_t good = 0;
    for (int i = 0; i < 2; ++i) {
        ep_t *from = &s->ep[i], *to = &s->ep[1 - i];
        bool both = !s->ep[0].discard && !s->ep[1].discard;
        for (int k = 0; k < from->rec_n; ++k) {
            rec_t *r = &from->rec[k];
            if (r->internal && !r->resync) { continue; }
            VH_CHECK(r->state >= R_OK, "stalled", "#%d of ep%d never completed, link idle", r->order, i);
            if (r->order < to->judged_from || to->discard) { continue; }
            if (r->internal || r->resync) { continue; }
            if (r->state == R_OK && r->port) { VH_CHECK(r->delivered == 1, "resync:lost", "#%d of ep%d reported sent but delivered %d times", r->order, i, r->delivered); ++good; }
            if (r->state == R_FAILED) { VH_CHECK(r->n_tx + r->busy >= MAX_TX, "resync:gave-up", "#%d of ep%d failed after %d transmissions", r->order, i, r->n_tx); }
        }
        if (counters) {
            for (int m = 0; m < rq_n[i]; ++m) {
                req_t *q = &rq[i][m];
                if (both && from->rec[q->rec].state == R_OK) { VH_CHECK(q->answers == 1, "port0:no-answer", "request %d of ep%d (command %d, %d bytes) answered %d times", m, i, q->cmd, q->len, q->answers); }
            }
            struct embc_framer_status_s st = embc_framer_status_get(from->f);
            uint32_t handled = 0, retr = 0;
            for (int k = 0; k < from->rec_n; ++k) { handled += from->rec[k].internal && from->rec[k].pd != 2; retr += (uint32_t) (from->rec[k].n_tx - 1); }
            VH_CHECK(st.rx_data_count == (uint32_t) from->n_rx + handled, "counter:rx_data", "rx_data_count %u, but %d frames delivered and %u requests served", (unsigned) st.rx_data_count, from->n_rx, (unsigned) handled);
            VH_CHECK(st.tx_count == (uint32_t) from->rec_n, "counter:tx", "tx_count %u, but %d frames completed", (unsigned) st.tx_count, from->rec_n);
            VH_CHECK(st.tx_retransmit_count >= retr, "counter:retransmit", "tx_retransmit_count %u, but %u retransmissions seen", (unsigned) st.tx_retransmit_count, (unsigned) retr);
            VH_CHECK(st.rx_count >= st.rx_ack_count + st.rx_data_count, "counter:rx", "rx_count %u < %u acks + %u data", (unsigned) st.rx_count, (unsigned) st.rx_ack_count, (unsigned) st.rx_data_count);
            if (clean) {
                VH_CHECK(st.rx_count == (uint32_t) (to->new_n + from->new_n), "counter:rx-clean", "rx_count %u, but the peer transmitted %d data frames and %d acks", (unsigned) st.rx_count, to->new_n, from->new_n);
                VH_CHECK(st.rx_ack_count == (uint32_t) from->new_n, "counter:rx-ack-clean", "rx_ack_count %u for %d frames", (unsigned) st.rx_ack_count, from->new_n);
                VH_CHECK(!retr && !st.tx_retransmit_count && !st.rx_deduplicate_count && !st.rx_synchronization_error && !st.rx_mic_error && !st.rx_frame_id_error,
                         "counter:errors-clean", "error counters on a clean link: retransmit %u dedup %u sync %u mic %u id %u", (unsigned) st.tx_retransmit_count,
                         (unsigned) st.rx_deduplicate_count, (unsigned) st.rx_synchronization_error, (unsigned) st.rx_mic_error, (unsigned) st.rx_frame_id_error);
            }
            vh_count("counter_sets_checked", 1);
        }
    }
    return good;
}

/* resync requested by e: its own direction is judged from here on; what it had received but not delivered is dropped */
static void do_resync(ep_t *e, bool rx_synced) {
    sim_t *s = e->s;
    sim_resync(e);
    sim_judge_from_now(&s->ep[1 - e->id], true);
    if (rx_synced) { sim_judge_from_now(e, true); }
}

static void ping_session(bool lossy) {
    sim_t *s = sim_new(2, 300, 200);
    s->mon = MON_DONE | MON_DELIV;
    s->on_deliver = on_deliver;
    s->faults_on = lossy;
    for (int i = 0; i < 2; ++i) { setup_ep(s, i, lossy, vh_chance(1, 2) ? 40 : 200); }
    int reqs = 2 + (int) vh_below(20);
    while (reqs--) {
        run_until(s, s->now + MS(vh_below(vh_chance(1, 3) ? 600 : 40)));
        ep_t *e = &s->ep[vh_below(2)];
        if (sim_pending(e) < 6) { request(s, e); }
    }
    sim_run(s, 200000);
    for (int i = 0; i < 2; ++i) { VH_CHECK(!s->ep[i].rec_n || s->ep[i].to_send == 0, "harness", "sends left"); }
    judge(s, true, !lossy);
    int ans = 0;
    for (int i = 0; i < 2; ++i) { for (int m = 0; m < rq_n[i]; ++m) { ans += rq[i][m].answers; } }
    if (ans >= 2) { vh_nontrivial(); }
    sim_free(s);
}

static void resync_session(int kind) {
    sim_t *s = sim_new(2, 300, 200);
    s->mon = MON_DONE | MON_DELIV;
    s->on_deliver = on_deliver;
    s->faults_on = vh_chance(3, 4);
    for (int i = 0; i < 2; ++i) { setup_ep(s, i, s->faults_on, vh_chance(1, 2) ? 40 : 200); s->ep[i].to_send = 5 + (int) vh_below(30); }
    run_until(s, s->now + MS(vh_below(400)));
    if (kind == 0) {                       /* under load */
        int n = 1 + (int) vh_below(4);
        while (n--) {
            do_resync(&s->ep[vh_below(2)], true);
            run_until(s, s->now + MS(vh_chance(1, 3) ? vh_below(30) : vh_below(1500)));
        }
    } else if (kind == 1) {                /* restart */
        ep_t *e = &s->ep[vh_below(2)], *p = &s->ep[1 - e->id];
        int sends = e->to_send; e->to_send = 0;
        sim_judge_from_now(e, false); sim_judge_from_now(p, false);
        sim_restart(e);
        /* switched off: whatever the peer transmits meanwhile is lost */
        int64_t up = s->now + MS(150 + vh_below(vh_chance(1, 3) ? 6000 : 300));
        while (sim_step(s, up)) { sim_link_clear(s, p->id); }
        sim_link_clear(s, p->id); s->now = up > s->now ? up : s->now;
        if (vh_chance(1, 2)) {             /* talks before it is resynced */
            run_until(s, s->now + MS(vh_below(400)));
        }
        e->to_send = sends + 3; e->t_next_send = s->now;
        ep_t *first = vh_chance(1, 2) ? e : p, *second = first == e ? p : e;
        do_resync(first, false);
        run_until(s, s->now + MS(vh_chance(1, 2) ? 0 : vh_below(800)));
        do_resync(second, true);
    } else {                               /* receive ids forced apart */
        s->ep[0].to_send = s->ep[1].to_send = 0;
        for (int i = 0; i < 2; ++i) { s->ep[i].send_in_done = s->ep[i].send_in_rx = false; }
        sim_run(s, 200000);
        judge(s, false, false);
        for (int i = 0; i < 2; ++i) {
            ep_t *e = &s->ep[i];
            uint8_t o[WF_MAX];
            size_t n = wf_build(o, (uint8_t) vh_below(16), 0, vh_u8(), 2, 0, 0);
            sim_judge_from_now(e, false);
            embc_framer_hal_rx_buffer(e->f, o, (embc_size_t) n);
            vh_count("ids_forced_apart", 1);
        }
        sim_run(s, 200000);                /* the acknowledgements of the forged frames find nothing outstanding */
        for (int i = 0; i < 2; ++i) { s->ep[i].to_send = 4 + (int) vh_below(30); s->ep[i].t_next_send = s->now + MS(vh_below(20)); s->ep[i].rr.n = 0; }
        if (vh_chance(1, 2)) { run_until(s, s->now + MS(vh_below(300))); }
        int a = (int) vh_below(2);
        do_resync(&s->ep[a], false);
        run_until(s, s->now + MS(vh_chance(1, 2) ? 0 : vh_below(800)));
        do_resync(&s->ep[1 - a], true);
    }
    for (int i = 0; i < 2; ++i) { if (s->ep[i].to_send < 3) { s->ep[i].to_send = 3 + (int) vh_below(10); } s->ep[i].t_next_send = s->now; }
    sim_run(s, 200000);
    uint64_t good = judge(s, false, false);
    vh_count("judged_after_resync", good);
    if (good >= 3) { vh_nontrivial(); }
    sim_free(s);
}

void vh_case(uint64_t index) {
    switch (index % 5) {
        case 0: ping_session(false); break;
        case 1: ping_session(true); break;
        default: resync_session((int) (index % 5) - 2); break;
    }
}

#define SOAK_COUNTERS
#include "soak.h"

const vh_scenario_t vh_scenarios[] = {{"soak", soak}, {0, 0}};
