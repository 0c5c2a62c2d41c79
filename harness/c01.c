/* C01: two real endpoints, faulty byte link, exactly-once in-order delivery.
 *
 * ASSUME: the link delivers bytes first-in first-out; time is virtual
 * ASSUME: a direction is judged only while no hole stays open for 790 ms (the receiver's documented in-order wait is 800 ms)
 */
#include "fsim.h"

const char *const vh_rule =
    "A case is one two-endpoint session: random message sequences in both directions (ports, ids, payload sizes 0..240, payloads rich in "
    "start bytes and frame look-alikes), random byte-level faults (drop, bit flips, bursts, lost bytes, inserted noise) bounded so that no "
    "message is lost more than twice in a row, random line speed, latency, driver and timer delays. Non-trivial: at least one data frame was "
    "retransmitted and at least 4 messages were delivered; distinct by the delivered/completed event sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 400000 : 12000; }

static void final_checks(sim_t *s) {
    for (int i = 0; i < 2; ++i) {
        ep_t *from = &s->ep[i], *to = &s->ep[1 - i];
        if (to->discard) { vh_count("directions_not_judged", 1); continue; }
        int in_row = 0;
        for (int k = 0; k < from->rec_n; ++k) {
            rec_t *r = &from->rec[k];
            VH_CHECK(r->state >= R_OK, "stalled", "message #%d from ep%d neither delivered nor failed, link idle", r->order, i);
            if (r->state == R_OK) {
                VH_CHECK(r->delivered == 1, "deliver:lost", "message #%d from ep%d reported sent but delivered %d times", r->order, i, r->delivered);
            } else {
                VH_CHECK(r->n_tx + r->busy >= MAX_TX, "gave-up-early", "message #%d from ep%d failed after %d transmissions", r->order, i, r->n_tx);
                ++in_row;
            }
        }
        vh_count("directions_judged", 1);
        (void) in_row;
    }
}

static void limit_failures(sim_t *s, ep_t *e, rec_t *r) {
    (void) r;
    if (e->n_failed >= 6) { s->ep[1 - e->id].discard = true; }   /* ids may wrap past the window */
}

static uint64_t session(bool light) {
    sim_t *s = sim_new(2, 300, 200);
    s->mon = MON_DELIV;
    s->on_done = limit_failures;
    s->timer_late_us = vh_chance(1, 2) ? 0 : (int) vh_below(vh_chance(1, 3) ? 120000 : 3000);
    s->faults_on = true;
    for (int i = 0; i < 2; ++i) {
        ep_t *e = &s->ep[i];
        fault_t *f = &s->fault[i];
        int lv = light ? 30 : 250;
        f->drop = (int) vh_below((uint32_t) lv); f->flip = (int) vh_below((uint32_t) lv); f->trunc = (int) vh_below((uint32_t) lv / 2);
        f->burst = (int) vh_below((uint32_t) lv / 2); f->noise = (int) vh_below((uint32_t) lv / 2);
        s->byte_time[i] = vh_chance(1, 4) ? 0 : US(1 + vh_below(20));
        s->latency[i] = US(vh_below(20000));
        s->done_delay_ms[i] = vh_chance(1, 2) ? 0 : (int) vh_below(20);
        s->hal_sync[i] = vh_chance(1, 6);
        s->hal_depth[i] = vh_chance(1, 6) ? (int) vh_range(1, 4) : 0;
        e->to_send = i == 0 || vh_chance(2, 3) ? 5 + (int) vh_below(45) : 0;
        e->t_next_send = s->now + MS(vh_below(50));
        e->send_gap_ms = vh_chance(1, 2) ? 5 : (int) vh_below(400);
        e->max_pending = 1 + (int) vh_below(10);
        e->send_in_done = vh_chance(1, 2);
        e->send_in_rx = vh_chance(1, 3);
    }
    sim_run(s, 200000);
    uint64_t rt = 0, dl = 0;
    for (int i = 0; i < 2; ++i) {
        for (int k = 0; k < s->ep[i].rec_n; ++k) { rt += s->ep[i].rec[k].n_tx > 1; dl += s->ep[i].rec[k].delivered > 0; }
    }
    final_checks(s);
    if (rt >= 1 && dl >= 4) { vh_nontrivial(); }
    vh_count("max_virtual_events", s->events);
    sim_free(s);
    return dl;
}

void vh_case(uint64_t index) { session((index & 3) == 0); }

#include "soak.h"

/* a relay: three links in a row whose nodes pass every received message on from the receive callback, over drivers that
 * hand each block to the next receiver before returning, so that the calls of all six endpoints nest in one another */
#define RL_HOPS 3
#define RL_MSGS 60
typedef struct { uint8_t port, msg; uint16_t pd; uint8_t len; uint8_t pay[WF_PAY_MAX]; } rl_msg_t;
typedef struct { struct embc_framer_s *f; int link; bool rx; int64_t at; bool on; void (*cbk)(void *, uint32_t); void *user; uint32_t id; } rl_ep_t;
static rl_ep_t rl_ep[RL_HOPS][2];
static rl_msg_t rl_m[RL_MSGS];
static struct { uint8_t *b; uint16_t n; } rl_ack[RL_HOPS][64];
static int rl_ack_n[RL_HOPS], rl_done[RL_HOPS], rl_got[RL_HOPS], rl_nest, rl_deepest, rl_copy;
static bool rl_lost[RL_HOPS][RL_MSGS], rl_lossy;
static int64_t rl_now;
static void rl_tx(void *hal, struct embc_buffer_s *b) {
    rl_ep_t *e = hal; uint16_t n = (uint16_t) embc_buffer_length(b);
    if (e->rx) {                                     /* replies wait: their addressee is still busy sending */
        VH_CHECK(rl_ack_n[e->link] < 64, "relay:replies", "more than 64 replies for at most 3 frames");
        rl_ack[e->link][rl_ack_n[e->link]].b = vh_exact(b->data, n); rl_ack[e->link][rl_ack_n[e->link]++].n = n;
    } else {
        wf_t w; uint8_t *x = vh_exact(b->data, n); bool drop = false;
        VH_CHECK(wf_parse(x, n, &w) == 1, "relay:malformed", "link %d transmitted a malformed block of %d bytes", e->link, n);
        if (w.port && w.pd < RL_MSGS && rl_lossy && !rl_lost[e->link][w.pd]) { drop = vh_chance(1, 8); rl_lost[e->link][w.pd] = drop; }
        if (++rl_nest > rl_deepest) { rl_deepest = rl_nest; }
        if (!drop) { embc_framer_hal_rx_buffer(rl_ep[e->link][1].f, x, n); }
        --rl_nest;
        free(x);
    }
    embc_framer_hal_tx_done(e->f, b);
}
static int64_t rl_time(void *hal) { (void) hal; return rl_now; }
static int32_t rl_tset(void *hal, int64_t t, void (*c)(void *, uint32_t), void *u, uint32_t *id) { rl_ep_t *e = hal; e->on = true; e->at = t; e->cbk = c; e->user = u; *id = ++e->id; return 0; }
static int32_t rl_tcan(void *hal, uint32_t id) { rl_ep_t *e = hal; (void) id; e->on = false; return 0; }
static void rl_rx(void *user, uint8_t port, uint8_t msg, uint16_t pd, struct embc_buffer_s *b) {
    rl_ep_t *e = user; int k = rl_got[e->link];
    VH_CHECK(k < RL_MSGS, "relay:extra", "link %d delivered more than %d messages", e->link, RL_MSGS);
    rl_msg_t *m = &rl_m[k]; uint16_t n = (uint16_t) embc_buffer_read_remaining(b);
    VH_CHECK(port == m->port && msg == m->msg && pd == m->pd && n == m->len && 0 == memcmp(b->data + b->cursor, m->pay, n), "relay:wrong",
             "link %d delivered port=%d msg=%d pd=%d len=%d instead of message %d (port=%d msg=%d pd=%d len=%d)", e->link, port, msg, pd, n, k, m->port, m->msg, m->pd, m->len);
    ++rl_got[e->link];
    if (e->link + 1 == RL_HOPS) { embc_buffer_free(b); }
    else if ((k ^ rl_copy) & 1) { embc_framer_send(rl_ep[e->link + 1][0].f, port, msg, pd, b); }
    else { embc_framer_send_payload(rl_ep[e->link + 1][0].f, port, msg, pd, b->data + b->cursor, (uint8_t) n); embc_buffer_free(b); }
}
static void rl_done_fn(void *user, uint8_t port, uint8_t msg, uint16_t pd, int32_t status) {
    rl_ep_t *e = user;
    VH_CHECK(status == 0, "relay:status", "link %d: port=%d msg=%d pd=%d completed with status %d", e->link, port, msg, pd, (int) status);
    ++rl_done[e->link];
}
static void rl_pump(void) {
    for (bool any = true; any;) {
        any = false;
        for (int l = 0; l < RL_HOPS; ++l) {
            for (int i = 0; i < rl_ack_n[l]; ++i) {      /* replies produced meanwhile are appended */
                uint8_t *x = rl_ack[l][i].b; any = true;
                embc_framer_hal_rx_buffer(rl_ep[l][0].f, x, rl_ack[l][i].n);
                free(x);
            }
            rl_ack_n[l] = 0;
        }
    }
}
static void relay(void) {
    for (int round = 0; round < 48; ++round) {
        struct embc_buffer_allocator_s *a[RL_HOPS + 1];
        embc_size_t sizes[4] = {70, 0, 0, 70};
        rl_now = MS(5); rl_lossy = round & 1; rl_copy = (round >> 1) & 1; rl_deepest = rl_nest = 0;
        memset(rl_lost, 0, sizeof(rl_lost));
        for (int l = 0; l <= RL_HOPS; ++l) {           /* a node's two endpoints share one allocator */
            a[l] = malloc((size_t) embc_buffer_allocator_instance_size(sizes, 4)); embc_buffer_allocator_initialize(a[l], sizes, 4);
        }
        for (int l = 0; l < RL_HOPS; ++l) {
            rl_ack_n[l] = rl_done[l] = rl_got[l] = 0;
            for (int r = 0; r < 2; ++r) {
                rl_ep_t *e = &rl_ep[l][r]; memset(e, 0, sizeof(*e));
                e->link = l; e->rx = r; e->f = malloc((size_t) embc_framer_instance_size());
                struct embc_framer_hal_callbacks_s hal = {e, rl_tx, rl_time, rl_tset, rl_tcan};
                embc_framer_initialize(e->f, a[l + r], &hal);
                struct embc_framer_port_callbacks_s c = {e, r ? rl_rx : 0, r ? 0 : rl_done_fn};
                for (uint8_t p = 1; p < 16; ++p) { embc_framer_register_port_callbacks(e->f, p, &c); }
            }
        }
        for (int l = 0; l < RL_HOPS; ++l) { embc_framer_resync(rl_ep[l][0].f); rl_pump(); }
        int sent = 0;
        while (rl_done[RL_HOPS - 1] < RL_MSGS) {
            if (sent < RL_MSGS) {
                int burst = 1 + (int) vh_below(6);
                while (burst-- && sent < RL_MSGS) {
                    rl_msg_t *m = &rl_m[sent];
                    m->port = (uint8_t) (1 + vh_below(15)); m->msg = vh_u8(); m->pd = (uint16_t) sent; m->len = sim_gen_len(); sim_gen_payload(m->pay, m->len);
                    ++sent;
                    embc_framer_send_payload(rl_ep[0][0].f, m->port, m->msg, m->pd, m->pay, m->len);
                }
                rl_pump();
                if (vh_chance(1, 2)) { continue; }
            }
            rl_ep_t *n = 0;                             /* nothing moves any more: let the earliest timer fire */
            for (int l = 0; l < RL_HOPS; ++l) { for (int r = 0; r < 2; ++r) { rl_ep_t *e = &rl_ep[l][r]; if (e->on && (!n || e->at < n->at)) { n = e; } } }
            if (!n) { VH_CHECK(sent < RL_MSGS || rl_done[RL_HOPS - 1] == RL_MSGS, "relay:stuck", "the last link completed %d of %d messages and no timer is set", rl_done[RL_HOPS - 1], RL_MSGS); continue; }
            if (n->at > rl_now) { rl_now = n->at; }
            n->on = false; n->cbk(n->user, n->id);
            rl_pump();
            VH_CHECK(rl_now < MS(600000), "relay:stuck", "the last link completed %d of %d messages in ten minutes", rl_done[RL_HOPS - 1], RL_MSGS);
        }
        for (int l = 0; l < RL_HOPS; ++l) {
            VH_CHECK(rl_got[l] == RL_MSGS && rl_done[l] == RL_MSGS, "relay:count", "link %d: %d of %d messages delivered, %d completed", l, rl_got[l], RL_MSGS, rl_done[l]);
        }
        vh_count("relays_fully_nested", rl_deepest == RL_HOPS);
        for (int l = 0; l < RL_HOPS; ++l) { free(rl_ep[l][0].f); free(rl_ep[l][1].f); }
        for (int l = 0; l <= RL_HOPS; ++l) { free(a[l]); }
        vh_count("relayed_messages", RL_MSGS);
    }
}

const vh_scenario_t vh_scenarios[] = {{"soak", soak}, {"relay", relay}, {0, 0}};
