/* C04: buffers handed to the driver stay untouched until done; one timer.
 *
 * ASSUME: the driver may link the buffers it owns into its own list (as the driver in the unit tests does) and completes them first-in first-out
 */
#include "adv.h"

const char *const vh_rule =
    "A case is one session of a real endpoint (one in four: two real endpoints over a lossy link) whose driver holds each block for an adversarial "
    "time (0 to 700 ms) while acknowledgements, negative acknowledgements, timeouts, resync requests and peer data arrive. After every event every block "
    "the driver owns is compared with its content at hand-over and the allocator is probed for it. Non-trivial: at least one frame was retransmitted or "
    "completed while some block was in flight; distinct by the delivered/completed event sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 200000 : 6000; }

static uint64_t done_in_flight;
static void on_done(sim_t *s, ep_t *e, rec_t *r) { (void) s; (void) r; done_in_flight += e->hq_n > 0; }

void vh_case(uint64_t index) {
    sim_t *s;
    done_in_flight = 0;
    if ((index & 3) == 3) {
        s = sim_new(2, 300, 200);
        s->mon = MON_OWN | MON_TIMER;
        s->max_miss = 1 + (int) vh_below(30); s->max_ack_miss = 1 + (int) vh_below(30);
        s->faults_on = true;
        for (int i = 0; i < 2; ++i) {
            ep_t *e = &s->ep[i]; fault_t *f = &s->fault[i];
            f->drop = (int) vh_below(500); f->flip = (int) vh_below(300); f->trunc = (int) vh_below(100);
            s->byte_time[i] = vh_chance(1, 4) ? 0 : US(1 + vh_below(100));
            s->latency[i] = US(vh_below(20000));
            s->done_delay_ms[i] = (int) vh_below(600);
            e->to_send = 3 + (int) vh_below(20);
            e->t_next_send = s->now + MS(vh_below(50));
            e->send_gap_ms = (int) vh_below(200); e->max_pending = 1 + (int) vh_below(10);
            e->send_in_done = vh_chance(1, 2); e->send_in_rx = vh_chance(1, 3);
        }
    } else {
        s = adv_session(MON_OWN | MON_TIMER, 400, 300, true);
        if (!s->hal_sync[0] && vh_chance(1, 2)) { s->done_delay_ms[0] = 1 + (int) vh_below(700); }
    }
    s->on_done = on_done;
    sim_run(s, 300000);
    uint64_t rt = 0;
    for (int i = 0; i < s->ep_n; ++i) { for (int k = 0; k < s->ep[i].rec_n; ++k) { rt += s->ep[i].rec[k].n_tx > 1; } }
    vh_count("completions_while_driver_busy", done_in_flight);
    if (done_in_flight || rt) { vh_nontrivial(); }
    sim_free(s);
}

/* A timer that is served late: the acknowledgement of one frame arrives when the deadlines of the others have passed, so the
 * endpoint sets a timer which has already expired, and the driver calls back from within that call (or soon after). */
static struct {
    struct embc_framer_s *f; int64_t now;
    bool armed, at_once; int64_t at; void (*cbk)(void *, uint32_t); void *user; uint32_t id, next_id; int depth;
    wf_t out[4]; int n_out; int done[8], n_rx;
} lt;
static void lt_tx(void *hal, struct embc_buffer_s *b) {
    wf_t w; (void) hal;
    VH_CHECK(wf_parse(b->data, (size_t) embc_buffer_length(b), &w) == 1, "late:wire", "what was transmitted is no frame");
    if (!w.ack) { VH_CHECK(w.msg < 8, "late:wire", "message %d was never sent", w.msg); lt.out[w.msg & 3] = w; ++lt.n_out; }
    embc_framer_hal_tx_done(lt.f, b);
}
static int64_t lt_time(void *hal) { (void) hal; return lt.now; }
static int32_t lt_set(void *hal, int64_t t, void (*cbk)(void *, uint32_t), void *user, uint32_t *id) {
    (void) hal;
    VH_CHECK(!lt.armed, "timer:two-armed", "a second timer was armed while one is pending");
    *id = ++lt.next_id;
    vh_count("late_timer_arms", 1);
    if (lt.at_once && t <= lt.now) {
        VH_CHECK(++lt.depth < 64, "timer:endless", "timers that have already expired are set without end");
        vh_count("late_timers_fired_at_once", 1);
        cbk(user, *id); --lt.depth;
        if (!lt.armed) { vh_count("late_timers_fired_at_once_and_last", 1); }
        return 0;
    }
    lt.armed = true; lt.at = t; lt.cbk = cbk; lt.user = user; lt.id = *id;
    return 0;
}
static int32_t lt_cancel(void *hal, uint32_t id) {
    (void) hal;
    VH_CHECK(lt.armed && id == lt.id, "timer:stale-cancel", "timer %u was cancelled, %s", (unsigned) id, lt.armed ? "but another one is armed" : "but none is armed");
    lt.armed = false;
    return 0;
}
static void lt_rx(void *port, uint8_t port_id, uint8_t msg, uint16_t pd, struct embc_buffer_s *b) {
    (void) port; (void) port_id; (void) msg; (void) pd; ++lt.n_rx; embc_buffer_free(b);
}
static void lt_done(void *port, uint8_t port_id, uint8_t msg, uint16_t pd, int32_t status) {
    (void) port; (void) port_id; (void) pd; (void) status;
    VH_CHECK(msg < 8 && ++lt.done[msg] == 1, "late:done", "message %d completed twice", msg);
}
static void lt_serve(void) { while (lt.armed && lt.at <= lt.now) { lt.armed = false; lt.cbk(lt.user, lt.id); } }
static void lt_send(uint8_t msg) { embc_framer_send(lt.f, 3, msg, 0x1234, embc_framer_alloc(lt.f)); }
static void lt_feed(const uint8_t *o, size_t n) { for (size_t i = 0; i < n; ++i) { embc_framer_hal_rx_byte(lt.f, o[i]); } }
static void late(void) {
    uint8_t o[WF_MAX];
    /* rounds of silence; frames; event: 0..2 acknowledges that frame, 3..5 refuses it, 6 peer data; a hole in the peer's data or not */
    for (int rounds = 0; rounds <= 17; ++rounds) { for (int n = 1; n <= 3; ++n) { for (int ev = 0; ev < 7; ++ev) { for (int hole = 0; hole < 2; ++hole) { for (int once = 0; once < 2; ++once) {
        if (ev < 6 && ev % 3 >= n) { continue; }
        embc_size_t sizes[4] = {40, 0, 0, 24};
        struct embc_buffer_allocator_s *a = malloc((size_t) embc_buffer_allocator_instance_size(sizes, 4));
        embc_buffer_allocator_initialize(a, sizes, 4);
        memset(&lt, 0, sizeof(lt));
        lt.f = malloc((size_t) embc_framer_instance_size()); memset(lt.f, 0xA5, (size_t) embc_framer_instance_size());
        lt.now = MS(1000); lt.at_once = once; lt.next_id = (uint32_t) (rounds & 1) - 1;
        struct embc_framer_hal_callbacks_s hal = {0, lt_tx, lt_time, lt_set, lt_cancel};
        embc_framer_initialize(lt.f, a, &hal);
        struct embc_framer_port_callbacks_s cb = {0, lt_rx, lt_done};
        for (int i = 0; i < 16; ++i) { embc_framer_register_port_callbacks(lt.f, (uint8_t) i, &cb); }
        uint8_t rid = 0;
        for (; rid < 9; ++rid) { lt_feed(o, wf_build(o, rid, 5, 1, 2, 0, 0)); }        /* the receiver follows the peer */
        for (int k = 0; k < 20 && lt.armed; ++k) { if (lt.at > lt.now) { lt.now = lt.at; } lt_serve(); }
        for (int i = 0; i < n; ++i) { lt_send((uint8_t) i); lt.now += MS(1); }
        for (int r = 0; r < rounds; ++r) { for (int i = 0; i < n && lt.armed; ++i) { if (lt.at > lt.now) { lt.now = lt.at; } lt_serve(); } }
        if (hole) { lt_feed(o, wf_build(o, (uint8_t) ((rid + 1) & 15), 5, 1, 2, 0, 0)); lt.now += MS(600); }
        lt.now += MS(400);                                         /* nothing was served: every deadline has passed */
        if (ev < 6) {
            wf_t *w = &lt.out[ev % 3];
            lt_feed(o, wf_ack(o, w->id & 15, w->port, w->msg, 0x100, ev < 3 ? 0 : EMBC_ERROR_MESSAGE_INTEGRITY));
        } else {
            lt_feed(o, wf_build(o, (uint8_t) ((rid + 2) & 15), 5, 1, 2, 0, 0));
        }
        for (int k = 0; k < 400 && lt.armed; ++k) { if (lt.at > lt.now) { lt.now = lt.at; } lt_serve(); }
        VH_CHECK(!lt.armed, "late:endless", "the endpoint never came to rest");
        for (int i = 0; i < n; ++i) { VH_CHECK(lt.done[i] == 1, "late:lost", "message %d of %d completed %d times (%d rounds, event %d, hole %d)", i, n, lt.done[i], rounds, ev, hole); }
        for (int i = 4; i < 6; ++i) {                              /* and goes on as before */
            lt_send((uint8_t) i);
            VH_CHECK(lt.armed, "late:no-timer", "a frame is outstanding without a timer");
            wf_t *w = &lt.out[i & 3];
            VH_CHECK(w->msg == i, "late:wire", "message %d was not transmitted", i);
            if (i == 4) { lt.now = lt.at; lt_serve(); }
            lt_feed(o, wf_ack(o, w->id & 15, w->port, w->msg, 0x1ff, 0));
            VH_CHECK(lt.done[i] == 1 && !lt.armed, "late:after", "message %d completed %d times, timer %s", i, lt.done[i], lt.armed ? "still armed" : "off");
        }
        VH_CHECK(lt.n_rx == 9 + hole + (ev == 6), "late:rx", "%d messages delivered, not %d", lt.n_rx, 9 + hole + (ev == 6));
        vh_count("late_sessions", 1);
        free(lt.f); free(a);
    } } } } }
}

const vh_scenario_t vh_scenarios[] = {{"late", late}, {0, 0}};
