/* C03: every send completes exactly once, truthfully, in bounded (virtual) time.
 *
 * ASSUME: virtual time; the driver completes every block it was given and timers fire within 3 ms of their due time
 */
#include "adv.h"

const char *const vh_rule =
    "A case is one session of a real endpoint sending 4..33 messages to a scripted adversary that acknowledges (right or random masks, duplicates, "
    "stale or forged ids), negatively acknowledges, answers garbage or stays silent, while it also sends data, requests and noise; one case in four is "
    "two real endpoints over a link so lossy that messages fail. Non-trivial: at least one send completed and at least one frame was retransmitted; "
    "distinct by the delivered/completed event sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 400000 : 9000; }

static void judge(sim_t *s) {
    uint64_t rt = 0, done = 0;
    for (int i = 0; i < s->ep_n; ++i) {
        sim_done_check(s, &s->ep[i]);
        for (int k = 0; k < s->ep[i].rec_n; ++k) { rt += s->ep[i].rec[k].n_tx > 1; }
        done += (uint64_t) s->ep[i].n_done;
    }
    if (rt && done) { vh_nontrivial(); }
    sim_free(s);
}

static void two_endpoints(void) {
    sim_t *s = sim_new(2, 300, 200);
    s->mon = MON_DONE;
    s->max_miss = 1 + (int) vh_below(40); s->max_ack_miss = 1 + (int) vh_below(40);
    s->faults_on = true;
    for (int i = 0; i < 2; ++i) {
        ep_t *e = &s->ep[i]; fault_t *f = &s->fault[i];
        f->drop = (int) vh_below(vh_chance(1, 2) ? 950 : 300); f->flip = (int) vh_below(400); f->trunc = (int) vh_below(200);
        f->burst = (int) vh_below(200); f->noise = (int) vh_below(200);
        s->byte_time[i] = vh_chance(1, 4) ? 0 : US(1 + vh_below(20));
        s->latency[i] = US(vh_below(20000));
        s->done_delay_ms[i] = vh_chance(1, 2) ? 0 : (int) vh_below(400);
        s->hal_sync[i] = vh_chance(1, 6);
        s->hal_depth[i] = vh_chance(1, 6) ? (int) vh_range(1, 4) : 0;
        e->to_send = 3 + (int) vh_below(20);
        e->t_next_send = s->now + MS(vh_below(50));
        e->send_gap_ms = (int) vh_below(400); e->max_pending = 1 + (int) vh_below(10);
        e->send_in_done = vh_chance(1, 2); e->send_in_rx = vh_chance(1, 3);
    }
    sim_run(s, 300000);
    judge(s);
}

void vh_case(uint64_t index) {
    if ((index & 3) == 3) { two_endpoints(); return; }
    sim_t *s = adv_session(MON_DONE, 400, 300, true);
    sim_run(s, 300000);
    judge(s);
}

#include "soak.h"

const vh_scenario_t vh_scenarios[] = {{"soak", soak}, {0, 0}};
