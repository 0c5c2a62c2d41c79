/* C05: everything handed to the driver is a well formed, windowed, boundedly retried frame.
 *
 * ASSUME: the driver completes every block it was given
 */
#include "adv.h"

const char *const vh_rule =
    "A case is one session of a real endpoint against a scripted adversary (one in four: two real endpoints over a lossy link); every block handed "
    "to the driver is parsed by an independent decoder and stepped through a window/sequence/retry automaton. Every eighth case also offers payloads "
    "longer than 240 bytes, which must be refused, and every eighth compares the raw frame constructors with the format. Non-trivial: at least 4 data frames were transmitted; distinct by the delivered/completed event sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 400000 : 9000; }

/* a payload longer than a frame can carry is refused before anything is transmitted */
static void too_long(void) {
    sim_t *s = sim_new(1, 20, 20);
    s->mon = MON_WIRE;
    ep_t *e = &s->ep[0];
    uint8_t p[300];
    vh_fill(p, sizeof(p));
    uint32_t n = 241 + vh_below(7);
    int kind = (int) vh_below(4);
    int before = e->hq_n;
    int refused = 0;
    if (kind == 0) {
        n = 241 + vh_below(15);
        uint8_t *x = vh_exact(p, n);
        refused = VH_FATAL(embc_framer_send_payload(e->f, 3, 4, 5, x, (uint8_t) n));
        free(x);
    } else if (kind == 1) {      /* a frame buffer only has room for 240 bytes plus the reserve */
        refused = VH_FATAL({
            struct embc_buffer_s *b = embc_framer_alloc(e->f);
            embc_buffer_write(b, p, (embc_size_t) n);
            embc_framer_send(e->f, 3, 4, 5, b);
        });
    } else {
        n = 241 + vh_below(16);
        refused = VH_FATAL({
            struct embc_buffer_s *b = embc_buffer_alloc(e->alloc, 256);
            embc_buffer_write(b, p, (embc_size_t) n);
            embc_framer_send(e->f, 3, 4, 5, b);
        });
    }
    VH_CHECK(refused, "wire:too-long-accepted", "a payload of %u bytes was accepted (entry %d)", (unsigned) n, kind);
    VH_CHECK(e->hq_n == before, "wire:too-long-sent", "a payload of %u bytes was transmitted", (unsigned) n);
    vh_count("oversize_payloads_refused", 1);
    sim_free(s);
}

/* the raw frame constructors, for every argument: exactly the documented bytes, ready to transmit */
static void construct(void) {
    sim_t *s = sim_new(1, 20, 20);
    ep_t *e = &s->ep[0];
    for (int k = 0; k < 8; ++k) {
        uint8_t id = vh_u8(), port = (uint8_t) vh_below(16), msg = vh_u8(), n = sim_gen_len(), st = vh_u8();
        uint16_t pd = (uint16_t) vh_u32();
        while (n > 19 && n < 116) { n = (uint8_t) vh_below(WF_PAY_MAX + 1); }      /* the pools have buffers of 32 and 256 bytes */
        uint8_t p[WF_PAY_MAX], want[WF_MAX + 8];
        sim_gen_payload(p, n);
        uint8_t *x = vh_exact(p, n);
        bool ack = vh_chance(1, 2);
        struct embc_buffer_s *b = ack ? embc_framer_construct_ack(e->f, id, port, msg, pd, st) : embc_framer_construct_frame(e->f, id, port, msg, pd, x, n);
        size_t m = ack ? wf_build(want, (uint8_t) (0x80 | (id & 15)), port, msg, pd, &st, 1) : wf_build(want, id & 15, port, msg, pd, x, n);
        VH_CHECK(b && (size_t) b->length == m && !memcmp(b->data, want, m), "construct", "construct_%s(id=%02x port=%d msg=%d pd=%04x, %d bytes) gave %d other bytes", ack ? "ack" : "frame", id, port, msg, pd, n, b ? (int) b->length : -1);
        free(x);
        embc_buffer_free(b);
        vh_count("frames_constructed", 1);
    }
    sim_free(s);
}

void vh_case(uint64_t index) {
    sim_t *s;
    if ((index & 7) == 1) { construct(); }
    if ((index & 7) == 5) { too_long(); }
    if ((index & 3) == 3) {
        s = sim_new(2, 300, 200);
        s->mon = MON_WIRE;
        s->max_miss = 1 + (int) vh_below(30); s->max_ack_miss = 1 + (int) vh_below(30);
        s->faults_on = true;
        for (int i = 0; i < 2; ++i) {
            ep_t *e = &s->ep[i]; fault_t *f = &s->fault[i];
            f->drop = (int) vh_below(500); f->flip = (int) vh_below(300); f->trunc = (int) vh_below(100);
            s->byte_time[i] = vh_chance(1, 4) ? 0 : US(1 + vh_below(20));
            s->latency[i] = US(vh_below(20000));
            s->done_delay_ms[i] = vh_chance(1, 2) ? 0 : (int) vh_below(300);
            s->hal_sync[i] = vh_chance(1, 6);
            s->hal_depth[i] = vh_chance(1, 6) ? (int) vh_range(1, 4) : 0;
            e->to_send = 3 + (int) vh_below(40);
            e->t_next_send = s->now + MS(vh_below(50));
            e->send_gap_ms = (int) vh_below(200); e->max_pending = 1 + (int) vh_below(10);
            e->send_in_done = vh_chance(1, 2); e->send_in_rx = vh_chance(1, 3);
        }
    } else {
        s = adv_session(MON_WIRE, 400, 300, true);
    }
    sim_run(s, 300000);
    int n = 0;
    for (int i = 0; i < s->ep_n; ++i) { n += s->ep[i].new_n; }
    if (n >= 4) { vh_nontrivial(); }
    sim_free(s);
}

#include "soak.h"

const vh_scenario_t vh_scenarios[] = {{"soak", soak}, {0, 0}};
