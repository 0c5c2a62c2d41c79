/* One real framer against a scripted adversary: an arbitrary peer that answers
 * transmitted frames (or not), sends data, requests, resync, stale or forged
 * acknowledgements, noise.  Used by the completion, ownership, wire and
 * conservation monitors. */
#ifndef ADV_H_
#define ADV_H_
#include "fsim.h"

typedef struct { int64_t at; uint16_t n; uint8_t b[WF_MAX + 64]; } adv_msg_t;
#define ADV_Q 512
typedef struct {
    adv_msg_t q[ADV_Q]; int n;
    int w_ok, w_badmask, w_nack, w_gnack, w_silent, w_dup, w_other, w_odd, w_garbage;   /* reaction weights */
    int spontaneous;              /* remaining spontaneous events */
    int64_t t_next; int gap_ms;
    int w_data, w_req, w_resync, w_noise, w_stale, w_fresync, w_wrongport;
    int reqs;                     /* remaining ping/status requests */
    uint8_t next_id;              /* of the peer's own data frames */
    uint16_t seen;                /* bit k: id k accepted most recently */
    uint8_t last_id[8]; int last_n;
    int delay_ms;
    int id_mode;
    uint16_t doom, mute, taunt;   /* identifiers whose every transmission is refused at once, ignored, acknowledged and then refused */
    bool fates;
} adv_t;
static adv_t adv;

static void adv_push(sim_t *s, const uint8_t *b, size_t n, int64_t at) {
    if (adv.n >= ADV_Q || !n) { return; }
    if (adv.n && at < adv.q[adv.n - 1].at) { at = adv.q[adv.n - 1].at; }
    adv_msg_t *m = &adv.q[adv.n++];
    if (n > sizeof(m->b)) { n = sizeof(m->b); }
    m->at = at < s->now ? s->now : at; m->n = (uint16_t) n; memcpy(m->b, b, n);
}

static uint16_t adv_mask(uint8_t id) {
    uint16_t m = 0x100;
    for (int d = 1; d <= 8; ++d) { if (adv.seen & (1u << ((id - d) & 15))) { m |= (uint16_t) (0x100 >> d); } }
    return m;
}

static void adv_on_wire(sim_t *s, int from, const uint8_t *b, uint16_t n) {
    (void) from;
    wf_t f; uint8_t o[WF_MAX + 64];
    if (wf_parse(b, n, &f) != 1 || f.ack) { return; }
    adv.last_id[adv.last_n++ & 7] = f.id;
    int64_t at = s->now + MS(vh_below((uint32_t) adv.delay_ms + 1));
    int w[9] = {adv.w_ok, adv.w_badmask, adv.w_nack, adv.w_gnack, adv.w_silent, adv.w_dup, adv.w_other, adv.w_odd, adv.w_garbage};
    int tot = 0, k = 0;
    for (int i = 0; i < 9; ++i) { tot += w[i]; }
    int x = tot ? (int) vh_below((uint32_t) tot) : 0;
    while (tot && x >= w[k]) { x -= w[k++]; }
    if (adv.fates) {
        uint16_t bit = (uint16_t) (1u << (f.id & 15));
        tot = 1; k = (adv.doom & bit) ? 2 : (adv.mute & bit) && vh_chance(7, 8) ? 4 : 0;
        if (k == 0 && (adv.taunt & bit)) {
            adv_push(s, o, wf_ack(o, f.id, f.port, f.msg, 0x100, 0), at);
            for (int i = (int) vh_below(20); i >= 0; --i) { adv_push(s, o, wf_ack(o, f.id, f.port, f.msg, 0x100, (uint8_t) (1 + vh_below(255))), at + (i ? 0 : MS(vh_below(30)))); }
            return;
        }
    }
    if (!tot) { return; }
    switch (k) {
        case 0: case 5:
            adv.seen |= (uint16_t) (1u << f.id); adv.seen &= (uint16_t) ~(1u << ((f.id + 4) & 15));
            adv_push(s, o, wf_ack(o, f.id, f.port, f.msg, adv_mask(f.id), 0), at);
            if (k == 5) { adv_push(s, o, wf_ack(o, f.id, f.port, f.msg, adv_mask(f.id), 0), at + MS(vh_below(300))); }
            break;
        case 1: adv_push(s, o, wf_ack(o, f.id, f.port, f.msg, (uint16_t) vh_u32(), 0), at); break;
        case 2: adv_push(s, o, wf_ack(o, f.id, f.port, f.msg, 0x100, (uint8_t) (1 + vh_below(255))), at);
                if (vh_chance(1, 4)) { adv_push(s, o, wf_ack(o, f.id, f.port, f.msg, (uint16_t) (1 + vh_below(65535)), 11), at); }
                break;
        case 3: adv_push(s, o, wf_ack(o, 0, 0, 0, 0, (uint8_t) (1 + vh_below(255))), at); break;
        case 4: break;
        case 6: adv_push(s, o, wf_ack(o, vh_u8() & 15, vh_u8(), vh_u8(), (uint16_t) vh_u32(), vh_chance(2, 3) ? 0 : vh_u8()), at); break;
        case 7: { uint8_t p[8] = {0}; adv_push(s, o, wf_build(o, (uint8_t) (0x80 | f.id), f.port, f.msg, 0x1ff, p, (uint8_t) (vh_chance(1, 2) ? 0 : 2 + vh_below(6))), at); break; }
        default: { uint8_t g[64]; uint32_t l = 1 + vh_below(64); for (uint32_t i = 0; i < l; ++i) { g[i] = vh_chance(1, 4) ? WF_SOF : vh_u8(); } adv_push(s, g, l, at); break; }
    }
}

static void adv_spontaneous(sim_t *s) {
    ep_t *e = &s->ep[0];
    uint8_t o[WF_MAX + 64], p[WF_PAY_MAX];
    int w[7] = {adv.w_data, adv.w_req, adv.w_resync, adv.w_noise, adv.w_stale, adv.w_fresync, adv.w_wrongport};
    int tot = 0, k = 0;
    for (int i = 0; i < 7; ++i) { tot += w[i]; }
    if (!tot) { return; }
    int x = (int) vh_below((uint32_t) tot);
    while (x >= w[k]) { x -= w[k++]; }
    uint8_t len = sim_gen_len();
    sim_gen_payload(p, len);
    switch (k) {
        case 0: case 6: {
            uint8_t id = adv.next_id;
            switch (adv.id_mode == 3 ? (int) vh_below(4) : adv.id_mode) {
                case 0: adv.next_id = (id + 1) & 15; break;
                case 1: id = vh_u8() & 15; break;
                case 2: adv.next_id = (id + 2) & 15; break;
                default: adv.next_id = (uint8_t) ((id + vh_below(5)) & 15); break;
            }
            size_t n = wf_build(o, id, k == 6 ? (uint8_t) (16 + vh_below(240)) : (uint8_t) (1 + vh_below(15)), vh_u8(), (uint16_t) vh_u32(), p, len);
            if (vh_chance(1, 6)) { o[vh_below((uint32_t) n)] ^= (uint8_t) (1 + vh_below(255)); }
            if (vh_chance(1, 8)) { n = 1 + vh_below((uint32_t) n); }
            adv_push(s, o, n, s->now);
            break;
        }
        case 1:
            if (adv.reqs > 0) {
                --adv.reqs;
                adv_push(s, o, wf_build(o, adv.next_id, 0, vh_u8(), (uint16_t) (vh_chance(1, 2) ? 4 : 6), p, len), s->now);
                adv.next_id = (adv.next_id + 1) & 15;
            }
            break;
        case 2: adv_push(s, o, wf_build(o, adv.next_id = vh_u8() & 15, 0, vh_u8(), 2, p, vh_chance(1, 2) ? 0 : len), s->now); break;
        case 3: { uint32_t l = 1 + vh_below(280); for (uint32_t i = 0; i < l; ++i) { o[i] = vh_chance(1, 4) ? WF_SOF : vh_u8(); } adv_push(s, o, l, s->now); break; }
        case 4: {
            uint8_t id = adv.last_n ? adv.last_id[vh_below((uint32_t) (adv.last_n < 8 ? adv.last_n : 8))] : 0;
            adv_push(s, o, wf_ack(o, id, vh_u8(), vh_u8(), vh_chance(1, 2) ? 0x1ff : (uint16_t) vh_u32(), vh_chance(2, 3) ? 0 : vh_u8()), s->now);
            break;
        }
        default: sim_resync(e); break;
    }
}

static int64_t adv_time(sim_t *s) {
    (void) s;
    int64_t t = adv.n ? adv.q[0].at : T_MAX;
    if (adv.spontaneous > 0 && adv.t_next < t) { t = adv.t_next; }
    return t;
}

static void adv_fire(sim_t *s) {
    if (adv.spontaneous > 0 && adv.t_next <= s->now) {
        --adv.spontaneous;
        adv.t_next = s->now + MS(vh_below((uint32_t) adv.gap_ms + 1)) + 1;
        adv_spontaneous(s);
        return;
    }
    if (adv.n) {
        static adv_msg_t m;
        m = adv.q[0];
        memmove(&adv.q[0], &adv.q[1], sizeof(adv_msg_t) * (size_t) (--adv.n));
        sim_feed(&s->ep[0], m.b, m.n);
    }
}

/* a random adversarial session against endpoint 0 */
static sim_t *adv_session(unsigned mon, int n_small, int n_big, bool resyncs) {
    sim_t *s = sim_new(1, n_small, n_big);
    ep_t *e = &s->ep[0];
    memset(&adv, 0, sizeof(adv));
    s->mon = mon;
    s->on_wire = adv_on_wire; s->peer_time = adv_time; s->peer_fire = adv_fire;
    s->timer_late_us = vh_chance(1, 2) ? 0 : (int) vh_below(vh_chance(1, 3) ? 120000 : 3000);
    s->byte_time[0] = vh_chance(1, 4) ? 0 : US(1 + vh_below(vh_chance(1, 4) ? 400 : 20));
    s->done_delay_ms[0] = vh_chance(1, 3) ? 0 : (int) vh_below(vh_chance(1, 3) ? 700 : 30);
    s->hal_sync[0] = vh_chance(1, 8);
    s->hal_depth[0] = vh_chance(1, 6) ? (int) vh_range(1, 4) : 0;
    e->to_send = 4 + (int) vh_below(30);
    e->t_next_send = s->now + MS(vh_below(50));
    e->send_gap_ms = vh_chance(1, 2) ? 5 : (int) vh_below(500);
    e->max_pending = 1 + (int) vh_below(10);
    e->send_in_done = vh_chance(1, 2);
    e->send_in_rx = vh_chance(1, 3);
    int style = (int) vh_below(6);
    adv.w_ok = style == 4 ? 0 : (int) vh_below(style == 0 ? 100 : 30) + 1;
    adv.w_badmask = (int) vh_below(8); adv.w_nack = (int) vh_below(style == 1 ? 40 : 8); adv.w_gnack = (int) vh_below(5);
    adv.w_silent = (int) vh_below(style == 2 ? 200 : 20); adv.w_dup = style == 4 ? 0 : (int) vh_below(10);
    adv.w_other = (int) vh_below(style == 3 ? 30 : 4); adv.w_odd = (int) vh_below(4); adv.w_garbage = (int) vh_below(style == 5 ? 30 : 5);
    adv.delay_ms = (int) vh_below(vh_chance(1, 3) ? 600 : 60);
    adv.spontaneous = (int) vh_below(80);
    adv.t_next = s->now; adv.gap_ms = (int) vh_below(300);
    adv.w_data = (int) vh_below(20); adv.w_req = (int) vh_below(4); adv.w_resync = (int) vh_below(3); adv.w_noise = (int) vh_below(6);
    adv.w_stale = (int) vh_below(10); adv.w_fresync = resyncs ? (int) vh_below(4) : 0; adv.w_wrongport = (int) vh_below(4);
    adv.reqs = 12;
    adv.next_id = vh_u8() & 15;
    adv.id_mode = (int) vh_below(4);
    if (vh_chance(1, 8)) {        /* some frames exhaust their attempts on refusals alone, with others queued behind them */
        adv.fates = true;
        adv.doom = vh_chance(1, 4) ? 0xffff : (uint16_t) vh_u32();
        adv.mute = (uint16_t) vh_u32() & (uint16_t) vh_u32();
        adv.taunt = (uint16_t) vh_u32();
        if (vh_chance(1, 2)) { adv.doom &= (uint16_t) vh_u32(); }
        adv.delay_ms = (int) vh_below(20);
        if (vh_chance(1, 2)) { adv.delay_ms = 0; }
        if (vh_chance(1, 2)) { adv.spontaneous = 0; }
        s->done_delay_ms[0] = (int) vh_below(4);
        e->send_gap_ms = (int) vh_below(60);
        e->max_pending = 2 + (int) vh_below(20);
    }
    return s;
}
#endif
