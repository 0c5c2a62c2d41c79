/* Virtual-time simulation of one or two real framer endpoints on a faulty byte
 * link, with the monitors shared by the framer properties.  Everything is
 * observed at the public boundary: driver callbacks, port callbacks, bytes. */
#ifndef FSIM_H_
#define FSIM_H_
#if VH_MSAN
#include <sanitizer/msan_interface.h>
#endif
#include "vh.h"
#include "wire.h"
#include "embc/stream/framer.h"
#include "embc/memory/buffer.h"
#include "embc/collections/list.h"
#include "embc/ec.h"
#include "embc/time.h"

#define MON_OWN    0x01     /* driver owns in-flight buffers */
#define MON_TIMER  0x02     /* one timer */
#define MON_WIRE   0x04     /* transmitted blocks, ids, window, retries */
#define MON_DONE   0x08     /* completion exactly once, truthful, bounded */
#define MON_DELIV  0x10     /* exactly-once in-order delivery */
#define MON_CENSUS 0x20     /* buffer conservation */

#define MS(x) ((int64_t) (((int64_t) (x)) * ((int64_t) 1 << 30) / 1000))
#define US(x) ((int64_t) (((int64_t) (x)) * ((int64_t) 1 << 30) / 1000000))
#define T_MAX INT64_MAX
#define REC_MAX 600
#define HQ_MAX 512
#define CH_MAX 1024
#define MAX_TX 17           /* first transmission + EMBC_FRAMER_MAX_RETRIES */
#define WINDOW 3

enum { R_QUEUED = 0, R_SENT, R_OK, R_FAILED, R_ABORTED };

typedef struct {
    uint8_t port, msg; uint16_t pd; uint8_t len;
    uint8_t pay[WF_PAY_MAX];
    int state;
    uint8_t fid;
    int n_tx;               /* times handed to the driver */
    int busy;               /* of these, the driver kept the buffer so long that a retry may have found it busy */
    int miss;               /* consecutive transmissions the peer has not accepted */
    int rx_acked;           /* times the peer acknowledged it */
    int accepted;           /* times the peer's byte stream contained it intact */
    int delivered;
    bool sure;              /* the endpoint certainly knows it as acknowledged */
    bool acked;             /* the endpoint has received a success ack covering it */
    bool internal, resync;
    bool may_abort;         /* a resync was requested while it was pending */
    int32_t status;
    int64_t t_send, t_first, t_done;
    int64_t t_last;         /* when the driver was given it, or done with it, the latest time */
    uint64_t pos_first;     /* receive stream position when first transmitted */
    int order;              /* global submission order in this endpoint */
    int nth;                /* how many new frames this endpoint had transmitted before it */
    uint8_t wire[WF_MAX]; uint16_t wire_n;
} rec_t;

typedef struct {
    struct embc_buffer_s *b;
    uint8_t copy[WF_MAX + 16]; uint16_t n;
    int64_t t_end, t_done;
    bool sent;
    int rec;
} hq_t;

typedef struct { uint8_t *b; uint16_t n; int64_t at; } chunk_t;

typedef struct { uint64_t pos; uint8_t id, port, msg; uint16_t mask; } recent_t;
#define RECENT 128
typedef struct sim_s sim_t;
#define WRAP_MAX 64
typedef struct { struct embc_buffer_manager_s m; struct embc_buffer_manager_s const *orig; struct embc_buffer_s *b; } wrap_t;

typedef struct ep_s {
    sim_t *s; int id;
    struct embc_framer_s *f;
    struct embc_buffer_allocator_s *alloc;
    int n_small, n_big;
    /* driver */
    hq_t hq[HQ_MAX]; int hq_n;
    struct embc_list_s hal_list;
    int64_t t_line;                  /* transmitter busy until */
    int64_t t_last_done;
    bool timer_armed; int64_t timer_at, timer_fire; uint32_t timer_id;
    int timer_id_mode;
    bool late_drawn; int64_t late_for, late;
    int resync_handled;              /* the latest resync command this endpoint has acknowledged */
    void (*timer_cbk)(void *, uint32_t); void *timer_user; uint32_t timer_next_id;
    /* sends */
    rec_t *rec; int rec_n, next_queued;
    int last_new_id;                 /* -1: none yet */
    bool id_jump_ok;
    int order_n, new_n;
    int n_done, n_ok, n_failed;
    /* receive side */
    rr_t rr;
    recent_t recent[RECENT]; uint32_t recent_n; uint64_t pos;
    recent_t fed[64]; int fed_n;       /* acknowledgements in the block being fed */
    recent_t nacks[RECENT]; uint32_t nack_n;      /* negative acknowledgements, likewise */
    uint8_t tail[WF_HDR + 1 + WF_FTR];
    bool discard;                    /* precondition of in-order delivery broken for data arriving here */
    int last_delivered;              /* order of last delivered record of the peer */
    int64_t gap_since[2];            /* last data acceptance while a hole was open, or T_MAX */
    int max_accepted[2];
    int judged_from;                 /* order of the peer's first message judged for delivery here */
    bool in_rx;
    /* app */
    int resync_seen; bool in_resync;
    int to_send; int64_t t_next_send; int max_pending; int send_gap_ms;
    bool send_in_done, send_in_rx;
    struct embc_framer_port_callbacks_s cb[16];
    int held_n; struct embc_buffer_s *held[8];
    wrap_t wrap[WRAP_MAX];
    uint32_t uniq;
    int n_rx;
} ep_t;

typedef struct {
    int drop, flip, trunc, noise, burst;       /* per 1000 blocks */
} fault_t;

struct sim_s {
    int64_t now;
    ep_t ep[2]; int ep_n;
    unsigned mon;
    fault_t fault[2];
    bool faults_on;
    int max_miss, ack_miss[2], max_ack_miss;
    int64_t byte_time[2], latency[2];
    int done_delay_ms[2];
    bool hal_sync[2];
    int hal_depth[2];               /* a driver with this many slots: accepting a block waits for the oldest (0: any number) */
    int timer_late_us;
    bool sync_timer; int sync_depth;
    int64_t tick;                              /* a polled system: everything happens on multiples of this */
    chunk_t ch[2][CH_MAX]; int ch_h[2], ch_n[2];
    int64_t t_last_arrival[2];
    uint64_t events;
    /* when one endpoint faces a scripted peer */
    void (*on_wire)(sim_t *s, int from, const uint8_t *b, uint16_t n);
    void (*on_deliver)(sim_t *s, ep_t *e, uint8_t port, uint8_t msg, uint16_t pd, const uint8_t *p, uint16_t n);
    void (*on_done)(sim_t *s, ep_t *e, rec_t *r);
    int64_t (*peer_time)(sim_t *s);            /* next scripted event, T_MAX for none */
    void (*peer_fire)(sim_t *s);
    int sigmix;
};

static void sim_app_send(ep_t *e);
static uint32_t sim_unregistered;                 /* ports whose callbacks the application never registers */

/* ---------------- sending ---------------- */
static void sim_gen_payload(uint8_t *p, uint8_t n) {
    switch (vh_below(5)) {
        case 0: memset(p, WF_SOF, n); break;
        case 1: for (int i = 0; i < n; ++i) { p[i] = vh_chance(1, 3) ? WF_SOF : vh_u8(); } break;
        case 2: { /* an embedded, valid looking frame */
            vh_fill(p, n);
            if (n > 40) {
                uint8_t inner[64]; uint8_t junk[20]; vh_fill(junk, sizeof(junk));
                size_t k = wf_build(inner, vh_u8() & 0x8f, vh_below(16), vh_u8(), (uint16_t) vh_u32(), junk, vh_below(12));
                for (int i = 2; i < 6; ++i) { inner[k - (size_t) i] ^= 0xff; }  /* never a frame, not even after a few bit errors */
                memcpy(p + vh_below((uint32_t) (n - k)), inner, k);
            }
            break;
        }
        default: vh_fill(p, n); break;
    }
}

static uint8_t sim_gen_len(void) {
    switch (vh_below(6)) {
        case 0: return 0;
        case 1: return (uint8_t) vh_below(8);
        case 2: return (uint8_t) (WF_PAY_MAX - vh_below(4));
        default: return (uint8_t) vh_below(WF_PAY_MAX + 1);
    }
}

static int sim_pending(ep_t *e) {
    int n = 0;
    for (int i = 0; i < e->rec_n; ++i) { n += (!e->rec[i].internal && e->rec[i].state < R_OK && !((sim_unregistered >> e->rec[i].port) & 1)); }
    return n;
}

static rec_t *sim_rec_new(ep_t *e) {
    VH_CHECK(e->rec_n < REC_MAX, "harness", "too many records");
    rec_t *r = &e->rec[e->rec_n++];
    memset(r, 0, sizeof(*r));
    r->order = e->order_n++;
    r->t_send = e->s->now;
    r->t_first = T_MAX; r->t_done = T_MAX;
    return r;
}

static struct embc_buffer_s *sim_fresh_check(ep_t *e, struct embc_buffer_s *b, const char *where) {
    if (e->s->mon & MON_OWN) {
        for (int i = 0; i < e->hq_n; ++i) {
            VH_CHECK(e->hq[i].b != b, "own:reused-in-flight", "%s handed out a buffer the driver still owns", where);
        }
    }
    return b;
}

/* port 0 also carries application defined messages: everything but the link commands */
static bool p0_app(uint16_t pd) { uint8_t c = (uint8_t) pd; return c != 2 && (c < 4 || c > 7); }

/* the application may put its own manager in front of the buffer's: it hears of the free, once */
static void sim_wrap_free(struct embc_buffer_manager_s const *m, struct embc_buffer_s *b) {
    wrap_t *w = (wrap_t *) (intptr_t) m;
    VH_CHECK(w->orig && w->b == b, "own:freed-twice", "a buffer was freed through a manager it no longer has");
    b->manager = w->orig;
    w->orig = 0;
    vh_count("wrapped_frees", 1);
    embc_buffer_free(b);
}

static void sim_wrap(ep_t *e, struct embc_buffer_s *b) {
    if (!vh_chance(1, 3)) { return; }
    for (int i = 0; i < WRAP_MAX; ++i) {
        wrap_t *w = &e->wrap[i];
        if (w->orig) { continue; }
        w->m.free = sim_wrap_free; w->b = b; w->orig = b->manager;
        b->manager = &w->m;
        return;
    }
}

/* one application send through one of the public entry points */
static void sim_send(ep_t *e, uint8_t port, uint8_t msg, uint16_t pd, const uint8_t *pay, uint8_t len) {
    rec_t *r = sim_rec_new(e);
    r->port = port; r->msg = msg; r->pd = pd; r->len = len;
    if (len) { memcpy(r->pay, pay, len); }
    vh_trace("%lld ep%d send #%d port=%d msg=%d pd=%04x len=%d", (long long) (e->s->now / US(1)), e->id, r->order, port, msg, pd, len);
    switch (vh_below(3)) {
        case 0: {
            uint8_t *x = vh_exact(pay, len);
            embc_framer_send_payload(e->f, port, msg, pd, x, len);
            free(x);
            break;
        }
        case 1: {
            struct embc_buffer_s *b = sim_fresh_check(e, embc_framer_alloc(e->f), "embc_framer_alloc");
            if (len) { embc_buffer_write(b, r->pay, len); }
            sim_wrap(e, b);
            embc_framer_send(e->f, port, msg, pd, b);
            break;
        }
        default: {
            struct embc_buffer_s *b = len <= 32 && vh_chance(1, 2) ? embc_buffer_alloc_unsafe(e->alloc, len ? len : 1) : 0;
            if (!b) { b = embc_buffer_alloc(e->alloc, 256); }
            sim_fresh_check(e, b, "embc_buffer_alloc");
            if (len) { embc_buffer_write(b, r->pay, len); }
            if (vh_chance(1, 4)) { embc_buffer_cursor_set(b, vh_below(len + 1u)); }
            sim_wrap(e, b);
            embc_framer_send(e->f, port, msg, pd, b);
            break;
        }
    }
    vh_count("messages_sent", 1);
}

/* the application sends a buffer it received, without copying it */
static void sim_forward(ep_t *e, struct embc_buffer_s *b) {
    rec_t *r = sim_rec_new(e);
    r->port = (uint8_t) (1 + vh_below(15)); r->msg = vh_u8();
    r->pd = (uint16_t) (e->uniq++ * 40503u + (uint32_t) e->id * 7u);
    r->len = (uint8_t) (b->length - WF_HDR);
    if (r->len && vh_chance(1, 2)) { b->data[WF_HDR + vh_below(r->len)] ^= 0x5a; }
    memcpy(r->pay, b->data + WF_HDR, r->len);
    if (vh_chance(1, 2)) { embc_buffer_cursor_set(b, WF_HDR + vh_below(r->len + 1u)); }     /* or has read it */
    vh_trace("%lld ep%d forward #%d port=%d msg=%d pd=%04x len=%d", (long long) (e->s->now / US(1)), e->id, r->order, r->port, r->msg, r->pd, r->len);
    vh_count("buffers_forwarded", 1);
    sim_wrap(e, b);
    embc_framer_send(e->f, r->port, r->msg, r->pd, b);
    vh_count("messages_sent", 1);
}

/* link resync requested by the application */
static void sim_resync(ep_t *e) {
    vh_trace("%lld ep%d embc_framer_resync", (long long) (e->s->now / US(1)), e->id);
    for (int i = 0; i < e->rec_n; ++i) {
        rec_t *q = &e->rec[i];
        if (q->internal && !q->resync && q->state < R_OK) { q->state = R_ABORTED; }
        if (!q->internal || q->resync) { q->may_abort = true; }
    }
    e->next_queued = e->rec_n;       /* whatever was queued is dropped */
    e->id_jump_ok = true;
    int before = e->rec_n, seen = e->resync_seen;
    e->in_resync = true;
    embc_framer_resync(e->f);
    e->in_resync = false;
    (void) before;
    if (e->resync_seen == seen) {     /* queued behind something sent from a callback */
        rec_t *r = sim_rec_new(e);
        r->resync = true; r->pd = 2;
    }
    vh_count("resyncs_requested", 1);
}

static void sim_app_send(ep_t *e) {
    uint8_t pay[WF_PAY_MAX];
    if (e->held_n && vh_chance(1, 3)) { sim_forward(e, e->held[--e->held_n]); return; }
    uint8_t len = sim_gen_len();
    sim_gen_payload(pay, len);
    uint16_t pd = (uint16_t) (e->uniq++ * 40503u + (uint32_t) e->id * 7u);  /* distinct for 65536 sends */
    if (p0_app(pd) && vh_chance(1, 8)) {
        vh_count("port0_messages_sent", 1);
        sim_send(e, 0, vh_u8() | 1, pd, pay, len);
        return;
    }
    sim_send(e, (uint8_t) (1 + vh_below(15)), vh_u8(), pd, pay, len);
}

/* ---------------- monitors on the receive stream of an endpoint ---------------- */
static rec_t *sim_match(ep_t *from, const wf_t *f) {
    for (int i = from->rec_n - 1; i >= 0; --i) {
        rec_t *r = &from->rec[i];
        if (r->n_tx && r->wire_n == f->size && r->wire[1] == f->idraw && r->port == f->port && r->msg == f->msg
            && r->pd == f->pd && 0 == memcmp(r->wire + WF_HDR, f->pay, f->len)) { return r; }
    }
    return 0;
}

/* a success acknowledgement anywhere in the byte stream, however the decoder was aligned */
static void sim_ack_seen(ep_t *e, const wf_t *f) {
    e->recent[e->recent_n++ % RECENT] = (recent_t) {e->pos, f->id, f->port, f->msg, f->pd};
}

/* an acknowledgement counts only if it names a frame that was sent: id, port and (on the application's ports) message id */
static bool sim_ack_names(const rec_t *r, uint8_t id, uint8_t port, uint8_t msg) {
    return r->n_tx && r->fid == id && r->port == port && (!port || r->msg == msg);
}

static bool sim_ack_names_a_frame(ep_t *e, const recent_t *a) {
    for (int i = e->rec_n - 1; i >= 0; --i) { if (sim_ack_names(&e->rec[i], a->id, a->port, a->msg)) { return true; } }
    return false;
}

/* the endpoint may know r as acknowledged: an acknowledgement covering it arrived after its first
 * transmission, or so recently that the decoder may only now have reached it */
static bool sim_acked(ep_t *e, rec_t *r) {
    if (r->acked) { return true; }
    for (int k = 0; k < RECENT && k < (int) e->recent_n; ++k) {
        recent_t *a = &e->recent[k];
        if (a->pos < r->pos_first && a->pos + 600 < e->pos) { continue; }
        int d = (a->id - r->fid) & 15;
        if (!sim_ack_names_a_frame(e, a)) { continue; }
        if (d == 0 || (d <= 8 && (a->mask & (0x100 >> d)))) { r->acked = true; }
    }
    return r->acked;
}

static void sim_tail_byte(ep_t *e, uint8_t byte) {
    memmove(e->tail, e->tail + 1, sizeof(e->tail) - 1);
    e->tail[sizeof(e->tail) - 1] = byte;
    ++e->pos;
    wf_t f;
    if (e->tail[0] == WF_SOF && e->tail[4] == 1 && wf_parse(e->tail, sizeof(e->tail), &f) == 1 && f.ack) {
        if (f.pay[0] == 0) { sim_ack_seen(e, &f); }
        else if (!e->s->hal_sync[e->id]) {      /* a retry that may find the buffer with the driver */
            for (int i = 0; i < e->rec_n; ++i) { if (e->rec[i].state == R_SENT && e->rec[i].fid == f.id) { ++e->rec[i].busy; } }
            e->nacks[e->nack_n++ % RECENT] = (recent_t) {e->pos, f.id, f.port, f.msg, 0};
        }
    }
}

static void sim_hole(ep_t *e, rec_t *r, int kind);

static void sim_ref_accept(void *user, const wf_t *f) {
    ep_t *e = user; sim_t *s = e->s;
    if (f->ack) {
        vh_count("acks_received", 1);
        if (f->len == 1 && f->pay[0] == 0 && e->fed_n < 64) { e->fed[e->fed_n++] = (recent_t) {0, f->id, f->port, f->msg, 0}; }
        return;
    }
    vh_count("data_frames_accepted", 1);
    vh_trace("%lld ep%d ref accepts id=%d port=%d len=%d", (long long) (s->now / US(1)), e->id, f->id, f->port, f->len);
    if (s->ep_n < 2) { return; }
    ep_t *from = &s->ep[1 - e->id];
    rec_t *r = sim_match(from, f);
    if (!r) { return; }    /* e.g. from before a restart */
    r->miss = 0;
    ++r->accepted;
    sim_hole(e, r, 0);
}

/* the endpoint acknowledged r: open holes may not last for the documented in-order wait (kind 0: as
 * the reference decoder sees the byte stream, 1: as the endpoint's own acknowledgements tell) */
static void sim_hole(ep_t *e, rec_t *r, int kind) {
    ep_t *from = &e->s->ep[1 - e->id];
    if (r->order > e->max_accepted[kind]) { e->max_accepted[kind] = r->order; }
    bool hole = false;
    for (int i = 0; i < from->rec_n; ++i) {
        rec_t *q = &from->rec[i];
        if (q->order < e->max_accepted[kind] && !(kind ? q->rx_acked : q->accepted) && q->state < R_FAILED && q->n_tx) { hole = true; }
    }
    if (hole) { e->gap_since[kind] = e->s->now; vh_count("holes_seen", 1); } else { e->gap_since[kind] = T_MAX; }
}

static void sim_rx_acked(ep_t *e, const wf_t *f) {
    if (e->s->ep_n < 2 || f->len != 1 || f->pay[0]) { return; }
    ep_t *from = &e->s->ep[1 - e->id];
    for (int i = from->rec_n - 1; i >= 0; --i) {
        rec_t *r = &from->rec[i];
        if (r->n_tx && r->fid == f->id && r->port == f->port && r->msg == f->msg) {
            ++r->rx_acked;
            if (r->resync) { e->resync_handled = r->order; }
            sim_hole(e, r, 1);
            return;
        }
    }
}

static void sim_gap_check(ep_t *e) {
    for (int k = 0; k < 2; ++k) {
        if (e->gap_since[k] != T_MAX && e->s->now - e->gap_since[k] >= MS(790)) {
            if (!e->discard) { vh_count("directions_beyond_wait_bound", 1); }
            e->discard = true;
            e->gap_since[k] = T_MAX;
        }
    }
}

/* ---------------- driver ---------------- */
static void sim_link_push(sim_t *s, int from, const uint8_t *b, uint16_t n, int rec, bool ack);

static void hq_verify(ep_t *e, hq_t *h, const char *when) {
    if (!(e->s->mon & MON_OWN)) { return; }
    VH_CHECK(h->b->length == h->n, "own:length", "in-flight buffer length changed %d -> %d (%s)", h->n, h->b->length, when);
    VH_CHECK(0 == memcmp(h->b->data, h->copy, h->n), "own:modified", "in-flight buffer content changed (%s)", when);
}

/* no buffer in flight may be obtainable from the allocator */
static void sim_free_probe(ep_t *e) {
    static struct embc_buffer_s *got[1024]; int n = 0;
    struct embc_buffer_s *b;
    if (!e->hq_n) { return; }
    for (int c = 0; c < 2; ++c) {
        while (n < 1024 && (b = embc_buffer_alloc_unsafe(e->alloc, c ? 256 : 32))) {
            for (int i = 0; i < e->hq_n; ++i) {
                VH_CHECK(e->hq[i].b != b, "own:freed-in-flight", "a buffer owned by the driver was freed");
            }
            got[n++] = b;
        }
    }
    /* give them back without touching what free buffers contain */
    for (int i = 0; i < n; ++i) { embc_buffer_free(got[i]); }
    vh_count("free_list_probes", 1);
}

/* an unacknowledged frame is repeated, and after the last time given up, one retry period after its latest transmission */
static void sim_pace_check(ep_t *e, rec_t *r, const char *what) {
    sim_t *s = e->s;
    if (!(s->mon & MON_DONE)) { return; }
    for (int i = 0; i < e->hq_n; ++i) { if (e->hq[i].rec == (int) (r - e->rec)) { return; } }   /* the driver still has it */
    vh_count("retry_periods_checked", 1);
    VH_CHECK(s->now - r->t_last <= MS(250) + 4 * US(s->timer_late_us) + 6 * s->tick + US(10), "done:slow-retry", "#%d was %s %lld us after its latest transmission (timers up to %d us late, polled every %lld us)", r->order, what, (long long) ((s->now - r->t_last) / US(1)), s->timer_late_us, (long long) (s->tick / US(1)));
}

static void sim_wire_monitor(ep_t *e, const uint8_t *d, uint16_t n, int *rec_out) {
    sim_t *s = e->s;
    wf_t f;
    *rec_out = -1;
    int rc = wf_parse(d, n, &f);
    if (s->mon & MON_WIRE) {
        VH_CHECK(rc == 1 && f.size == n, "wire:malformed", "transmitted block of %d bytes is not exactly one valid frame", n);
        VH_CHECK(d[n - 1] == WF_SOF, "wire:eof", "frame does not end with the end of frame byte");
        VH_CHECK(!(f.idraw & 0x70), "wire:reserved", "reserved frame id bits set: %02x", f.idraw);
    }
    if (rc != 1) { return; }
    if (f.ack) {
        vh_count("acks_transmitted", 1);
        sim_rx_acked(e, &f);
        if (s->mon & MON_WIRE) { VH_CHECK(f.len == 1, "wire:ack-length", "ack with %d payload bytes", f.len); }
        return;
    }
    vh_count("data_transmissions", 1);
    /* link management responses complete invisibly: gone at the latest when three newer frames were sent */
    for (int i = 0; i < e->rec_n; ++i) {
        rec_t *q = &e->rec[i];
        if (q->internal && !q->resync && q->state == R_SENT && e->new_n - q->nth > WINDOW) { q->state = R_OK; }
    }
    /* retransmission of a live record? */
    for (int i = 0; i < e->rec_n; ++i) {
        rec_t *r = &e->rec[i];
        bool maybe = r->internal && !r->resync && r->state == R_OK && r->wire_n == n && e->new_n - r->nth < 16 && 0 == memcmp(r->wire, d, n);
        if ((r->state == R_SENT || maybe) && r->fid == f.id && !(e->in_resync && r->may_abort)) {
            if (s->mon & MON_WIRE) {
                VH_CHECK(r->wire_n == n && 0 == memcmp(r->wire, d, n), "wire:retransmit-differs",
                         "retransmission of #%d (id %d) differs from the first transmission", r->order, r->fid);
                VH_CHECK(!r->sure, "wire:retransmit-acknowledged", "#%d (id %d) was transmitted again after its acknowledgement", r->order, r->fid);
                VH_CHECK(r->n_tx < MAX_TX, "wire:too-many-retries", "#%d transmitted more than %d times", r->order, MAX_TX);
            }
            sim_pace_check(e, r, "repeated");
            ++r->n_tx; ++r->miss; r->t_last = s->now;
            vh_count("retransmissions", 1);
            *rec_out = i;
            return;
        }
    }
    /* a new frame: the next application send, or a link management response */
    rec_t *r = 0;
    while (e->next_queued < e->rec_n && e->rec[e->next_queued].state != R_QUEUED) { ++e->next_queued; }
    if (e->next_queued < e->rec_n) { r = &e->rec[e->next_queued]; }
    bool same = r && r->port == f.port && r->msg == f.msg && r->pd == f.pd && r->len == f.len && 0 == memcmp(r->pay, f.pay, f.len);
    if (!same) {
        bool resp = f.port == 0 && (f.pd == 5 || f.pd == 7 || f.pd == 2);
        if (s->mon & MON_WIRE) {
            VH_CHECK(resp, "wire:unexpected-frame", "transmitted frame id=%d port=%d msg=%d pd=%04x len=%d is neither the next message nor a live one",
                     f.id, f.port, f.msg, f.pd, f.len);
        }
        r = sim_rec_new(e);
        r->internal = true; r->resync = (f.pd == 2);
        r->port = f.port; r->msg = f.msg; r->pd = f.pd; r->len = f.len;
        memcpy(r->pay, f.pay, f.len);
    }
    if (s->mon & MON_WIRE) {
        if (e->last_new_id >= 0 && !e->id_jump_ok) {
            VH_CHECK(f.id == ((e->last_new_id + 1) & 15), "wire:id-sequence", "frame id %d follows %d", f.id, e->last_new_id);
        }
        int out = 0;
        for (int i = 0; i < e->rec_n; ++i) { out += (e->rec[i].state == R_SENT && !sim_acked(e, &e->rec[i]) && e->rec[i].n_tx + e->rec[i].busy < MAX_TX); }
        for (int i = 0; i < e->rec_n; ++i) {
            rec_t *q = &e->rec[i];
            if (q->state == R_SENT && !sim_acked(e, q) && q->n_tx + q->busy < MAX_TX) {
                VH_CHECK(e->new_n - q->nth < WINDOW, "wire:overtaken", "frame %d was sent while frame %d, %d before it, is still outstanding",
                         f.id, q->fid, (int) (e->new_n - q->nth));
            }
        }
        VH_CHECK(out < WINDOW, "wire:window", "%d unacknowledged frames outstanding when another was sent", out);
    }
    if (r->resync) { ++e->resync_seen; }
    if (e->last_new_id == 15 && f.id == 0) { vh_count("id_wraps", 1); }
    e->last_new_id = f.id;
    e->id_jump_ok = false;
    r->state = R_SENT; r->fid = f.id; r->n_tx = 1; r->miss = 1; r->t_first = s->now; r->pos_first = e->pos;
    memcpy(r->wire, d, n); r->wire_n = n;
    for (int k = 0; k < RECENT && k < (int) e->nack_n; ++k) {      /* the decoder may reach these only now */
        if (e->nacks[k].id == f.id && e->nacks[k].pos + 600 >= e->pos) { ++r->busy; }
    }
    r->t_last = s->now;
    r->nth = e->new_n++;
    *rec_out = (int) (r - e->rec);
}

static void hq_finish(ep_t *e);
static void hal_tx(void *hal, struct embc_buffer_s *b) {
    ep_t *e = hal; sim_t *s = e->s;
    if (s->mon & MON_OWN) {
        for (int i = 0; i < e->hq_n; ++i) {
            VH_CHECK(e->hq[i].b != b, "own:double-submit", "a buffer still owned by the driver was handed over again");
        }
    }
    VH_CHECK(e->hq_n < HQ_MAX, "runaway-tx", "more than %d blocks queued in the driver", HQ_MAX);
    VH_CHECK(b->length <= WF_MAX, "wire:too-long", "transmit block of %d bytes", b->length);
    hq_t *h = &e->hq[e->hq_n++];
    h->b = b; h->n = b->length; h->sent = false;
    memcpy(h->copy, b->data, h->n);
    sim_wire_monitor(e, h->copy, h->n, &h->rec);
    vh_trace("%lld ep%d tx id=%02x port=%d msg=%d pd=%02x%02x len=%d%s", (long long) (s->now / US(1)), e->id, h->copy[1], h->copy[2],
             h->copy[3], h->copy[6], h->copy[5], h->copy[4], h->copy[1] & 0x80 ? (h->copy[8] ? " NACK" : " ack") : "");
    if (s->hal_sync[e->id]) {
        --e->hq_n;
        bool ack = (h->copy[1] & 0x80) != 0;
        uint8_t copy[WF_MAX + 16]; uint16_t n = h->n; int rec = h->rec;
        memcpy(copy, h->copy, n);
        sim_link_push(s, e->id, copy, n, rec, ack);
        embc_framer_hal_tx_done(e->f, b);
        return;
    }
    embc_list_initialize(&b->item);      /* the driver may use the list item while it owns the buffer */
    embc_list_add_tail(&e->hal_list, &b->item);
    int64_t start = e->t_line > s->now ? e->t_line : s->now;
    h->t_end = start + h->n * s->byte_time[e->id];
    e->t_line = h->t_end;
    int64_t d = h->t_end + MS(vh_below((uint32_t) s->done_delay_ms[e->id] + 1));
    if (d < e->t_last_done) { d = e->t_last_done; }
    e->t_last_done = d;
    h->t_done = d;
    if (h->rec >= 0 && (d > h->t_end || d - s->now > MS(200) - 2 * s->tick)) { e->rec[h->rec].busy += 1 + (int) ((d - s->now) / MS(250)); }
    while (s->hal_depth[e->id] && e->hq_n > s->hal_depth[e->id]) {
        hq_t *o = &e->hq[0];
        vh_trace("%lld ep%d driver full: the oldest block goes first", (long long) (s->now / US(1)), e->id);
        vh_count("driver_full", 1);
        if (!o->sent) { o->sent = true; sim_link_push(s, e->id, o->copy, o->n, o->rec, (o->copy[1] & 0x80) != 0); }
        hq_finish(e);
    }
}

static int64_t hal_time(void *hal) { return ((ep_t *) hal)->s->now; }

/* The driver chooses the ids: any value, zero and reuse included. */
static uint32_t timer_id_next(ep_t *e) {
    switch (e->timer_id_mode) {
        case 0: return ++e->timer_next_id;
        case 1: return e->timer_next_id++;             /* 0 first */
        case 2: return 0;                              /* the only timer there is */
        case 3: return e->timer_next_id++ & 1;
        default: return UINT32_MAX - e->timer_next_id++;
    }
}

static int32_t hal_timer_set(void *hal, int64_t timeout, void (*cbk)(void *, uint32_t), void *user, uint32_t *id) {
    ep_t *e = hal; sim_t *s = e->s;
    if (s->mon & MON_TIMER) {
        VH_CHECK(!e->timer_armed, "timer:two-armed", "a second timer was armed while one is pending");
    }
    vh_count("timer_arms", 1);
    if (s->sync_timer && timeout <= s->now) {      /* documented: "then cbk_fn may be called from within this function" */
        *id = e->timer_id = timer_id_next(e);
        vh_count("timers_fired_at_once", 1);
        VH_CHECK(++s->sync_depth < 64, "timer:endless", "timers that have already expired are set without end");
        cbk(user, *id);
        if (!e->timer_armed) { vh_count("timers_fired_at_once_and_last", 1); }
        --s->sync_depth;
        return 0;
    }
    e->timer_armed = true;
    e->timer_at = timeout;
    e->timer_cbk = cbk; e->timer_user = user;
    e->timer_id = timer_id_next(e);
    if (!e->late_drawn || e->late_for != timeout) { e->late_drawn = true; e->late_for = timeout; e->late = US(vh_below((uint32_t) s->timer_late_us + 1)); }
    e->timer_fire = timeout + e->late > s->now ? timeout + e->late : s->now;        /* arming the same deadline again gains no time */
    *id = e->timer_id;
    return 0;
}

static int32_t hal_timer_cancel(void *hal, uint32_t id) {
    ep_t *e = hal;
    if (e->timer_armed && e->timer_id == id) { e->timer_armed = false; return 0; }
    vh_count("stale_timer_cancels", 1);
    if (e->s->mon & MON_TIMER) {        /* the driver has handed that id to somebody else by now */
        VH_CHECK(false, "timer:stale-cancel", "timer %u was cancelled, %s", (unsigned) id, e->timer_armed ? "but another one is armed" : "but none is armed");
    }
    return 0;
}

/* ---------------- link ---------------- */
static void chunk_push(sim_t *s, int dir, const uint8_t *b, uint16_t n, int64_t at) {
    if (!n) { return; }
    VH_CHECK(s->ch_n[dir] < CH_MAX, "harness", "link queue overflow");
    chunk_t *c = &s->ch[dir][(s->ch_h[dir] + s->ch_n[dir]++) % CH_MAX];
    c->b = vh_exact(b, n); c->n = n;
    if (at < s->t_last_arrival[dir]) { at = s->t_last_arrival[dir]; }
    s->t_last_arrival[dir] = at;
    c->at = at;
}

static void sim_link_push(sim_t *s, int from, const uint8_t *b, uint16_t n, int rec, bool ack) {
    if (s->on_wire) { s->on_wire(s, from, b, n); return; }
    if (s->ep_n < 2) { return; }
    int64_t at = s->now + s->latency[from];
    fault_t *fl = &s->fault[from];
    bool clean = !s->faults_on;
    if (ack) {
        if (s->ack_miss[from] >= s->max_ack_miss) { clean = true; }
    } else if (rec >= 0 && s->ep[from].rec[rec].miss > s->max_miss) { clean = true; }
    uint8_t o[WF_MAX + 16 + 600]; size_t k = 0;
    bool hurt = false;
    if (!clean) {
        if (vh_below(1000) < (uint32_t) fl->noise) {
            int m = 1 + (int) vh_below(vh_chance(1, 4) ? 300 : 12);
            for (int i = 0; i < m; ++i) { o[k++] = vh_chance(1, 4) ? WF_SOF : vh_u8(); }
            vh_count("fault_noise", 1);
        }
        if (vh_below(1000) < (uint32_t) fl->drop) { vh_count("fault_dropped", 1); hurt = true; n = 0; }
        size_t base = k;
        memcpy(o + k, b, n); k += n;
        if (n && vh_below(1000) < (uint32_t) fl->flip) {
            int m = 1 + (int) vh_below(3);
            for (int i = 0; i < m; ++i) { o[base + vh_below(vh_chance(1, 3) ? 8 : n)] ^= (uint8_t) (1u << vh_below(8)); }
            vh_count("fault_corrupted", 1); hurt = true;
        }
        if (n && vh_below(1000) < (uint32_t) fl->burst) {
            uint32_t p = vh_below(n); uint32_t l = 1 + vh_below(20);
            for (uint32_t i = p; i < n && i < p + l; ++i) { o[base + i] = vh_u8(); }
            vh_count("fault_burst", 1); hurt = true;
        }
        if (n && vh_below(1000) < (uint32_t) fl->trunc) {
            uint32_t p = vh_below(n), l = 1 + vh_below(vh_chance(1, 2) ? 3 : n);
            if (p + l > n) { l = n - p; }
            memmove(o + base + p, o + base + p + l, n - p - l);
            k -= l;
            vh_count("fault_bytes_lost", 1); hurt = true;
        }
    } else {
        memcpy(o, b, n); k = n;
    }
    if (ack) { s->ack_miss[from] = hurt ? s->ack_miss[from] + 1 : 0; }
    chunk_push(s, from, o, (uint16_t) k, at);
}

static void sim_feed(ep_t *e, const uint8_t *b, uint16_t n) {
    /* the framer sees blocks of arbitrary size; the reference sees each byte first */
    uint16_t i = 0;
    while (i < n) {
        uint16_t m = vh_chance(1, 3) ? 1 : (uint16_t) (1 + vh_below(n - i));
        static bool was_sent[2][REC_MAX];
        e->fed_n = 0;
        int was_n = e->rec_n;
        for (int k = 0; k < was_n; ++k) { was_sent[e->id][k] = e->rec[k].state == R_SENT; }
        for (uint16_t k = 0; k < m; ++k) { rr_byte(&e->rr, b[i + k], sim_ref_accept, e); sim_tail_byte(e, b[i + k]); }
        if (m == 1 && vh_chance(1, 2)) { embc_framer_hal_rx_byte(e->f, b[i]); }
        else { embc_framer_hal_rx_buffer(e->f, b + i, m); }
        for (int k = 0; k < e->rec_n; ++k) { if (e->rec[k].state == R_SENT) { sim_acked(e, &e->rec[k]); } }
        for (int k = 0; k < was_n && e->fed_n; ++k) {
            rec_t *r = &e->rec[k];
            if (!was_sent[e->id][k] || r->state != R_SENT || r->sure || (r->internal && !r->resync)) { continue; }
            for (int j = 0; j < e->fed_n; ++j) {
                if (sim_ack_names(r, e->fed[j].id, e->fed[j].port, e->fed[j].msg)) { r->sure = true; vh_count("acknowledged_behind_another", 1); }
            }
        }
        i = (uint16_t) (i + m);
    }
}

/* ---------------- port callbacks ---------------- */
typedef struct { ep_t *e; uint8_t id; } port_t;
static port_t port_ctx[2][16];

static void app_rx(void *port, uint8_t port_id, uint8_t msg, uint16_t pd, struct embc_buffer_s *b) {
    ep_t *e = ((port_t *) port)->e; sim_t *s = e->s;
    VH_CHECK(((port_t *) port)->id == port_id, "port:wrong-object", "a message for port %d was handed to the object of port %d", port_id, ((port_t *) port)->id);
    sim_fresh_check(e, b, "port receive");
    uint16_t n = (uint16_t) embc_buffer_read_remaining(b);
    const uint8_t *p = b->data + b->cursor;
    ++e->n_rx;
    vh_trace("%lld ep%d deliver port=%d msg=%d pd=%04x len=%d", (long long) (s->now / US(1)), e->id, port_id, msg, pd, n);
    vh_count("messages_delivered", 1);
    if (s->sigmix) { vh_sig(((uint64_t) port_id << 32) | ((uint64_t) msg << 24) | pd); }
    if (s->on_deliver) { s->on_deliver(s, e, port_id, msg, pd, p, n); }
    if ((s->mon & MON_DELIV) && s->ep_n == 2 && !(port_id == 0 && ((pd & 0xff) == 5 || (pd & 0xff) == 7))) {
        ep_t *from = &s->ep[1 - e->id];
        rec_t *r = 0;
        for (int i = 0; i < from->rec_n; ++i) {
            rec_t *q = &from->rec[i];
            if (!q->internal && q->n_tx && q->port == port_id && q->msg == msg && q->pd == pd) { r = q; break; }
        }
        VH_CHECK(r, "deliver:never-sent", "delivered a message nobody sent: port=%d msg=%d pd=%04x len=%d", port_id, msg, pd, n);
        VH_CHECK(r->len == n && 0 == memcmp(r->pay, p, n), "deliver:corrupt", "message #%d delivered with different payload (len %d -> %d)", r->order, r->len, n);
        if (!e->discard && e->judged_from != INT32_MAX) {
            if (r->order >= e->judged_from) { VH_CHECK(!r->delivered, "deliver:duplicate", "message #%d delivered twice", r->order); }
            VH_CHECK(r->order > e->last_delivered, "deliver:out-of-order", "message #%d delivered after #%d", r->order, e->last_delivered);
        }
        VH_CHECK(r->order >= e->resync_handled, "deliver:stale", "message #%d delivered after the resync #%d which dropped it was acknowledged", r->order, e->resync_handled);
        ++r->delivered;
        if (r->order >= e->judged_from) { e->last_delivered = r->order; }
    }
    if (e->send_in_rx && e->to_send > 0 && sim_pending(e) < e->max_pending && vh_chance(1, 6)) { --e->to_send; sim_forward(e, b); }
    else if (vh_chance(1, 6) && e->held_n < 8) { e->held[e->held_n++] = b; }
    else { embc_buffer_free(b); }
    if (e->held_n && vh_chance(1, 2)) { embc_buffer_free(e->held[--e->held_n]); }
    if (e->send_in_rx && e->to_send > 0 && sim_pending(e) < e->max_pending && vh_chance(1, 2)) { --e->to_send; sim_app_send(e); }
}

static void app_done(void *port, uint8_t port_id, uint8_t msg, uint16_t pd, int32_t status) {
    ep_t *e = ((port_t *) port)->e; sim_t *s = e->s;
    VH_CHECK(((port_t *) port)->id == port_id, "port:wrong-object", "a completion for port %d was reported to the object of port %d", port_id, ((port_t *) port)->id);
    rec_t *r = 0;
    for (int i = 0; i < e->rec_n && !r; ++i) {
        rec_t *q = &e->rec[i];
        if (q->state < R_OK && (!q->internal || q->resync) && q->port == port_id && q->msg == msg && q->pd == pd) { r = q; }
    }
    vh_trace("%lld ep%d done port=%d msg=%d pd=%04x status=%d%s", (long long) (s->now / US(1)), e->id, port_id, msg, pd, (int) status, r ? "" : " (?)");
    if (s->mon & MON_DONE) {
        VH_CHECK(r, "done:unknown-or-twice", "completion for port=%d msg=%d pd=%04x which is not pending", port_id, msg, pd);
        if (status == 0) {
            VH_CHECK(r->n_tx > 0, "done:never-sent", "success reported for #%d which was never transmitted", r->order);
            VH_CHECK(sim_acked(e, r), "done:false-success", "success reported for #%d without an acknowledgement", r->order);
        } else if (status == EMBC_ERROR_ABORTED) {
            VH_CHECK(r->may_abort, "done:bad-abort", "#%d reported aborted although no resync was requested", r->order);
        } else {
            VH_CHECK(status == EMBC_ERROR_TIMED_OUT || status == EMBC_ERROR_MESSAGE_INTEGRITY, "done:bad-status", "#%d completed with status %d", r->order, (int) status);
            VH_CHECK(!r->sure, "done:failed-acknowledged", "#%d completed with status %d although it was acknowledged", r->order, (int) status);
            VH_CHECK(r->n_tx > 0, "done:failed-unsent", "failure reported for #%d which was never transmitted", r->order);
            sim_pace_check(e, r, "given up");
        }
    }
    if (r) {
        r->status = status; r->t_done = s->now;
        r->state = status == 0 ? R_OK : (status == EMBC_ERROR_ABORTED ? R_ABORTED : R_FAILED);
        ++e->n_done;
        if (status == 0) { ++e->n_ok; vh_count("sends_ok", 1); } else { ++e->n_failed; vh_count("sends_failed", 1); }
        if (s->on_done) { s->on_done(s, e, r); }
    }
    if (s->sigmix) { vh_sig(0x100000000ull | pd | ((uint64_t) status << 20)); }
    if (e->send_in_done && e->to_send > 0 && vh_chance(1, 2)) { --e->to_send; sim_app_send(e); }
}

/* ---------------- set up ---------------- */
static void sim_register(ep_t *e, int i, bool with_rx) {
    struct embc_framer_port_callbacks_s c = {&port_ctx[e->id][i], with_rx ? app_rx : 0, app_done};
    port_ctx[e->id][i].e = e; port_ctx[e->id][i].id = (uint8_t) i;
    embc_framer_register_port_callbacks(e->f, (uint8_t) i, &c);
}

/* Free is reached through the buffer's manager, so the monitor sits there: a buffer that the driver still
 * has must not be freed, and what a freed buffer held is gone. */
static void (*sim_free_orig)(struct embc_buffer_manager_s const *, struct embc_buffer_s *);
static sim_t *sim_live;
static void sim_on_free(struct embc_buffer_manager_s const *m, struct embc_buffer_s *b) {
    for (int i = 0; i < sim_live->ep_n; ++i) {
        ep_t *e = &sim_live->ep[i];
        for (int k = 0; k < e->hq_n && (sim_live->mon & MON_OWN); ++k) {
            VH_CHECK(e->hq[k].b != b, "own:freed-in-flight", "ep%d: a buffer owned by the driver was freed", i);
        }
    }
#if VH_MSAN
    __msan_poison(b->data, b->capacity);
#else
    memset(b->data, 0xDD, b->capacity);
#endif
    vh_count("buffers_freed", 1);
    sim_free_orig(m, b);
}

static void sim_watch_frees(ep_t *e, embc_size_t total) {
    for (int c = 0; c < 2; ++c) {
        struct embc_buffer_s *b = (c ? e->n_big : e->n_small) ? embc_buffer_alloc_unsafe(e->alloc, c ? 256 : 32) : 0;
        if (!b) { continue; }
        struct embc_buffer_manager_s *m = (struct embc_buffer_manager_s *) (intptr_t) b->manager;
        uint8_t *a = (uint8_t *) e->alloc, *p = (uint8_t *) m;
        if (p >= a && p + sizeof(*m) <= a + total) {        /* in memory of this allocator, so it may be changed */
            if (m->free != sim_on_free) { sim_free_orig = m->free; m->free = sim_on_free; }
            memset(b->data, 0xDD, b->capacity);
        }
        embc_buffer_free(b);
    }
}

static void sim_ep_start(sim_t *s, int id) {
    sim_live = s;
    ep_t *e = &s->ep[id];
    embc_size_t sizes[8] = {e->n_small, 0, 0, e->n_big, 0, 0, 0, 0};
    if (!e->alloc) { e->alloc = malloc((size_t) embc_buffer_allocator_instance_size(sizes, 8)); }
    embc_buffer_allocator_initialize(e->alloc, sizes, 8);
    sim_watch_frees(e, embc_buffer_allocator_instance_size(sizes, 8));
    if (!e->f) { e->f = malloc((size_t) embc_framer_instance_size()); }
    memset(e->f, 0xA5, (size_t) embc_framer_instance_size());
    e->timer_id_mode = (int) vh_below(5);
    embc_list_initialize(&e->hal_list);
    struct embc_framer_hal_callbacks_s hal = {e, hal_tx, hal_time, hal_timer_set, hal_timer_cancel};
    embc_framer_initialize(e->f, e->alloc, &hal);
    for (int i = 0; i < 16; ++i) {
        if (vh_chance(1, 8)) { struct embc_framer_port_callbacks_s none = {0, 0, 0}; embc_framer_register_port_callbacks(e->f, (uint8_t) i, &none); }
        if (!((sim_unregistered >> i) & 1)) { sim_register(e, i, true); continue; }
        vh_count("ports_never_registered", 1);
        if (vh_chance(1, 4)) {        /* or without a completion callback */
            struct embc_framer_port_callbacks_s c = {&port_ctx[e->id][i], vh_chance(1, 2) ? app_rx : 0, 0};
            port_ctx[e->id][i].e = e; port_ctx[e->id][i].id = (uint8_t) i;
            embc_framer_register_port_callbacks(e->f, (uint8_t) i, &c);
        }
    }
}

static sim_t *sim_new(int ep_n, int n_small, int n_big) {
    static sim_t *s;
    if (!s) { s = malloc(sizeof(*s)); }
    memset(s, 0, sizeof(*s));
    s->ep_n = ep_n;
    s->now = MS(vh_below(100000)) + 12345;
    if (vh_chance(1, 2)) {        /* the time base is the driver's: up for years, about to pass a power of two, counting from anywhere */
        int k = 31 + (int) vh_below(30);
        s->now = ((int64_t) 1 << k) - (vh_chance(1, 2) ? MS(vh_below(3000)) : -MS(vh_below(3000)));
        if (vh_chance(1, 5)) { s->now = vh_chance(1, 2) ? -MS(vh_below(5000)) : -s->now; }
        vh_count("other_time_bases", 1);
    }
    s->sync_timer = vh_chance(1, 3);
    if (vh_chance(1, 4)) { s->tick = MS(1) << vh_below(5); vh_count("polled_sessions", 1); }
    s->max_miss = 2; s->max_ack_miss = 3;
    s->sigmix = 1;
    for (int i = 0; i < ep_n; ++i) {
        ep_t *e = &s->ep[i];
        e->s = s; e->id = i; e->t_line = e->t_last_done = s->now;
        e->n_small = n_small; e->n_big = n_big;
        e->rec = calloc(REC_MAX, sizeof(rec_t));
        e->last_new_id = -1; e->last_delivered = -1; e->max_accepted[0] = e->max_accepted[1] = -1;
        e->gap_since[0] = e->gap_since[1] = T_MAX;
        e->t_next_send = T_MAX;
        e->max_pending = 1000;
        e->uniq = vh_u32();
        s->byte_time[i] = US(1); s->latency[i] = US(100); s->t_last_arrival[i] = s->now;
        sim_ep_start(s, i);
    }
    return s;
}

static void sim_free(sim_t *s) {
    for (int i = 0; i < s->ep_n; ++i) {
        free(s->ep[i].rec); free(s->ep[i].alloc); free(s->ep[i].f);
        for (; s->ch_n[i]; --s->ch_n[i]) { free(s->ch[i][s->ch_h[i]].b); s->ch_h[i] = (s->ch_h[i] + 1) % CH_MAX; }
    }
}

/* from now on, messages `from` sends are judged for delivery */
static void sim_judge_from_now(ep_t *to, bool judged) {
    ep_t *from = &to->s->ep[1 - to->id];
    to->judged_from = judged ? from->order_n : INT32_MAX;
    to->discard = false;
    to->last_delivered = -1;
    for (int k = 0; k < 2; ++k) { to->gap_since[k] = T_MAX; to->max_accepted[k] = -1; }
}

static void sim_link_clear(sim_t *s, int dir) {
    for (; s->ch_n[dir]; --s->ch_n[dir]) { free(s->ch[dir][s->ch_h[dir]].b); s->ch_h[dir] = (s->ch_h[dir] + 1) % CH_MAX; }
}

/* power cycle: all state of the endpoint and all bytes in flight are gone */
static void sim_restart(ep_t *e) {
    sim_t *s = e->s;
    vh_trace("%lld ep%d RESTART", (long long) (s->now / US(1)), e->id);
    for (int i = 0; i < e->rec_n; ++i) { if (e->rec[i].state < R_OK) { e->rec[i].state = R_ABORTED; e->rec[i].t_done = s->now; } }
    e->next_queued = e->rec_n;
    e->hq_n = 0; e->t_line = s->now; e->t_last_done = s->now;
    e->timer_armed = false;
    e->rr.n = 0; memset(e->tail, 0, sizeof(e->tail)); e->recent_n = 0; e->nack_n = 0;
    e->held_n = 0;
    e->last_new_id = -1; e->id_jump_ok = true;
    sim_link_clear(s, 0); sim_link_clear(s, 1);
    sim_ep_start(s, e->id);
    vh_count("restarts", 1);
}

/* ---------------- event loop ---------------- */
static void hq_finish(ep_t *e) {
    hq_t h = e->hq[0];
    hq_verify(e, &e->hq[0], "at completion");
    memmove(&e->hq[0], &e->hq[1], sizeof(hq_t) * (size_t) (--e->hq_n));
    struct embc_list_s *it = embc_list_remove_head(&e->hal_list);
    if (e->s->mon & MON_OWN) {
        VH_CHECK(it == &h.b->item, "own:list-item", "the list item of an in-flight buffer was changed");
    }
    vh_count("driver_completions", 1);
    if (h.rec >= 0) { e->rec[h.rec].t_last = e->s->now; }
    embc_framer_hal_tx_done(e->f, h.b);
}

/* runs the earliest event; false when nothing is left before `until` */
static bool sim_step(sim_t *s, int64_t until) {
    int64_t best = T_MAX; int kind = 0, who = 0; uint32_t ties = 0;
#define CAND(t, k, w) do { int64_t t_ = (t); if (t_ < best) { best = t_; kind = (k); who = (w); ties = 1; } \
        else if (t_ == best && t_ != T_MAX && vh_below(++ties) == 0) { kind = (k); who = (w); } } while (0)
    for (int i = 0; i < s->ep_n; ++i) {
        ep_t *e = &s->ep[i];
        if (e->to_send > 0) { CAND(e->t_next_send, 1, i); }
        for (int k = 0; k < e->hq_n; ++k) { if (!e->hq[k].sent) { CAND(e->hq[k].t_end, 2, i); break; } }
        if (e->hq_n && e->hq[0].sent) { CAND(e->hq[0].t_done, 3, i); }
        if (e->timer_armed) { CAND(e->timer_fire, 4, i); }
        if (s->ch_n[i]) { CAND(s->ch[i][s->ch_h[i]].at, 5, i); }
    }
    if (s->peer_time) { CAND(s->peer_time(s), 6, 0); }
#undef CAND
    if (best == T_MAX || best > until) { return false; }
    if (s->tick) { best = (best + s->tick - 1) / s->tick * s->tick; }
    if (best > s->now) { s->now = best; }
    ++s->events;
    for (int i = 0; i < s->ep_n; ++i) { sim_gap_check(&s->ep[i]); }
    ep_t *e = &s->ep[who];
    switch (kind) {
        case 1: {
            int n = 1 + (int) vh_below(4);
            bool any = false;
            while (n-- && e->to_send > 0 && sim_pending(e) < e->max_pending) { --e->to_send; sim_app_send(e); any = true; }
            e->t_next_send = s->now + MS(vh_below((uint32_t) e->send_gap_ms + 1)) + (any ? 1 : MS(5));
            break;
        }
        case 2: {
            hq_t *h = 0;
            for (int k = 0; k < e->hq_n && !h; ++k) { if (!e->hq[k].sent) { h = &e->hq[k]; } }
            hq_verify(e, h, "while transmitting");
            h->sent = true;
            sim_link_push(s, who, h->copy, h->n, h->rec, (h->copy[1] & 0x80) != 0);
            break;
        }
        case 3: hq_finish(e); break;
        case 4:
            e->timer_armed = false;
            vh_count("timer_fires", 1);
            e->timer_cbk(e->timer_user, e->timer_id);
            break;
        case 5: {
            chunk_t c = s->ch[who][s->ch_h[who]];
            s->ch_h[who] = (s->ch_h[who] + 1) % CH_MAX; --s->ch_n[who];
            sim_feed(&s->ep[1 - who], c.b, c.n);
            free(c.b);
            break;
        }
        default: s->peer_fire(s); break;
    }
    if (s->mon & MON_OWN) {
        for (int i = 0; i < s->ep_n; ++i) {
            for (int k = 0; k < s->ep[i].hq_n; ++k) { hq_verify(&s->ep[i], &s->ep[i].hq[k], "after an event"); }
            if (s->ep[i].hq_n && vh_chance(1, 4)) { sim_free_probe(&s->ep[i]); }
        }
    }
    return true;
}

static void sim_run(sim_t *s, uint64_t max_events) {
    uint64_t n = 0;
    while (sim_step(s, T_MAX - 1)) {
        VH_CHECK(++n < max_events, "runaway-events", "the link never becomes idle (%llu events)", (unsigned long long) n);
    }
}

/* every message given to the endpoint has completed, within the bounded time */
static int64_t sim_retry_bound(sim_t *s) {
    return (int64_t) MAX_TX * (MS(250) + US(s->timer_late_us) + 2 * s->tick) + MS(100);
}

static void sim_done_check(sim_t *s, ep_t *e) {
    static rec_t *by[REC_MAX]; int n = 0;
    for (int i = 0; i < e->rec_n; ++i) {
        rec_t *r = &e->rec[i];
        if (!r->internal || r->resync) {
            VH_CHECK(r->state >= R_OK, "done:missing", "#%d (port=%d pd=%04x) never completed (transmitted %d times), link idle", r->order, r->port, r->pd, r->n_tx);
        }
        if (r->n_tx) { by[r->nth] = r; ++n; }
    }
    int64_t prev = INT64_MIN, bound = sim_retry_bound(s);
    for (int i = 0; i < n; ++i) {        /* first transmitted as soon as nothing holds it back */
        rec_t *r = by[i]; int64_t from = r->t_send; bool known = !r->internal || r->resync;
        for (int j = i - 1; j >= 0 && j >= i - 16; --j) {
            rec_t *q = by[j];
            known = known && (!q->internal || q->resync);
            if (j <= i - WINDOW || r->resync || q->resync ) { if (q->t_done > from) { from = q->t_done; } }
            if (q->t_first > from) { from = q->t_first; }
        }
        if (!known) { continue; }
        vh_count("first_transmissions_checked", 1);
        VH_CHECK(r->t_first <= from, "done:held-back", "#%d was first transmitted %lld us after nothing held it back", r->order, (long long) ((r->t_first - from) / US(1)));
    }
    for (int i = 0; i < n; ++i) {
        rec_t *r = by[i];
        int64_t from = r->t_send > prev ? r->t_send : prev;
        if (r->internal && !r->resync) { from = r->t_first > prev ? r->t_first : prev; if (from + bound > prev) { prev = from + bound; } continue; }
        VH_CHECK(r->t_done - from <= bound, "done:late", "#%d completed %lld ms after it became eligible", r->order,
                 (long long) ((r->t_done - from) / MS(1)));
        if (r->state == R_FAILED) {
            VH_CHECK(r->n_tx + r->busy >= MAX_TX, "done:gave-up-early",
                     "#%d reported status %d after %d transmissions", r->order, (int) r->status, r->n_tx);
        }
        if (r->t_done > prev) { prev = r->t_done; }
    }
}

static int census_class(ep_t *e, embc_size_t size) {
    static struct embc_buffer_s *got[1024]; int n = 0;
    struct embc_buffer_s *b;
    while (n < 1024 && (b = embc_buffer_alloc_unsafe(e->alloc, size))) { got[n++] = b; }
    for (int i = 0; i < n; ++i) { embc_buffer_free(got[i]); }
    return n;
}

/* an idle endpoint holds exactly its one receive buffer */
static void sim_census(ep_t *e) {
    while (e->held_n) { embc_buffer_free(e->held[--e->held_n]); }
    int small = census_class(e, 32), big = census_class(e, 256);
    vh_count("census_taken", 1);
    for (int i = 0; i < WRAP_MAX; ++i) { VH_CHECK(!e->wrap[i].orig, "census:wrapped", "ep%d: a buffer with the application's manager was never freed", e->id); }
    VH_CHECK(small == e->n_small, "census:small", "ep%d: %d of %d small buffers available when idle", e->id, small, e->n_small);
    VH_CHECK(big == e->n_big - 1, "census:large", "ep%d: %d of %d large buffers available when idle (one is the receive buffer)", e->id, big, e->n_big);
}
#endif
