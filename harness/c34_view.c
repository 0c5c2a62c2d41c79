/* What C sees of the objects the Python bindings hold, and allocation through a ledger (loaded by c34.py). */
#include <stdlib.h>
#include <string.h>
#include "embc.h"
#include "embc/ec.h"
#include "embc/log.h"
#include "embc/lib.h"
#include "embc/pattern_32a.h"
#include "embc/memory/buffer.h"
#include "embc/stream/framer.h"

static int64_t live;
static void * l_alloc(embc_size_t n) { void * p = malloc((size_t) n); if (p) { memset(p, 0xA5, (size_t) n); ++live; } return p; }
static void l_free(void * p) { if (p) { --live; free(p); } }
void v_ledger(void) { live = 0; embc_allocator_set(l_alloc, l_free); }
int64_t v_live(void) { return live; }

void v_buffer(struct embc_buffer_s * b, int64_t * o) {
    o[0] = b->capacity; o[1] = b->cursor; o[2] = b->length; o[3] = b->reserve; o[4] = b->buffer_id; o[5] = b->flags;
    o[6] = (int64_t) (intptr_t) b->data; o[7] = (int64_t) (intptr_t) b->manager;
    o[8] = (int64_t) (intptr_t) &b->item; o[9] = (int64_t) sizeof(*b);
    o[10] = embc_buffer_write_remaining(b); o[11] = embc_buffer_read_remaining(b);
}
void v_buffer_put(struct embc_buffer_s * b, uint16_t id, uint16_t flags) { b->buffer_id = id; b->flags = flags; }
struct embc_buffer_s * v_alloc(struct embc_buffer_allocator_s * a, int64_t n) { return embc_buffer_alloc_unsafe(a, n); }
void v_free(struct embc_buffer_s * b) { embc_buffer_free(b); }

static struct embc_pattern_32a_tx_s ptx;
static struct embc_pattern_32a_rx_s prx;
void v_pattern_init(void) { embc_pattern_32a_tx_initialize(&ptx); embc_pattern_32a_rx_initialize(&prx); }
uint32_t v_pattern_next(void) { return embc_pattern_32a_tx_next(&ptx); }
void v_pattern_rx(uint32_t w) { embc_pattern_32a_rx_next(&prx, w); }
void v_pattern_counts(struct embc_pattern_32a_rx_s * p, int64_t * o) {
    if (!p) { p = &prx; }
    o[0] = (int64_t) p->receive_count; o[1] = (int64_t) p->missing_count; o[2] = (int64_t) p->duplicate_count;
    o[3] = (int64_t) p->error_count; o[4] = p->resync_count; o[5] = (int64_t) sizeof(*p); o[6] = (int64_t) sizeof(ptx);
}

/* a receiver that has run for very long */
void v_pattern_age(struct embc_pattern_32a_rx_s * p, uint64_t r, uint64_t m, uint64_t e, uint32_t s) {
    p->receive_count = r; p->missing_count = m; p->error_count = e; p->resync_count = s;
}

#define ROW(NAME, TEXT) {#NAME, EMBC_ERROR_##NAME},
static struct { char const * name; int num; } const ec[] = { EMBC_ERROR_CODES(ROW) {0, 0} };
char const * v_ec_name(int i) { return ec[i].name; }
int v_ec_num(int i) { return ec[i].num; }

void v_const(int64_t * o) {
    o[0] = EMBC_FRAMER_PORT0_RESYNC; o[1] = EMBC_FRAMER_PORT0_PING_REQ; o[2] = EMBC_FRAMER_PORT0_PING_RSP;
    o[3] = EMBC_FRAMER_PORT0_STATUS_REQ; o[4] = EMBC_FRAMER_PORT0_STATUS_RSP; o[5] = EMBC_FRAMER_MAX_RETRIES;
    o[6] = EMBC_FRAMER_PAYLOAD_MAX_SIZE; o[7] = EMBC_FRAMER_PORTS;
    o[8] = 250; o[9] = EMBC_ERROR_TIMED_OUT;
}
void v_status(struct embc_framer_s * f, uint32_t * o) {
    struct embc_framer_status_s s = embc_framer_status_get(f);
    uint32_t v[10] = {s.version, s.rx_count, s.rx_data_count, s.rx_ack_count, s.rx_deduplicate_count,
                      s.rx_synchronization_error, s.rx_mic_error, s.rx_frame_id_error, s.tx_count, s.tx_retransmit_count};
    memcpy(o, v, sizeof(v));
}
void v_fatal(char const * file, int line, char const * msg) { embc_fatal(file, line, msg); }
void v_log(char const * s) { EMBC_LOGE("%s", s); }
static void quiet(void * u, char const * s) { (void) u; (void) s; }
void v_print_off(void) { embc_lib_print_set(quiet, 0); }

/* A framer driven from C with plenty of buffers: it answers pings, as the microcontroller at the other end does. */
static struct { struct embc_framer_s * f; struct embc_buffer_allocator_s * a; uint8_t out[1 << 16]; int n; int64_t now;
    int64_t due; void (*cbk)(void *, uint32_t); void * user; uint32_t id; bool armed; } pe;
static void pe_tx(void * h, struct embc_buffer_s * b) {
    (void) h;
    if (pe.n + b->length <= (int) sizeof(pe.out)) { memcpy(pe.out + pe.n, b->data, b->length); pe.n += b->length; }
    embc_framer_hal_tx_done(pe.f, b);
}
static int64_t pe_time(void * h) { (void) h; return pe.now; }
static int32_t pe_set(void * h, int64_t t, void (*c)(void *, uint32_t), void * u, uint32_t * id) {
    (void) h; pe.due = t; pe.cbk = c; pe.user = u; pe.armed = true; *id = ++pe.id; return 0;
}
static int32_t pe_cancel(void * h, uint32_t id) { (void) h; (void) id; pe.armed = false; return 0; }
void v_peer_new(void) {
    static embc_size_t const sizes[] = {80, 80, 80, 80, 80};
    struct embc_framer_hal_callbacks_s h = {0, pe_tx, pe_time, pe_set, pe_cancel};
    memset(&pe, 0, sizeof(pe));
    pe.a = embc_buffer_allocator_new(sizes, 5);
    pe.f = embc_lib_alloc(embc_framer_instance_size());
    embc_framer_initialize(pe.f, pe.a, &h);
}
void v_peer_delete(void) {
    embc_framer_finalize(pe.f); embc_lib_free(pe.f); embc_buffer_allocator_finalize(pe.a); embc_lib_free(pe.a);
}
void v_peer_rx(uint8_t const * p, int64_t n) { if (n) { embc_framer_hal_rx_buffer(pe.f, p, n); } }
void v_peer_tick(int64_t now) {
    pe.now = now;
    if (pe.armed && now >= pe.due) { pe.armed = false; pe.cbk(pe.user, pe.id); }
}
int v_peer_take(uint8_t * o) { int n = pe.n; memcpy(o, pe.out, (size_t) n); pe.n = 0; return n; }
void v_peer_resync(void) { embc_framer_resync(pe.f); }
