/* C28: streams deliver the source bytes exactly, in order, and close once.
 *
 * ASSUME: a consumer that lets the producer use its own buffer asks for one write at a time (the source documents a single outstanding transaction); the consumer answers every request
 */
#include "vh.h"
#include "embc/stream/async_source.h"
#include "embc/stream/async_sink.h"
#include "embc/ec.h"

const char *const vh_rule =
    "A case is one of: (a) the real source against a monitoring consumer that answers at once or later, offers its own buffers (several outstanding, changing sizes) or an MTU, and injects unrelated events, stray write requests "
    "before open and after close, write errors and aborts, over 1..3 files; (b) the real source and sink joined through recording proxies that forward at once or queue; (c) the real sink against a producer model with overflow, "
    "NOOP/FLUSH, closes and receiver changes. Monitors check order, content, block size, one outstanding use of each buffer, exactly one close, completion status, what the sink stored, and stack depth. "
    "Non-trivial: at least two blocks moved; distinct by transaction log.";

uint64_t vh_case_count(int thorough) { return thorough ? 6000000 : 250000; }

typedef struct embc_stream_transaction_s tr_t;
static uint8_t file[300000]; static uint32_t flen;
static const char *base_sp;
static void depth(void) { char here; long d = (long) (base_sp - &here); if (d < 0) { d = -d; } VH_CHECK(d < 100000, "stack-depth", "the stack grew to %ld bytes", d); }

/* ================= (a) source against a monitoring consumer ================= */
static struct embc_stream_source_s *src; static struct embc_stream_consumer_s mon; static struct embc_stream_producer_s *prod;
static bool m_sync, m_open, m_consbuf, m_expect_fail; static uint32_t m_off, m_acked; static int m_closes, m_dones, m_expect_status; static uint8_t m_done_status, m_close_status;
static uint16_t m_txlen, m_mtu; static bool m_immediate; static uint8_t *txbuf;
typedef struct { uint8_t *buf; uint16_t len; uint8_t id; } req_t;
static req_t reqs[8]; static int nreq;                    /* asked for, not yet written */
typedef struct { tr_t t; uint64_t hash; uint8_t *own; } out_t;
static out_t outs[8]; static int nout;                    /* written, not yet answered */
static tr_t close_t; static bool close_waiting; static int m_reopen, m_blocks;
static uint32_t err_at; static uint8_t err_status;

static void fill_file(void) { flen = (uint32_t) (vh_chance(1, 3) ? vh_range(1, 12) : vh_chance(4, 5) ? vh_range(1, 300) : vh_range(1, 4000)); vh_fill(file, flen); }
static void answer_write(int i) {
    out_t o = outs[i];
    VH_CHECK(vh_hash(o.t.data.ioctl_write.ptr, o.t.length) == o.hash, "buffer-changed", "a write's buffer changed before it was answered");
    --nout; memmove(&outs[i], &outs[i + 1], sizeof(out_t) * (size_t) (nout - i));
    m_acked += o.t.length; o.t.status = 0;
    if (m_open && err_status && m_acked > err_at) { o.t.status = err_status; m_expect_fail = true; m_expect_status = err_status; err_status = 0; vh_count("write_errors", 1); }
    uint8_t *own = o.own;
    prod->send(prod, &o.t);
    if (own) { free(own); }
}
static void *m_cookie; static bool m_nofn;               /* without a cookie, without a completion callback */
static void answer_close(void) {
    close_waiting = false;
    if (m_nofn) { ++m_dones; m_done_status = m_close_status; }
    tr_t t = close_t; prod->send(prod, &t);
}
static void on_done(void *u, uint8_t status);
static void mon_send(struct embc_stream_consumer_s *self, tr_t *t) {
    VH_CHECK(self == &mon, "consumer-self", "wrong consumer");
    depth();
    switch (t->type) {
        case EMBC_STREAM_IOCTL_OPEN: {
            VH_CHECK(!m_open, "open-twice", "a second open");
            m_open = true; m_off = m_acked = 0; vh_count("opens", 1);
            tr_t r = *t; r.file_id = 1; prod->send(prod, &r);
            break;
        }
        case EMBC_STREAM_IOCTL_WRITE: {
            VH_CHECK(m_open, "write-not-open", "a write while not open");
            VH_CHECK(nreq > 0, "write-unasked", "a write that was not asked for");
            VH_CHECK(t->length > 0 && m_off + t->length <= flen, "write-length", "block of %d at %u of %u", t->length, m_off, flen);
            req_t r = reqs[0]; --nreq; memmove(&reqs[0], &reqs[1], sizeof(req_t) * (size_t) nreq);
            VH_CHECK(t->consumer_transaction_id == r.id, "transaction-id", "id %d, asked with %d", t->consumer_transaction_id, r.id);
            uint32_t left = flen - m_off;
            if (r.buf) {
                VH_CHECK(t->data.ioctl_write.ptr == r.buf, "buffer-pointer", "the offered buffer was not used");
                VH_CHECK(t->length == (left < r.len ? left : r.len), "block-size", "%d bytes for a request of %d with %u left", t->length, r.len, left);
            } else {
                VH_CHECK(!m_mtu || t->length <= m_mtu, "mtu", "%d bytes sent, the MTU is %d", t->length, m_mtu);
                VH_CHECK(m_immediate || t->length <= m_txlen, "own-buffer", "%d bytes from a buffer of %d", t->length, m_txlen);
                VH_CHECK(m_immediate || t->data.ioctl_write.ptr == txbuf, "own-buffer", "not the producer's buffer");
            }
            VH_CHECK(!memcmp(t->data.ioctl_write.ptr, file + m_off, t->length), "content", "block at %u of %u differs", m_off, flen);
            m_off += t->length; ++m_blocks; vh_count("blocks", 1);
            vh_sig(((uint64_t) t->length << 8) | t->type);
            VH_CHECK(nout < 8, "harness", "outs");
            outs[nout++] = (out_t) {*t, vh_hash(t->data.ioctl_write.ptr, t->length), r.buf};
            if (m_sync) { answer_write(nout - 1); }
            break;
        }
        case EMBC_STREAM_IOCTL_CLOSE:
            VH_CHECK(m_open, "close-not-open", "a close while not open"); 
            VH_CHECK(!m_closes++, "close-twice", "a second close");
            m_open = false; m_close_status = t->status; close_t = *t; close_waiting = true;
            if (m_expect_fail) { VH_CHECK(t->status == m_expect_status, "close-status", "closed with status %d, expected %d", t->status, m_expect_status); }
            else { VH_CHECK(t->status == 0 && m_acked == flen && m_off == flen, "close-early", "closed with status %d after %u of %u bytes", t->status, m_acked, flen); }
            if (m_sync) { answer_close(); }
            break;
        default: vh_fail("unknown-request", "request type %d", t->type);
    }
}
static bool m_configured;
static void open_file(void) {
    bool again = m_configured && vh_chance(1, 3);       /* the same file once more */
    if (again) { vh_count("opened_again", 1); } else { fill_file(); }
    m_closes = m_dones = 0; m_expect_fail = false; m_expect_status = 0; err_status = 0;
    if (vh_chance(1, 6)) { err_status = (uint8_t) vh_range(1, 20); err_at = vh_below(flen); }
    if (!again) { m_cookie = vh_chance(1, 4) ? 0 : &m_dones; m_nofn = vh_chance(1, 8); embc_stream_source_configure(src, file, flen, m_nofn ? 0 : on_done, m_cookie); vh_count("no_cookie", !m_cookie); vh_count("no_completion_fn", m_nofn); m_configured = true; }
    if (vh_chance(1, 2)) { embc_stream_source_open(src); } else { embc_stream_source_open_ex(src, 0, 0); }
    VH_CHECK(m_open || m_closes, "no-open", "no open request arrived");
}
static void on_done(void *u, uint8_t status) {
    VH_CHECK(!m_nofn && u == m_cookie, "done-cookie", "wrong cookie");
    VH_CHECK(m_closes == 1 && !m_dones++, "done-twice", "completion reported %d times", m_dones);
    VH_CHECK(status == m_close_status, "done-status", "completed with %d, closed with %d", status, m_close_status);
    m_done_status = status; vh_count(status ? "files_failed" : "files_done", 1);
    if (m_reopen > 0) { --m_reopen; vh_count("reopened_in_done", 1); open_file(); }
}
static void ask(void) {
    tr_t t; memset(&t, 0, sizeof(t)); t.type = EMBC_STREAM_EVENT_WRITE_REQUEST; t.file_id = 1;
    req_t r = {0, 0, 0};
    if (m_consbuf) { r.len = (uint16_t) (vh_chance(1, 3) ? vh_range(1, 8) : vh_range(1, 200)); r.buf = malloc(r.len); r.id = (uint8_t) vh_range(1, 255); t.length = r.len; t.data.event_write_request_consumer_buffer.ptr = r.buf; t.consumer_transaction_id = r.id; }
    else { t.data.event_write_request_producer_buffer.mtu = m_mtu; t.data.event_write_request_producer_buffer.transactions_max = 1; r.id = t.consumer_transaction_id = (uint8_t) vh_range(0, 3); }
    bool useless = !m_open || m_off >= flen; int blocks = m_blocks, had = nreq;
    reqs[nreq++] = r;
    prod->send(prod, &t);
    if (useless) { VH_CHECK(m_blocks == blocks && nreq == had + 1, "stray-write", "a write after the end of the data or while closed"); }
    if (nreq == had + 1) {          /* not used: the source had nothing to send */
        VH_CHECK(useless, "no-write", "a write request was not answered with %u of %u bytes sent", m_off, flen);
        --nreq; free(r.buf); vh_count("stray_requests", 1);
    }
}
static void case_source(void) {
    src = malloc(sizeof(*src)); memset(src, 0x5a, sizeof(*src)); mon.send = mon_send;
    m_immediate = vh_chance(1, 4); m_txlen = m_immediate ? 0 : (uint16_t) (vh_chance(1, 2) ? vh_range(1, 16) : vh_chance(5, 6) ? vh_range(1, 300) : vh_range(300, 5000)); txbuf = m_txlen ? malloc(m_txlen) : 0;
    m_sync = vh_chance(1, 2); m_consbuf = vh_chance(1, 2); m_mtu = vh_chance(1, 4) ? 0 : (uint16_t) (vh_chance(3, 4) ? vh_range(1, 64) : vh_chance(1, 3) ? vh_range(64, 2000) : vh_chance(1, 2) ? vh_range(1, 255) * 256 : vh_range(2000, 65535)); m_open = close_waiting = false; nreq = nout = 0; m_blocks = 0;
    m_closes = 1; m_dones = 1; m_off = m_acked = flen = 0;
    embc_stream_source_initialize(src, txbuf, m_txlen);
    embc_stream_source_set_consumer(src, &mon); prod = embc_stream_source_get_producer(src);
    m_reopen = 0; m_configured = false;
    if (vh_chance(1, 6)) { ask(); }
    if (vh_chance(1, 8)) { tr_t t; memset(&t, 0, sizeof(t)); t.type = EMBC_STREAM_EVENT_ABORT; prod->send(prod, &t); }
    int files = (int) vh_range(1, 3);
    for (int k = 0; k < files; ++k) {
        m_reopen = vh_chance(1, 6) ? 1 : 0;
        m_consbuf = vh_chance(1, 2);
        open_file();
        int64_t guard = 40000;
        bool may_abort = vh_chance(1, 5);
        while (m_open || nout || close_waiting) {
            VH_CHECK(--guard > 0, "stalled", "%u of %u bytes sent, %u answered", m_off, flen, m_acked);
            uint32_t k2 = vh_below(12);
            if (k2 == 0) { static const uint8_t ev[] = {EMBC_STREAM_EVENT_NOOP, EMBC_STREAM_EVENT_CONNECT, EMBC_STREAM_EVENT_DISCONNECT, EMBC_STREAM_EVENT_CUSTOM, EMBC_STREAM_IOCTL_NOOP, EMBC_STREAM_IOCTL_FLUSH}; tr_t t; memset(&t, 0, sizeof(t)); t.type = ev[vh_below(6)]; prod->send(prod, &t); vh_count("other_events", 1); }
            else if (k2 == 1 && may_abort && vh_chance(1, 3)) {
                tr_t t; memset(&t, 0, sizeof(t)); t.type = EMBC_STREAM_EVENT_ABORT;
                bool was = m_open; int closes = m_closes, dones = m_dones, left = m_reopen;
                if (was) { m_expect_fail = true; m_expect_status = EMBC_ERROR_ABORTED; vh_count("aborts", 1); }
                prod->send(prod, &t);
                if (!was) { VH_CHECK(closes == m_closes && dones == m_dones, "abort-closed", "an abort while closed had an effect"); }
                else if (left == m_reopen) { VH_CHECK(!m_open && m_closes == 1, "abort-ignored", "an abort did not close the stream"); }
            }
            else if (k2 <= 5 && nout) { answer_write(m_consbuf ? (int) vh_below((uint32_t) nout) : 0); }
            else if (k2 == 6 && close_waiting && !nout) { answer_close(); }
            else if (nreq + nout < (m_consbuf ? 4 : 1) && k2 > 6) { ask(); }
        }
        if (m_expect_fail) { VH_CHECK(m_done_status == m_expect_status, "failure-hidden", "a failed transfer completed with status %d", m_done_status); }
        else { VH_CHECK(m_off == flen && m_acked == flen && m_done_status == 0, "incomplete", "%u of %u bytes", m_off, flen); }
        VH_CHECK(m_closes == 1 && m_dones == 1, "completion", "%d closes, %d completions", m_closes, m_dones);
        if (vh_chance(1, 3)) { ask(); }
    }
    if (m_blocks >= 2) { vh_nontrivial(); }
    free(txbuf); free(src);
}

/* a second source and sink that transfer a whole file in one go, also from inside the callbacks of the first */
static uint8_t by_rb[40]; static uint16_t by_rl; static bool by_on; static int by_done[2];
static void by_block(void *u, const uint8_t *p, uint32_t n) { VH_CHECK(u == by_rb && (!by_rl || (p == by_rb && n <= by_rl)), "bystander", "another sink, with a buffer of %d, was given a block of %u elsewhere", by_rl, n); } static uint32_t by_len; static uint8_t by_dst[96];
static void by_stored(void *u, const uint8_t *p, uint32_t n) { VH_CHECK(u == &by_dst && p == by_dst && n == by_len, "bystander", "another sink finished with %u of %u bytes", n, by_len); ++by_done[0]; }
static void by_sent(void *u, uint8_t status) { VH_CHECK(u == &by_len && !status, "bystander", "another source ended with status %d", status); ++by_done[1]; }
static void bystander(void) {
    static bool in; if (in || !by_on || !vh_chance(1, 6)) { return; } in = true;
    static uint8_t data[96], tb[16]; struct embc_stream_source_s so; struct embc_stream_sink_s si; memset(&so, 0x33, sizeof(so)); memset(&si, 0x33, sizeof(si));
    by_len = 1 + vh_below(90); vh_fill(data, by_len); memset(by_dst, 0, sizeof(by_dst)); by_done[0] = by_done[1] = 0;
    embc_stream_source_initialize(&so, tb, vh_chance(1, 2) ? 16 : 5); by_rl = vh_chance(1, 2) ? 0 : (uint16_t) vh_range(1, 40);
    embc_stream_sink_initialize(&si, by_rl ? by_rb : 0, by_rl); embc_stream_sink_set_write_fn(&si, by_block, by_rb);
    embc_stream_source_set_consumer(&so, embc_stream_sink_get_consumer(&si)); embc_stream_sink_set_producer(&si, embc_stream_source_get_producer(&so));
    embc_stream_sink_receive(&si, by_dst, by_len, by_stored, &by_dst); embc_stream_source_configure(&so, data, by_len, by_sent, &by_len);
    embc_stream_source_open(&so);
    VH_CHECK(by_done[0] == 1 && by_done[1] == 1 && !memcmp(by_dst, data, by_len), "bystander", "another transfer of %u bytes ended %d and %d times", by_len, by_done[0], by_done[1]);
    vh_count("bystander_transfers", 1); in = false;
}

/* ================= (b) source and sink ================= */
static struct embc_stream_sink_s *snk; static struct embc_stream_consumer_s proxy_c; static struct embc_stream_producer_s proxy_p;
static bool b_sync; static tr_t bq[64]; static uint8_t bdir[64]; static int bh, bt;
static uint32_t b_seen, b_reported, b_writes; static int b_closes, b_sdones, b_rdones, b_outstanding; static uint8_t b_status; static uint8_t *b_dst; static bool b_open;
static uint8_t *b_rb; static uint16_t b_rl;
static void deliver(tr_t *t, int to_sink) {
    if (to_sink) { struct embc_stream_consumer_s *c = embc_stream_sink_get_consumer(snk); c->send(c, t); }
    else { struct embc_stream_producer_s *p = embc_stream_source_get_producer(src); p->send(p, t); }
}
static void route(tr_t *t, int to_sink) {
    depth(); bystander();
    vh_sig((uint64_t) t->type * 2 + (uint64_t) to_sink); vh_count("transactions", 1);
    if (to_sink) {
        if (t->type == EMBC_STREAM_IOCTL_OPEN) { VH_CHECK(!b_open, "open-twice", "open while open"); b_open = true; }
        if (t->type == EMBC_STREAM_IOCTL_WRITE && b_rb) { VH_CHECK(t->data.ioctl_write.ptr == b_rb && t->length <= b_rl, "buffer-pointer", "a block of %d is not in the sink's buffer of %d", t->length, b_rl); }
        if (t->type == EMBC_STREAM_IOCTL_WRITE) { VH_CHECK(b_open, "write-not-open", "write while not open"); VH_CHECK(++b_outstanding == 1, "outstanding", "%d writes outstanding in one buffer", b_outstanding); ++b_writes; }
        if (t->type == EMBC_STREAM_IOCTL_CLOSE) { VH_CHECK(b_open, "close-not-open", "close while not open"); b_open = false; ++b_closes; }
    } else {
        if (t->type == EMBC_STREAM_IOCTL_WRITE) { --b_outstanding; }
        if (t->type >= EMBC_STREAM_EVENT_NOOP && t->type != EMBC_STREAM_EVENT_DISCONNECT) { VH_CHECK(b_open || !b_sync, "event-not-open", "event %d sent by a sink that is not open", t->type); }
    }
    if (b_sync) { deliver(t, to_sink); }
    else { VH_CHECK((bh + 1) % 64 != bt, "harness", "queue"); bq[bh] = *t; bdir[bh] = (uint8_t) to_sink; bh = (bh + 1) % 64; }
}
static void to_sink(struct embc_stream_consumer_s *self, tr_t *t) { (void) self; route(t, 1); }
static void to_source(struct embc_stream_producer_s *self, tr_t *t) { (void) self; route(t, 0); }
static void on_block(void *u, const uint8_t *p, uint32_t n) {
    bystander();
    VH_CHECK(u == &b_seen, "write-cookie", "wrong cookie");
    VH_CHECK(b_seen + n <= flen && !memcmp(p, file + b_seen, n), "content", "block of %u at %u of %u differs", n, b_seen, flen);
    b_seen += n; vh_count("sink_blocks", 1);
}
static bool b_cookie;
static void on_stored(void *u, const uint8_t *p, uint32_t n) { VH_CHECK(u == (b_cookie ? &b_rdones : 0) && p == b_dst, "sink-done-args", "wrong arguments"); ++b_rdones; b_reported = n; }
static void on_sent(void *u, uint8_t status) { VH_CHECK(u == (b_cookie ? &b_sdones : 0), "done-cookie", "wrong cookie"); ++b_sdones; b_status = status; }

static void transfer(uint32_t dst_len) {
    b_dst = malloc(dst_len); memset(b_dst, 0xcd, dst_len);
    b_seen = b_reported = b_writes = 0; b_closes = b_sdones = b_rdones = b_outstanding = 0;
    b_cookie = vh_chance(3, 4);
    embc_stream_sink_receive(snk, b_dst, dst_len, on_stored, b_cookie ? &b_rdones : 0);
    embc_stream_source_configure(src, file, flen, on_sent, b_cookie ? &b_sdones : 0);
    embc_stream_source_open(src);
    while (bt != bh) { tr_t t = bq[bt]; int d = bdir[bt]; bt = (bt + 1) % 64; deliver(&t, d); }
    VH_CHECK(b_closes == 1 && b_sdones == 1 && b_rdones == 1 && !b_open, "close-once", "%d closes, %d source completions, %d sink completions after %u of %u bytes", b_closes, b_sdones, b_rdones, b_seen, flen);
    if (dst_len >= flen) {
        VH_CHECK(b_status == 0, "status", "a complete transfer ended with status %d", b_status);
        VH_CHECK(b_seen == flen && b_reported == flen && !memcmp(b_dst, file, flen), "stored", "%u bytes seen, %u stored of %u", b_seen, b_reported, flen);
        vh_count("transfers", 1);
    } else {
        VH_CHECK(b_status != 0, "overflow-hidden", "%u bytes into a buffer of %u ended with success", flen, dst_len);
        VH_CHECK(b_reported <= dst_len && !memcmp(b_dst, file, b_reported), "stored", "%u bytes reported in a buffer of %u", b_reported, dst_len);
        for (uint32_t i = b_reported; i < dst_len; ++i) { VH_CHECK(b_dst[i] == 0xcd, "stored", "byte %u beyond the %u reported was written", i, b_reported); }
        vh_count("overflows", 1);
    }
    free(b_dst);
}
static void join(uint16_t txlen, uint16_t rxlen, uint8_t **tb, uint8_t **rb) {
    src = malloc(sizeof(*src)); snk = malloc(sizeof(*snk)); memset(src, 0xa5, sizeof(*src)); memset(snk, 0xa5, sizeof(*snk));
    *tb = txlen ? malloc(txlen) : 0; *rb = rxlen ? malloc(rxlen) : 0; b_rb = *rb; b_rl = rxlen; bh = bt = 0; b_open = false;
    embc_stream_source_initialize(src, *tb, txlen); embc_stream_sink_initialize(snk, *rb, rxlen);
    proxy_c.send = to_sink; proxy_p.send = to_source;
    embc_stream_source_set_consumer(src, &proxy_c); embc_stream_sink_set_producer(snk, &proxy_p);
    embc_stream_sink_set_write_fn(snk, on_block, &b_seen);
}
static void case_pair(void) {
    uint8_t *tb, *rb;
    b_sync = vh_chance(1, 2); by_on = vh_chance(1, 3);
    join(vh_chance(1, 3) ? 0 : (uint16_t) vh_range(1, 100), vh_chance(1, 2) ? 0 : (uint16_t) vh_range(1, 200), &tb, &rb);
    int files = (int) vh_range(1, 4); uint32_t w = 0;
    while (files--) { fill_file(); transfer(vh_chance(1, 4) ? vh_below(flen) + (flen > 1 ? 1 : 0) : flen + vh_below(20)); w += b_writes; if (vh_chance(1, 3)) { embc_stream_sink_receive(snk, 0, 0, 0, 0); bt = bh; } }
    if (w >= 2) { vh_nontrivial(); }
    free(tb); free(rb); free(src); free(snk);
}

/* ================= (c) sink against a producer model ================= */
static tr_t got[32]; static int ngot; static struct embc_stream_producer_s model_p;
static void collect(struct embc_stream_producer_s *self, tr_t *t) { VH_CHECK(self == &model_p && ngot < 32, "sink-replies", "too many replies"); got[ngot++] = *t; }
static uint32_t k_done, k_done_len; static uint8_t *k_dst; static uint32_t k_written;
static bool k_nofn; static void *k_cookie, *k_wcookie; static int k_file;
static void k_on_done(void *u, const uint8_t *p, uint32_t n) { VH_CHECK(!k_nofn && u == k_cookie && p == k_dst, "sink-done-args", "wrong arguments"); ++k_done; k_done_len = n; }
static void k_on_write(void *u, const uint8_t *p, uint32_t n) { (void) p; VH_CHECK(u == k_wcookie, "write-cookie", "wrong cookie"); k_written += n; }
static void expect(int i, int type, const char *what) { VH_CHECK(ngot > i && got[i].type == type, "sink-reply", "after %s: reply %d of %d is type %d, expected %d", what, i, ngot, ngot > i ? got[i].type : -1, type); }
static void expect_request(int i, uint8_t *buf, uint16_t len, const char *what) {
    expect(i, EMBC_STREAM_EVENT_WRITE_REQUEST, what);
    VH_CHECK(k_file < 0 || got[i].file_id == k_file, "request-file", "a write request for file %d while file %d is open", got[i].file_id, k_file);
    if (buf) { VH_CHECK(got[i].length == len && got[i].data.event_write_request_consumer_buffer.ptr == buf && got[i].consumer_transaction_id, "request", "write request of %d bytes", got[i].length); }
    else { VH_CHECK(got[i].length == 0 && got[i].data.event_write_request_producer_buffer.mtu > 0 && got[i].data.event_write_request_producer_buffer.transactions_max > 0, "request", "write request without mtu"); }
}
static void case_sink(void) {
    snk = malloc(sizeof(*snk)); memset(snk, 0xa5, sizeof(*snk)); model_p.send = collect; ngot = 0; k_written = 0; k_file = -1;
    uint16_t bl = vh_chance(1, 3) ? 0 : (uint16_t) (vh_chance(1, 10) ? vh_range(65, 2000) : vh_range(1, 64)); uint8_t *bb = bl ? malloc(bl) : 0;
    embc_stream_sink_initialize(snk, bb, bl); embc_stream_sink_set_producer(snk, &model_p);
    struct embc_stream_consumer_s *c = embc_stream_sink_get_consumer(snk);
    bool open = false, hook = vh_chance(1, 2); uint32_t dl = 0, off = 0, total = 0; k_dst = 0; uint8_t *shadow = malloc(4096); int blocks = 0;
    if (hook) { k_wcookie = vh_chance(1, 3) ? 0 : &k_written; embc_stream_sink_set_write_fn(snk, k_on_write, k_wcookie); }
    int ops = (int) vh_range(5, 60);
    while (ops--) {
        tr_t t; memset(&t, 0, sizeof(t)); t.producer_transaction_id = vh_u8(); t.consumer_transaction_id = bl ? 1 : 0; tr_t sent;
        ngot = 0; int kind = (int) vh_below(10);
        if (kind < 5 && open) {
            uint16_t n = (uint16_t) vh_range(1, bl ? bl : 16); uint8_t *p = malloc(n); vh_fill(p, n);
            t.type = EMBC_STREAM_IOCTL_WRITE; t.length = n; t.data.ioctl_write.ptr = p; t.file_id = 1; sent = t;
            c->send(c, &t); ++blocks; total += n;
            expect(0, EMBC_STREAM_IOCTL_WRITE, "write");
            bool fits = k_dst && off + n <= dl;
            VH_CHECK(got[0].length == n && got[0].data.ioctl_write.ptr == p && got[0].producer_transaction_id == sent.producer_transaction_id, "write-reply", "the write was answered with different content");
            if (k_dst) { VH_CHECK((got[0].status == 0) == fits, "write-status", "%d bytes at %u of %u answered with status %d", n, off, dl, got[0].status); }
            if (fits) { memcpy(shadow + off, p, n); off += n; vh_count("sink_stored", 1); } else { vh_count("sink_refused", 1); }
            if (k_dst) { VH_CHECK(!memcmp(k_dst, shadow, off), "stored", "stored bytes differ"); VH_CHECK(ngot == 2, "sink-reply", "%d replies to a write", ngot); expect_request(1, bb, bl, "write"); }
            if (hook) { VH_CHECK(k_written == total, "write-hook", "the write hook saw %u of %u bytes", k_written, total); }
            free(p);
        } else if (kind == 5) {
            t.type = vh_chance(1, 2) ? EMBC_STREAM_IOCTL_NOOP : EMBC_STREAM_IOCTL_FLUSH; uint8_t ty = t.type; t.status = vh_u8();
            c->send(c, &t); expect(0, ty, "noop/flush"); VH_CHECK(ngot == 1 && got[0].status == 0, "noop-status", "status %d", got[0].status);
        } else if (kind == 6 && !open) {
            t.type = EMBC_STREAM_IOCTL_OPEN; c->send(c, &t); open = true; off = 0;
            expect(0, EMBC_STREAM_IOCTL_OPEN, "open"); VH_CHECK(got[0].status == 0, "open-status", "status %d", got[0].status); k_file = got[0].file_id;
            VH_CHECK(ngot == 2, "sink-reply", "%d replies to open", ngot);
            if (k_dst) { expect_request(1, bb, bl, "open"); } else { expect(1, EMBC_STREAM_EVENT_DISCONNECT, "open"); }
            vh_count("sink_opens", 1);
        } else if (kind == 7 && open) {
            t.type = EMBC_STREAM_IOCTL_CLOSE; t.status = vh_chance(1, 2) ? 0 : vh_u8(); uint8_t st = t.status; uint32_t before = k_done; bool had = k_dst != 0;
            c->send(c, &t); open = false;
            VH_CHECK(ngot == 1, "sink-reply", "%d replies to close", ngot); expect(0, EMBC_STREAM_IOCTL_CLOSE, "close");
            VH_CHECK(got[0].status == st, "close-status", "close status %d answered with %d", st, got[0].status);
            if (had && !k_nofn) { VH_CHECK(k_done == before + 1 && k_done_len == off, "sink-done", "completion reported %u times with %u of %u bytes", k_done - before, k_done_len, off); }
            vh_count("sink_closes", 1);
        } else if (kind == 8) {
            bool had = k_dst != 0; uint8_t *old = k_dst; bool give = vh_chance(2, 3);
            dl = give ? (uint32_t) vh_range(1, vh_chance(1, 10) ? 4000 : 200) : 0; k_dst = give ? malloc(dl) : 0; off = 0;
            k_nofn = vh_chance(1, 8); k_cookie = vh_chance(1, 4) ? 0 : &k_done;
            embc_stream_sink_receive(snk, k_dst, dl, give && !k_nofn ? k_on_done : 0, k_cookie);
            if (had && !give && open) { VH_CHECK(ngot == 1, "sink-reply", "%d events", ngot); expect(0, EMBC_STREAM_EVENT_DISCONNECT, "receive(NULL)"); }
            else if (!had && give && open) { VH_CHECK(ngot == 2, "sink-reply", "%d events", ngot); expect(0, EMBC_STREAM_EVENT_CONNECT, "receive"); expect_request(1, bb, bl, "receive"); }
            else if (!(had && !give)) { VH_CHECK(ngot == 0, "sink-event", "%d events without cause", ngot); }
            free(old); vh_count("sink_receivers", 1);
        }
        vh_sig((uint64_t) kind * 31 + (uint64_t) ngot);
    }
    if (blocks >= 2) { vh_nontrivial(); }
    free(k_dst); free(shadow); free(bb); free(snk);
}

void vh_case(uint64_t index) {
    char here; base_sp = &here;
    switch (index % 3) { case 0: case_source(); break; case 1: case_pair(); break; default: case_sink(); break; }
}

static void sc_large(void) {       /* immediate answers must not need stack per block */
    char here; base_sp = &here; uint8_t *tb, *rb;
    for (int k = 0; k < 3; ++k) {
        b_sync = k < 2; join(k ? 0 : 1, k == 1 ? 1 : 0, &tb, &rb);
        flen = 8192; vh_fill(file, flen); transfer(flen);
        VH_CHECK(b_writes > 500, "harness", "%u writes", b_writes);
        free(tb); free(rb); free(src); free(snk);
    }
}
/* files and blocks larger than 16 bits measure */
static void sc_huge(void) {
    static const uint32_t F[] = {65534, 65535, 65536, 65537, 70000, 131071, 131072, 131073, 262144, 299999};
    static const uint16_t B[][2] = {{0, 65535}, {65535, 0}, {65535, 65535}, {0, 32768}, {40000, 0}, {255, 0}, {0, 257}, {32767, 40000}};
    char here; base_sp = &here; uint8_t *tb, *rb;
    for (size_t k = 0; k < sizeof(B) / sizeof(B[0]); ++k) {
        for (b_sync = 0; ; b_sync = true) {
            join(B[k][0], B[k][1], &tb, &rb);
            for (size_t f = 0; f < sizeof(F) / sizeof(F[0]); ++f) {
                flen = F[f]; vh_fill(file, flen);
                transfer(flen); transfer(flen - 1); transfer(flen + 100); transfer(flen - 65000);
                vh_count("huge_files", 1);
            }
            free(tb); free(rb); free(src); free(snk);
            if (b_sync) { break; }
        }
    }
}
static tr_t seen_close;
static void grab(struct embc_stream_consumer_s *self, tr_t *t) { (void) self; seen_close = *t; }
static int lone_n; static tr_t lone_t; static void lone(struct embc_stream_consumer_s *self, tr_t *t) { (void) self; lone_t = *t; ++lone_n; }
static void sc_lone(void) {         /* ends with no peer, no completion handler, no instance */
    struct embc_stream_source_s so; struct embc_stream_sink_s si; struct embc_stream_consumer_s c = {lone}; uint8_t data[5] = {1, 2, 3, 4, 5}, tb[8]; tr_t t;
    embc_stream_sink_initialize(&si, 0, 0); memset(&t, 0, sizeof(t));
    for (int i = 0; i < 3; ++i) { t.type = (uint8_t[]) {EMBC_STREAM_IOCTL_NOOP, EMBC_STREAM_IOCTL_FLUSH, EMBC_STREAM_IOCTL_CLOSE}[i]; embc_stream_sink_get_consumer(&si)->send(embc_stream_sink_get_consumer(&si), &t); }
    embc_stream_sink_receive(&si, tb, sizeof(tb), 0, 0); embc_stream_sink_receive(&si, 0, 0, 0, 0);
    embc_stream_source_initialize(&so, tb, sizeof(tb)); embc_stream_source_set_consumer(&so, &c);
    struct embc_stream_producer_s *p = embc_stream_source_get_producer(&so);
    embc_stream_source_configure(&so, data, 5, 0, 0);
    for (int k = 0; k < 3; ++k) {
        lone_n = 0; embc_stream_source_open(&so); VH_CHECK(lone_n == 1 && lone_t.type == EMBC_STREAM_IOCTL_OPEN, "lone-open", "open");
        memset(&t, 0, sizeof(t)); t.type = EMBC_STREAM_EVENT_WRITE_REQUEST; p->send(p, &t); VH_CHECK(lone_n == 2 && lone_t.type == EMBC_STREAM_IOCTL_WRITE && lone_t.length == 5 && !memcmp(lone_t.data.ioctl_write.ptr, data, 5), "lone-write", "write");
        t = lone_t; p->send(p, &t); VH_CHECK(lone_n == 3 && lone_t.type == EMBC_STREAM_IOCTL_CLOSE && lone_t.status == 0, "lone-close", "close");
        t = lone_t; p->send(p, &t); VH_CHECK(lone_n == 3, "lone-close", "activity after close");
    }
    VH_CHECK(VH_FATAL(p->send(0, &t)) && VH_FATAL(embc_stream_sink_get_consumer(&si)->send(0, &t)), "null-interface", "a NULL interface was accepted");
}
static void sc_close(void) {
    struct embc_stream_consumer_s c = {grab}; tr_t want;
    for (int f = 0; f < 256; f += 5) {
        for (int s = 0; s < 256; s += 3) {
            memset(&seen_close, 0xee, sizeof(seen_close)); memset(&want, 0, sizeof(want)); want.type = EMBC_STREAM_IOCTL_CLOSE; want.file_id = (uint8_t) f; want.status = (uint8_t) s;
            embc_stream_close(&c, (uint8_t) f, (uint8_t) s);
            VH_CHECK(!memcmp(&seen_close, &want, sizeof(want)), "close-transaction", "file %d status %d", f, s);
        }
    }
    uint8_t b[4]; struct embc_stream_source_s so; struct embc_stream_sink_s si;
    embc_stream_source_initialize(&so, 0, 0); embc_stream_sink_initialize(&si, 0, 0);
    VH_CHECK(VH_FATAL(embc_stream_source_initialize(0, 0, 0)) && VH_FATAL(embc_stream_source_set_consumer(0, 0)) && VH_FATAL(embc_stream_source_get_producer(0)) && VH_FATAL(embc_stream_source_configure(0, b, 1, 0, 0))
             && VH_FATAL(embc_stream_source_configure(&so, 0, 1, 0, 0)) && VH_FATAL(embc_stream_source_configure(&so, b, 0, 0, 0)), "null-source", "an invalid argument was accepted");
    VH_CHECK(VH_FATAL(embc_stream_sink_initialize(0, 0, 0)) && VH_FATAL(embc_stream_sink_get_consumer(0)) && VH_FATAL(embc_stream_sink_set_producer(0, 0)) && VH_FATAL(embc_stream_sink_set_write_fn(0, 0, 0)) && VH_FATAL(embc_stream_sink_receive(0, 0, 0, 0, 0)), "null-sink", "a NULL instance was accepted");
}

/* every transaction type is told apart from every other, and the application's own types from all of them */
static void sc_types(void) {
    const int t[] = {EMBC_STREAM_IOCTL_NOOP, EMBC_STREAM_IOCTL_OPEN, EMBC_STREAM_IOCTL_WRITE, EMBC_STREAM_IOCTL_CLOSE, EMBC_STREAM_IOCTL_FLUSH, EMBC_STREAM_IOCTL_CUSTOM,
        EMBC_STREAM_EVENT_NOOP, EMBC_STREAM_EVENT_WRITE_REQUEST, EMBC_STREAM_EVENT_CONNECT, EMBC_STREAM_EVENT_DISCONNECT, EMBC_STREAM_EVENT_ABORT, EMBC_STREAM_EVENT_CUSTOM};
    const int n = (int) (sizeof(t) / sizeof(t[0]));
    struct embc_stream_transaction_s x;
    for (int i = 0; i < n; ++i) {
        memset(&x, 0, sizeof(x));
        x.type = (uint8_t) t[i];
        VH_CHECK(x.type == t[i], "type-range", "type %d does not fit a transaction", t[i]);
        for (int k = 0; k < i; ++k) { VH_CHECK(t[k] < t[i], "type-order", "types %d and %d of the list are %d and %d", k, i, t[k], t[i]); }
    }
}

const vh_scenario_t vh_scenarios[] = {{"types", sc_types}, {"large", sc_large}, {"huge", sc_huge}, {"close", sc_close}, {"lone", sc_lone}, {0, 0}};
