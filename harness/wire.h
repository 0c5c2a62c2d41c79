/* Independent statement of the frame format in embc/stream/framer.h: bit-serial
 * CRCs, frame parser/builder and a reference byte-stream decoder. */
#ifndef WIRE_H_
#define WIRE_H_
#include "vh.h"

static inline uint8_t ref_crc8(const uint8_t *d, size_t n) {   /* reflected 0x07, init/xorout ff */
    uint8_t c = 0xff;
    for (size_t i = 0; i < n; ++i) {
        c ^= d[i];
        for (int k = 0; k < 8; ++k) { c = (uint8_t) ((c & 1) ? ((c >> 1) ^ 0xE0) : (c >> 1)); }
    }
    return (uint8_t) ~c;
}
static inline uint32_t ref_crc32(const uint8_t *d, size_t n) { /* reflected 0x04C11DB7 */
    uint32_t c = 0xffffffffu;
    for (size_t i = 0; i < n; ++i) {
        c ^= d[i];
        for (int k = 0; k < 8; ++k) { c = (c & 1) ? ((c >> 1) ^ 0xEDB88320u) : (c >> 1); }
    }
    return ~c;
}

#define WF_SOF 0xAA
#define WF_HDR 8
#define WF_FTR 5
#define WF_PAY_MAX 240
#define WF_MAX (WF_HDR + WF_PAY_MAX + WF_FTR)

typedef struct {
    uint8_t idraw, id, port, msg, len;
    bool ack;
    uint16_t pd;
    const uint8_t *pay;
    uint16_t size;
} wf_t;

static inline bool wf_header_ok(const uint8_t *d) { return d[0] == WF_SOF && ref_crc8(d, 7) == d[7]; }

/* 1: complete valid frame at d, 0: could become one with more bytes, -1: not a frame */
static inline int wf_parse(const uint8_t *d, size_t n, wf_t *f) {
    if (n == 0) { return 0; }
    if (d[0] != WF_SOF) { return -1; }
    if (n < WF_HDR) { return 0; }
    if (!wf_header_ok(d) || d[4] > WF_PAY_MAX) { return -1; }
    size_t sz = (size_t) WF_HDR + d[4] + WF_FTR;
    if (n < sz) { return 0; }
    const uint8_t *c = d + sz - WF_FTR;
    uint32_t crc = (uint32_t) c[0] | ((uint32_t) c[1] << 8) | ((uint32_t) c[2] << 16) | ((uint32_t) c[3] << 24);
    if (crc != ref_crc32(d, sz - WF_FTR)) { return -1; }
    if (f) {
        f->idraw = d[1]; f->id = d[1] & 15; f->ack = (d[1] & 0x80) != 0;
        f->port = d[2]; f->msg = d[3]; f->len = d[4];
        f->pd = (uint16_t) (d[5] | ((uint16_t) d[6] << 8));
        f->pay = d + WF_HDR; f->size = (uint16_t) sz;
    }
    return 1;
}

static inline size_t wf_build(uint8_t *o, uint8_t idraw, uint8_t port, uint8_t msg, uint16_t pd,
                              const uint8_t *pay, uint8_t len) {
    o[0] = WF_SOF; o[1] = idraw; o[2] = port; o[3] = msg; o[4] = len;
    o[5] = (uint8_t) pd; o[6] = (uint8_t) (pd >> 8);
    o[7] = ref_crc8(o, 7);
    if (len) { memcpy(o + WF_HDR, pay, len); }
    size_t n = (size_t) WF_HDR + len;
    uint32_t c = ref_crc32(o, n);
    o[n++] = (uint8_t) c; o[n++] = (uint8_t) (c >> 8); o[n++] = (uint8_t) (c >> 16); o[n++] = (uint8_t) (c >> 24);
    o[n++] = WF_SOF;
    return n;
}

static inline size_t wf_ack(uint8_t *o, uint8_t id, uint8_t port, uint8_t msg, uint16_t mask, uint8_t status) {
    return wf_build(o, (uint8_t) (0x80 | (id & 15)), port, msg, mask, &status, 1);
}

/* Reference decoder: at each position, either a frame starts there or the byte is skipped. */
typedef struct { uint8_t b[1024]; size_t n; } rr_t;
typedef void (*rr_fn)(void *user, const wf_t *f);
static inline void rr_byte(rr_t *r, uint8_t byte, rr_fn fn, void *user) {
    if (r->n == sizeof(r->b)) { vh_fail("harness", "reference decoder overflow"); }
    r->b[r->n++] = byte;
    while (r->n) {
        wf_t f;
        int rc = wf_parse(r->b, r->n, &f);
        if (rc == 0) { break; }
        size_t skip = 1;
        uint8_t copy[WF_MAX];
        if (rc == 1) { skip = f.size; memcpy(copy, r->b, skip); f.pay = copy + WF_HDR; }
        r->n -= skip;
        memmove(r->b, r->b + skip, r->n);
        if (rc == 1) { fn(user, &f); }
    }
}
#endif
