/* C10: buffer reads, writes and edits never leave the buffer bounds.
 *
 * ASSUME: block operations are not given negative sizes; a buffer is not copied onto itself; erase is not used on an empty buffer
 */
#include "vh.h"
#include "embc/memory/buffer.h"
#include "embc/platform.h"

const char *const vh_rule =
    "A case is one or two buffers (from an allocator whose last byte ends a guarded heap block, statically declared, or of any capacity 0..65535 under a custom manager) "
    "and 20..150 random operations: cursor moves, block and typed writes and reads in both byte orders, string writes with and without truncation, copies between the "
    "buffers, erases, resets, clears and reserve changes, with sizes around every bound. After each operation the bytes, cursor, length and reserve are compared with a byte-array "
    "model. Non-trivial: at least two refusals and three accepted edits; distinct by the operation sequence.";

uint64_t vh_case_count(int thorough) { return thorough ? 3000000 : 60000; }

typedef struct { uint8_t *d; int cap, cur, len, res; } model_t;
static struct embc_buffer_s *B[2]; static model_t M[2]; static int n_bufs;
static uint64_t refused, accepted;

static void same(int i, const char *what) {
    struct embc_buffer_s *b = B[i]; model_t *m = &M[i];
    VH_CHECK(b->cursor <= b->length && b->length <= b->capacity, "invariant", "after %s: cursor=%d length=%d capacity=%d", what, b->cursor, b->length, b->capacity);
    VH_CHECK(b->cursor == m->cur, "cursor", "after %s: cursor=%d model=%d", what, b->cursor, m->cur);
    VH_CHECK(b->length == m->len, "length", "after %s: length=%d model=%d", what, b->length, m->len);
    VH_CHECK(b->reserve == m->res && b->capacity == m->cap && b->buffer_id == 0x1234 && b->flags == 0x4321, "fields", "after %s: other fields changed", what);
    VH_CHECK(embc_buffer_length(b) == m->len && embc_buffer_capacity(b) == m->cap && embc_buffer_cursor_get(b) == m->cur, "accessors", "after %s", what);
    VH_CHECK(embc_buffer_read_remaining(b) == m->len - m->cur, "accessors", "after %s: read_remaining", what);
    VH_CHECK(embc_buffer_write_remaining(b) == m->cap - m->res - m->cur, "accessors", "after %s: write_remaining", what);
    if (memcmp(b->data, m->d, (size_t) m->cap)) {
        int k = 0; while (b->data[k] == m->d[k]) { ++k; }
        vh_fail("contents", "after %s: byte %d is 0x%02x, model 0x%02x (length %d)", what, k, b->data[k], m->d[k], m->len);
    }
}
static void verdict(int i, bool fatal, bool ok, const char *what) {
    VH_CHECK(fatal != ok, fatal ? "refused-valid" : "accepted-invalid", "%s was %s: capacity=%d length=%d cursor=%d reserve=%d", what, fatal ? "refused" : "accepted",
             M[i].cap, M[i].len, M[i].cur, M[i].res);
    if (ok) { ++accepted; vh_count("accepted", 1); } else { ++refused; vh_count("refused", 1); }
}
static void put(model_t *m, const uint8_t *p, int n) {
    memcpy(m->d + m->cur, p, (size_t) n); m->cur += n;
    if (m->cur > m->len) { m->len = m->cur; }
}
static int64_t around(int64_t n) { return vh_chance(1, 2) ? vh_range(n - 2, n + 2) : vh_range(0, n + 3); }
static int64_t around0(int64_t n) { int64_t v = around(n < 0 ? 0 : n); return v < 0 ? 0 : v; }
static uint64_t bytes_to(const uint8_t *p, int n, bool be) {
    uint64_t v = 0;
    for (int i = 0; i < n; ++i) { v |= (uint64_t) p[i] << (8 * (be ? n - 1 - i : i)); }
    return v;
}

static void op(void) {
    int i = (int) vh_below((uint32_t) n_bufs);
    struct embc_buffer_s *b = B[i]; model_t *m = &M[i];
    int kind = (int) vh_below(13);
    volatile int fatal = 0;
    char what[128] = "";
    vh_sig((uint64_t) (i * 16 + kind));
    int room = m->cap - m->res - m->cur;
    switch (kind) {
        case 0: {   /* seek */
            embc_size_t to = vh_chance(1, 10) ? (embc_size_t) vh_edge64() : vh_chance(1, 2) ? vh_range(0, m->len) : around(m->len) - vh_range(0, 1);
            snprintf(what, sizeof(what), "cursor_set(%lld)", (long long) to);
            fatal = VH_FATAL(embc_buffer_cursor_set(b, to));
            verdict(i, fatal, to >= 0 && to <= m->len, what);
            if (!fatal) { m->cur = (int) to; }
            break;
        }
        case 1: case 2: {   /* block write */
            int64_t n = vh_chance(1, 3) ? vh_range(0, 9) : around0(room);
            if (vh_chance(1, 20)) { n += 65536; }
            uint8_t *src = vh_exact(0, (size_t) n);
            vh_fill(src, (size_t) n);
            snprintf(what, sizeof(what), "write(%lld)", (long long) n);
            bool null = (0 == n) && vh_chance(1, 2);
            fatal = VH_FATAL(embc_buffer_write(b, null ? 0 : src, n));
            verdict(i, fatal, n <= room || 0 == n, what);
            if (!fatal) { put(m, src, (int) n); }
            free(src);
            break;
        }
        case 3: {   /* typed write */
            static const int widths[7] = {1, 2, 4, 8, 2, 4, 8};
            int t = (int) vh_below(7), w = widths[t];
            uint64_t v = vh_edge64();
            snprintf(what, sizeof(what), "write_u%d_%s", 8 * w, t > 3 ? "be" : "le");
            switch (t) {
                case 0: fatal = VH_FATAL(embc_buffer_write_u8(b, (uint8_t) v)); break;
                case 1: fatal = VH_FATAL(embc_buffer_write_u16_le(b, (uint16_t) v)); break;
                case 2: fatal = VH_FATAL(embc_buffer_write_u32_le(b, (uint32_t) v)); break;
                case 3: fatal = VH_FATAL(embc_buffer_write_u64_le(b, v)); break;
                case 4: fatal = VH_FATAL(embc_buffer_write_u16_be(b, (uint16_t) v)); break;
                case 5: fatal = VH_FATAL(embc_buffer_write_u32_be(b, (uint32_t) v)); break;
                default: fatal = VH_FATAL(embc_buffer_write_u64_be(b, v)); break;
            }
            verdict(i, fatal, w <= room, what);
            if (!fatal) {
                uint8_t e[8];
                for (int k = 0; k < w; ++k) { e[k] = (uint8_t) (v >> (8 * (t > 3 ? w - 1 - k : k))); }
                put(m, e, w);
            }
            break;
        }
        case 4: {   /* block read */
            int64_t have = m->len - m->cur;
            int64_t n = vh_chance(1, 2) ? vh_range(0, have < 0 ? 0 : have) : around0(have);
            if (vh_chance(1, 20)) { n += 65536; }
            uint8_t *dst = vh_exact(0, (size_t) n);
            snprintf(what, sizeof(what), "read(%lld)", (long long) n);
            fatal = VH_FATAL(embc_buffer_read(b, dst, n));
            verdict(i, fatal, n <= have || 0 == n, what);
            if (!fatal) {
                VH_CHECK(0 == memcmp(dst, m->d + m->cur, (size_t) n), "read:value", "%s returned other bytes", what);
                m->cur += (int) n;
            }
            free(dst);
            break;
        }
        case 5: {   /* typed read */
            static const int widths[7] = {1, 2, 4, 8, 2, 4, 8};
            int t = (int) vh_below(7), w = widths[t];
            volatile uint64_t v = 0;
            snprintf(what, sizeof(what), "read_u%d_%s", 8 * w, t > 3 ? "be" : "le");
            switch (t) {
                case 0: fatal = VH_FATAL(v = embc_buffer_read_u8(b)); break;
                case 1: fatal = VH_FATAL(v = embc_buffer_read_u16_le(b)); break;
                case 2: fatal = VH_FATAL(v = embc_buffer_read_u32_le(b)); break;
                case 3: fatal = VH_FATAL(v = embc_buffer_read_u64_le(b)); break;
                case 4: fatal = VH_FATAL(v = embc_buffer_read_u16_be(b)); break;
                case 5: fatal = VH_FATAL(v = embc_buffer_read_u32_be(b)); break;
                default: fatal = VH_FATAL(v = embc_buffer_read_u64_be(b)); break;
            }
            verdict(i, fatal, w <= m->len - m->cur, what);
            if (!fatal) {
                uint64_t e = bytes_to(m->d + m->cur, w, t > 3);
                VH_CHECK(v == e, "read:value", "%s returned 0x%llx, model 0x%llx", what, (unsigned long long) v, (unsigned long long) e);
                m->cur += w;
            }
            break;
        }
        case 6: case 7: {   /* strings */
            int64_t n = vh_chance(1, 3) ? vh_range(0, 9) : around0(room);
            char *s = vh_exact(0, (size_t) n + 1);
            for (int64_t k = 0; k < n; ++k) { s[k] = (char) vh_range(1, 255); }
            s[n] = 0;
            bool fits = n <= room || 0 == n;
            if (6 == kind) {
                snprintf(what, sizeof(what), "write_str(%lld chars)", (long long) n);
                fatal = VH_FATAL(embc_buffer_write_str(b, s));
                verdict(i, fatal, fits, what);
                if (fatal) {   /* how much of a refused string is stored is not specified: adopt it, within bounds */
                    VH_CHECK(b->cursor >= m->cur && b->cursor <= (m->cap - m->res > m->cur ? m->cap - m->res : m->cur) && b->length >= m->len, "refused-effect", "after a refused %s: cursor %d -> %d, length %d -> %d", what,
                             m->cur, b->cursor, m->len, b->length);
                    put(m, (const uint8_t *) s, b->cursor - m->cur);
                } else { put(m, (const uint8_t *) s, (int) n); }
            } else {
                snprintf(what, sizeof(what), "write_str_truncate(%lld chars)", (long long) n);
                bool ok = embc_buffer_write_str_truncate(b, s);
                VH_CHECK(ok == fits, ok ? "truncate:unreported" : "truncate:false", "%s said %s with room %d", what, ok ? "complete" : "truncated", room);
                put(m, (const uint8_t *) s, (int) (fits ? n : room > 0 ? room : 0));
                if (fits) { ++accepted; } else { ++refused; vh_count("truncated", 1); }
            }
            free(s);
            break;
        }
        case 8: {   /* copy from the other buffer */
            if (n_bufs < 2) { return; }
            int o = 1 - i;
            int64_t have = M[o].len - M[o].cur;
            int64_t n = vh_chance(1, 2) ? around0(have) : around0(room);
            snprintf(what, sizeof(what), "copy(%lld)", (long long) n);
            fatal = VH_FATAL(embc_buffer_copy(b, B[o], n));
            bool ok = n <= have && n <= room;
            if (0 == n) { ok = !fatal; }   /* nothing to copy: both answers are in bounds */
            verdict(i, fatal, ok, what);
            if (!fatal) { put(m, M[o].d + M[o].cur, (int) n); }
            same(o, "copy (source)");
            break;
        }
        case 9: {   /* erase */
            if (!m->len) { return; }
            embc_size_t s = vh_chance(1, 30) ? (embc_size_t) vh_edge64() : around(m->len) - vh_range(0, 2), e = vh_chance(1, 30) ? (embc_size_t) vh_edge64() : around(m->len);
            if (vh_chance(1, 30)) { e += 1LL << 32; }
            if (vh_chance(1, 2)) { s = vh_range(0, m->len - 1); e = vh_range(vh_chance(1, 5) ? 0 : s, m->len); }
            snprintf(what, sizeof(what), "erase(%lld,%lld) of %d", (long long) s, (long long) e, m->len);
            fatal = VH_FATAL(embc_buffer_erase(b, s, e));
            verdict(i, fatal, s >= 0 && s < m->len && e >= 0 && e <= m->len, what);
            if (!fatal && e > s) {
                int n = (int) (e - s);
                memmove(m->d + s, m->d + e, (size_t) (m->len - e));
                m->len -= n;
                if (m->cur >= e) { m->cur -= n; } else if (m->cur > s) { m->cur = (int) s; }
                /* bytes past the new length are free to hold anything */
                memcpy(m->d + m->len, b->data + m->len, (size_t) n);
            }
            break;
        }
        case 10:
            if (vh_chance(1, 4)) {
                snprintf(what, sizeof(what), "clear");
                embc_buffer_clear(b); memset(m->d, 0, (size_t) m->cap);
            } else if (vh_chance(1, 2)) { snprintf(what, sizeof(what), "reset"); embc_buffer_reset(b); } else { return; }
            m->cur = m->len = 0;
            break;
        case 11: {
            int r = vh_chance(1, 2) ? 0 : vh_chance(1, 8) ? (int) vh_range(0, m->cap) : (int) vh_range(0, (m->cap - m->len) > 8 ? 8 : m->cap - m->len);
            snprintf(what, sizeof(what), "reserve=%d", r);
            b->reserve = (uint16_t) r; m->res = r;
            break;
        }
        default:   /* go back so that reads and rewrites happen */
            snprintf(what, sizeof(what), "rewind");
            m->cur = (int) vh_range(0, m->len);
            embc_buffer_cursor_set(b, m->cur);
            break;
    }
    vh_trace("[%d] %s%s -> cursor=%d length=%d", i, what, fatal ? " refused" : "", b->cursor, b->length);
    vh_sig((uint64_t) m->cur << 32 | (uint32_t) m->len); vh_sig((uint64_t) fatal);
    same(i, what);
}

static void noop_free(struct embc_buffer_manager_s const *self, struct embc_buffer_s *b) { (void) self; (void) b; }
static const struct embc_buffer_manager_s custom = {noop_free};

static void adopt(int i, struct embc_buffer_s *b, int cap) {
    B[i] = b;
    VH_CHECK(0 == b->cursor && 0 == b->length && cap == b->capacity, "init", "fresh buffer: cursor=%d length=%d capacity=%d", b->cursor, b->length, b->capacity);
    VH_CHECK(0 == b->reserve && 0 == b->buffer_id && 0 == b->flags, "init", "fresh buffer: reserve=%d id=%d flags=%d", b->reserve, b->buffer_id, b->flags);
    b->buffer_id = 0x1234; b->flags = 0x4321;
    M[i].cap = cap; M[i].cur = M[i].len = M[i].res = 0;
    M[i].d = vh_exact(0, (size_t) cap);
    vh_fill(b->data, (size_t) cap);
    memcpy(M[i].d, b->data, (size_t) cap);
}

void vh_case(uint64_t index) {
    (void) index;
    struct embc_buffer_allocator_s *al[2] = {0, 0};
    struct embc_buffer_s *own[2] = {0, 0};
    uint8_t *mem[2] = {0, 0};
    struct { EMBC_BUFFER_STATIC_DECLARE(b, 57); } st[2];
    struct { EMBC_BUFFER_STATIC_DECLARE(b, 1); } s1[2];
    EMBC_BUFFER_STATIC_DEFINE(sd, 40);
    refused = accepted = 0;
    n_bufs = 1 + (int) vh_below(2);
    for (int i = 0; i < n_bufs; ++i) {
        int kind = (int) vh_below(6);
        vh_sig((uint64_t) kind);
        if (kind < 2) {
            int cls = (int) vh_below(vh_chance(1, 10) ? 8 : 3);
            embc_size_t sizes[8] = {0};
            sizes[cls] = 1;
            al[i] = malloc((size_t) embc_buffer_allocator_instance_size(sizes, cls + 1));
            embc_buffer_allocator_initialize(al[i], sizes, cls + 1);
            struct embc_buffer_s *b = embc_buffer_alloc(al[i], 32 << cls);
            adopt(i, b, 32 << cls);
        } else if (2 == kind) {
            memset(&st[i], vh_u8(), sizeof(st[i]));
            EMBC_BUFFER_STATIC_INITIALIZE(st[i].b);
            adopt(i, &st[i].b, 57);
        } else if (3 == kind) {
            if (0 == i) { adopt(i, &sd, 40); }
            else { memset(&s1[i], vh_u8(), sizeof(s1[i])); EMBC_BUFFER_STATIC_INITIALIZE(s1[i].b); adopt(i, &s1[i].b, 1); }
        } else {
            int cap = vh_chance(1, 400) ? 65535 - (int) vh_below(3) : (int) vh_below(vh_chance(1, 3) ? 300 : 24);
            mem[i] = vh_exact(0, (size_t) cap);
            struct embc_buffer_s t = {.data = mem[i], .capacity = (uint16_t) cap, .manager = &custom};
            own[i] = malloc(sizeof(t));
            memcpy(own[i], &t, sizeof(t));
            embc_list_initialize(&own[i]->item);
            adopt(i, own[i], cap);
        }
        vh_trace("[%d] kind=%d capacity=%d", i, kind, M[i].cap);
        vh_sig((uint64_t) M[i].cap);
    }
    int ops = (int) vh_range(20, vh_chance(1, 8) ? 150 : 50);
    if (M[0].cap > 4096 || (n_bufs > 1 && M[1].cap > 4096)) { ops = 20; }
    for (int k = 0; k < ops; ++k) { op(); }
    for (int i = 0; i < n_bufs; ++i) {
        free(M[i].d); free(mem[i]); free(own[i]);
        if (al[i]) { embc_buffer_free(B[i]); free(al[i]); } else { embc_buffer_free(B[i] == own[i] ? &sd : B[i]); }
    }
    vh_count("operations", (uint64_t) ops);
    if (refused >= 2 && accepted >= 3) { vh_nontrivial(); }
}

/* every operation that moves a block, with blocks of every size that a width can get wrong, up to the largest buffer */
static struct embc_buffer_s *sized(int i, int cap, uint8_t **mem) {
    *mem = vh_exact(0, (size_t) cap);
    struct embc_buffer_s t = {.data = *mem, .capacity = (uint16_t) cap, .manager = &custom};
    struct embc_buffer_s *b = malloc(sizeof(t)); memcpy(b, &t, sizeof(t)); embc_list_initialize(&b->item);
    adopt(i, b, cap);
    return b;
}
static void sc_sizes(void) {
    static const int S[] = {0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 32767, 32768, 32769, 65279, 65534, 65535};
    enum { N = sizeof(S) / sizeof(S[0]) };
    for (int q = 0; q < N; ++q) {
        int n = S[q];
        for (int v = 0; v < 4; ++v) {                   /* bit 0: exact room or more; bit 1: at offset 0 or further in */
            int off = (v & 2) && n + 7 <= 65535 ? 7 : 0, cap = (v & 1) && n + off + 300 <= 65535 ? n + off + 300 : n + off;
            uint8_t *m0, *m1, *x = vh_exact(0, (size_t) n + 8), *y = vh_exact(0, (size_t) n + 8);
            vh_fill(x, (size_t) n + 8); for (int i = 0; i < n + 8; ++i) { if (!x[i]) { x[i] = 1; } }
            struct embc_buffer_s *a = sized(0, cap, &m0), *b = sized(1, cap, &m1);
            bool f = VH_FATAL({ if (off) { embc_buffer_write(a, x, off); } embc_buffer_write(a, x, n); });
            VH_CHECK(!f, "refused-valid", "a write of %d bytes at %d of %d was refused", n, off, cap);
            put(&M[0], x, off); put(&M[0], x, n); same(0, "write");
            embc_buffer_cursor_set(a, off); M[0].cur = off; same(0, "cursor_set");
            f = VH_FATAL(embc_buffer_read(a, y, n)); M[0].cur += n;
            VH_CHECK(!f && !memcmp(x, y, (size_t) n), "read", "a read of %d bytes at %d of %d %s", n, off, cap, f ? "was refused" : "returned other bytes");
            same(0, "read");
            f = VH_FATAL({ embc_buffer_cursor_set(a, off); if (off) { embc_buffer_write(b, x, off); } embc_buffer_copy(b, a, n); });
            VH_CHECK(!f, "refused-valid", "a copy of %d bytes from %d to %d of %d was refused", n, off, off, cap);
            M[0].cur = off; put(&M[1], x, off); put(&M[1], x, n); same(0, "copy (source)"); same(1, "copy");
            if (n + off < cap) {                        /* one byte more than the source holds */
                f = VH_FATAL({ embc_buffer_cursor_set(b, 0); embc_buffer_copy(b, a, n + 1); }); M[1].cur = 0;
                VH_CHECK(f, "accepted-invalid", "a copy of %d bytes from %d", n + 1, n); same(0, "copy (source)"); same(1, "copy");
            }
            x[n] = 0;
            embc_buffer_cursor_set(b, off); M[1].cur = off;
            f = VH_FATAL(embc_buffer_write_str(b, (const char *) x));
            VH_CHECK(!f, "refused-valid", "a string of %d characters at %d of %d was refused", n, off, cap);
            put(&M[1], x, n); same(1, "write_str");
            embc_buffer_cursor_set(b, off); M[1].cur = off; x[0] = n ? 'X' : 0;
            bool whole = false; f = VH_FATAL(whole = embc_buffer_write_str_truncate(b, (const char *) x));
            VH_CHECK(!f && whole, "refused-valid", "a string of %d characters at %d of %d was cut", n, off, cap);
            put(&M[1], x, n); same(1, "write_str_truncate");
            for (int e = 0; e < 3 && n > 2; ++e) {       /* erase the block, its head, its middle */
                embc_buffer_reset(a); embc_buffer_write(a, x, n); M[0].cur = M[0].len = 0; put(&M[0], x, n);
                int from = e == 2 ? 1 : 0, to = e == 0 ? n : n - 1, cur = e == 1 ? n / 2 : n, k = to - from;
                embc_buffer_cursor_set(a, cur); M[0].cur = cur;
                f = VH_FATAL(embc_buffer_erase(a, from, to));
                VH_CHECK(!f, "refused-valid", "erasing %d..%d of %d was refused", from, to, n);
                memmove(M[0].d + from, M[0].d + to, (size_t) (n - to)); M[0].len -= k; M[0].cur = cur >= to ? cur - k : cur > from ? from : cur;
                VH_CHECK(a->length == M[0].len && a->cursor == M[0].cur && !memcmp(a->data, M[0].d, (size_t) M[0].len), "erase", "erasing %d..%d of %d with the cursor at %d: length %d, cursor %d", from, to, n, cur, a->length, a->cursor);
                memcpy(M[0].d, a->data, (size_t) cap);
            }
            free(x); free(y); free(a); free(b); free(m0); free(m1); free(M[0].d); free(M[1].d);
            vh_count("block_sizes", 1);
        }
    }
}
const vh_scenario_t vh_scenarios[] = {{"sizes", sc_sizes}, {0, 0}};
