"""C34: the Python bindings mirror the C library (run by check.py with the interface of vh.c).

 * ASSUME: calls respect the contracts of the C functions (a ctypes callback cannot raise through C, so a fatal error returns).
 * ASSUME: at most three messages per side are in flight, because the bindings' framer owns eight buffers per size.
 * ASSUME: sessions judged for delivery see at most two lost or doubled frames between quiet moments (the receiver gives up on a
   frame after 800 ms), so delivery is always due; damaged bytes occur in the ping sessions, which are judged by their accounting.
 * ASSUME: the serial port is a stand-in module; pyserial is not needed.
"""
import ctypes
import functools
import gc
import hashlib
import importlib.util
import io
import json
import logging
import os
import random
import re
import signal
import struct
import sys
import time
import types

RULE = 'a case that completed at least 20 binding operations checked against the model or the C view'
A = dict(seed=1, workers=1, worker=0, only=None, out=None, cpu=40, scenario=None, thorough=False, divide=1, list=False, cases=0)
HERE = os.path.dirname(os.path.abspath(__file__))
R = random.Random()
TRACE, COUNT, STATE = [], {}, dict(case=0, scenario='', sig=None, ops=0)


def fail(key, msg):
    out = A['out']
    with (open(out + '.fail', 'w') if out else sys.stderr) as f:
        f.write('KEY %s\nCASE %d\nSCENARIO %s\nSEED %d\nMSG %s\n--- trace (most recent last) ---\n' % (
            key, STATE['case'], STATE['scenario'], A['seed'], str(msg).replace('\n', ' ')[:900]))
        f.write('\n'.join(TRACE[-1500:]))
    os._exit(77)


def check(cond, key, fmt, *a):
    STATE['ops'] += 1
    if not cond:
        fail(key, fmt % a)


def trace(fmt, *a):
    TRACE.append((fmt % a)[:300])


def count(name, n=1):
    COUNT[name] = COUNT.get(name, 0) + n


def sig(*a):
    STATE['sig'].update(repr(a).encode())


def on_prof(*a):
    with open((A['out'] or '/tmp/vh') + '.hang', 'w') as f:
        f.write('%d\n' % STATE['case'])
    os._exit(78)


def unraisable(u):
    fail('callback-exception:%s' % type(u.exc_value).__name__, 'a callback raised %r' % u.exc_value)


# ---------------------------------------------------------------- virtual time
class Clock:
    t = 0.0

    def restart(self):
        self.t = R.choice((0.0, 1.0, 1.6e9, 1234.5))
        return self


CLOCK = Clock()


def install_clock():
    """Before the bindings are imported, however they get at the time."""
    for n in ('time', 'monotonic', 'perf_counter'):
        setattr(time, n, lambda: CLOCK.t)
        setattr(time, n + '_ns', lambda: int(CLOCK.t * 10 ** 9))


# ---------------------------------------------------------------- loading
def load():
    global embc, V, buf, fr, lib
    install_clock()
    sys.path.insert(0, os.path.join(HERE, 'py'))
    try:
        import embc as e
    except Exception as x:
        fail('import', 'the bindings cannot be imported: %r' % x)
    embc = e
    buf, fr, lib = embc.memory.buffer, embc.stream.framer, embc.lib
    V = ctypes.CDLL(os.path.join(HERE, 'libview.so'))
    i64p = ctypes.POINTER(ctypes.c_int64)
    V.v_live.restype = ctypes.c_int64
    V.v_buffer.argtypes = [ctypes.c_void_p, i64p]
    V.v_buffer_put.argtypes = [ctypes.c_void_p, ctypes.c_uint16, ctypes.c_uint16]
    V.v_alloc.restype = ctypes.c_void_p
    V.v_alloc.argtypes = [ctypes.c_void_p, ctypes.c_int64]
    V.v_free.argtypes = [ctypes.c_void_p]
    V.v_pattern_next.restype = ctypes.c_uint32
    V.v_pattern_rx.argtypes = [ctypes.c_uint32]
    V.v_pattern_counts.argtypes = [ctypes.c_void_p, i64p]
    V.v_pattern_age.argtypes = [ctypes.c_void_p] + [ctypes.c_uint64] * 3 + [ctypes.c_uint32]
    V.v_ec_name.restype = ctypes.c_char_p
    V.v_const.argtypes = [i64p]
    V.v_status.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_uint32)]
    V.v_fatal.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_char_p]
    V.v_log.argtypes = [ctypes.c_char_p]
    V.v_peer_rx.argtypes = [ctypes.c_char_p, ctypes.c_int64]
    V.v_peer_tick.argtypes = [ctypes.c_int64]


def arr(fn, n, *a):
    o = (ctypes.c_int64 * n)()
    fn(*a, o)
    return list(o)


FATAL = None


def quiet():
    """From here on any fatal error is a violation, logs are discarded and memory goes through a ledger."""
    global FATAL

    def fatal(obj, file, line, msg):
        fail('unexpected-fatal:%s' % msg.decode('latin-1'), 'fatal %s:%d %s' % (file, line, msg))
    FATAL = lib.FATAL_CBK(fatal)
    V.v_ledger()
    if A['scenario'] == 'lib':
        return
    lib.fatal_set(FATAL, None)
    V.v_print_off()
    sys.unraisablehook = unraisable
    logging.disable(logging.CRITICAL)


def rbytes(n):
    if R.random() < .2:
        return bytes([R.choice((0, 0x55, 0xAA, 0xFF))]) * n
    return bytes(R.getrandbits(8) for _ in range(n))


# ---------------------------------------------------------------- buffers
def view(p):
    return arr(V.v_buffer, 12, ctypes.addressof(p.contents))


class Model:
    def __init__(self, cap):
        self.cap, self.data, self.cursor, self.reserve, self.id, self.flags = cap, bytearray(), 0, 0, 0, 0

    def put(self, b):
        e = self.cursor + len(b)
        if e > len(self.data):
            self.data.extend(bytes(e - len(self.data)))
        self.data[self.cursor:e] = b
        self.cursor = e


SIZED = [('u8', 1, 'B'), ('u16_le', 2, '<H'), ('u32_le', 4, '<I'), ('u64_le', 8, '<Q'), ('u16_be', 2, '>H'), ('u32_be', 4, '>I'),
         ('u64_be', 8, '>Q')]


def same(p, m):
    b, v = p.contents, view(p)
    check(v[:6] == [m.cap, m.cursor, len(m.data), m.reserve, m.id, m.flags], 'buffer:c-view', 'C sees %s, expected %s', v[:6],
          [m.cap, m.cursor, len(m.data), m.reserve, m.id, m.flags])
    check([b.capacity, b.cursor, b.length, b.reserve, b.buffer_id, b.flags] == v[:6], 'buffer:fields', 'Python sees %s, C sees %s',
          [b.capacity, b.cursor, b.length, b.reserve, b.buffer_id, b.flags], v[:6])
    check(ctypes.cast(b.data, ctypes.c_void_p).value == v[6] and ctypes.addressof(b) + type(b).item.offset == v[8]
          and ctypes.sizeof(b) == v[9] and ctypes.cast(b.manager, ctypes.c_void_p).value == v[7], 'buffer:layout', 'layout differs: %s', v)
    check(b.write_remaining == v[10], 'buffer:write-remaining', 'write_remaining %d, C %d', b.write_remaining, v[10])
    check(b.read_all() == bytes(m.data), 'buffer:read-all', 'read_all %s expected %s', b.read_all().hex(), bytes(m.data).hex())
    check(b.read_remaining() == bytes(m.data[m.cursor:]), 'buffer:read-remaining', 'read_remaining differs')
    left = getattr(b, 'read_reamaining', None)
    check(left is None or left == len(m.data) - m.cursor, 'buffer:read-left', '%s bytes left to read, expected %d', left, len(m.data) - m.cursor)


def case_buffer():
    base = V.v_live()
    n = R.randint(1, 8)
    sizes = [R.choice((0, 1, 2, 3, 5)) for _ in range(n)]
    sizes[R.randrange(n)] = R.randint(1, 4)
    a = buf.initialize((ctypes.c_size_t * n)(*sizes), n)
    check(bool(a), 'buffer:initialize', 'no allocator')
    check(V.v_live() == base + 1, 'buffer:heap', 'initialize left %d blocks', V.v_live() - base)
    trace('sizes %s', sizes)
    sig(sizes)
    free = list(sizes)
    live = []
    for _ in range(R.randint(10, 60)):
        usable = [i for i in range(n) if free[i]]
        if usable and (not live or R.random() < .25):
            i = R.choice(usable)
            size = R.randint(1 if i == 0 else (32 << (i - 1)) + 1, 32 << i)
            p = buf.alloc(a, size)
            check(bool(p), 'buffer:alloc', 'alloc(%d) returned NULL', size)
            free[i] -= 1
            m = Model(32 << i)
            spans = [(view(q)[6], x.cap) for q, x in live]
            d = view(p)[6]
            check(all(d + m.cap <= s or s + c <= d for s, c in spans), 'buffer:overlap', 'overlaps a live buffer')
            live.append((p, m))
            trace('alloc(%d)', size)
            count('buffers_allocated')
            same(p, m)
            continue
        if not live:
            continue
        k = R.randrange(len(live))
        p, m = live[k]
        b = p.contents if R.random() < .5 else p[0]
        room, left = m.cap - m.reserve - m.cursor, len(m.data) - m.cursor
        op = R.randrange(13)
        sig(op)
        if op == 0:
            way = R.randrange(3)
            trace('free %d', way)
            if way == 0:
                buf.free(p)
            elif way == 1:
                b.free()
            else:
                buf.free(b)
            free[(m.cap // 32).bit_length() - 1] += 1
            live.pop(k)
            count('buffers_freed')
            continue
        elif op in (1, 2):
            x = rbytes(R.choice((0, 1, room, R.randint(0, room))) if room else 0)
            trace('write %d', len(x))
            if op == 1:
                b.write(x)
            else:
                buf.write(p, ctypes.create_string_buffer(x, len(x) or 1), len(x))
            m.put(x)
        elif op == 3:
            name, w, f = R.choice(SIZED)
            if w <= room:
                x = rbytes(w)
                trace('write_%s', name)
                getattr(buf, 'write_' + name)(p, struct.unpack(f, x)[0])
                m.put(x)
        elif op == 4:
            name, w, f = R.choice(SIZED)
            if w <= left:
                trace('read_%s', name)
                g, x = getattr(buf, 'read_' + name)(p), struct.unpack(f, bytes(m.data[m.cursor:m.cursor + w]))[0]
                check(g == x, 'buffer:read-int', 'read_%s returned %s, expected %s', name, g, x)
                m.cursor += w
        elif op == 5:
            q = R.randint(0, left)
            o = ctypes.create_string_buffer(q + 1)
            buf.read(p, o, q)
            check(o.raw[:q] == bytes(m.data[m.cursor:m.cursor + q]) and o.raw[q] == 0, 'buffer:read', 'read returned other bytes')
            m.cursor += q
        elif op == 6:
            i = R.randint(0, len(m.data))
            if R.random() < .2:
                try:
                    b.cursor_set(R.choice((-1, len(m.data) + 1, 65535 if m.cap < 65535 else 65536)))
                    bad = True
                except Exception:
                    bad = False
                check(not bad, 'buffer:cursor-range', 'a cursor outside of the data was accepted')
                same(p, m)
            b.cursor_set(i)
            m.cursor = i
        elif op == 7:
            i = R.randint(0, len(m.data))
            b.cursor = i
            m.cursor = i
        elif op == 8 and m.data:
            s = R.randrange(len(m.data))
            e = R.randint(s, len(m.data))
            trace('erase %d %d', s, e)
            b.erase(s, e)
            if m.cursor >= e:
                m.cursor -= e - s
            elif m.cursor > s:
                m.cursor = s
            del m.data[s:e]
        elif op == 9:
            if R.random() < .3:
                b.reset()
                m.data, m.cursor = bytearray(), 0
        elif op == 10:
            m.id, m.flags = R.getrandbits(16), R.getrandbits(16)
            if R.random() < .5:
                b.buffer_id, b.flags = m.id, m.flags
            else:
                V.v_buffer_put(ctypes.addressof(b), m.id, m.flags)
            r = R.randint(0, m.cap - max(m.cursor, len(m.data)))
            b.reserve = r
            m.reserve = r
        elif op == 11:
            x = bytes(R.randint(1, 255) for _ in range(R.choice((0, room, room + 1, R.randint(0, room + 8)))))
            trace('write_str_truncate %d into %d', len(x), room)
            g = buf.write_str_truncate(p, x)
            check(g is not None and bool(g) == (len(x) <= room), 'buffer:truncate-result', 'write_str_truncate of %d into %d returned %r',
                  len(x), room, g)
            m.put(x[:room])
        elif op == 12 and len(live) > 1:
            q, mq = R.choice(live)
            if q is not p:
                c = R.randint(0, min(room, len(mq.data) - mq.cursor))
                trace('copy %d', c)
                buf.copy(p, q, c)
                m.put(bytes(mq.data[mq.cursor:mq.cursor + c]))
                same(q, mq)
        same(p, m)
        count('buffer_operations')
    for p, m in live:
        same(p, m)
        buf.free(p)
    got = []      # conservation: every class yields exactly its number again
    for i in range(n):
        for k in range(sizes[i]):
            p = V.v_alloc(a, 32 << i)
            check(bool(p), 'buffer:conservation', 'class %d: only %d of %d buffers came back', i, k, sizes[i])
            got.append(p)
        if sizes[i]:
            check(not V.v_alloc(a, 32 << i), 'buffer:conservation', 'class %d has more than %d buffers', i, sizes[i])
    for p in got:
        V.v_free(p)
    buf.finalize(a)
    check(V.v_live() == base, 'buffer:leak', 'finalize left %d blocks', V.v_live() - base)


# ---------------------------------------------------------------- pattern
def case_pattern():
    V.v_pattern_init()
    tx, rx = embc.PatternTx(), embc.PatternRx()
    words = []
    for _ in range(R.randint(1, 6)):
        n = R.choice((1, 2, 66, 67, R.randint(1, 400)))
        if R.random() < .5:
            w = [tx.next_u32() for _ in range(n)]
        else:
            b = embc.allocate_pattern_buffer(n)
            check(len(b) == n, 'pattern:allocate', '%d words, asked for %d', len(b), n)
            tx.next_buffer(b)
            w = list(b)
        e = [V.v_pattern_next() for _ in range(n)]
        check(w == e, 'pattern:tx', 'transmitted words differ from the C transmitter')
        words += w
    count('pattern_words', len(words))
    k = R.randrange(4)
    if k == 1 and len(words) > 20:
        i = R.randrange(10, len(words) - 5)
        del words[i:i + R.randint(1, 4)]
    elif k == 2:
        words[R.randrange(len(words))] ^= 1 << R.randrange(32)
    elif k == 3:
        i = R.randrange(len(words))
        words[i:i] = [words[i - 1]]
    sig(k, len(words), words[-1])
    i = 0
    while i < len(words):
        n = min(R.randint(1, 60), len(words) - i)
        w = words[i:i + n]
        i += n
        way = R.randrange(4)
        if way == 0:
            for x in w:
                rx.next_u32(x)
        elif way == 1:
            rx.next_buffer(list(w))
        elif way == 2:
            rx.next_buffer(struct.pack('=%dI' % n, *w))
        else:
            rx.next_buffer((ctypes.c_uint32 * n)(*w))
        for x in w:
            V.v_pattern_rx(x)
        e = arr(V.v_pattern_counts, 7, None)
        g = [rx.receive_count, rx.missing_count, rx.error_count, rx.resync_count]
        check(g == e[:2] + e[3:5], 'pattern:counts', 'way %d: Python counters %s, C counters %s', way, g, e[:5])
    if isinstance(getattr(rx, '_native', None), ctypes.Structure) and R.random() < .5:
        v = [R.getrandbits(R.choice((8, 31, 32, 33, 48, 64))) for _ in range(3)] + [R.getrandbits(32)]
        V.v_pattern_age(ctypes.addressof(rx._native), *v)
        g = [rx.receive_count, rx.missing_count, rx.error_count, rx.resync_count]
        check(g == v, 'pattern:wide-counts', 'Python counters %s, C counters %s', g, v)
        w = [tx.next_u32() for _ in range(20)]
        rx.next_buffer(w)
        check(rx.receive_count == (v[0] + 20) & (2 ** 64 - 1), 'pattern:wide-next', 'receive count %d after 20 more than %d', rx.receive_count, v[0])
        count('pattern_aged', 1)


# ---------------------------------------------------------------- link


class Side:
    def __init__(self, clock, name):
        self.name, self.clock = name, clock
        self.expect, self.done, self.wait, self.sent = [], [], [], 0    # expect: what the peer must deliver next, in order
        self.fresh()

    def fresh(self):
        self.f = fr.Framer()
        self.out = []
        self.f.hal_tx = self.out.append
        self.ports = set(range(16))
        for p in range(16):
            self.f.register_port(p, *self.callbacks(p))

    def callbacks(self, p):
        return functools.partial(self.rx, p), functools.partial(self.tx_done, p)

    def rx(self, registered, *a):
        check(registered == a[0], 'link:port', 'a frame for port %d reached the callback of port %d', a[0], registered)
        trace('%s rx %d %d %d len %d', self.name, a[0], a[1], a[2], len(a[3]))
        if a[0] == 0 and a[2] in (fr.Port0.PING_RSP, fr.Port0.STATUS_RSP):
            check(self.wait, 'link:response-unasked', 'unexpected response %s', a[:3])
            w = self.wait.pop(0)
            check(w[0] == a[2] and w[1] == a[1], 'link:response-order', 'response %s, expected %s', a[:3], w)
            if w[0] == fr.Port0.PING_RSP:
                check(w[2] == a[3], 'link:ping-payload', 'ping payload changed')
            else:
                check(len(a[3]) >= 40, 'link:status-size', 'status of %d bytes', len(a[3]))
                v = struct.unpack('<10I', a[3][:40])
                p = self.peer.f.status
                g = [getattr(p, n) for n, _ in p._fields_]
                check(v[0] == g[0] and all(x <= y for x, y in zip(v, g)) and g[1] - v[1] <= 400, 'link:status-values', 'status %s, the peer has %s', v, g)
            count('responses')
            return
        if a[0] == 0 and a[2] == fr.Port0.RESYNC:
            return
        check(self.peer.expect, 'link:extra-delivery', 'delivered %s, nothing was due', a[:3])
        e = self.peer.expect.pop(0)
        check(e == a, 'link:delivery', 'delivered %s %s, expected %s %s', a[:3], a[3].hex(), e[:3], e[3].hex())
        count('delivered')

    def tx_done(self, registered, *a):
        check(registered == a[0], 'link:port', 'a completion for port %d reached the callback of port %d', a[0], registered)
        trace('%s tx_done %s', self.name, a)
        check(a[:3] in [d[:3] for d in self.done], 'link:extra-completion', 'completion %s was not due', a)
        for i, d in enumerate(self.done):
            if d[:3] == a[:3]:
                self.done.pop(i)
                check(a[3] == d[3], 'link:status', 'completion %s, expected status %d', a, d[3])
                break
        count('completed')

    def send(self, raw=False):
        port, mid, pdef = R.randrange(16), R.getrandbits(8), R.getrandbits(16)
        data = rbytes(R.choice((0, 1, 2, 239, 240, R.randint(0, 240))))
        if port == 0:
            kind = R.randrange(3)
            if kind == 0:
                pdef = fr.Port0.PING_REQ
                self.wait.append((fr.Port0.PING_RSP, mid, data))
            elif kind == 1:
                pdef = fr.Port0.STATUS_REQ
                self.wait.append((fr.Port0.STATUS_RSP, mid, data))
            else:
                port = 1
        if port:
            self.expect.append((port, mid, pdef, data))
        self.done.append((port, mid, pdef, 0))
        trace('%s send %d %d %d len %d', self.name, port, mid, pdef, len(data))
        sig(port, len(data))
        if raw:
            b = fr.alloc(self.f.framer)
            b[0].write(data)
            fr.send(self.f.framer, port, mid, pdef, b)
        else:
            self.f.send(port, mid, pdef, data)
        count('sent')

    def status_check(self):
        o = (ctypes.c_uint32 * 10)()
        V.v_status(self.f.framer, o)
        s = self.f.status
        g = tuple(getattr(s, n) for n in ('version', 'rx_count', 'rx_data_count', 'rx_ack_count', 'rx_deduplicate_count',
                                          'rx_synchronization_error', 'rx_mic_error', 'rx_frame_id_error', 'tx_count', 'tx_retransmit_count'))
        check(g == tuple(o), 'link:status-fields', 'Python status %s, C status %s', g, tuple(o))
        check(all(('%s=%d' % (n, getattr(s, n))) in str(s) for n, _ in s._fields_), 'link:status-text', 'str(status) = %s', s)


LAST = {}


def deliver(a, b, budget):
    """Moves what a transmitted to b, spending from the fault budget."""
    moved = False
    while a.out:
        x = a.out.pop(0)
        moved = True
        trace('%s -> %s', a.name, x[:14].hex())
        LAST[b.name] = x
        if budget[0] and R.random() < .4:
            budget[0] -= 1
            k = R.randrange(2)
            trace('fault %d on %d bytes from %s', k, len(x), a.name)
            count('faults')
            sig('f', k)
            if k == 0:
                continue
            x += x      # twice
        if a.out and R.random() < .2:
            x += a.out.pop(0)
        while x:
            n = R.choice((1, len(x), R.randint(1, len(x))))
            b.f.hal_rx(x[:n])
            x = x[n:]
    return moved


def settle(s, clock, budget):
    for _ in range(4000):
        moved = deliver(s[0], s[1], budget) | deliver(s[1], s[0], budget)
        if moved:
            continue
        if not any(x.done or x.expect or x.wait for x in s):
            return
        clock.t += R.choice((.001, .02, .1))
        for x in s:
            x.f.process()
    fail('link:stuck', 'not settled: %s' % [(x.done, x.expect, x.wait) for x in s])


def drain(s, clock):
    for _ in range(20):
        settle(s, clock, [0])
        clock.t += .1
        for x in s:
            x.f.process()


def case_link():
    LAST.clear()
    base = V.v_live()
    clock = CLOCK.restart()
    s = [Side(clock, 'A'), Side(clock, 'B')]
    s[0].peer, s[1].peer = s[1], s[0]
    lossy = R.random() < .7
    for _ in range(R.randint(2, 14)):
        budget = [R.randint(0, 2) if lossy else 0]
        for x in s:
            for _ in range(R.randint(0, 3)):
                x.send(R.random() < .3)
        settle(s, clock, budget)
        for x in s:
            x.status_check()
        act = R.random()
        if act < .08:       # the peer restarts; a resync makes the link usable again
            k = R.randrange(2)
            trace('restart %s', s[k].name)
            old = s[k].f
            s[k].fresh()
            del old
            gc.collect()
            for _ in range(40):
                clock.t += .1
                for x in s:
                    x.f.process()
            for x in s:
                x.out.clear()
            for j in (0, 1):
                s[j].done.append((0, 0, fr.Port0.RESYNC, 0))
                s[j].f.resync()
                settle(s, clock, [0])
            count('restarts')
        elif act < .16:     # silence: the retry budget, then exactly one error
            drain(s, clock)     # the acknowledgement of a response may still be due
            a = s[R.randrange(2)]
            a.f.send(3, 7, 9, b'lost')
            a.done.append((3, 7, 9, embc.ec.TIMED_OUT))
            tries = 0
            for _ in range(3000):
                tries += len(a.out)
                a.out.clear()
                if not a.done:
                    break
                clock.t += .01
                a.f.process()
            check(not a.done, 'link:no-timeout', 'no completion for a silent peer')
            check(tries == fr.MAX_RETRIES + 1, 'link:retries', '%d transmissions to a silent peer', tries)
            for j in (0, 1):
                s[j].done.append((0, 0, fr.Port0.RESYNC, 0))
                s[j].f.resync()
                settle(s, clock, [0])
            count('silent_peers')
        elif act < .24:     # a payload too long for one frame is refused, not cut
            n = R.choice((241, 255, 256, 257, 300, 512, 496))
            try:
                s[0].f.send(2, 1, 1, rbytes(n))
                fail('link:oversize', 'a payload of %d bytes was accepted' % n)
            except (ValueError, AssertionError, ctypes.ArgumentError, OverflowError):
                pass
            settle(s, clock, [0])
            count('oversize_refused')
        elif act < .32:     # a port without callbacks drops what arrives
            k = R.randrange(2)
            s[k].f.register_port(5, None, None)
            s[1 - k].f.send(5, 1, 2, b'nobody')
            s[1 - k].done.append((5, 1, 2, 0))
            drain(s, clock)     # delivery may wait for the receive timeout before the first resync
            s[k].f.register_port(5, *s[k].callbacks(5))
        clock.t += R.choice((0, .01, 1.0))
        for x in s:
            x.f.process()
    for x in s:         # error counters: the status fields are those C counts
        for _ in range(R.randint(0, 3)):
            y = bytearray(LAST.get(x.name, b'\xaa') if R.random() < .7 else rbytes(R.randint(1, 300)))
            y[R.randrange(len(y))] ^= 1 << R.randrange(8)
            x.f.hal_rx(bytes(y))
        x.status_check()
        x.out.clear()
    left = R.random() < .5
    if left:        # teardown with messages in flight
        s[0].f.send(1, 1, 1, b'in flight')
    for x in s:
        x.f.hal_tx = lambda b: None
        x.f.register_port(1, None, None)
        x.peer = None
        x.f = None
    del s, x
    gc.collect()
    check(V.v_live() == base, 'link:leak', 'deleting the framers left %d heap blocks', V.v_live() - base)
    count('teardowns')


# ---------------------------------------------------------------- tools
def tool(name):
    spec = importlib.util.spec_from_file_location(name, os.path.join(HERE, 'py', 'bin', name + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


WIRE = {}


class FakeSerial:
    def __init__(self, port=None, baudrate=None, timeout=None):
        self.port, self.is_open = port, False

    def open(self):
        self.is_open = True
        WIRE[self.port] = bytearray()

    def close(self):
        self.is_open = False

    def write(self, b):
        x = bytes(b)
        if WIRE['loss']() and x:
            count('qual_faults')
            y = bytearray(x)
            if R.random() < .5:
                return len(x)
            y[R.randrange(len(y))] ^= 1 << R.randrange(8)
            x = bytes(y)
        WIRE['B' if self.port == 'A' else 'A'] += x
        return len(b)

    def read(self):
        q = WIRE[self.port]
        n = min(len(q), R.choice((1, 16, 64, 300)))
        x = bytes(q[:n])
        del q[:n]
        return x


class Recorder:
    """Stands in for the tool's logger."""
    def __init__(self):
        self.text = []

    def _log(self, m, *a, **k):
        self.text.append(m % a if a else str(m))
    debug = info = warning = error = critical = exception = _log


QUAL = None
STATS = re.compile(r'in (\d+) frames.*?tx=(\d+), rx_missing=(\d+), timeout=(\d+)')


def qual():
    global QUAL
    sys.modules['serial'] = types.SimpleNamespace(Serial=FakeSerial)
    if QUAL is None:
        QUAL = tool('framer_qual')
        QUAL.print = lambda *a: None
    QUAL.log = Recorder()
    WIRE.clear()
    return QUAL


def case_qual():
    """PingQueue over the Python framer, with a C framer answering at the other end of a lossy wire."""
    q = qual()
    base = V.v_live()
    clock = CLOCK.restart()
    loss = R.choice((0, 0, .02, .2, 1.0))
    outage = R.uniform(0.5, 8)
    start = [clock.t]
    up, down = [], []
    f = fr.Framer()
    f.hal_tx = up.append
    V.v_peer_new()
    n = R.randint(1, 60)
    sent = []

    def send(msg):
        check(sum(1 for x in sent if not x.tx_done_received and not x.gone) < q.TX_PING_DEPTH, 'qual:depth', 'more than three pings in flight')
        msg.gone, msg.at = False, clock.t
        sent.append(msg)
        f.send(0, msg.message_id, fr.Port0.PING_REQ, msg.payload)
    ping = q.PingQueue(n, send)

    def stats():
        q.log.text.clear()
        ping.log_total_stats()
        m = STATS.search(' '.join(q.log.text))
        check(m, 'qual:stats', 'no totals in %s', q.log.text)
        return [int(x) for x in m.groups()]

    def rx(port, message_id, port_def, data):
        if port_def == fr.Port0.PING_RSP:
            ping.rx(message_id, data)
            count('qual_responses')

    def tx_done(port, message_id, port_def, status):
        if port_def == fr.Port0.PING_REQ:
            for x in sent:
                if x.message_id == message_id and not x.tx_done_received and status:
                    x.gone = True
            ping.tx_done(message_id, status)
    f.register_port(0, rx, tx_done)
    sig(loss, n, round(outage, 1))

    def wire(x, lossy):
        if x and lossy and clock.t - start[0] < outage and R.random() < loss:
            count('qual_faults')
            if R.random() < .5:
                return b''
            y = bytearray(x)
            y[R.randrange(len(y))] ^= 1 << R.randrange(8)
            return bytes(y)
        return x
    take = ctypes.create_string_buffer(1 << 16)

    def turn(lossy):
        clock.t += R.choice((.001, .005, .02))
        while up:
            x = wire(up.pop(0), lossy)
            V.v_peer_rx(x, len(x))
        f.process()
        V.v_peer_tick(int(clock.t * 2 ** 30))
        k = V.v_peer_take(take)
        x = take.raw[:k] if k else b''
        while x:
            k = R.choice((1, 16, 64, 300))
            b = wire(x[:k], lossy)
            if b:
                f.hal_rx(b)
            x = x[k:]
        for x in sent:
            x.gone = x.gone or clock.t - x.at >= q.PING_TIMEOUT
    V.v_peer_tick(int(clock.t * 2 ** 30))
    f.resync()
    for _ in range(100):
        turn(False)
    start[0] = clock.t
    total, settled = 0, 0
    for _ in range(60000):
        ping.process()
        turn(True)
        s = stats()
        total = sum(s)
        check(total <= len(sent), 'qual:accounting', '%d pings sent, but completed, errors, missing, timeout = %s', len(sent), s)
        check(s[2] <= sum(1 for x in sent if not x.response_received), 'qual:missing',
              '%d pings missing, but only %d were never answered', s[2], sum(1 for x in sent if not x.response_received))
        check(s[0] <= sum(1 for x in sent if x.response_received and x.tx_done_received), 'qual:completed', '%d pings completed', s[0])
        if len(sent) == n and total == n:
            settled += 1
            if settled > 20:
                break
    check(len(sent) == n and total == n, 'qual:stuck', '%d pings asked for, %d sent, %d accounted for: %s', n, len(sent), total, s)
    if not loss:
        check(s == [n, 0, 0, 0], 'qual:clean', 'a clean link gave %s for %d pings', s, n)
    count('pings', n)
    count('pings_completed', s[0])
    f.hal_tx = lambda b: None
    f.register_port(0, None, None)
    del f, ping
    V.v_peer_delete()
    stats = rx = tx_done = send = turn = None
    gc.collect()
    check(V.v_live() == base, 'qual:leak', 'the session left %d heap blocks', V.v_live() - base)


def sc_master():
    """Two whole framer_qual programs wired back to back, pinging each other in turn."""
    q = qual()
    base = V.v_live()
    clock = CLOCK.restart()
    WIRE['loss'] = lambda: False
    m = [q.MasterFramer('A', 115200), q.MasterFramer('B', 115200)]
    for k in 'AB':
        WIRE[k] = bytearray()
    for x in m:
        x.open()

    def turn():
        clock.t += .002
        for x in m:
            x.process()
    for _ in range(1000):
        turn()
    for k in range(6):
        q.log.text.clear()
        m[k % 2].start_ping(-1)     # without end
        for _ in range(6000):
            turn()
        s = [[int(x) for x in g.groups()] for g in map(STATS.search, q.log.text) if g]
        check(len(s) >= 8 and sum(x[0] for x in s) > 1000, 'qual:throughput', 'running totals %s', s)
        check(all(x[1:] == [0, 0, 0] for x in s), 'qual:clean', 'errors on a clean link: %s', s)
        m[k % 2].start_ping(0)
        for _ in range(1000):
            turn()
    for x in m:
        x.close()
    m = x = turn = None
    gc.collect()
    check(V.v_live() == base, 'qual:leak', 'the session left %d heap blocks', V.v_live() - base)


LOGCHECK = None
LOGLINES = []
PRINT = None


def case_logcheck():
    global LOGCHECK, PRINT
    if LOGCHECK is None:
        LOGCHECK = tool('buffer_log_check')
        PRINT = lib.PRINT_CBK(lambda u, s: LOGLINES.append(s.decode('latin-1')))
    LOGLINES.clear()
    lib.print_set(PRINT, None)
    n = R.randint(1, 6)
    a = buf.initialize((ctypes.c_size_t * 2)(n, n), 2)
    live, ids, freed = [], {}, []
    for k in range(R.randint(5, 40)):
        if R.random() < .55:
            if R.random() < .5 and sum(1 for b in live if b[1] == 32) < n:
                p = buf.alloc(a, 32)
                live.append((ctypes.addressof(p.contents), 32))
            else:
                p = V.v_alloc(a, 64)
                if p:
                    live.append((p, 64))
        elif live:
            p = live.pop(R.randrange(len(live)))
            V.v_free(p[0])
    lines = list(LOGLINES)
    V.v_print_off()
    frees = [i for i, x in enumerate(lines) if 'free' in x]
    allocs = [i for i, x in enumerate(lines) if 'alloc' in x and '(nil)' not in x]
    check(len(allocs) >= len(live), 'logcheck:log', 'the library logged %d allocations', len(allocs))
    drop = None
    bad_free = bad_alloc = 0
    k = R.randrange(3)
    if k == 1 and frees:        # the log of a program that forgot one free
        drop = R.choice(frees)
    elif k == 2 and allocs:     # ... or freed something twice
        drop = R.choice(allocs)
    kept = [x for i, x in enumerate(lines) if i != drop]
    held, notes, where, nth = set(), 0, {}, 0
    at = []      # the lines of the unpaired calls
    for x in kept:
        nth += x.count('\n')
        m = re.search(r'embc_buffer_alloc\S* (0x\w+)', x)
        if m:
            if m.group(1) in held:
                at.append(nth)
            notes += m.group(1) in held
            held.add(m.group(1))
            where[m.group(1)] = nth
            continue
        m = re.search(r'embc_buffer_free\S* ?.*?(0x\w+)\)?\s*$', x)
        if m:
            if m.group(1) not in held:
                at.append(nth)
            notes += m.group(1) not in held
            held.discard(m.group(1))
    path = os.path.join(HERE, 'log_%d.txt' % os.getpid())
    text = ''.join(kept)
    if R.random() < .3:
        text = text.rstrip('\n')
    with open(path, 'w') as f:
        f.write(text)
    out, argv = io.StringIO(), sys.argv
    sys.argv = ['buffer_log_check', path]
    keep, sys.stdout = sys.stdout, out
    try:
        rc = LOGCHECK.run()
    finally:
        sys.stdout, sys.argv = keep, argv
    t = out.getvalue().splitlines()
    trace('log:\n%s\n---- report:\n%s', text[-2000:], '\n'.join(t))
    got = sum(1 for x in t if x.startswith('line '))
    check(got == notes, 'logcheck:pairs', '%d unpaired calls reported, the log holds %d', got, notes)
    rest = [x.split(':')[0] for x in t if not x.startswith('line ') and 'alloc on line' in x]
    check(set(rest) == held and len(rest) == len(held), 'logcheck:unfreed', 'reported unfreed %s, expected %s', rest, sorted(held))
    lines_at = [int(re.match(r'line (\d+)', x).group(1)) for x in t if x.startswith('line ')]
    check(lines_at == at, 'logcheck:lines', 'unpaired calls reported on lines %s, they are on %s', lines_at, at)
    for x in t:
        m = re.match(r'(\w+): alloc on line (\d+)', x)
        check(not m or int(m.group(2)) == where[m.group(1)], 'logcheck:alloc-line', '%s: the allocation is on line %s', x, where.get(m and m.group(1)))
    check(rc == 0, 'logcheck:rc', 'returned %s', rc)
    sig(n, k, len(lines), len(held))
    count('log_lines', len(lines))
    for p in live:
        V.v_free(p[0])
    buf.finalize(a)


# ---------------------------------------------------------------- scenarios
def sc_names():
    i, c = 0, {}
    while V.v_ec_name(i) is not None:
        c[V.v_ec_name(i).decode()] = V.v_ec_num(i)
        i += 1
    check(embc.ec.name_to_num == c, 'ec:names', 'error codes differ: %s', set(embc.ec.name_to_num.items()) ^ set(c.items()))
    check(embc.ec.num_to_name == {v: k for k, v in c.items()}, 'ec:numbers', 'num_to_name differs')
    for k, v in c.items():
        check(getattr(embc.ec, k) == v, 'ec:module', 'embc.ec.%s is %r', k, getattr(embc.ec, k))
    o = arr(V.v_const, 10)
    P = fr.Port0
    check([P.RESYNC, P.PING_REQ, P.PING_RSP, P.STATUS_REQ, P.STATUS_RSP, fr.MAX_RETRIES] == o[:6], 'framer:constants', 'constants differ from %s', o)


def sc_list():
    L = embc.collections.list
    i = L.new()
    check(i is not None, 'list:new', 'new() returned nothing')
    me = ctypes.addressof(i)
    check(ctypes.addressof(i.next.contents) == me and ctypes.addressof(i.prev.contents) == me, 'list:reset', 'a new list is not empty')
    j = L.new()
    i.next = ctypes.pointer(j)
    L.reset(i)
    check(ctypes.addressof(i.next.contents) == me and ctypes.addressof(i.prev.contents) == me, 'list:reset', 'reset left a link')


def sc_lib():
    seen = []

    class H(logging.Handler):
        def emit(self, r):
            seen.append((r.levelno, r.getMessage()))
    logging.disable(logging.NOTSET)
    logging.getLogger('embc.lib').addHandler(H())
    logging.getLogger('embc.lib').propagate = False
    # with the callbacks that the bindings installed at import
    raised = []
    sys.unraisablehook = lambda u: raised.append(str(u.exc_value))
    V.v_fatal(b'some_file.c', 1234, b'the message')
    check(len(seen) == 1 and seen[0][0] == logging.CRITICAL and all(x in seen[0][1] for x in ('some_file.c', '1234', 'the message')),
          'lib:fatal', 'the fatal error was logged as %s', seen)
    check(len(raised) == 1 and 'the message' in raised[0], 'lib:fatal-raise', 'raised %s', raised)
    out = io.StringIO()
    keep, sys.stdout = sys.stdout, out
    try:
        for i in range(50):
            V.v_log(('text %d \u00e9 %%s' % i).encode('utf-8'))
    finally:
        sys.stdout = keep
    got = out.getvalue().splitlines()
    check(len(got) == 50 and all(g.endswith('text %d \u00e9 %%s' % i) for i, g in enumerate(got)), 'lib:print', 'printed %s', got[:3])
    sys.unraisablehook = unraisable
    for n in (1, 7, 4096):
        p = lib.alloc(n)
        check(bool(p) and ctypes.string_at(p, n) == bytes(n), 'lib:alloc', 'memory is not zero')
        lib.free(p)
    lib.free(None)


def sc_deep():
    """A long session on one pair of framers: nothing accumulates."""
    clock = CLOCK.restart()
    base = V.v_live()
    s = [Side(clock, 'A'), Side(clock, 'B')]
    s[0].peer, s[1].peer = s[1], s[0]
    for i in range(3000 if A['thorough'] else 300):
        for x in s:
            for _ in range(R.randint(0, 3)):
                x.send(R.random() < .3)
        settle(s, clock, [R.randint(0, 2)])
    for x in s:
        x.status_check()
        x.peer = None
        x.f = None
    del s, x
    gc.collect()
    check(V.v_live() == base, 'link:leak', 'a long session left %d heap blocks', V.v_live() - base)


def sc_timing():
    """A transmitter whose peer never answers: retransmissions keep the C library's pace, then the send times out."""
    o = arr(V.v_const, 10)
    for start in (0.0, 1.0, 1.6e9, 3e9):
        for step in (.001, .01, .025):
            clock = CLOCK
            clock.t = start
            f = fr.Framer()
            out, done = [], []
            f.hal_tx = lambda x: out.append((clock.t, bytes(x)))
            f.register_port(3, None, lambda *a: done.append((clock.t, a)))
            pause = R.choice((0, .5, 70, 4000))
            clock.t += pause
            f.process()
            t0 = clock.t
            f.send(3, 9, 0x1234, b'hello')
            check(len(out) == 1, 'timing:first', '%d frames sent at once', len(out))
            while not done and clock.t - t0 < 20:
                clock.t += step
                f.process()
            check(done, 'timing:never', 'the send never completed with a silent peer')
            check(len(done) == 1 and done[0][1][:3] == (3, 9, 0x1234) and done[0][1][3] == o[9], 'timing:status', 'completion %s', done)
            data = [t for t, x in out if x == out[0][1]]
            check(len(data) == 1 + o[5], 'timing:retries', '%d transmissions of the frame', len(data))
            for a, b in zip(data, data[1:] + [done[0][0]]):
                check(o[8] / 1000. - step <= b - a <= o[8] / 1000. + 2 * step + .001, 'timing:period', 'transmissions %.4f s apart, the C library waits %d ms', b - a, o[8])
            count('timing_transmissions', len(data))
            f = None
    gc.collect()
    f = fr.Framer()
    for p in range(256):
        f.register_port(p, None, None)
    for p in (256, 1000, -1):
        try:
            f.register_port(p, None, None)
        except Exception:
            continue
        fail('timing:port-range', 'port %d was accepted' % p)


SCEN = dict(timing=sc_timing, names=sc_names, list=sc_list, lib=sc_lib, deep=sc_deep, master=sc_master)
CASES = [case_buffer, case_pattern, case_link, case_link, case_link, case_qual, case_buffer, case_link, case_logcheck, case_link]


def start(a, b):
    R.seed(a * 1000003 + b)
    TRACE.clear()
    STATE.update(sig=hashlib.sha1(), ops=0)
    signal.setitimer(signal.ITIMER_PROF, A['cpu'])


def main():
    av = sys.argv[1:]
    while av:
        k = av.pop(0)[2:]
        if k in ('thorough', 'list'):
            A[k] = True
        else:
            v = av.pop(0)
            A[k] = v if k in ('out', 'scenario') else int(v)
    if A['list']:
        print('\n'.join(SCEN))
        return
    signal.signal(signal.SIGPROF, on_prof)
    sys.unraisablehook = unraisable
    load()
    quiet()
    if A['scenario']:
        STATE['scenario'] = A['scenario']
        start(A['seed'], 0x5ce7a710)
        guarded(SCEN[A['scenario']])
        if A['out']:
            json.dump(dict(counters=COUNT), open(A['out'], 'w'))
        return
    n = -(-(A['cases'] or (12000 if A['thorough'] else 800)) // A['divide'])
    hashes, samples, evals = set(), [], 0
    prog = os.open(A['out'] + '.progress', os.O_CREAT | os.O_RDWR | os.O_TRUNC) if A['out'] else None
    for k in ([A['only']] if A['only'] is not None else range(A['worker'], n, A['workers'])):
        STATE['case'] = k
        if prog is not None:
            os.pwrite(prog, struct.pack('<Q', k), 0)
        start(A['seed'], k)
        f = CASES[k // A['workers'] % len(CASES)] if A['only'] is None else CASES[k // 8 % len(CASES)]
        sig(f.__name__)
        guarded(f)
        evals += 1
        count(f.__name__)
        if STATE['ops'] >= 20:
            hashes.add(struct.unpack('<Q', STATE['sig'].digest()[:8])[0])
            if len(samples) < 3:
                samples.append('%s\n%s' % (f.__name__, '\n'.join(TRACE[:25])))
    signal.setitimer(signal.ITIMER_PROF, 0)
    if A['out']:
        open(A['out'] + '.hash', 'wb').write(struct.pack('<%dQ' % len(hashes), *sorted(hashes)))
        json.dump(dict(evaluations=evals, nontrivial=len(hashes), distinct=len(hashes), rule=RULE, counters=COUNT, samples=samples),
                  open(A['out'], 'w'))
    else:
        print(evals, len(hashes), COUNT)


def guarded(f):
    try:
        f()
    except Exception as e:
        import traceback
        t = traceback.extract_tb(e.__traceback__)[-1]
        trace('%s', traceback.format_exc())
        fail('exception:%s' % type(e).__name__, 'unexpected %r at %s:%d' % (e, os.path.basename(t.filename), t.lineno))


main()
sys.stdout.flush()
os._exit(0)
