/* C19: scheduled events fire once, in time order, never early, unless cancelled.
 *
 * ASSUME: event ids identify pending events only (an id may be reused once its event fired or was cancelled); processing times lie in 0..2^62
 */
#include "vh.h"
#include "embc/event_manager.h"
#include "embc/time.h"

const char *const vh_rule =
    "A case is one event manager and 20..150 schedule/cancel/process calls: timestamps around the current time, equal, far away, zero and negative; cancellation of first, middle, last, fired, "
    "unknown and zero ids; processing at, before and far past the next timestamp; and callbacks that themselves schedule (at, before and after now), cancel the next, another or their own event, and query. "
    "Callbacks, next time and interval are compared with an ordered pending-set model at every step including inside callbacks. Non-trivial: a callback scheduled or cancelled something while other events "
    "were pending, and a cancelled event's time passed; distinct by the event history.";

uint64_t vh_case_count(int thorough) { return thorough ? 6000000 : 300000; }

#define N 256
typedef struct { int32_t id; int64_t ts; uint64_t seq; int tag; bool pending; } ev_t;
static ev_t ev[N]; static int ev_n; static uint64_t seq_;
static struct embc_evm_s *evm; static int64_t now; static bool processing; static int fired, nested_ops, budget;
static bool acted, cancelled_due; static int64_t horizon;

static int first(void) {
    int b = -1;
    for (int i = 0; i < ev_n; ++i) { if (ev[i].pending && (b < 0 || ev[i].ts < ev[b].ts || (ev[i].ts == ev[b].ts && ev[i].seq < ev[b].seq))) { b = i; } }
    return b;
}
static void queries(void) {
    int b = first();
    int64_t t = embc_evm_time_next(evm);
    VH_CHECK(t == (b < 0 ? EMBC_TIME_MIN : ev[b].ts), "time-next", "time_next is %lld, earliest pending is %lld", (long long) t, b < 0 ? -1LL : (long long) ev[b].ts);
    int64_t at = vh_chance(1, 2) ? now : vh_range(0, now + 100);
    int64_t i = embc_evm_interval_next(evm, at);
    int64_t e = b < 0 ? -1 : ev[b].ts <= at ? 0 : ev[b].ts - at;
    VH_CHECK(i == e, "interval-next", "interval_next(%lld) is %lld, expected %lld", (long long) at, (long long) i, (long long) e);
}
static char tags[N];
static void cbk(void *user, int32_t id);
static void schedule(void) {
    int s = 0;
    while (s < ev_n && (ev[s].pending || vh_chance(1, 2))) { ++s; }
    if (s >= N) { return; }
    int64_t ts;
    switch (vh_below(8)) {
        case 0: ts = now; break;
        case 1: ts = now + vh_range(1, 3); break;
        case 2: ts = vh_range(1, now > 1 ? now : 1); break;
        case 3: { int b = first(); ts = b >= 0 ? ev[b].ts : now + 5; break; }
        case 4: ts = vh_chance(1, 3) ? EMBC_TIME_MAX - (int64_t) vh_below(3) : now + (int64_t) (vh_u64() >> (8 + vh_below(50))); break;
        case 5: ts = vh_chance(1, 2) ? -(int64_t) vh_below(3) : vh_chance(1, 2) ? EMBC_TIME_MIN : -vh_range(1, 1000); break;
        default: ts = now + vh_range(0, 60); break;
    }
    int32_t id = embc_evm_schedule(evm, ts, cbk, &tags[s]);
    vh_sig(1); vh_sig((uint64_t) ts - (uint64_t) now);
    vh_trace("%sschedule(%lld) -> %d", processing ? "  in callback: " : "", (long long) ts, id);
    if (ts <= 0) {
        VH_CHECK(0 == id, "schedule:ignored", "timestamp %lld must be ignored but id %d was returned", (long long) ts, id);
        vh_count("ignored_timestamps", 1);
        return;
    }
    VH_CHECK(0 != id, "schedule:id", "id 0 returned for a valid timestamp");
    for (int i = 0; i < ev_n; ++i) { VH_CHECK(!ev[i].pending || ev[i].id != id, "schedule:id", "id %d is already pending", id); }
    if (s == ev_n) { ++ev_n; }
    ev[s].id = id; ev[s].ts = ts; ev[s].seq = ++seq_; ev[s].tag = s; ev[s].pending = true;
    vh_count("scheduled", 1);
}
static int32_t current_id;
static void cancel(void) {
    int32_t id = 0; int which = -1, k = 0;
    switch (vh_below(6)) {
        case 0: which = first(); break;
        case 1: id = 0; break;
        case 2: id = (int32_t) vh_edge64(); break;
        case 3: id = current_id; break;
        default: for (int i = 0; i < ev_n; ++i) { if (ev[i].pending && vh_below((uint32_t) ++k) == 0) { which = i; } } break;
    }
    if (which >= 0) { id = ev[which].id; } else { for (int i = 0; i < ev_n; ++i) { if (ev[i].pending && ev[i].id == id) { which = i; } } }
    int32_t rc = embc_evm_cancel(evm, id);
    vh_trace("%scancel(%d) %s", processing ? "  in callback: " : "", id, which >= 0 ? "pending" : "nothing");
    vh_sig(2); vh_sig((uint64_t) which);
    if (which >= 0) {
        VH_CHECK(0 == rc, "cancel:rc", "cancel of a pending event returned %d", rc);
        ev[which].pending = false; vh_count("cancelled", 1);
        if (ev[which].ts <= horizon) { cancelled_due = true; }
    } else { vh_count("cancel_of_nothing", 1); }
}
/* a second manager with its own events, also used from inside the callbacks of the first */
static struct embc_evm_s *by; static int64_t by_ts[4]; static int32_t by_id[4]; static bool by_in, by_pend[4]; static int by_fired;
static void by_cbk(void *user, int32_t id) {
    int i = (int) ((int64_t *) user - by_ts);
    VH_CHECK(by_in && i >= 0 && i < 4 && by_pend[i] && by_id[i] == id, "bystander", "an event of another manager fired out of turn");
    by_pend[i] = false; ++by_fired;
}
static void bystander(void) {
    int i = (int) vh_below(4);
    if (!by_pend[i]) { by_ts[i] = vh_range(1, 50); by_id[i] = embc_evm_schedule(by, by_ts[i], by_cbk, &by_ts[i]); by_pend[i] = true; }
    else if (vh_chance(1, 4)) { embc_evm_cancel(by, by_id[i]); by_pend[i] = false; }
    else {
        int64_t at = vh_range(1, 60); int due = 0;
        for (int k = 0; k < 4; ++k) { due += by_pend[k] && by_ts[k] <= at; }
        by_in = true; by_fired = 0;
        int n = embc_evm_process(by, at);
        by_in = false;
        VH_CHECK(n == due && by_fired == due, "bystander", "another manager fired %d of %d due events", n, due);
    }
    vh_count("bystander_operations", 1);
}
static void cbk(void *user, int32_t id) {
    vh_step("callback");
    VH_CHECK(processing, "fire:outside", "event %d fired outside process()", id);
    int i = (int) ((char *) user - tags);
    VH_CHECK(i >= 0 && i < ev_n, "fire:user-data", "wrong user data");
    VH_CHECK(ev[i].pending && ev[i].id == id, "fire:not-pending", "event %d (slot %d) fired but is not pending", id, i);
    VH_CHECK(ev[i].ts <= now, "fire:early", "event due at %lld fired at %lld", (long long) ev[i].ts, (long long) now);
    int b = first();
    VH_CHECK(b == i, "fire:order", "event due at %lld (#%llu) fired before the one due at %lld (#%llu)", (long long) ev[i].ts, (unsigned long long) ev[i].seq,
             (long long) ev[b].ts, (unsigned long long) ev[b].seq);
    ev[i].pending = false;
    ++fired;
    current_id = id;
    vh_trace("  fired %d", id);
    vh_sig(3); vh_sig((uint64_t) i);
    queries();
    if (by && vh_chance(1, 2)) { bystander(); }
    while (budget > 0 && vh_chance(2, 5)) {
        --budget;
        if (first() >= 0) { acted = true; }
        if (vh_chance(1, 2)) { schedule(); } else { cancel(); }
        queries();
        vh_count("operations_in_callbacks", 1);
    }
}
static void process(void) {
    int due = 0;
    for (int i = 0; i < ev_n; ++i) { due += ev[i].pending && ev[i].ts <= now; }
    fired = 0; processing = true; budget = (int) vh_below(12);
    vh_steps_reset(2000);
    vh_trace("process(%lld)", (long long) now);
    int32_t n = embc_evm_process(evm, now);
    processing = false; current_id = 0;
    VH_CHECK(n == fired, "process:count", "process returned %d, %d events fired", n, fired);
    int b = first();
    VH_CHECK(b < 0 || ev[b].ts > now, "missed", "event due at %lld was not fired by process(%lld)", (long long) ev[b].ts, (long long) now);
    vh_count("fired", (uint64_t) fired);
    (void) due;
}

void vh_case(uint64_t index) {
    (void) index;
    size_t bytes = vh_bytes_live();
    ev_n = 0; seq_ = 0; acted = cancelled_due = false; current_id = 0;
    now = vh_chance(1, 6) ? vh_range(0, 1LL << 61) : vh_range(0, 100);
    horizon = now + 300;
    evm = embc_evm_allocate();
    by = vh_chance(1, 4) ? embc_evm_allocate() : 0; memset(by_pend, 0, sizeof(by_pend));
    queries();
    process();
    int ops = (int) vh_range(20, vh_chance(1, 8) ? 150 : 60);
    for (int k = 0; k < ops; ++k) {
        switch (vh_below(8)) {
            case 0: case 1: case 2: schedule(); break;
            case 3: cancel(); break;
            case 4: now += vh_range(0, 4); process(); break;
            case 5: { int b = first(); if (b >= 0 && ev[b].ts > now && ev[b].ts < now + 1000) { now = ev[b].ts - 1; process(); now += 1; } process(); break; }
            case 6: now += vh_range(0, 60); process(); break;
            default: break;
        }
        queries();
        if (by && vh_chance(1, 3)) { bystander(); }
        vh_count("operations", 1);
    }
    if (vh_chance(1, 2)) { now += 400; process(); }
    if (by && vh_chance(1, 2)) { embc_evm_free(by); by = 0; process(); }
    embc_evm_free(evm);   /* pending events may remain */
    if (by) { bystander(); embc_evm_free(by); by = 0; }
    VH_CHECK(vh_bytes_live() == bytes, "leak", "%lld bytes remain allocated after free", (long long) (vh_bytes_live() - bytes));
    if (acted && cancelled_due) { vh_nontrivial(); }
}

static void null_free(void) { embc_evm_free(0); }

/* years of timers: memory follows the number of events pending at once, not the number ever scheduled */
static void soak_cbk(void *user, int32_t id) {
    (void) id; ++fired;
    if (user && vh_chance(1, 2)) { embc_evm_schedule(evm, now + vh_range(0, 3), soak_cbk, 0); }
}
static void soak(void) {
    evm = embc_evm_allocate(); now = 1;
    int32_t ids[4] = {0}; size_t warm = 0;
    for (int k = 0; k < 20000; ++k) {
        for (int i = 0; i < 4; ++i) {
            if (vh_chance(1, 3)) { embc_evm_cancel(evm, ids[i]); }
            ids[i] = embc_evm_schedule(evm, now + vh_range(0, 5), soak_cbk, vh_chance(1, 2) ? &now : 0);
        }
        now += 8; embc_evm_process(evm, now); embc_evm_process(evm, now + 4);
        now += 4;
        VH_CHECK(embc_evm_time_next(evm) == EMBC_TIME_MIN, "missed", "events remain at the end of cycle %d", k);
        if (k == 200) { warm = vh_bytes_live(); }
        if (k > 200) {
            VH_CHECK(vh_bytes_live() <= warm + 4096, "memory-growth", "cycle %d: %lld bytes more than after 200 cycles with the same number of events pending", k, (long long) (vh_bytes_live() - warm));
        }
    }
    embc_evm_free(evm);
    vh_count("soak_cycles", 20000);
}
/* more events pending at once than 8 bits count, a few at each time */
enum { MANY = 3000 };
static int32_t many_id[MANY]; static int64_t many_ts[MANY]; static int many_state[MANY], many_last; static int64_t many_now;
static void many_cbk(void *user, int32_t id) {
    int i = (int) ((int64_t *) user - many_ts);
    VH_CHECK(i >= 0 && i < MANY && many_state[i] == 1 && many_id[i] == id, "fire:unknown", "event %d fired, state %d", id, i >= 0 && i < MANY ? many_state[i] : -1);
    VH_CHECK(many_ts[i] <= many_now, "fire:early", "event for %lld fired at %lld", (long long) many_ts[i], (long long) many_now);
    VH_CHECK(many_last < 0 || many_ts[many_last] < many_ts[i] || (many_ts[many_last] == many_ts[i] && many_last < i), "fire:order", "event %d (%lld) fired after event %d (%lld)", i, (long long) many_ts[i], many_last, (long long) many_ts[many_last]);
    many_last = i; many_state[i] = 2; ++fired;
}
static void many(void) {
    evm = embc_evm_allocate(); int pending = 0; fired = 0; many_last = -1;
    for (int i = 0; i < MANY; ++i) {
        many_ts[i] = 1 + (int64_t) vh_below(1000); many_state[i] = 1;
        many_id[i] = embc_evm_schedule(evm, many_ts[i], many_cbk, &many_ts[i]);
        VH_CHECK(many_id[i], "schedule:id", "event %d was refused with %d pending", i, i);
        ++pending;
    }
    static int32_t sorted[MANY]; memcpy(sorted, many_id, sizeof(sorted));
    for (int i = 1; i < MANY; ++i) { for (int j = i; j && sorted[j] < sorted[j - 1]; --j) { int32_t t = sorted[j]; sorted[j] = sorted[j - 1]; sorted[j - 1] = t; } }
    for (int i = 1; i < MANY; ++i) { VH_CHECK(sorted[i] != sorted[i - 1], "schedule:id", "two of %d pending events have id %d", MANY, sorted[i]); }
    for (int i = 0; i < MANY; i += 7) { VH_CHECK(0 == embc_evm_cancel(evm, many_id[i]), "cancel:rc", "cancel of pending event %d", i); many_state[i] = 3; --pending; }
    for (many_now = 0; many_now <= 1000; many_now += 13) {
        int due = 0; for (int i = 0; i < MANY; ++i) { due += many_state[i] == 1 && many_ts[i] <= many_now; }
        fired = 0;
        int n = embc_evm_process(evm, many_now);
        VH_CHECK(n == due && fired == due, "missed", "%d events fired at %lld (process returned %d), %d were due", fired, (long long) many_now, n, due);
        pending -= due;
    }
    many_now = 1001; fired = 0; embc_evm_process(evm, many_now);
    VH_CHECK(fired == pending && embc_evm_time_next(evm) == EMBC_TIME_MIN, "missed", "%d of %d remaining events fired", fired, pending);
    embc_evm_free(evm);
    vh_count("events_pending_at_once", MANY);
}
/* more events pending at once than 16 bits count, each before all those already scheduled */
#define CROWD 66000
static int32_t crowd_id[CROWD]; static int crowd_next, crowd_n;
static void crowd_cbk(void *user, int32_t id) {
    int i = (int) ((int32_t *) user - crowd_id);
    VH_CHECK(i == crowd_next, "fire:order", "event %d fired, event %d was next", i, crowd_next);
    VH_CHECK(crowd_id[i] == id, "fire:id", "event %d was scheduled as %d and fired as %d", i, crowd_id[i], id);
    do { --crowd_next; } while (crowd_next >= 0 && crowd_next % 1000 == 0 && crowd_next >= crowd_n - 5000);
    ++fired;
}
static int cmp_id(const void *a, const void *b) { int32_t x = *(const int32_t *) a, y = *(const int32_t *) b; return x < y ? -1 : x > y; }
static void crowd(void) {
    evm = embc_evm_allocate();
    for (int round = 0; round < 2; ++round) {
        crowd_n = round ? 6000 : CROWD;        /* again, from recycled events: fewer, as the cost may grow with the square */
        for (int i = 0; i < crowd_n; ++i) {
            crowd_id[i] = embc_evm_schedule(evm, 10 + 2 * (crowd_n - i), crowd_cbk, &crowd_id[i]);
            VH_CHECK(crowd_id[i], "schedule:id", "event %d was refused", i);
        }
        static int32_t sorted[CROWD]; memcpy(sorted, crowd_id, sizeof(sorted[0]) * (size_t) crowd_n); qsort(sorted, (size_t) crowd_n, sizeof(sorted[0]), cmp_id);
        for (int i = 1; i < crowd_n; ++i) { VH_CHECK(sorted[i] != sorted[i - 1], "schedule:id", "two of %d pending events have id %d", crowd_n, sorted[i]); }
        int cancelled = 0;
        for (int i = crowd_n - 1; i >= crowd_n - 5000; --i) { if (i % 1000 == 0) { embc_evm_cancel(evm, crowd_id[i]); ++cancelled; } }
        crowd_next = crowd_n - 1; fired = 0;
        VH_CHECK(embc_evm_time_next(evm) == 12, "time-next", "the first of %d events is at 12, reported at %lld", crowd_n, (long long) embc_evm_time_next(evm));
        int n = embc_evm_process(evm, 10 + crowd_n);
        int due = 0; for (int i = 0; i < crowd_n; ++i) { due += 10 + 2 * (crowd_n - i) <= 10 + crowd_n && !(i % 1000 == 0 && i >= crowd_n - 5000); }
        VH_CHECK(n == due && fired == due, "missed", "%d of %d due events fired, process returned %d", fired, due, n);
        n = embc_evm_process(evm, 20 + 2 * crowd_n);
        VH_CHECK(fired == crowd_n - cancelled && n == fired - due && embc_evm_time_next(evm) == EMBC_TIME_MIN, "missed", "%d of %d events fired, process returned %d", fired, crowd_n - cancelled, n);
        vh_count("events_pending_at_once", crowd_n);
    }
    embc_evm_free(evm);
}
const vh_scenario_t vh_scenarios[] = {{"free_null", null_free}, {"soak", soak}, {"many", many}, {"crowd", crowd}, {0, 0}};
