/* C20: state machines follow their transition tables exactly.
 *
 * ASSUME: handlers return a declared state or one of the documented special values; at most the documented number of events is pending, except where the overflow itself is checked
 */
#include "vh.h"
#include "embc/fsm.h"

const char *const vh_rule =
    "A case is one randomly generated machine (1..12 states, occasionally 127; 1..24 transitions, occasionally 300) whose guards and enter/exit handlers answer all documented return codes and raise further events, "
    "driven by 5..60 events, resets and re-initialisations. A reference interpreter written from fsm.h predicts every handler call (who, event, state seen) and the final state; recorded and predicted logs are compared. "
    "Table validation and queue overflow are checked for being fatal. Non-trivial: a guard skipped to a later transition, an event was raised from inside a handler and a state changed; distinct by predicted log.";

uint64_t vh_case_count(int thorough) { return thorough ? 6000000 : 250000; }

#define NH 32
#define MAXT 300
#define CAP (EMBC_FSM_EVENT_FIFO_SIZE - 1)
typedef struct { int who, event, state; } rec_t;    /* who: handler id, -1: end of external event */
#define LOGMAX 4096
typedef struct { rec_t r[LOGMAX]; int n; uint32_t calls[NH]; int budget; } log_t;

static struct embc_fsm_state_s states[128]; static struct embc_fsm_transition_s trans[MAXT]; static int ns, nt, nev, ev0;
static int who_trans[MAXT], who_enter[128], who_exit[128];
static uint64_t seed; static log_t real_log, model_log; static int raise_pm;
static bool skipped, raised, changed, by_on;
static struct embc_fsm_s machine;

/* what a handler does on its n-th call: a pure function, so that model and product see the same handlers */
static uint64_t mix(uint64_t x) { x ^= x >> 31; x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32; return x; }
static int random_state(uint64_t h) { return (int) ((h >> 8) % (uint64_t) ns); }
typedef struct { int ret; int n; embc_fsm_event_t ev[CAP]; } act_t;

static act_t act(log_t *l, int who, int event, int state) {
    act_t a; memset(&a, 0, sizeof(a));
    uint64_t h = mix(seed + 1000003u * (uint64_t) who + 7919u * l->calls[who]++ + (uint64_t) (event + 200));
    if (l->n < LOGMAX) { l->r[l->n++] = (rec_t) {who, event, state}; }
    switch (h % 8) {
        case 0: case 1: a.ret = EMBC_STATE_SKIP; break;
        case 2: a.ret = EMBC_STATE_NULL; break;
        case 3: a.ret = random_state(h); break;
        default: a.ret = EMBC_STATE_ANY; break;
    }
    uint64_t g = mix(h + 77);
    if ((int) (g % 1000) < raise_pm) {
        int n = 1 + (int) ((g >> 12) % 3);
        for (int i = 0; i < n && l->budget > 0; ++i) {
            g = mix(g);
            a.ev[a.n++] = (g % 9) ? (embc_fsm_event_t) (ev0 + (int) ((g >> 20) % (uint64_t) nev)) : EMBC_EVENT_RESET;
            --l->budget;
        }
    }
    return a;
}

/* a second machine, driven from inside the handlers of the first: it is not busy, so its events are handled at once */
static struct embc_fsm_s by; static int by_calls;
static embc_fsm_state_t by_handler(struct embc_fsm_s *s, embc_fsm_event_t e) { VH_CHECK(s == &by && e == 7, "bystander", "another machine's handler got event %d", e); ++by_calls; return EMBC_STATE_ANY; }
static const struct embc_fsm_state_s by_states[2] = {{.state = 0}, {.state = 1}};
static const struct embc_fsm_transition_s by_trans[3] = {{EMBC_STATE_ANY, 0, EMBC_EVENT_RESET, 0}, {0, 1, 7, by_handler}, {1, 0, 7, by_handler}};
static void by_new(void) {
    memset(&by, 0x5a, sizeof(by)); by.name = 0; by.states = by_states; by.states_count = 2; by.transitions = by_trans; by.transitions_count = 3; by.event_name_fn = 0;
    embc_fsm_initialize(&by); by_calls = 0;
}
static void bystander(void) {
    int was = by_calls;
    VH_CHECK(by.state == (was & 1), "bystander", "another machine is in state %d after %d events", by.state, was);
    embc_fsm_event(&by, 7);
    VH_CHECK(by_calls == was + 1 && by.state == (by_calls & 1), "bystander", "another machine did not handle its event");
    vh_count("bystander_events", 1);
}

/* ---- the product's side ---- */
static embc_fsm_state_t product(struct embc_fsm_s *self, embc_fsm_event_t event, int who) {
    VH_CHECK(self == &machine, "handler-self", "handler %d got another machine", who);
    act_t a = act(&real_log, who, event, self->state);
    if (by_on && !(real_log.n & 1)) { bystander(); }
    for (int i = 0; i < a.n; ++i) {
        int before = real_log.n;
        if (a.ev[i] == EMBC_EVENT_RESET) { embc_fsm_reset(self); } else { embc_fsm_event(self, a.ev[i]); }
        VH_CHECK(real_log.n == before, "not-deferred", "event %d raised inside handler %d was handled before the handler returned", a.ev[i], who);
    }
    return (embc_fsm_state_t) a.ret;
}
#define H(n) static embc_fsm_state_t h##n(struct embc_fsm_s *s, embc_fsm_event_t e) { return product(s, e, n); }
H(0) H(1) H(2) H(3) H(4) H(5) H(6) H(7) H(8) H(9) H(10) H(11) H(12) H(13) H(14) H(15)
H(16) H(17) H(18) H(19) H(20) H(21) H(22) H(23) H(24) H(25) H(26) H(27) H(28) H(29) H(30) H(31)
static const embc_fsm_handler handlers[NH] = {h0, h1, h2, h3, h4, h5, h6, h7, h8, h9, h10, h11, h12, h13, h14, h15,
    h16, h17, h18, h19, h20, h21, h22, h23, h24, h25, h26, h27, h28, h29, h30, h31};
static const char *ev_name(struct embc_fsm_s *s, embc_fsm_event_t e) { (void) s; return (e & 1) ? "odd" : 0; }

/* ---- the reference interpreter ---- */
static int m_state; static embc_fsm_event_t q[1024]; static int qh, qt; static bool m_overflow;
static int m_call(int who, int event) {
    act_t a = act(&model_log, who, event, m_state);
    for (int i = 0; i < a.n; ++i) { if (qt - qh >= CAP) { m_overflow = true; return EMBC_STATE_NULL; } q[qt++] = a.ev[i]; raised = true; }
    return a.ret;
}
static void m_one(int event) {
    for (int i = 0; i < nt; ++i) {
        if (trans[i].current != EMBC_STATE_ANY && trans[i].current != m_state) { continue; }
        if (trans[i].event != EMBC_EVENT_ANY && trans[i].event != event) { continue; }
        int next = trans[i].next;
        if (who_trans[i] >= 0) {
            int r = m_call(who_trans[i], event);
            if (m_overflow) { return; }
            if (r == EMBC_STATE_SKIP) { skipped = true; continue; }
            if (r == EMBC_STATE_NULL) { return; }
            if (r != EMBC_STATE_ANY) { next = r; }
        }
        if (next == EMBC_STATE_NULL) { return; }
        if (m_state >= 0 && who_exit[m_state] >= 0) { m_call(who_exit[m_state], EMBC_EVENT_EXIT); if (m_overflow) { return; } }
        if (next != m_state) { changed = true; }
        m_state = next;
        if (who_enter[next] >= 0) { m_call(who_enter[next], EMBC_EVENT_ENTER); }
        return;
    }
}
static void m_event(int event) {
    qh = qt = 0; q[qt++] = (embc_fsm_event_t) event;
    while (qh < qt && !m_overflow) { m_one(q[qh++]); }
}

static void compare(const char *what) {
    int n = real_log.n < model_log.n ? real_log.n : model_log.n;
    for (int i = 0; i < n; ++i) {
        rec_t *a = &real_log.r[i], *b = &model_log.r[i];
        VH_CHECK(a->who == b->who && a->event == b->event, "handler-call", "%s: call %d is handler %d event %d, the table says handler %d event %d", what, i, a->who, a->event, b->who, b->event);
        VH_CHECK(a->state == b->state, "handler-state", "%s: call %d (handler %d event %d) sees state %d, expected %d", what, i, a->who, a->event, a->state, b->state);
    }
    VH_CHECK(real_log.n == model_log.n, "handler-count", "%s: %d handler calls, the table says %d", what, real_log.n, model_log.n);
}

static struct embc_fsm_state_s *st_heap; static struct embc_fsm_transition_s *tr_heap;      /* exact copies: any read beyond a table is seen */
static void tables(void) { memcpy(st_heap, states, sizeof(states[0]) * (size_t) ns); memcpy(tr_heap, trans, sizeof(trans[0]) * (size_t) nt); }
static void blank(void) {
    memset(states, 0, sizeof(states)); memset(trans, 0, sizeof(trans)); memset(&machine, 0x5a, sizeof(machine));
    for (int i = 0; i < ns; ++i) { states[i].state = (embc_fsm_state_t) i; who_enter[i] = who_exit[i] = -1; }
    for (int i = 0; i < nt; ++i) { who_trans[i] = -1; }
    machine.name = vh_chance(1, 3) ? "m" : 0;
    free(st_heap); free(tr_heap);
    st_heap = malloc(sizeof(states[0]) * (size_t) ns); tr_heap = malloc(sizeof(trans[0]) * (size_t) nt);
    machine.states = st_heap; machine.states_count = (embc_fsm_state_t) ns;
    machine.transitions = tr_heap; machine.transitions_count = (uint32_t) nt;
    machine.event_name_fn = vh_chance(1, 2) ? ev_name : 0;
    memset(&real_log, 0, sizeof(real_log)); memset(&model_log, 0, sizeof(model_log));
}

static void one_run(int events) {
    int budget = (int) vh_range(0, 60);
    memset(real_log.calls, 0, sizeof(real_log.calls)); memset(model_log.calls, 0, sizeof(model_log.calls));
    real_log.n = model_log.n = 0; real_log.budget = model_log.budget = budget;
    m_state = EMBC_STATE_NULL; m_overflow = false;
    m_event(EMBC_EVENT_RESET);
    tables();
    if ((by_on = vh_chance(1, 4))) { by_new(); }
    int f = VH_FATAL(embc_fsm_initialize(&machine));
    if (m_overflow || m_state < 0) {
        VH_CHECK(f, "initialize-not-fatal", "initialisation without a usable reset transition was accepted, state %d", machine.state);
        vh_count("initialise_refused", 1);
        return;
    }
    VH_CHECK(!f, "initialize-fatal", "a valid machine was refused: %s", vh_fatal_msg);
    compare("initialize");
    VH_CHECK(machine.state == m_state, "state", "after initialize: state %d, expected %d", machine.state, m_state);
    for (int i = 0; i < events; ++i) {
        real_log.n = model_log.n = 0;
        int ev = vh_chance(1, 12) ? EMBC_EVENT_RESET : vh_chance(1, 15) ? (int) vh_range(0, 127) : ev0 + (int) vh_below((uint32_t) nev);
        m_event(ev);
        if (by_on && vh_chance(1, 3)) { bystander(); }
        if (ev == EMBC_EVENT_RESET && vh_chance(1, 2)) { f = VH_FATAL(embc_fsm_reset(&machine)); } else { f = VH_FATAL(embc_fsm_event(&machine, (embc_fsm_event_t) ev)); }
        if (m_overflow) {
            VH_CHECK(f, "overflow-not-fatal", "more than %d pending events were accepted", CAP);
            vh_count("queue_overflows", 1);
            return;
        }
        VH_CHECK(!f, "event-fatal", "event %d was fatal: %s", ev, vh_fatal_msg);
        compare("event");
        VH_CHECK(machine.state == m_state, "state", "after event %d: state %d, expected %d", ev, machine.state, m_state);
        vh_sig((uint64_t) (model_log.n * 131 + m_state)); vh_count("events", 1); vh_count("handler_calls", (uint64_t) model_log.n);
    }
}

/* a handler that names a state that does not exist: whatever happens, no table is read or called out of bounds */
static int rogue_ret; static embc_fsm_state_t rogue(struct embc_fsm_s *s, embc_fsm_event_t e) { (void) s; (void) e; return (embc_fsm_state_t) rogue_ret; }
static void rogue_run(void) {
    ns = (int) vh_range(1, 6); nt = 2; blank();
    trans[0] = (struct embc_fsm_transition_s) {EMBC_STATE_NULL, 0, EMBC_EVENT_RESET, 0};
    trans[1] = (struct embc_fsm_transition_s) {EMBC_STATE_ANY, 0, EMBC_EVENT_ANY, rogue};
    for (int i = 0; i < ns; ++i) { states[i].on_enter = states[i].on_exit = rogue; }
    tables(); rogue_ret = 0;
    embc_fsm_initialize(&machine);
    for (int i = 0; i < 4; ++i) {
        rogue_ret = vh_chance(1, 2) ? ns + (int) vh_below(2) : vh_chance(1, 4) ? (int) vh_below((uint32_t) ns) : (int) vh_range(-128, 127);
        if (VH_FATAL(embc_fsm_event(&machine, 3))) { vh_count("rogue_refused", 1); break; }
        vh_count("rogue_returns", 1);
    }
}
static int bad_state(void) { int v; do { v = vh_chance(1, 2) ? ns : (int) vh_range(-128, 127); } while (v < ns && v >= EMBC_STATE_SKIP); return v; }

void vh_case(uint64_t index) {
    (void) index;
    ns = vh_chance(1, 20) ? (int) vh_range(vh_chance(1, 2) ? 100 : 13, 127) : (int) vh_range(1, 12);
    nt = vh_chance(1, 20) ? (int) vh_range(vh_chance(1, 2) ? 100 : 25, MAXT) : (int) vh_range(1, 24);
    nev = (int) vh_range(1, 6); ev0 = vh_chance(1, 4) ? (int) vh_range(0, 128 - nev) : 0;
    blank();
    seed = vh_u64(); raise_pm = vh_chance(1, 4) ? 0 : (int) vh_range(20, 500);
    skipped = raised = changed = false;
    for (int i = 0; i < ns; ++i) {
        if (vh_chance(1, 2)) { who_enter[i] = (int) vh_below(NH); states[i].on_enter = handlers[who_enter[i]]; }
        if (vh_chance(1, 2)) { who_exit[i] = (int) vh_below(NH); states[i].on_exit = handlers[who_exit[i]]; }
        if (vh_chance(1, 2)) { states[i].name = "s"; }
    }
    int reset_at = vh_chance(1, 15) ? -1 : (int) vh_below((uint32_t) nt);
    for (int i = 0; i < nt; ++i) {
        trans[i].current = vh_chance(1, 6) ? EMBC_STATE_ANY : vh_chance(1, 20) ? EMBC_STATE_NULL : (embc_fsm_state_t) vh_below((uint32_t) ns);
        trans[i].next = vh_chance(1, 10) ? EMBC_STATE_NULL : (embc_fsm_state_t) vh_below((uint32_t) ns);
        trans[i].event = vh_chance(1, 10) ? EMBC_EVENT_ANY : vh_chance(1, 12) ? EMBC_EVENT_RESET : (embc_fsm_event_t) (ev0 + (int) vh_below((uint32_t) nev));
        if (vh_chance(3, 5)) { who_trans[i] = (int) vh_below(NH); trans[i].handler = handlers[who_trans[i]]; }
        if (i == reset_at) {
            trans[i].current = vh_chance(1, 2) ? EMBC_STATE_ANY : EMBC_STATE_NULL; trans[i].event = EMBC_EVENT_RESET;
            trans[i].next = (embc_fsm_state_t) vh_below((uint32_t) ns);
            if (vh_chance(3, 4)) { who_trans[i] = -1; trans[i].handler = 0; }
        }
    }
    int runs = vh_chance(1, 5) ? 2 : 1;
    for (int r = 0; r < runs; ++r) { one_run((int) vh_range(5, vh_chance(1, 8) ? 60 : 15)); }
    if (skipped && raised && changed) { vh_nontrivial(); }

    if (vh_chance(1, 16)) { int a = ns, b = nt; static struct embc_fsm_state_s ks[128]; static struct embc_fsm_transition_s kt[MAXT]; memcpy(ks, states, sizeof(ks)); memcpy(kt, trans, sizeof(kt)); rogue_run(); ns = a; nt = b; blank(); memcpy(states, ks, sizeof(ks)); memcpy(trans, kt, sizeof(kt)); }
    /* a table that is not well formed must be refused */
    if (vh_chance(1, 4)) {
        real_log.n = 0;
        int k;
        switch (vh_below(3)) {
            case 0: k = (int) vh_below((uint32_t) ns); states[k].state = (embc_fsm_state_t) (vh_chance(1, 2) ? k + 1 : k - 1); break;
            case 1: trans[vh_below((uint32_t) nt)].next = (embc_fsm_state_t) bad_state(); break;
            default: trans[vh_below((uint32_t) nt)].current = (embc_fsm_state_t) bad_state(); break;
        }
        real_log.budget = 0; tables();
        VH_CHECK(VH_FATAL(embc_fsm_initialize(&machine)), "table-accepted", "a table naming a state that does not exist was accepted");
        VH_CHECK(real_log.n == 0, "table-ran", "handlers ran for a table that is not well formed");
        vh_count("tables_refused", 1);
    }
}

/* exactly the queue's capacity raised from one handler, for every starting offset of the ring */
static int want; static int got[64], ngot;
static embc_fsm_state_t burst(struct embc_fsm_s *s, embc_fsm_event_t e) {
    if (e == 100) { for (int i = 0; i < want; ++i) { embc_fsm_event(s, (embc_fsm_event_t) i); } return EMBC_STATE_NULL; }
    if (ngot < 64) { got[ngot++] = e; }
    return EMBC_STATE_NULL;
}
static void sc_capacity(void) {
    ns = 1; nt = 2;
    for (int offset = 0; offset < 2 * EMBC_FSM_EVENT_FIFO_SIZE; ++offset) {
        for (want = 0; want <= CAP + 4; ++want) {
            blank();
            trans[0] = (struct embc_fsm_transition_s) {EMBC_STATE_NULL, 0, EMBC_EVENT_RESET, 0};
            trans[1] = (struct embc_fsm_transition_s) {0, EMBC_STATE_NULL, EMBC_EVENT_ANY, burst};
            ngot = 0;
            tables(); embc_fsm_initialize(&machine);
            for (int i = 0; i < offset; ++i) { embc_fsm_event(&machine, 50); }
            VH_CHECK(ngot == offset, "capacity", "%d of %d single events handled", ngot, offset);
            ngot = 0;
            int f = VH_FATAL(embc_fsm_event(&machine, 100));
            if (want > CAP) { VH_CHECK(f, "overflow-not-fatal", "%d pending events accepted by a queue of %d", want, CAP); }
            else {
                VH_CHECK(!f && ngot == want, "capacity", "offset %d: %d events raised, %d handled, fatal %d", offset, want, ngot, f);
                for (int i = 0; i < want; ++i) { VH_CHECK(got[i] == i, "capacity-order", "offset %d: event %d handled in place %d", offset, got[i], i); }
            }
            vh_count("capacity_probes", 1);
        }
    }
    VH_CHECK(VH_FATAL(embc_fsm_initialize(0)) && VH_FATAL(embc_fsm_event(0, 1)) && VH_FATAL(embc_fsm_reset(0)), "null", "a NULL machine was accepted");
}

/* a table with more rows than 16 bits count: the one row that matches is used wherever it is */
static void sc_long(void) {
    enum { N = 70000 };
    static const int at[] = {0, 1, 126, 127, 128, 254, 255, 256, 32766, 32767, 32768, 32769, 65534, 65535, 65536, N - 2, N - 1};
    struct embc_fsm_transition_s *t = malloc(sizeof(*t) * N);
    struct embc_fsm_state_s st[3]; memset(st, 0, sizeof(st)); for (int i = 0; i < 3; ++i) { st[i].state = (embc_fsm_state_t) i; }
    for (size_t k = 0; k < sizeof(at) / sizeof(at[0]); ++k) {
        struct embc_fsm_s m; memset(&m, 0x5a, sizeof(m)); m.name = 0; m.states = st; m.states_count = 3; m.transitions = t; m.transitions_count = N; m.event_name_fn = 0;
        for (int i = 0; i < N; ++i) { t[i] = (struct embc_fsm_transition_s) {1, 2, 99, 0}; }
        int r = at[k] == N - 1 ? 0 : N - 1;              /* the reset row is at the other end */
        t[r] = (struct embc_fsm_transition_s) {EMBC_STATE_ANY, 0, EMBC_EVENT_RESET, 0};
        t[at[k]] = (struct embc_fsm_transition_s) {0, 1, 5, 0};
        int f = VH_FATAL(embc_fsm_initialize(&m));
        VH_CHECK(!f && m.state == 0, "long-table", "a table of %d rows with its reset row at %d: fatal %d, state %d", N, r, f, m.state);
        embc_fsm_event(&m, 6); VH_CHECK(m.state == 0, "long-table", "event 6 matches no row but led to state %d", m.state);
        embc_fsm_event(&m, 5); VH_CHECK(m.state == 1, "long-table", "event 5 matches row %d only, but the state is %d", at[k], m.state);
        embc_fsm_event(&m, EMBC_EVENT_RESET); VH_CHECK(m.state == 0, "long-table", "the reset row %d was not used", r);
        t[at[k]].next = 3; VH_CHECK(VH_FATAL(embc_fsm_initialize(&m)), "table-accepted", "row %d names state 3 of 3 and was accepted", at[k]);
        vh_count("long_tables", 1);
    }
    free(t);
}

const vh_scenario_t vh_scenarios[] = {{"capacity", sc_capacity}, {"long", sc_long}, {0, 0}};
