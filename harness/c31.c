/* C31: logging thresholds, format and names; error code names. */
#include "vh.h"
extern int c31_global_var, c31_module_var;
#define EMBC_LOG_GLOBAL_LEVEL c31_global_var
#define EMBC_LOG_LEVEL c31_module_var
#include "embc/log.h"
#include "embc/ec.h"
#include "c31.h"
int c31_effects, c31_global_var, c31_module_var;

const char *const vh_rule = "A case draws a module and a global threshold (-2..12), one of the 22 logging macros or EMBC_LOG with a conditional or masked level and an argument form (single message, two arguments in an unbraced if/else, ten arguments), random text (with % signs when it is a single message) and a handler state (registered, replaced, unregistered, finalized); the handler records every call. The same statements compiled with five constant thresholds (default, off, error, all, mixed) run too. 16 error codes per case (all known ones, neighbours, random) are looked up. Non-trivial: at least one statement was emitted and one suppressed; distinct by thresholds, macro, form and text.";
uint64_t vh_case_count(int thorough) { return thorough ? 12000000 : 500000; }

static C31_EMIT(emit_var)

static char last[2][2048]; static int calls[2];
static void rec(int which, const char *fmt, va_list va) { ++calls[which]; vsnprintf(last[which], sizeof(last[which]), fmt, va); }
static void h0(const char *fmt, ...) { va_list va; va_start(va, fmt); rec(0, fmt, va); va_end(va); }
static void h1(const char *fmt, ...) { va_list va; va_start(va, fmt); rec(1, fmt, va); va_end(va); }

static const struct { const char *name, *text; } EC[] = {
    {"SUCCESS", "Success (no error)"}, {"UNSPECIFIED", "Unspecified error"}, {"NOT_ENOUGH_MEMORY", "Insufficient memory to complete the operation"},
    {"NOT_SUPPORTED", "Operation is not supported"}, {"IO", "Input/output error"}, {"PARAMETER_INVALID", "The parameter value is invalid"},
    {"INVALID_RETURN_CONDITION", "The function return condition is invalid"}, {"INVALID_CONTEXT", "The context is invalid"},
    {"INVALID_MESSAGE_LENGTH", "The message length in invalid"}, {"MESSAGE_INTEGRITY", "The message integrity check failed"},
    {"SYNTAX_ERROR", "A syntax error was detected"}, {"TIMED_OUT", "The operation did not complete in time"}, {"FULL", "The target of the operation is full"},
    {"EMPTY", "The target of the operation is empty"}, {"TOO_SMALL", "The target of the operation is too small"}, {"TOO_BIG", "The target of the operation is too big"},
    {"NOT_FOUND", "The requested resource was not found"}, {"ALREADY_EXISTS", "The requested resource already exists"},
    {"PERMISSIONS", "Insufficient permissions to perform the operation."}, {"BUSY", "The requested resource is currently busy."},
    {"UNAVAILABLE", "The requested resource is currently unavailable."}, {"IN_USE", "The requested resource is currently in use."},
    {"CLOSED", "The requested resource is currently closed."}, {"SEQUENCE", "The requested operation was out of sequence."},
    {"ABORTED", "The requested operation was previously aborted."}, {"SYNCHRONIZATION", "The target is not synchronized with the originator."}};
#define EC_N ((int) (sizeof(EC) / sizeof(EC[0])))

static void one_ec(int c) {
    const char *n = embc_error_code_name(c), *d = embc_error_code_description(c);
    const char *en = (c >= 0 && c < EC_N) ? EC[c].name : "UNKNOWN", *ed = (c >= 0 && c < EC_N) ? EC[c].text : "Unknown error";
    VH_CHECK(n && 0 == strcmp(n, en), "ec-name", "error code %d named \"%s\", expected \"%s\"", c, n ? n : "(null)", en);
    VH_CHECK(d && 0 == strcmp(d, ed), "ec-description", "error code %d described \"%s\", expected \"%s\"", c, d ? d : "(null)", ed);
    vh_count("error_codes", 1);
}
static const char LC[] = "!ACEWNIDDD.";
static int emitted, suppressed;

static void statement(c31_emit_fn fn, const char *file, int handler) {
    char msg[64]; int n = (int) vh_below(40), form = (int) vh_below(3), v = (int) vh_u32(), lv = -9, line = 0, g = 0, m = 0;
    for (int i = 0; i < n; ++i) { msg[i] = vh_chance(1, 8) ? "%\\\"ns"[vh_below(5)] : (char) vh_range(32, 126); }
    msg[n] = 0;
    int which = (int) vh_below(C31_COUNT + 2), before[2] = {calls[0], calls[1]}, eff = c31_effects;
    if (which >= C31_COUNT) { form = 3; }
    fn(which, form, msg, v, &lv, &line, &g, &m);
    VH_CHECK(lv >= 0, "harness", "macro %d", which);
    bool on = lv <= g && lv <= m;
    vh_sigs(msg, (size_t) n); vh_sig((uint64_t) ((which * 4 + form) * 400 + (g + 5) * 20 + m + 5));
    vh_count(on ? "enabled" : "disabled", 1);
    if (on) { ++emitted; } else { ++suppressed; }
    VH_CHECK(c31_effects - eff == (on && form != 1), "side-effect", "level %d global %d module %d: arguments evaluated %d times", lv, g, m, c31_effects - eff);
    for (int h = 0; h < 2; ++h) {
        int want = on && handler == h;
        VH_CHECK(calls[h] - before[h] == want, want ? "not-emitted" : "emitted-disabled", "level %d global %d module %d handler %d: %d calls of handler %d", lv, g, m, handler, calls[h] - before[h], h);
    }
    if (on && handler >= 0) {
        char body[512], exp[1024];
        if (form == 1) { snprintf(body, sizeof(body), "%s", msg); }
        else if (form == 2) { if (v & 1) { snprintf(body, sizeof(body), "%s<%d>", msg, v); } else { snprintf(body, sizeof(body), "%d<%s>", v, msg); } }
        else if (form == 3) { snprintf(body, sizeof(body), "%s|%d", msg, v); }
        else { snprintf(body, sizeof(body), "%s|%d|q|0000beef|%%|-7|9|t|1|2|3", msg, v); }
        snprintf(exp, sizeof(exp), "%c %s:%d: %s\n", LC[lv], file, line, body);
        VH_CHECK(0 == strcmp(exp, last[handler]), "text", "emitted \"%s\", expected \"%s\"", last[handler], exp);
    }
}
void vh_case(uint64_t index) {
    (void) index;
    emitted = suppressed = 0; calls[0] = calls[1] = 0;
    int handler = -1;
    embc_log_finalize();
    for (int i = 0; i < 12; ++i) {
        if (vh_chance(1, 3)) {
            switch (vh_below(5)) {
                case 0: case 1: VH_CHECK(0 == embc_log_initialize(h0), "initialize", "status"); handler = 0; break;
                case 2: VH_CHECK(0 == embc_log_initialize(h1), "initialize", "status"); handler = 1; break;
                case 3: VH_CHECK(0 == embc_log_initialize(NULL), "initialize", "status"); handler = -1; break;
                default: embc_log_finalize(); handler = -1; break;
            }
            vh_count("handler_changes", 1);
        }
        c31_global_var = (int) vh_range(-2, 12); c31_module_var = (int) vh_range(-2, 12);
        switch (vh_below(10)) {
            case 0: statement(c31_emit_default, "c31_default.c", handler); break;
            case 1: statement(c31_emit_off, "c31_off.c", handler); break;
            case 2: statement(c31_emit_error, "c31_error.c", handler); break;
            case 3: statement(c31_emit_all, "c31_all.c", handler); break;
            case 4: statement(c31_emit_mixed, "c31_mixed.c", handler); break;
            default: statement(emit_var, "c31.c", handler); break;
        }
    }
    if (emitted && suppressed) { vh_nontrivial(); }
    for (int i = 0; i < 16; ++i) { one_ec(vh_chance(1, 2) ? (int) vh_range(-3, EC_N + 3) : (int) vh_edge64()); }
    embc_log_finalize();
}
static void s_names(void) {
    static const char *N[] = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARN", "NOTICE", "INFO", "DEBUG", "DEBUG2", "DEBUG3", "ALL"};
    VH_CHECK(EMBC_LOG_LEVEL_ALL == 10 && EMBC_LOG_LEVEL_OFF == -1 && EMBC_LOG_LEVEL_EMERGENCY == 0 && EMBC_LOG_LEVEL_DEBUG == 7, "level-value", "enumeration");
    for (int i = 0; i <= EMBC_LOG_LEVEL_ALL; ++i) {
        VH_CHECK(embc_log_level_str[i] && 0 == strcmp(embc_log_level_str[i], N[i]), "level-name", "level %d named \"%s\"", i, embc_log_level_str[i] ? embc_log_level_str[i] : "(null)");
        VH_CHECK(embc_log_level_char[i] == LC[i], "level-char", "level %d shown as %c", i, embc_log_level_char[i]);
        for (int c = -1; c <= EMBC_LOG_LEVEL_ALL; ++c) { VH_CHECK(!!EMBC_LOG_LEVEL_CHECK(i, c) == (i <= c), "level-check", "%d,%d", i, c);
            volatile int k = i & 1; VH_CHECK(!!EMBC_LOG_LEVEL_CHECK(k ? 9 : 0, k ? c : -1) == ((k ? 9 : 0) <= (k ? c : -1)), "level-check", "expressions"); }
    }
    vh_nontrivial();
}
static void s_codes(void) {
    for (int c = -70000; c <= 70000; ++c) { one_ec(c); }
    for (int b = 0; b < 32; ++b) { for (int d = -1; d <= 1; ++d) { one_ec((int) ((1u << b) + (unsigned) d)); one_ec((int) (0u - (1u << b) + (unsigned) d)); } }
    VH_CHECK(EMBC_ERROR_CODE_COUNT == EC_N && EMBC_SUCCESS == 0 && EMBC_ERROR_PARAMETER_INVALID == 5 && EMBC_ERROR_SYNCHRONIZATION == 25, "ec-value", "enumeration");
    vh_nontrivial();
}
const vh_scenario_t vh_scenarios[] = {{"names", s_names}, {"codes", s_codes}, {0, 0}};
