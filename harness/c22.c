/* C22: command arguments are split faithfully.
 *
 * ASSUME: lines of 64 and 65 characters (between the documented limit and the size of the line buffer) may be parsed or refused; a blank line over the limit may be ignored or refused
 */
#include "vh.h"
#include "embc/cli.h"

const char *const vh_rule =
    "A case is one call of embc_cli_line_parser (or a typed line through embc_cli_insert_char with an argument handler) on a generated line of 0..200 characters over separators, letters and every other non-NUL byte, with 0..40 tokens "
    "biased to the 16-argument and 64-character limits. The line is an exact-size heap string (ASan reports reads past it). Handler calls, argc, every argv, cookie and return code are compared with a reference tokenizer. "
    "Non-trivial: at least two tokens and a run of two separators; distinct by line.";

uint64_t vh_case_count(int thorough) { return thorough ? 30000000 : 1500000; }

static embc_cli_t cli; static int user, calls, rc_next, m_argc; static char *m_argv[256]; static char copy[80000];
/* a handler may parse another line (a script, an alias) while its own arguments are in use */
static embc_cli_t by; static int by_calls;
static int by_args(void *c, int argc, char *argv[]) {
    VH_CHECK(c == &by_calls && argc == 3 && !strcmp(argv[0], "inner") && !strcmp(argv[1], "x") && !strcmp(argv[2], "yz"), "nested", "a line parsed inside the handler was split differently");
    ++by_calls; return 5;
}
static void nested(void) {
    by_calls = 0; memset(&by, 0, sizeof(by)); by.execute_args = by_args; by.execute_cookie = &by_calls;
    int rc = embc_cli_line_parser(&by, "inner x, yz ");
    VH_CHECK(rc == 5 && by_calls == 1, "nested", "a line parsed inside the handler returned %d after %d calls", rc, by_calls);
    vh_count("nested_lines", 1);
}
static int on_args(void *c, int argc, char *argv[]) {
    if (vh_chance(1, 6)) { nested(); }
    VH_CHECK(c == &user, "cookie", "the handler got the wrong cookie");
    VH_CHECK(++calls == 1, "called-again", "the handler was called %d times", calls);
    VH_CHECK(argc == m_argc, "argc", "argc %d, expected %d", argc, m_argc);
    for (int i = 0; i < argc; ++i) { VH_CHECK(argv[i] && !strcmp(argv[i], m_argv[i]), "argv", "argv[%d] is \"%s\", expected \"%s\"", i, argv[i] ? argv[i] : "(null)", m_argv[i]); }
    for (int i = 0; i < argc; ++i) { memset(argv[i], '!', strlen(argv[i])); }   /* the arguments are the handler's to change */
    return rc_next;
}

static void split(const char *s) {
    m_argc = 0; strcpy(copy, s);
    for (char *t = copy; *t;) {
        while (*t == ' ' || *t == '\t' || *t == ',') { *t++ = 0; }
        if (!*t) { break; }
        m_argv[m_argc++] = t;
        while (*t && *t != ' ' && *t != '\t' && *t != ',') { ++t; }
    }
}

static void check_line(const char *s) {
    size_t n = strlen(s);
    char *e = vh_exact_str(s);
    split(s); calls = 0; rc_next = (int) vh_range(-2, 9);
    int rc = embc_cli_line_parser(&cli, e);
    VH_CHECK(!strcmp(e, s), "line-modified", "the caller's line changed");
    free(e);
    if (m_argc == 0) {
        VH_CHECK(calls == 0, "blank-called", "the handler was called for a blank line");
        VH_CHECK(rc == EMBC_CLI_SUCCESS || n >= EMBC_CLI_LINE_LENGTH, "blank-rc", "a blank line returned %d", rc);
        vh_count("blank", 1);
    } else if (m_argc > EMBC_CLI_MAX_ARGS) {
        VH_CHECK(calls == 0, "too-many-called", "the handler was called for %d arguments", m_argc);
        VH_CHECK(rc > 0, "too-many-rc", "%d arguments returned %d", m_argc, rc);
        vh_count("too_many", 1);
    } else if (calls == 0) {
        VH_CHECK(n >= EMBC_CLI_LINE_LENGTH, "not-called", "the handler was not called for \"%s\"", s);
        VH_CHECK(rc > 0, "too-long-rc", "an over-long line returned %d", rc);
        vh_count("too_long", 1);
    } else {
        VH_CHECK(rc == rc_next, "rc", "the handler returned %d, the parser %d", rc_next, rc);
        vh_count("parsed", 1); vh_count("arguments", (uint64_t) m_argc);
    }
}

static int gen(char *s) {
    static const char seps[] = {' ', ' ', '\t', ','};
    int style = (int) vh_below(6), n = 0;
    int goal = style == 0 ? (int) vh_range(60, 68) : style == 1 ? (int) vh_range(0, 200) : (int) vh_range(0, 50);
    int words = style == 2 ? (int) vh_range(14, 19) : style == 3 ? (int) vh_range(20, 40) : -1;
    int run = 0;
    if (words >= 0) {
        for (int w = 0; w < words; ++w) {
            int k = vh_chance(1, 8) ? (int) vh_range(1, 3) : 1; if (w == 0 && vh_chance(3, 4)) { k = 0; }
            if (k > 1) { run = 1; }
            while (k--) { s[n++] = seps[vh_below(4)]; }
            k = (int) vh_range(1, 3); while (k--) { s[n++] = (char) vh_range('a', 'z'); }
        }
        if (vh_chance(1, 3)) { s[n++] = seps[vh_below(4)]; }
    } else {
        while (n < goal) {
            if (vh_chance(1, 3)) { int k = vh_chance(1, 3) ? (int) vh_range(2, 5) : 1; if (k > 1) { run = 1; } while (k-- && n < goal) { s[n++] = seps[vh_below(4)]; } }
            else if (vh_chance(1, 12)) { s[n++] = (char) vh_range(1, 255); }
            else { s[n++] = (char) vh_range('!', '~'); }
        }
    }
    s[n] = 0;
    return run;
}

void vh_case(uint64_t index) {
    (void) index;
    char s[1024];
    memset(&cli, 0, sizeof(cli));
    cli.execute_args = on_args; cli.execute_cookie = &user;
    int run = gen(s);
    check_line(s);
    if (m_argc >= 2 && run) { vh_nontrivial(); }
    vh_sigs(s, strlen(s));

    if (vh_chance(1, 4)) {       /* the same through typing */
        char t[1024]; int n = 0; bool comment = false;
        for (char *p = s; *p; ++p) { if (*p != '\b' && *p != 127 && *p != '\n' && *p != '\r') { t[n++] = *p; } if (*p == '#' || *p == '@' || *p == '%') { comment = true; } }
        t[n] = 0;
        if (comment || n >= EMBC_CLI_LINE_LENGTH) { return; }
        split(t); calls = 0; rc_next = (int) vh_range(-2, 9);
        embc_cli_initialize(&cli);
        for (int i = 0; i < n; ++i) { embc_cli_insert_char(&cli, t[i]); }
        VH_CHECK(calls == 0, "early", "the handler ran before the line ended");
        embc_cli_insert_char(&cli, '\n');
        VH_CHECK(calls == (m_argc > 0 && m_argc <= EMBC_CLI_MAX_ARGS), "typed-calls", "typed \"%s\": handler called %d times", t, calls);
        vh_count("typed", 1);
    }
}

static void sc_limits(void) {
    char s[256];
    memset(&cli, 0, sizeof(cli)); cli.execute_args = on_args; cli.execute_cookie = &user;
    for (int n = 0; n < 200; ++n) {
        memset(s, 'a', (size_t) n); s[n] = 0; check_line(s);                              /* one token of every length */
        memset(s, ',', (size_t) n); check_line(s);                                        /* only separators */
        for (int i = 0; i < n; ++i) { s[i] = (i & 1) ? ' ' : 'b'; } check_line(s);        /* as many tokens as fit */
        for (int i = 0; i < n; ++i) { s[i] = (i & 1) ? '\t' : ','; } if (n) { s[n - 1] = 'z'; } check_line(s);
    }
    static const int far[] = {254, 255, 256, 257, 319, 320, 321, 511, 512, 1000, 32768, 65535, 65536, 65537, 65600, 70001};
    for (size_t q = 0; q < sizeof(far) / sizeof(far[0]); ++q) {
        int n = far[q]; char *t = malloc((size_t) n + 1); t[n] = 0;
        memset(t, 'a', (size_t) n); check_line(t);
        memset(t, ',', (size_t) n); check_line(t);
        t[n - 1] = 'z'; check_line(t);
        t[0] = 'y'; check_line(t);
        memset(t, 'a', (size_t) n); t[3] = t[n / 2] = ' '; check_line(t);
        free(t);
    }
    VH_CHECK(VH_FATAL(embc_cli_line_parser(0, "a")), "null", "a NULL instance was accepted");
    cli.execute_args = 0;
    VH_CHECK(embc_cli_line_parser(&cli, "a b") > 0, "no-handler", "a line without a handler succeeded");
    VH_CHECK(embc_cli_line_parser(&cli, "  ") == 0, "no-handler-blank", "a blank line without a handler failed");
}

const vh_scenario_t vh_scenarios[] = {{"limits", sc_limits}, {0, 0}};
