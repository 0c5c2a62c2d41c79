/* C21: the command line executes exactly what was typed.
 *
 * ASSUME: prompts are at most 15 characters (they must be NUL-terminated in 16 bytes); NUL does not come between CR and LF; a line whose text fits only after removing white space typed beyond the limit may be either executed whole or reported
 */
#include "vh.h"
#include "embc/cli.h"

const char *const vh_rule =
    "A case is one command line instance with random prompt, echo and verbose modes, line or argument handler, fed 2..12 lines of random keystrokes: words, white space, commas, comment starts, control and high characters, NUL, "
    "BS/DEL (also on empty and over-long lines), CR, LF and CRLF endings, line lengths biased to 60..68, and mode changes or re-initialisation mid-line. After every keystroke the text printed and the lines executed are "
    "compared with a reference editor. Non-trivial: at least one line executed, one backspace, and one line at or over the limit; distinct by expected transcript.";

uint64_t vh_case_count(int thorough) { return thorough ? 4000000 : 120000; }

#define L EMBC_CLI_LINE_LENGTH
static char out[8192]; static size_t outn;
static void put(const char *s) { size_t n = strlen(s); VH_CHECK(outn + n < sizeof(out), "runaway", "output does not stop"); memcpy(out + outn, s, n + 1); outn += n; }

/* a second command line, also typed at from inside the handlers of the first */
static embc_cli_t by; static bool by_on; static char by_out[256]; static int by_at;
static void by_put(const char *s) { VH_CHECK(strlen(by_out) + strlen(s) < sizeof(by_out), "bystander", "output of another command line does not stop"); strcat(by_out, s); }
static void by_print(void *c, const char *s) { VH_CHECK(c == &by, "bystander", "another command line's print cookie"); by_put(s); }
static int by_args(void *c, int argc, char *argv[]) {
    VH_CHECK(c == &by_out, "bystander", "another command line's cookie");
    by_put("{"); for (int i = 0; i < argc; ++i) { by_put(argv[i]); by_put("|"); } by_put("}"); return 0;
}
static void by_new(void) {
    memset(&by, 0, sizeof(by)); by.prompt[0] = '%'; by.response_success = "ok\n"; by.print = by_print; by.print_cookie = &by; by.execute_args = by_args; by.execute_cookie = &by_out;
    by_out[0] = 0; by_at = 0; embc_cli_initialize(&by);
    embc_cli_set_verbose(&by, EMBC_CLI_VERBOSE_FULL);
    VH_CHECK(!strcmp(by_out, "%"), "bystander", "prompt \"%s\"", by_out);
}
static void bystander(void) {
    static const char script[] = "seX\bt  on,off 1\r\n";
    for (int n = (int) vh_range(1, 12); n; --n) {
        by_out[0] = 0; char c = script[by_at];
        embc_cli_insert_char(&by, c);
        const char *e = c == '\r' ? "\n{set|on|off|1|}set on,off 1\nok\n%" : "";
        VH_CHECK(!strcmp(by_out, e), "bystander", "another command line printed/executed \"%s\", expected \"%s\"", by_out, e);
        by_at = script[by_at + 1] ? by_at + 1 : 0;
    }
    vh_count("bystander_keys", 1);
}
static embc_cli_t *cli; static int user_cookie, print_cookie, rc_next, calls; static bool has_print;
static void on_print(void *c, const char *s) { VH_CHECK(c == &print_cookie, "print-cookie", "wrong print cookie"); put(s); }
static int on_line(void *c, const char *s) {
    VH_CHECK(c == &user_cookie, "execute-cookie", "line handler got the wrong cookie");
    ++calls; if (by_on) { bystander(); } put("<"); put(s); put(">"); return rc_next;
}
static int on_args(void *c, int argc, char *argv[]) {
    VH_CHECK(c == &user_cookie, "args-cookie", "argument handler got the wrong cookie");
    ++calls; if (by_on) { bystander(); } put("{"); for (int i = 0; i < argc; ++i) { put(argv[i]); put("|"); } put("}"); return rc_next;
}

/* reference editor */
static char line[4096]; static int ln; static char last;
static char prompt[16], m_echo_ch; static int m_echo, m_verbose; static bool use_args, use_line;
static const char *ok_text, *err_text;
static char want[8192], alt[8192]; static bool has_alt;
static bool saw_exec, saw_bs, saw_long;

static void add(char *dst, const char *s) { strcat(dst, s); }
static void p_add(char *dst, const char *s) { if (has_print) { strcat(dst, s); } }
static int comment_at(void) { for (int i = 0; i < ln; ++i) { if (line[i] == '#' || line[i] == '@' || line[i] == '%') { return i; } } return ln; }
static int tidy(char *dst) {
    int n = 0, end = comment_at();
    for (int i = 0; i < end; ++i) {
        if (line[i] == ' ' || line[i] == '\t') { if (n && dst[n - 1] != ' ') { dst[n++] = ' '; } }
        else { dst[n++] = line[i]; }
    }
    while (n && dst[n - 1] == ' ') { --n; }
    dst[n] = 0;
    return n;
}
static void run_text(char *dst, const char *text) {
    int rc = EMBC_CLI_SUCCESS;
    if (use_args) {
        char copy[4096], all[8192] = "{"; int argc = 0; strcpy(copy, text);
        for (char *t = strtok(copy, " \t,"); t; t = strtok(0, " \t,")) { ++argc; strcat(all, t); strcat(all, "|"); }
        strcat(all, "}");
        if (argc > EMBC_CLI_MAX_ARGS) { rc = EMBC_CLI_ERROR_PARAMETER_VALUE; vh_count("too_many_args", 1); }
        else if (argc) { add(dst, all); rc = rc_next; }
    } else if (use_line) { add(dst, "<"); add(dst, text); add(dst, ">"); rc = rc_next; }
    if (rc != EMBC_CLI_SUCCESS_PROMPT_ONLY) {
        if (m_verbose == EMBC_CLI_VERBOSE_FULL) { p_add(dst, text); p_add(dst, "\n"); }
        p_add(dst, rc == EMBC_CLI_SUCCESS ? ok_text : err_text);
    }
}
static void end_line(void) {
    char text[4096]; int n = tidy(text);
    p_add(want, "\n"); strcpy(alt, want);
    if (ln > L && comment_at() >= L) {
        saw_long = true;
        p_add(want, "Maximum command line length reached\n");
        if (n < L) { has_alt = true; if (n) { run_text(alt, text); } }
        vh_count("lines_too_long", 1);
    } else if (n >= L) { saw_long = true; p_add(want, "Maximum command line length reached\n"); vh_count("lines_too_long", 1); }
    else if (n) { run_text(want, text); saw_exec = true; if (ln >= L - 1) { saw_long = true; } vh_count("lines_executed", 1); }
    else { vh_count("lines_blank", 1); }
    p_add(want, prompt); p_add(alt, prompt);
    ln = 0;
}

static void key(char c) {
    outn = 0; out[0] = 0; want[0] = alt[0] = 0; has_alt = false; calls = 0;
    static const int rcs[] = {0, 0, 0, -1, 1, 2, 3, 7, -2};
    rc_next = rcs[vh_below(9)];
    switch (c) {
        case 0: break;
        case '\b': case 127:
            if (ln) { --ln; saw_bs = true; if (m_echo != EMBC_CLI_ECHO_OFF) { p_add(want, "\b \b"); } vh_count("backspaces", 1); }
            break;
        case '\n': if (last == '\r') { vh_count("crlf", 1); break; } end_line(); break;
        case '\r': end_line(); break;
        default: {
            VH_CHECK(ln < (int) sizeof(line) - 1, "harness", "line buffer");
            line[ln++] = c;
            char e[2] = {m_echo == EMBC_CLI_ECHO_ON ? c : m_echo_ch, 0};
            if (m_echo != EMBC_CLI_ECHO_OFF) { p_add(want, e); }
        }
    }
    last = c;
    if (by_on && vh_chance(1, 8)) { bystander(); }
    embc_cli_insert_char(cli, c);
    VH_CHECK(!strcmp(out, want) || (has_alt && !strcmp(out, alt)), "transcript",
             "key 0x%02x after %d characters: printed/executed \"%s\", expected \"%s\"", (unsigned) (uint8_t) c, ln, out, want);
    vh_count("keys", 1); if (c == '\r' || c == '\n') { vh_sigs(want, strlen(want)); }
}

static char any_char(void) {
    static const char punct[] = "#@%,,  \t\t!=-_\"'\\$";
    uint32_t k = vh_below(40);
    if (k < 4) { return punct[vh_below(sizeof(punct) - 1)]; }
    if (k < 9) { return vh_chance(1, 3) ? '\t' : ' '; }
    if (k == 9) { return (char) vh_range(0x80, 0xff); }
    if (k == 10) { char c; do { c = (char) vh_range(1, 31); } while (c == '\b' || c == '\n' || c == '\r'); return c; }
    if (k == 11) { return ','; }
    if (k < 18) { return (char) vh_range('!', '~'); }
    return (char) (vh_chance(1, 2) ? vh_range('a', 'z') : vh_range('0', '9'));
}

void vh_case(uint64_t index) {
    (void) index;
    static embc_cli_t blank;
    cli = vh_exact(&blank, sizeof(blank));
    memset(cli, 0, sizeof(*cli)); memset(prompt, 0, sizeof(prompt));
    has_print = !vh_chance(1, 12);
    int pl = vh_chance(1, 4) ? 15 : (int) vh_range(0, 6);
    for (int i = 0; i < pl; ++i) { prompt[i] = (char) vh_range('!', '~'); }
    memcpy(cli->prompt, prompt, sizeof(prompt));
    if (vh_chance(1, 2)) { memset(cli->cmdline, 'x', sizeof(cli->cmdline)); cli->cmdlen = vh_range(0, 80); }
    ok_text = cli->response_success = vh_chance(1, 5) ? "" : "OK\n"; err_text = cli->response_error = vh_chance(1, 5) ? "?" : "ERROR\n";
    cli->print = has_print ? on_print : 0; cli->print_cookie = &print_cookie; cli->execute_cookie = &user_cookie;
    use_args = vh_chance(1, 3); use_line = !use_args && !vh_chance(1, 12);
    cli->execute_line = use_line || (use_args && vh_chance(1, 2)) ? on_line : 0; cli->execute_args = use_args ? on_args : 0;
    m_echo = EMBC_CLI_ECHO_OFF; m_echo_ch = 0; m_verbose = EMBC_CLI_VERBOSE_NORMAL; ln = 0; last = 0;
    saw_exec = saw_bs = saw_long = false;
    outn = 0; out[0] = 0;
    embc_cli_initialize(cli);
    VH_CHECK(!strcmp(out, has_print ? prompt : ""), "prompt", "initialize printed \"%s\"", out);

    if ((by_on = vh_chance(1, 4))) { by_new(); }
    int lines = (int) vh_range(2, 12);
    bool no_lf = false;
    for (int n = 0; n < lines; ++n) {
        int goal = vh_chance(1, 2) ? (int) vh_range(0, 20) : vh_chance(3, 4) ? (int) vh_range(60, 68) : (int) vh_range(0, 200);
        int style = (int) vh_below(6);
        while (ln < goal) {
            if (vh_chance(1, 60)) { m_echo = (int) vh_below(3); m_echo_ch = (char) (vh_chance(1, 4) ? vh_u8() : vh_range('!', '~')); embc_cli_set_echo(cli, (enum embc_cli_echo_mode_e) m_echo, m_echo_ch); }
            if (vh_chance(1, 90)) { m_verbose = (int) vh_below(2); embc_cli_set_verbose(cli, (enum embc_cli_verbose_mode_e) m_verbose); }
            if (vh_chance(1, 400)) {
                outn = 0; out[0] = 0; ln = 0; no_lf = last == '\r';
                embc_cli_initialize(cli);
                VH_CHECK(!strcmp(out, has_print ? prompt : ""), "prompt", "initialize printed \"%s\"", out);
                vh_count("reinitialised", 1);
            }
            if (vh_chance(1, 40) && last != '\r') { key(0); continue; }
            if (vh_chance(1, style == 5 ? 3 : 14)) { int b = vh_chance(1, 10) ? (int) vh_range(1, ln + 4) : 1; while (b--) { key(vh_chance(1, 2) ? '\b' : 127); } if (style == 5 && vh_chance(1, 10)) { goal = ln; } continue; }
            switch (style) {
                case 0: key((char) vh_range('a', 'z')); break;                                         /* one long word */
                case 1: key(vh_chance(1, 3) ? (char) vh_range('a', 'z') : vh_chance(1, 2) ? ' ' : '\t'); break;  /* mostly blank */
                case 2: key(ln < 3 ? (char) vh_range('a', 'c') : vh_chance(1, 30) ? 'z' : ' '); break;
                case 3: key(vh_chance(1, 2) ? ',' : vh_chance(1, 2) ? ' ' : (char) vh_range('0', '9')); break;
                default: key(any_char()); break;
            }
        }
        int e = (int) vh_below(4);
        if (e == 1 && (last == '\r' || no_lf)) { e = 0; }                      /* LF would only complete a CRLF */
        if (e == 0) { key('\r'); } else if (e == 1) { key('\n'); } else { key('\r'); key('\n'); }
        no_lf = false;
    }
    if (saw_exec && saw_bs && saw_long) { vh_nontrivial(); }
    free(cli);
}

/* every raw length around the limit, with the shortest and longest tidy text it can have */
static void sc_limits(void) {
    static embc_cli_t c; cli = &c; by_on = false;
    ok_text = "OK\n"; err_text = "ERROR\n"; has_print = true; use_line = true; use_args = false; m_echo = m_verbose = 0; m_echo_ch = 0; prompt[0] = '>'; prompt[1] = 0; last = 0; ln = 0;
    memset(&c, 0, sizeof(c)); c.prompt[0] = '>'; c.print = on_print; c.print_cookie = &print_cookie; c.execute_line = on_line; c.execute_cookie = &user_cookie; c.response_success = ok_text; c.response_error = err_text;
    embc_cli_initialize(&c);
    for (int n = 0; n <= 140; ++n) {
        for (int pad = 0; pad <= n; ++pad) {
            for (int i = 0; i < n; ++i) { key(i < n - pad ? (char) ('a' + i % 26) : ' '); }
            if (n & 1) { key('q'); }
            key('\n');
        }
        for (int over = 1; over < 5; ++over) {       /* type past, erase back, continue */
            for (int i = 0; i < n + over; ++i) { key((char) ('A' + i % 26)); }
            for (int i = 0; i < over; ++i) { key('\b'); }
            key('!'); key('\n');
        }
        vh_count("lengths", 1);
    }
    /* far past the limit: nothing typed later can make such a line short again, except erasing it */
    static const int far[] = {200, 254, 255, 256, 257, 300, 319, 320, 321, 500, 511, 512, 513, 1000, 2000, 3999};
    for (size_t q = 0; q < sizeof(far) / sizeof(far[0]); ++q) {
        for (int i = 0; i < far[q]; ++i) { key((char) ('a' + i % 26)); }
        key('\n');
        for (int i = 0; i < far[q]; ++i) { key((char) ('a' + i % 26)); }
        for (int i = 0; i < far[q] - 3; ++i) { key(127); }
        key('!'); key('\n');
        key('o'); key('k'); key('\n');
        vh_count("far_past_the_limit", 1);
    }
    VH_CHECK(VH_FATAL(embc_cli_initialize(0)) && VH_FATAL(embc_cli_insert_char(0, 'a')) && VH_FATAL(embc_cli_set_echo(0, EMBC_CLI_ECHO_ON, 0)) && VH_FATAL(embc_cli_set_verbose(0, EMBC_CLI_VERBOSE_FULL)), "null", "a NULL instance was accepted");
}

const vh_scenario_t vh_scenarios[] = {{"limits", sc_limits}, {0, 0}};
