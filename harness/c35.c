/* C35: the shared-library front end.  VH_USE_LIB
 * ASSUME: the fatal handler does not return into the failing operation when memory ran out (the harness leaves it with longjmp)
 * ASSUME: print text is compared in full up to 8191 characters and must be a terminated prefix of at least that length beyond
 */
#include "vh.h"
#include "embc/lib.h"
#include "embc/log.h"
#include "embc/assert.h"

const char *const vh_rule = "A case is 20..60 random steps against the shared-library front end: register, replace or remove the fatal handler (3 functions x 4 user data) and the print handler (same), initialise the library, install a failing or counting allocator, raise fatal errors (direct, assert macro, out of memory) with random file, line and message, emit log statements with text of 0..9000 characters, allocate 0..600 bytes and free; a model of the registrations says which callback must see what. One case in eight redirects stdout and observes the fallback printing too. Non-trivial: at least one fatal and one print reached a callback; distinct by the event history.";
uint64_t vh_case_count(int thorough) { return thorough ? 3000000 : 120000; }

enum { LONGEST = 9000 };
static struct { int n, who; void *ud; char file[64], msg[300]; int line; } F;
static struct { int n, who; void *ud; size_t len; char str[LONGEST + 400]; } T;
static int escape; static jmp_buf out;
static void fatal_any(int who, void *ud, char const *file, int line, char const *msg) {
    ++F.n; F.who = who; F.ud = ud; F.line = line;
    snprintf(F.file, sizeof(F.file), "%s", file); snprintf(F.msg, sizeof(F.msg), "%s", msg);
    if (escape) { longjmp(out, 1); }
}
static void print_any(int who, void *ud, char const *str) {
    ++T.n; T.who = who; T.ud = ud; T.len = strlen(str);
    snprintf(T.str, sizeof(T.str), "%s", str);
}
static void f0(void *u, char const *f, int l, char const *m) { fatal_any(0, u, f, l, m); }
static void f1(void *u, char const *f, int l, char const *m) { fatal_any(1, u, f, l, m); }
static void f2(void *u, char const *f, int l, char const *m) { fatal_any(2, u, f, l, m); }
static void p0(void *u, char const *s) { print_any(0, u, s); }
static void p1(void *u, char const *s) { print_any(1, u, s); }
static void p2(void *u, char const *s) { print_any(2, u, s); }
static embc_lib_fatal_fn const FN[] = {f0, f1, f2};
static embc_lib_print_fn const PN[] = {p0, p1, p2};
static char uds[4];

/* allocators */
static int alloc_mode, my_allocs, my_frees;      /* 0: library's own, 1: counting, 2: failing */
static void *count_alloc(embc_size_t n) { ++my_allocs; void *p = malloc((size_t) n ? (size_t) n : 1); if (p && n) { memset(p, 0xa5, (size_t) n); } return p; }
static void *fail_alloc(embc_size_t n) { (void) n; ++my_allocs; return NULL; }
static void count_free(void *p) { ++my_frees; free(p); }

static int fw, pw, hooked; static void *fud, *pud;      /* model: registered, -1 none */
static char text[LONGEST + 1], want[LONGEST + 400];
static FILE *cap_file, *real_out; static char *cap; static size_t cap_n;
static void cap_on(int on) { if (on) { real_out = stdout; cap = NULL; cap_n = 0; cap_file = open_memstream(&cap, &cap_n); stdout = cap_file; } }
static void cap_off(int on) { if (on) { fflush(cap_file); stdout = real_out; fclose(cap_file); } }
static void cap_done(int on) { if (on) { free(cap); } }

static size_t random_text(size_t max) {
    size_t n = vh_chance(1, 3) ? vh_below(40) : vh_chance(1, 2) ? vh_below(600) : vh_chance(1, 2) ? (size_t) vh_range(8180, 8200) : vh_below(LONGEST);
    if (n > max) { n = vh_below((uint32_t) max + 1); }
    uint64_t r = 0;
    for (size_t i = 0; i < n; ++i) { if (0 == (i & 7)) { r = vh_u64(); } text[i] = (r & 31) == 0 ? '%' : (char) (32 + (r & 255) % 95); r >>= 8; }
    text[n] = 0;
    return n;
}
/* the printed text must be `want` (complete, or cut beyond 8191) delivered once to the registered printer, or on stdout */
static void check_print(const char *what, int redirected) {
    size_t n = strlen(want);
    if (pw >= 0) {
        VH_CHECK(T.n == 1, "print-count", "%s: %d print callbacks", what, T.n);
        VH_CHECK(T.who == pw && T.ud == pud, "print-handler", "%s: handler %d with data %d, registered %d with %d", what, T.who, (int) ((char *) T.ud - uds), pw, (int) ((char *) pud - uds));
        VH_CHECK(T.len <= n && (T.len == n || T.len >= 8191), "print-length", "%s: %zu of %zu characters", what, T.len, n);
        VH_CHECK(0 == memcmp(T.str, want, T.len), "print-text", "%s: \"%.100s\" expected \"%.100s\"", what, T.str, want);
        vh_count("prints_delivered", 1);
        if (n > 8191) { vh_count("prints_beyond_buffer", 1); }
        if (redirected) { VH_CHECK(cap_n == 0, "print-stray", "%s: %zu bytes on stdout too", what, cap_n); }
    } else {
        VH_CHECK(T.n == 0, "print-unregistered", "%s: %d callbacks after removal", what, T.n);
        if (redirected) {
            VH_CHECK(cap_n == n && 0 == memcmp(cap, want, n), "print-fallback", "%s: stdout got \"%.*s\" expected \"%.100s\"", what, (int) (cap_n > 100 ? 100 : cap_n), cap, want);
            vh_count("stdout_fallbacks", 1);
        }
    }
}
static void check_fatal(const char *file, int line, const char *msg, int redirected) {
    if (fw >= 0) {
        VH_CHECK(F.n == 1, "fatal-count", "%d fatal callbacks", F.n);
        VH_CHECK(F.who == fw && F.ud == fud, "fatal-handler", "handler %d, registered %d, data %d vs %d", F.who, fw, (int) ((char *) F.ud - uds), (int) ((char *) fud - uds));
        VH_CHECK((line < 0 || F.line == line) && 0 == strcmp(F.file, file) && 0 == strcmp(F.msg, msg), "fatal-content", "%s:%d:%s expected %s:%d:%s", F.file, F.line, F.msg, file, line, msg);
        VH_CHECK(T.n == 0, "fatal-and-print", "a handled fatal error was printed too");
        if (redirected) { VH_CHECK(cap_n == 0, "fatal-stray", "a handled fatal error was printed on stdout too"); }
        vh_count("fatals_delivered", 1);
    } else {
        VH_CHECK(F.n == 0, "fatal-unregistered", "%d fatal callbacks after removal", F.n);
        snprintf(want, sizeof(want), "FATAL: %s : %d : %s", file, line, msg);
        if (pw >= 0 || redirected) {
            /* the layout of the line is not specified: it carries file, line and message */
            const char *got = pw >= 0 ? T.str : cap; char num[16]; snprintf(num, sizeof(num), "%d", line);
            VH_CHECK(pw < 0 || T.n == 1, "fatal-print", "%d prints for an unhandled fatal error", T.n);
            VH_CHECK(pw < 0 || (T.who == pw && T.ud == pud), "fatal-print-handler", "handler %d", T.who);
            VH_CHECK(got && strstr(got, file) && strstr(got, msg) && strstr(got, num), "fatal-print-text", "\"%s\" lacks %s, %s or %s", got ? got : "", file, num, msg);
            vh_count("fatals_printed", 1);
        }
    }
}

enum { BLOCKS = 24 };
static struct { uint8_t *p; size_t n; uint8_t fill; } B[BLOCKS];
static void blk_free(int i) {
    for (size_t k = 0; k < B[i].n; ++k) { VH_CHECK(B[i].p[k] == B[i].fill, "alloc-overlap", "byte %zu of a live block changed", k); }
    int fr = my_frees;
    embc_lib_free(B[i].p);
    VH_CHECK(my_frees - fr == (alloc_mode != 0), "free-count", "%d frees for one block", my_frees - fr);
    B[i].p = NULL;
    vh_count("frees", 1);
}
void vh_case(uint64_t index) {
    int redirect = index % 8 == 0, got_f = 0, got_p = 0;
    /* fresh start: nothing registered */
    embc_lib_fatal_set(NULL, NULL); embc_lib_print_set(NULL, NULL); embc_log_finalize();
    fw = pw = -1; fud = pud = NULL; hooked = 0;
    embc_lib_initialize(); alloc_mode = 0; memset(B, 0, sizeof(B));
    int steps = (int) vh_range(20, 60);
    vh_trace("redirect %d", redirect);
    for (int s = 0; s < steps; ++s) {
        uint32_t op = vh_below(16);
        F.n = T.n = 0; T.str[0] = 0; escape = 0;
        vh_sig(op);
        if (op < 2) {
            fw = vh_chance(1, 4) ? -1 : (int) vh_below(3); fud = vh_chance(1, 8) ? NULL : &uds[vh_below(4)];
            embc_lib_fatal_set(fw < 0 ? NULL : FN[fw], fud); vh_trace("fatal_set %d", fw); vh_sig((uint64_t) (fw + 2)); vh_count("registrations", 1);
        } else if (op < 4) {
            pw = vh_chance(1, 4) ? -1 : (int) vh_below(3); pud = vh_chance(1, 8) ? NULL : &uds[vh_below(4)];
            embc_lib_print_set(pw < 0 ? NULL : PN[pw], pud); hooked = 1; vh_trace("print_set %d", pw); vh_sig((uint64_t) (pw + 2)); vh_count("registrations", 1);
        } else if (op < 5) {
            for (int i = 0; i < BLOCKS; ++i) { if (B[i].p) { blk_free(i); } }
            int m = (int) vh_below(3);
            if (m == 0) { embc_lib_initialize(); } else { embc_allocator_set(m == 1 ? count_alloc : fail_alloc, count_free); }
            alloc_mode = m; vh_trace("allocator %d", m);
        } else if (op < 8) {
            char file[40]; int line = vh_chance(1, 8) ? 0x7fffffff : (int) vh_below(100000);
            snprintf(file, sizeof(file), "dir%%s/file_%u.c", vh_below(1000));
            random_text(200);
            vh_trace("fatal %s %d", file, line);
            if (pw < 0 && fw < 0 && !redirect) { continue; }
            cap_on(redirect); 
            embc_fatal(file, line, text);
            cap_off(redirect);
            check_fatal(file, line, text, redirect); cap_done(redirect);
            got_f |= fw >= 0; got_p |= fw < 0 && pw >= 0;
        } else if (op < 9) {
            if (fw < 0) { continue; }
            int v = (int) vh_below(2), line = __LINE__ + 1;
            EMBC_ASSERT(v == 1);
            if (v) { VH_CHECK(F.n == 0, "assert-silent", "a true assertion raised a fatal error"); }
            else { check_fatal(__FILE__, line, "assert", 0); }
        } else if (op < 12) {
            if (!hooked) { continue; }
            if (pw < 0 && !redirect) { continue; }
            random_text(LONGEST);
            int v = (int) vh_u32(), line = 0, form = (int) vh_below(2);
            vh_sigs(text, strlen(text));
            cap_on(redirect);
            if (form) { line = __LINE__; EMBC_LOGE("%s", text); }
            else { line = __LINE__; EMBC_LOGE("%d:%s|%08x", v, text, v); }
            cap_off(redirect);
            if (form) { snprintf(want, sizeof(want), "E %s:%d: %s\n", __FILENAME__, line, text); }
            else { snprintf(want, sizeof(want), "E %s:%d: %d:%s|%08x\n", __FILENAME__, line, v, text, v); }
            vh_trace("log %zu", strlen(want));
            check_print("log", redirect); cap_done(redirect);
            VH_CHECK(F.n == 0, "log-fatal", "a log statement raised a fatal error");
            got_p |= pw >= 0;
        } else if (op < 15) {
            int i = (int) vh_below(BLOCKS);
            if (B[i].p) { blk_free(i); continue; }
            size_t n = vh_chance(1, 8) ? vh_below(3) : vh_below(601); int before = my_allocs;
            vh_trace("alloc %zu", n);
            if (alloc_mode == 2) {
                if (fw < 0) { continue; }
                escape = 1;
                volatile int left = 0;
                if (0 == setjmp(out)) { embc_lib_alloc((embc_size_t) n); } else { left = 1; }
                VH_CHECK(left && F.n == 1 && F.who == fw && F.ud == fud && 0 == strcmp(F.msg, "memory allocation"), "oom", "left %d, %d fatals, \"%s\"", left, F.n, F.msg);
                vh_count("out_of_memory", 1);
                continue;
            }
            uint8_t *p = embc_lib_alloc((embc_size_t) n);
            VH_CHECK(p || n == 0, "alloc-null", "%zu bytes", n);
            VH_CHECK(my_allocs - before == (alloc_mode == 1), "alloc-count", "%d allocations", my_allocs - before);
            for (size_t k = 0; k < n; ++k) { VH_CHECK(p[k] == 0, "alloc-zero", "byte %zu of %zu is %02x", k, n, p[k]); }
            for (int k = 0; k < BLOCKS; ++k) { VH_CHECK(!B[k].p || p + n <= B[k].p || B[k].p + B[k].n <= p, "alloc-overlap", "%zu bytes overlap a live block", n); }
            B[i].p = p; B[i].n = n; B[i].fill = vh_u8(); if (n) { memset(p, B[i].fill, n); }
            vh_count("allocations", 1);
        } else {
            int fr = my_frees; embc_lib_free(NULL);
            VH_CHECK(F.n == 0 && my_frees == fr, "free-null", "%d fatals, %d frees", F.n, my_frees - fr);
        }
    }
    F.n = T.n = 0;
    for (int i = 0; i < BLOCKS; ++i) { if (B[i].p) { blk_free(i); } }
    if (got_f && got_p) { vh_nontrivial(); }
}
const vh_scenario_t vh_scenarios[] = {{0, 0}};
