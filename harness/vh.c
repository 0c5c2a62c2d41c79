#include "vh.h"
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <fcntl.h>
#include "embc/platform.h"
#include "embc/log.h"

int vh_tier_thorough = 0;
uint64_t vh_seed = 1;
uint64_t vh_case_index = 0;
jmp_buf vh_fatal_jmp;
volatile int vh_fatal_armed = 0;
volatile int vh_fatal_hits = 0;
char vh_fatal_msg[256];

static const char *out_path = 0;
static const char *scenario_name = "";
static uint64_t rng_s[2];
static uint64_t sig_;
static bool nontrivial_;
static uint64_t step_count, step_limit = (uint64_t) -1;

/* ---------------- rng ---------------- */
static uint64_t splitmix(uint64_t *x) {
    uint64_t z = (*x += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static void rng_seed(uint64_t a, uint64_t b) {
    uint64_t x = a * 0xD6E8FEB86659FD93ULL + b;
    rng_s[0] = splitmix(&x);
    rng_s[1] = splitmix(&x);
    if (!rng_s[0] && !rng_s[1]) { rng_s[0] = 1; }
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t vh_u64(void) {
    uint64_t s0 = rng_s[0], s1 = rng_s[1];
    uint64_t r = rotl(s0 * 5, 7) * 9;
    s1 ^= s0;
    rng_s[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16);
    rng_s[1] = rotl(s1, 37);
    return r;
}
uint32_t vh_below(uint32_t n) { return n ? (uint32_t) (((uint64_t) vh_u32() * n) >> 32) : 0; }
int64_t vh_range(int64_t lo, int64_t hi) {
    uint64_t span = (uint64_t) hi - (uint64_t) lo + 1;
    return span ? (int64_t) ((uint64_t) lo + vh_u64() % span) : (int64_t) vh_u64();
}
bool vh_chance(uint32_t num, uint32_t den) { return vh_below(den) < num; }
uint64_t vh_edge64(void) {
    uint64_t v;
    switch (vh_below(6)) {
        case 0: v = vh_u64(); break;
        case 1: v = 1ULL << vh_below(64); break;
        case 2: v = (1ULL << vh_below(64)) - 1; break;
        case 3: v = vh_below(16); break;
        case 4: v = vh_u64() >> vh_below(64); break;
        default: v = ~(uint64_t) vh_below(16); break;
    }
    if (vh_chance(1, 4)) { v += (uint64_t) vh_range(-2, 2); }
    return v;
}
void vh_fill(void *p, size_t n) { uint8_t *b = p; for (size_t i = 0; i < n; ++i) { b[i] = vh_u8(); } }
uint64_t vh_hash(const void *p, size_t n) {
    const uint8_t *b = p; uint64_t h = 0xcbf29ce484222325ULL;
    for (size_t i = 0; i < n; ++i) { h = (h ^ b[i]) * 0x100000001b3ULL; }
    return h ^ (h >> 29);
}

/* ---------------- observation ---------------- */
#define MAX_COUNTERS 128
static struct { const char *name; uint64_t n; } counters[MAX_COUNTERS];
static int counter_n;
void vh_count(const char *name, uint64_t n) {
    for (int i = 0; i < counter_n; ++i) {
        if (counters[i].name == name || 0 == strcmp(counters[i].name, name)) { counters[i].n += n; return; }
    }
    if (counter_n < MAX_COUNTERS) { counters[counter_n].name = name; counters[counter_n++].n = n; }
}
void vh_sig(uint64_t v) { sig_ = (sig_ ^ v) * 0x9E3779B97F4A7C15ULL; sig_ ^= sig_ >> 31; }
void vh_sigs(const void *p, size_t n) { vh_sig(vh_hash(p, n)); vh_sig(n); }
void vh_nontrivial(void) { nontrivial_ = true; }

#define RING (1 << 16)
static char ring[RING];
static size_t ring_pos; static bool ring_full;
static char sample[2048]; static size_t sample_len; static bool sampling;
void vh_trace(const char *fmt, ...) {
    char line[512];
    va_list a; va_start(a, fmt);
    int n = vsnprintf(line, sizeof(line) - 1, fmt, a);
    va_end(a);
    if (n < 0) { return; }
    if (n > (int) sizeof(line) - 2) { n = sizeof(line) - 2; }
    line[n++] = '\n';
    for (int i = 0; i < n; ++i) {
        ring[ring_pos++] = line[i];
        if (ring_pos == RING) { ring_pos = 0; ring_full = true; }
    }
    if (sampling && sample_len + n < sizeof(sample)) { memcpy(sample + sample_len, line, n); sample_len += n; }
}

static void json_str(FILE *f, const char *s, size_t n) {
    fputc('"', f);
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = (unsigned char) s[i];
        if (c == '"' || c == '\\') { fprintf(f, "\\%c", c); }
        else if (c == '\n') { fputs("\\n", f); }
        else if (c < 0x20 || c >= 0x7f) { fprintf(f, "\\u%04x", c); }
        else { fputc(c, f); }
    }
    fputc('"', f);
}

void vh_fail(const char *key, const char *fmt, ...) {
    char msg[1024];
    va_list a; va_start(a, fmt);
    vsnprintf(msg, sizeof(msg), fmt, a);
    va_end(a);
    char path[4096];
    snprintf(path, sizeof(path), "%s.fail", out_path ? out_path : "/dev/stderr");
    FILE *f = out_path ? fopen(path, "w") : stderr;
    if (f) {
        fprintf(f, "KEY %s\nCASE %llu\nSCENARIO %s\nSEED %llu\nMSG %s\n--- trace (most recent last) ---\n", key,
                (unsigned long long) vh_case_index, scenario_name, (unsigned long long) vh_seed, msg);
        if (ring_full) { fwrite(ring + ring_pos, 1, RING - ring_pos, f); }
        fwrite(ring, 1, ring_pos, f);
        fflush(f);
        if (out_path) { fclose(f); }
    }
    _exit(77);
}

void vh_steps_reset(uint64_t limit) { step_count = 0; step_limit = limit; }
void vh_step(const char *what) {
    if (++step_count > step_limit) {
        vh_fail("runaway", "more than %llu steps (%s): no progress", (unsigned long long) step_limit, what);
    }
}

/* ---------------- fatal ---------------- */
__attribute__((weak))   /* lib.c has its own */
void embc_fatal(char const *file, int line, char const *msg) {
    ++vh_fatal_hits;
    snprintf(vh_fatal_msg, sizeof(vh_fatal_msg), "%s:%d:%s", file ? file : "?", line, msg ? msg : "?");
    vh_trace("embc_fatal %s", vh_fatal_msg);
    if (vh_fatal_armed) { longjmp(vh_fatal_jmp, 1); }
    char key[300];
    snprintf(key, sizeof(key), "unexpected-fatal:%s", msg ? msg : "?");
    vh_fail(key, "fatal handler invoked in a valid history: %s", vh_fatal_msg);
}

/* ---------------- heap ledger ---------------- */
static int64_t heap_live, heap_total;
static void *ledger_alloc(embc_size_t n) {
    void *p = malloc((size_t) n);
    if (p) {
#ifndef VH_MSAN  /* MemorySanitizer tracks fresh heap memory as uninitialised instead */
        memset(p, 0xA5, (size_t) n);
#endif
        ++heap_live; ++heap_total;
    }
    return p;
}
static void ledger_free(void *p) {
    if (!p) { return; }
    --heap_live;
    free(p);
}
int64_t vh_heap_live(void) { return heap_live; }
int64_t vh_heap_total(void) { return heap_total; }
void vh_heap_check(int64_t expected, const char *key) {
    VH_CHECK(heap_live == expected, key, "heap blocks live=%lld expected=%lld",
             (long long) heap_live, (long long) expected);
}

void *vh_exact(const void *src, size_t n) {
    uint8_t *p = malloc(n ? n : 1);
    if (src && n) { memcpy(p, src, n); }
    if (!n) { void *q = realloc(p, 1); return q; }
    return p;
}
char *vh_exact_str(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }

/* ---------------- log sink ---------------- */
static volatile uint64_t log_lines;
static void log_sink(const char *fmt, ...) {
    char b[512];
    va_list a; va_start(a, fmt);
    vsnprintf(b, sizeof(b), fmt, a);
    va_end(a);
    ++log_lines;
}

/* ---------------- watchdog ---------------- */
static int cpu_limit = 40;
static void on_prof(int sig) {
    (void) sig;
    char path[4096]; char b[200];
    snprintf(path, sizeof(path), "%s.hang", out_path ? out_path : "/tmp/vh");
    int fd = open(path, O_CREAT | O_WRONLY | O_TRUNC, 0644);
    int n = snprintf(b, sizeof(b), "%llu\n", (unsigned long long) vh_case_index);
    if (fd >= 0) { if (write(fd, b, (size_t) n) < 0) { } close(fd); }
    _exit(78);
}
static void watchdog_arm(void) {
    struct itimerval it = {{0, 0}, {cpu_limit, 0}};
    setitimer(ITIMER_PROF, &it, 0);
}

/* ---------------- main ---------------- */
static void json_counters(FILE *f) {
    fputs("\"counters\": {", f);
    for (int i = 0; i < counter_n; ++i) { fprintf(f, "%s\"%s\": %llu", i ? ", " : "", counters[i].name, (unsigned long long) counters[i].n); }
    fputs("}", f);
}
static int cmp64(const void *a, const void *b) {
    uint64_t x = *(const uint64_t *) a, y = *(const uint64_t *) b;
    return x < y ? -1 : x > y;
}

int main(int argc, char **argv) {
    uint64_t workers = 1, worker = 0, start = 0, cases = 0, only = 0, divide = 1;
    bool have_only = false, list = false;
    const char *scen = 0;
    for (int i = 1; i < argc; ++i) {
        const char *a = argv[i]; const char *v = (i + 1 < argc) ? argv[i + 1] : "";
        if (!strcmp(a, "--seed")) { vh_seed = strtoull(v, 0, 0); ++i; }
        else if (!strcmp(a, "--thorough")) { vh_tier_thorough = 1; }
        else if (!strcmp(a, "--workers")) { workers = strtoull(v, 0, 0); ++i; }
        else if (!strcmp(a, "--worker")) { worker = strtoull(v, 0, 0); ++i; }
        else if (!strcmp(a, "--start")) { start = strtoull(v, 0, 0); ++i; }
        else if (!strcmp(a, "--cases")) { cases = strtoull(v, 0, 0); ++i; }
        else if (!strcmp(a, "--divide")) { divide = strtoull(v, 0, 0); ++i; }
        else if (!strcmp(a, "--only")) { only = strtoull(v, 0, 0); have_only = true; ++i; }
        else if (!strcmp(a, "--out")) { out_path = v; ++i; }
        else if (!strcmp(a, "--cpu")) { cpu_limit = atoi(v); ++i; }
        else if (!strcmp(a, "--scenario")) { scen = v; ++i; }
        else if (!strcmp(a, "--list")) { list = true; }
        else { fprintf(stderr, "bad arg %s\n", a); return 2; }
    }
    if (list) {
        for (const vh_scenario_t *s = vh_scenarios; s->name; ++s) { puts(s->name); }
        return 0;
    }
    embc_allocator_set(ledger_alloc, ledger_free);
    embc_log_initialize(log_sink);
    signal(SIGPROF, on_prof);
    setvbuf(stdout, 0, _IOLBF, 0);

    if (scen) {
        for (const vh_scenario_t *s = vh_scenarios; s->name; ++s) {
            if (0 == strcmp(s->name, scen)) {
                scenario_name = scen;
                rng_seed(vh_seed, 0x5ce7a710);
                watchdog_arm();
                vh_trace("scenario %s", scen);
                s->fn();
                FILE *f = out_path ? fopen(out_path, "w") : 0;
                if (f) { fputs("{", f); json_counters(f); fputs("}\n", f); fclose(f); }
                return 0;
            }
        }
        return 2;
    }

    if (!cases) { cases = vh_case_count(vh_tier_thorough); }
    cases = (cases + divide - 1) / divide;
    uint64_t evaluations = 0, nontriv = 0;
    uint64_t cap = 4096, *hashes = malloc(cap * sizeof(uint64_t));
    char *samples[3] = {0}; int sample_n = 0;
    /* progress: which case is running, readable after a crash */
    volatile uint64_t *progress = 0;
    if (out_path) {
        char path[4096];
        snprintf(path, sizeof(path), "%s.progress", out_path);
        int fd = open(path, O_CREAT | O_RDWR | O_TRUNC, 0644);
        if (fd >= 0 && 0 == ftruncate(fd, 8)) {
            void *m = mmap(0, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) { progress = m; }
            close(fd);
        }
    }
    for (uint64_t k = have_only ? only : start + worker; have_only || k < cases; k += workers) {
        vh_case_index = k;
        if (progress) { *progress = k; }
        rng_seed(vh_seed, k);
        sig_ = 0; nontrivial_ = false; ring_pos = 0; ring_full = false;
        step_limit = (uint64_t) -1;
        vh_fatal_armed = 0;
        sampling = (sample_n < 3) && (out_path != 0); sample_len = 0;
        watchdog_arm();
        vh_case(k);
        ++evaluations;
        if (nontrivial_) {
            if (nontriv == cap) { cap *= 2; hashes = realloc(hashes, cap * sizeof(uint64_t)); }
            hashes[nontriv++] = sig_;
            if (sampling && sample_len) {
                samples[sample_n] = malloc(sample_len + 1);
                memcpy(samples[sample_n], sample, sample_len); samples[sample_n][sample_len] = 0;
                ++sample_n;
            }
        }
        if (have_only) { break; }
    }
    struct itimerval off = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &off, 0);
    qsort(hashes, nontriv, sizeof(uint64_t), cmp64);
    uint64_t d = 0;
    for (uint64_t i = 0; i < nontriv; ++i) { if (!i || hashes[i] != hashes[i - 1]) { hashes[d++] = hashes[i]; } }
    if (out_path) {
        char path[4096];
        snprintf(path, sizeof(path), "%s.hash", out_path);
        FILE *h = fopen(path, "wb");
        if (h) { fwrite(hashes, sizeof(uint64_t), d, h); fclose(h); }
        FILE *f = fopen(out_path, "w");
        if (!f) { return 2; }
        fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct\": %llu, \"log_lines\": %llu, \"rule\": ",
                (unsigned long long) evaluations, (unsigned long long) nontriv, (unsigned long long) d,
                (unsigned long long) log_lines);
        json_str(f, vh_rule, strlen(vh_rule));
        fputs(", ", f);
        json_counters(f);
        fprintf(f, ", \"samples\": [");
        for (int i = 0; i < sample_n; ++i) {
            if (i) { fputs(", ", f); }
            json_str(f, samples[i], strlen(samples[i]));
        }
        fprintf(f, "]}\n");
        fclose(f);
    } else {
        printf("evaluations=%llu distinct_nontrivial=%llu\n", (unsigned long long) evaluations, (unsigned long long) d);
        for (int i = 0; i < counter_n; ++i) { printf("  %s=%llu\n", counters[i].name, (unsigned long long) counters[i].n); }
    }
    return 0;
}
