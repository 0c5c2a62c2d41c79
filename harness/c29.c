/* C29: time conversions against 128-bit reference arithmetic.
 * ASSUME: counter frequencies 1 .. 2^32 Hz; a counter or time whose conversion does not fit int64_t is outside the representable range and not tried
 * ASSUME: to-counter results within two seconds' worth of ticks of the int64_t limits are not tried
 * ASSUME: from-counter conversions truncate towards zero (the header names no rounding for them)
 * ASSUME: double precision is exact only to 53 bits, as the header warns; float conversions are judged within that precision */
#include "vh.h"
#include "embc/time.h"
#include <math.h>

typedef __int128 w_t;
const char *const vh_rule = "A case draws 64 times and counters (log-uniform, around every power of two, whole seconds, half ticks, range ends, negatives) and frequencies (1, 2, powers of two and ten, 32768, primes, 2^32, random); every conversion is compared with 128-bit arithmetic, with its neighbour (monotonic) and with its inverse (round trip). Non-trivial: the value is not zero; distinct by (value, frequency).";
uint64_t vh_case_count(int thorough) { return thorough ? 12000000 : 400000; }

static w_t floordiv(w_t a, w_t b) { w_t q = a / b; return ((a % b) < 0) ? q - 1 : q; }
static const w_t S = (w_t) 1 << 30;
static w_t r_near(w_t x, w_t z) { return floordiv(x * z + S / 2, S); }
static w_t r_down(w_t x, w_t z) { return floordiv(x * z, S); }
static w_t r_up(w_t x, w_t z) { return -floordiv(-(x * z), S); }
static bool fits(w_t v) { return v >= (w_t) INT64_MIN && v <= (w_t) INT64_MAX; }

static int64_t val(void) {
    switch (vh_below(6)) {
        case 0: return (int64_t) vh_edge64();
        case 1: return (int64_t) (vh_u64() >> vh_below(64)) * (vh_chance(1, 2) ? 1 : -1);
        case 2: return (int64_t) (vh_range(-(1ll << 33), (1ll << 33) - 1)) * (1ll << 30) + (int64_t) vh_range(0, 3);
        case 3: { int64_t b = vh_range(-(1ll << 32), (1ll << 32)); return b * (1ll << 30) + (1ll << 29) + vh_range(-2, 2); }
        case 4: return vh_range(-1000000, 1000000);
        default: { uint32_t s = vh_below(63); int64_t v = (int64_t) ((1ull << s) + (uint64_t) vh_range(-3, 3)); return vh_chance(1, 2) ? v : -v; }
    }
}
static int64_t freq(void) {
    static const int64_t F[] = {1, 2, 3, 7, 10, 60, 100, 1000, 1024, 4096, 9600, 32768, 44100, 48000, 115200, 1000000, 1048576, 8000000, 12345679, 16777216, 64000000, 168000000, 1000000000, 1073741823, 1073741824, 1073741825, 2147483647, 4294967295ll, 4294967296ll};
    if (vh_chance(1, 3)) { return (int64_t) (vh_u64() >> (32 + vh_below(32))) + 1; }
    return F[vh_below(sizeof(F) / sizeof(F[0]))];
}
#define P(v) (long long) (v)
static void to(int64_t x, int64_t z) {
    w_t n = r_near(x, z), u = r_up(x, z), d = r_down(x, z);
    if (!fits(n + 2 * (w_t) z) || !fits(n - 2 * (w_t) z)) { vh_count("unrepresentable", 1); return; }
    int64_t gn = EMBC_TIME_TO_COUNTER(x, z), gu = EMBC_TIME_TO_COUNTER_ROUND_UP(x, z), gd = EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z);
    vh_count("to_counter", 1);
    VH_CHECK(gn == n, "nearest", "TIME_TO_COUNTER(%lld,%lld) = %lld, expected %lld", P(x), P(z), P(gn), P(n));
    VH_CHECK(gu == u, "round-up", "ROUND_UP(%lld,%lld) = %lld, expected %lld", P(x), P(z), P(gu), P(u));
    VH_CHECK(gd == d, "round-down", "ROUND_DOWN(%lld,%lld) = %lld, expected %lld", P(x), P(z), P(gd), P(d));
    if (x < INT64_MAX && fits(r_up((w_t) x + 1, z))) {
        int64_t y = x + 1;
        VH_CHECK(EMBC_TIME_TO_COUNTER(y, z) >= gn && EMBC_TIME_TO_COUNTER_ROUND_UP(y, z) >= gu && EMBC_TIME_TO_COUNTER_ROUND_DOWN(y, z) >= gd, "monotonic", "to counter not monotonic at %lld,%lld", P(x), P(z));
    }
    /* round trip: within half a tick (plus the truncation of the way back) */
    w_t back = (w_t) gn * S / z;
    if (fits(back)) {
        int64_t b = EMBC_COUNTER_TO_TIME(gn, z);
        w_t e = (w_t) b - x; if (e < 0) { e = -e; }
        VH_CHECK(e * z <= S / 2 + z, "round-trip", "time %lld -> %lld ticks of %lld Hz -> %lld", P(x), P(gn), P(z), P(b));
        vh_count("round_trips", 1);
    }
    /* arguments that are expressions */
    int64_t zh = z / 2, zr = z - zh, xh = x / 2, xr = x - xh; (void) xh;
    VH_CHECK(EMBC_TIME_TO_COUNTER(xh + xr, zh + zr) == n && EMBC_TIME_TO_COUNTER_ROUND_UP(xh + xr, zh + zr) == u && EMBC_TIME_TO_COUNTER_ROUND_DOWN(xh + xr, zh + zr) == d, "expression-argument", "conversion of expression arguments differs");
}
static void from(int64_t c, int64_t z) {
    w_t r = (w_t) c * S / z;
    if (!fits(r)) { vh_count("unrepresentable", 1); return; }
    int64_t g = EMBC_COUNTER_TO_TIME(c, z);
    vh_count("from_counter", 1);
    VH_CHECK(g == r, "from-counter", "COUNTER_TO_TIME(%lld,%lld) = %lld, expected %lld", P(c), P(z), P(g), P(r));
    if (c < INT64_MAX && fits(((w_t) c + 1) * S / z)) { int64_t y = c + 1; VH_CHECK(EMBC_COUNTER_TO_TIME(y, z) >= g, "monotonic", "from counter not monotonic at %lld,%lld", P(c), P(z)); }
    if (z <= (1 << 30)) { int64_t b = EMBC_TIME_TO_COUNTER(g, z); VH_CHECK(b == c || (z > (1 << 29) && b - c <= 1 && c - b <= 1), "round-trip", "%lld ticks of %lld Hz -> %lld -> %lld", P(c), P(z), P(g), P(b)); vh_count("round_trips", 1); }
}
/* the source of each value is read once */
static int64_t reads; static int64_t clockv;
static int64_t clock_read(void) { ++reads; int64_t v = clockv; clockv += 1ll << 30; return v; }

static void named(int64_t x) {
    struct { w_t z; int64_t got; const char *n; } T[4] = {
        {1, 0, "SECONDS"}, {1000, 0, "MILLISECONDS"}, {1000000, 0, "MICROSECONDS"}, {1000000000, 0, "NANOSECONDS"}};
    for (int i = 0; i < 4; ++i) {
        if (fits(r_near(x, T[i].z))) {
            int64_t g = (i == 0) ? EMBC_TIME_TO_SECONDS(x) : (i == 1) ? EMBC_TIME_TO_MILLISECONDS(x) : (i == 2) ? EMBC_TIME_TO_MICROSECONDS(x) : EMBC_TIME_TO_NANOSECONDS(x);
            VH_CHECK(g == r_near(x, T[i].z), "named-to", "TIME_TO_%s(%lld) = %lld", T[i].n, P(x), P(g));
            vh_count("named", 1);
        }
        w_t r = (w_t) x * S / T[i].z;
        if (fits(r)) {
            int64_t g = (i == 0) ? EMBC_SECONDS_TO_TIME(x) : (i == 1) ? EMBC_MILLISECONDS_TO_TIME(x) : (i == 2) ? EMBC_MICROSECONDS_TO_TIME(x) : EMBC_NANOSECONDS_TO_TIME(x);
            VH_CHECK(g == r, "named-from", "%s_TO_TIME(%lld) = %lld, expected %lld", T[i].n, P(x), P(g), P(r));
            vh_count("named", 1);
        }
    }
}
static void flt(int64_t x) {
    double d = EMBC_TIME_TO_F64(x);
    double ref = ldexp((double) x, -30);
    VH_CHECK(d == ref, "f64", "TIME_TO_F64(%lld) = %.17g", P(x), d);
    if (x > -(1ll << 53) && x < (1ll << 53)) {
        int64_t b = EMBC_F64_TO_TIME(d);
        VH_CHECK(b == x, "f64-round-trip", "%lld -> %.17g -> %lld", P(x), d, P(b));
        vh_count("f64_exact", 1);
    } else if (x < INT64_MAX - 4096) {
        int64_t b = EMBC_F64_TO_TIME(d); w_t e = (w_t) b - x; if (e < 0) { e = -e; }
        VH_CHECK(e <= 1024, "f64-round-trip", "%lld -> %.17g -> %lld", P(x), d, P(b));
    }
    double f = EMBC_TIME_TO_F32(x), af = fabs(f - ref);
    VH_CHECK(af <= fabs(ref) * 1.2e-7, "f32", "TIME_TO_F32(%lld) = %.17g", P(x), f);
    if (x > -(1ll << 62) && x < (1ll << 62)) {
        float s = (float) f; int64_t b = EMBC_F32_TO_TIME(s);
        double e = fabs((double) b - (double) x);
        VH_CHECK(e <= fabs((double) x) * 1.2e-7 + 1, "f32-round-trip", "%lld -> %.9g -> %lld", P(x), s, P(b));
    }
}
void vh_case(uint64_t index) {
    (void) index;
    for (int i = 0; i < 64; ++i) {
        int64_t x = val(), z = freq();
        vh_sig((uint64_t) x * 31 + (uint64_t) z); if (x) { vh_nontrivial(); }
        to(x, z); from(x, z); from(x >> 34, z);
        if (vh_chance(1, 2)) { to(vh_range(-(1ll << 62), 1ll << 62) >> 32, z); }
        named(x); flt(x);
        if (x != INT64_MIN) { VH_CHECK(EMBC_TIME_ABS(x) == (x < 0 ? -x : x), "abs", "TIME_ABS(%lld)", P(x)); }
    }
    if (vh_chance(1, 8)) {
        int64_t t0 = vh_range(-1000, 1000) * (1ll << 30) + vh_range(0, (1 << 30) - 1), z = freq(), g;
        reads = 0; clockv = t0; g = EMBC_TIME_TO_COUNTER(clock_read(), z);
        VH_CHECK(reads == 1 && g == r_near(t0, z), "single-read", "TIME_TO_COUNTER read its argument %lld times", P(reads));
        reads = 0; clockv = t0; g = EMBC_TIME_TO_MILLISECONDS(clock_read());
        VH_CHECK(reads == 1 && g == r_near(t0, 1000), "single-read", "TIME_TO_MILLISECONDS read its argument %lld times", P(reads));
        reads = 0; clockv = t0 >> 30; g = EMBC_COUNTER_TO_TIME(clock_read(), z);
        VH_CHECK(reads == 1, "single-read", "COUNTER_TO_TIME read its argument %lld times", P(reads));
        vh_count("clock_reads", 3);
    }
}
static void s_constants(void) {
    w_t sec = S;
    VH_CHECK(EMBC_TIME_Q == 30 && EMBC_TIME_SECOND == sec, "constant", "second");
    VH_CHECK(EMBC_TIME_MAX == INT64_MAX && EMBC_TIME_MIN == INT64_MIN, "constant", "range");
    VH_CHECK(EMBC_TIME_MILLISECOND == sec / 1000 && EMBC_TIME_MICROSECOND == sec / 1000000 && EMBC_TIME_NANOSECOND == 1, "constant", "fractions");
    VH_CHECK(EMBC_TIME_MINUTE == 60 * sec && EMBC_TIME_HOUR == 3600 * sec && EMBC_TIME_DAY == 86400 * sec && EMBC_TIME_WEEK == 604800 * sec, "constant", "minute..week");
    VH_CHECK(EMBC_TIME_YEAR == 365 * 86400 * sec && EMBC_TIME_MONTH == 365 * 86400 * sec / 12, "constant", "month, year");
    VH_CHECK(EMBC_TIME_EPOCH_UNIX_OFFSET_SECONDS == 17532ll * 86400, "constant", "epoch");   /* days from 1970 to 2018 */
    /* as operands of tighter operators */
#define OPERAND(C, V) do { volatile int64_t n = 7, t = 3 * (V) + 5; VH_CHECK(n * (V) / C == n && t % C == 5 % (int64_t) (V) && t / C == t / (int64_t) (V) && -C == -(V) && t - C == t - (V) && C * 2 == (V) * 2, "constant-operand", "%s used in an expression", #C); } while (0)
    OPERAND(EMBC_TIME_SECOND, S); OPERAND(EMBC_TIME_MILLISECOND, S / 1000); OPERAND(EMBC_TIME_MICROSECOND, S / 1000000); OPERAND(EMBC_TIME_NANOSECOND, (w_t) 1);
    OPERAND(EMBC_TIME_MINUTE, S * 60); OPERAND(EMBC_TIME_HOUR, S * 3600); OPERAND(EMBC_TIME_DAY, S * 86400); OPERAND(EMBC_TIME_WEEK, S * 604800);
    OPERAND(EMBC_TIME_YEAR, S * 86400 * 365); OPERAND(EMBC_TIME_MONTH, S * 86400 * 365 / 12);
    { volatile int64_t x = 12345; VH_CHECK(x % EMBC_TIME_MAX == 12345 && x / EMBC_TIME_MIN == 0 && EMBC_TIME_MAX + EMBC_TIME_MIN == -1, "constant-operand", "range limits in an expression"); }
    { volatile int64_t d = 2; int64_t x = 3 * (int64_t) S; VH_CHECK(6 / EMBC_TIME_TO_F64(x) == 2.0 && 12 / EMBC_TIME_TO_SECONDS(x) == 4 && 6 * (int64_t) S / EMBC_SECONDS_TO_TIME(d + 1) == 2 && 6 * (int64_t) S / EMBC_F64_TO_TIME(d + 1) == 2, "constant-operand", "a conversion used in an expression"); }
    vh_nontrivial();
}
const vh_scenario_t vh_scenarios[] = {{"constants", s_constants}, {0, 0}};
