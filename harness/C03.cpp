// C03: TTime against exact rational arithmetic (128-bit integers).
#include "gen.hpp"
using namespace pbt; using namespace gen;
typedef __int128 i128;
static i128 gcd(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 r = a%b; a = b; b = r; } return a; }
struct Q { i128 n, d; void norm() { i128 g = gcd(n, d); if (g) { n /= g; d /= g; } } };
static bool fits(Q q) { q.norm(); return q.n >= INT32_MIN && q.n <= INT32_MAX && q.d <= (i128)UINT32_MAX; }
static Q of(TTime t) { return {t.value, t.timescale}; }
static bool eq(Q a, Q b) { return a.n*b.d == b.n*a.d; }

static TTime gen_time(Src& s, bool positive = false) {
    uint32_t ts;
    switch (s.draw(5)) {
        case 0: { static const uint32_t d[] = {1, 10, 100, 1000, 10000, 1000000, 1000000000}; ts = d[s.draw(7)]; break; }
        case 1: ts = 1 + s.draw(60); break;
        case 2: { static const uint32_t d[] = {2147483647u, 4294967291u, 65521, 65537, 1u<<31, 3u<<30, 999983, 4294967295u, 46341}; ts = d[s.draw(9)]; break; }
        case 3: ts = 1 + s.draw(4294967295ULL); break;
        default: ts = 1 + s.draw(5000);
    }
    int32_t v;
    switch (s.draw(4)) {
        case 0: v = (int)s.draw(101); break;
        case 1: v = (int)s.draw(100000); break;
        case 2: v = (int)s.draw(2147483647); break;
        default: v = (int)(s.draw(50))*(int)std::min<uint32_t>(ts, 40000000);
    }
    if (positive && v == 0) v = 1;
    if (!positive && s.draw(3) == 0) v = -v;
    return TTime(v, ts);
}
static std::string str(TTime t) { return std::string(t); }

static void prop_add(Src& s) {
    TTime a = gen_time(s), b = gen_time(s);
    if (s.flip()) b.timescale = a.timescale;
    s.describe(str(a) + " + " + str(b));
    Q x = of(a), y = of(b), sum = {x.n*y.d + y.n*x.d, x.d*y.d};
    if (!fits(sum)) { s.label("sum-does-not-fit"); return; }
    s.nontrivial(a.timescale != b.timescale);
    TTime c = TTime::add(a, b), d = TTime::add(b, a);
    CHECK(c.timescale > 0 && eq(of(c), sum), "add", "%s + %s = %s", str(a).c_str(), str(b).c_str(), str(c).c_str());
    CHECK(d.timescale > 0 && eq(of(d), sum), "add", "%s + %s = %s", str(b).c_str(), str(a).c_str(), str(d).c_str());
    double want = (double)((long double)c.value/(long double)c.timescale);
    CHECK(fabs(double(c)-want) <= 3e-16*fabs(want), "double", "%s as a number is %.17g", str(c).c_str(), double(c));
}
// repeated steps, as the clock does
static void prop_clock(Src& s) {
    TTime t = gen_time(s), dt = gen_time(s, true), period = gen_time(s, true);
    if (s.flip()) { // schedules people write
        static const uint32_t d[] = {1, 2, 3, 7, 10, 100, 1000, 30, 64, 125};
        dt = TTime(1 + s.draw(30), d[s.draw(10)]); t = TTime((int)s.draw(2000)-1000, d[s.draw(10)]); period = TTime(1 + s.draw(60), d[s.draw(10)]);
        s.label("everyday");
    }
    int n = s.sized(1, 200);
    s.describe("t=" + str(t) + " dt=" + str(dt) + " period=" + str(period));
    Q q = of(t), w = of(dt), p = of(period); q.norm(); w.norm(); p.norm();
    for (int i = 0; i < n; i++) {
        Q r = {q.n*w.d + w.n*q.d, q.d*w.d}; r.norm();
        if (!fits(r)) { s.label("leaves-range"); return; }
        q = r;
        TTime t0 = t;
        t = TTime::add(t, dt);
        CHECK(t.timescale > 0 && eq(of(t), q), "clock", "step %d: %s + %s gives %s instead of %lld/%llu", i+1, str(t0).c_str(), str(dt).c_str(), str(t).c_str(), (long long)q.n, (unsigned long long)q.d);
        bool want = (q.n*p.d) % (p.n*q.d) == 0;
        s.label(want ? "multiple" : "no-multiple");
        CHECK(t.divisibleBy(period) == want, "divisible", "%s is reported %s of %s", str(t).c_str(), want ? "no multiple" : "a multiple", str(period).c_str());
    }
    s.nontrivial(n > 1);
}
static void prop_divisible(Src& s) {
    TTime p = gen_time(s), t;
    if (p.value == 0) { CHECK(!gen_time(s).divisibleBy(p), "divisible0", "a multiple of a zero period"); return; }
    if (s.flip()) { // an actual multiple, written with another denominator
        Q m = {(i128)p.value*((int)s.draw(41)-20), p.timescale}; m.norm();
        i128 k = 1 + s.draw(50); m.n *= k; m.d *= k;
        if (m.n > INT32_MAX || m.n < INT32_MIN || m.d > (i128)UINT32_MAX) { s.label("multiple-does-not-fit"); return; }
        t = TTime((int32_t)m.n, (uint32_t)m.d); s.label("multiple");
        s.describe(str(t) + " of " + str(p)); s.nontrivial(t.value != 0);
        CHECK(t.divisibleBy(p), "divisible", "%s is reported no multiple of %s", str(t).c_str(), str(p).c_str());
    } else {
        t = gen_time(s); s.describe(str(t) + " of " + str(p)); s.nontrivial(t.value != 0);
        bool want = ((i128)t.value*p.timescale) % ((i128)p.value*t.timescale) == 0;
        CHECK(t.divisibleBy(p) == want, "divisible", "%s is reported %s of %s", str(t).c_str(), want ? "no multiple" : "a multiple", str(p).c_str());
    }
}
// decimals with up to 9 significant digits that fit are held exactly
static void prop_decimal(Src& s) {
    int digits = s.range(0, 9); uint32_t ts = 1; for (int i = 0; i < digits; i++) ts *= 10;
    int32_t v = s.flip() ? (int)s.draw(1000) : (int)s.draw(999999999);
    if (s.draw(4) == 0) v = -v;
    char txt[64]; snprintf(txt, 64, "%lde-%d", (long)v, digits);
    double x = strtod(txt, 0);
    s.describe(txt); s.nontrivial(v % 10 != 0 && digits > 0);
    TTime t = TTime::makeWithSecondsDecimal(x);
    CHECK(t.timescale > 0 && eq(of(t), Q{v, ts}), "decimal", "the number %s becomes %s", txt, str(t).c_str());
}
// any other number: the error is at most half a unit of the ninth significant digit
static void prop_number(Src& s) {
    double x = s.pick({1., 2., 0.5})*(s.flip() ? s.logreal(1e-9, 2.1e9) : s.fine(-100, 100));
    if (fabs(x) > 2147483646.) return;
    s.describe(pbt::fmt("%.17g", x)); s.nontrivial();
    TTime t = TTime::makeWithSecondsDecimal(x);
    CHECK(t.timescale > 0, "number", "%.17g becomes %s", x, str(t).c_str());
    double err = fabs((double)((long double)t.value/(long double)t.timescale - x));
    double tol = std::max(0.5000001e-9, fabs(x)*2.6e-9);
    CHECK(err <= tol, "number", "%.17g becomes %s, off by %.3g", x, str(t).c_str(), err);
}
static void prop_text(Src& s) {
    TTime t = gen_time(s); std::string x = str(t); s.describe(x); s.nontrivial();
    char want[64]; snprintf(want, 64, "%d/%u", t.value, t.timescale);
    CHECK(x == want, "text", "%d over %u prints as %s", t.value, t.timescale, x.c_str());
}
int main(int argc, char** argv) {
    return main_run(argc, argv, "C03", {
        {"add", 4000000, 100000000, prop_add, 0},
        {"clock", 600000, 15000000, prop_clock, 0},
        {"divisible", 4000000, 20000000, prop_divisible, 0},
        {"decimal", 2000000, 50000000, prop_decimal, 0},
        {"number", 200000, 5000000, prop_number, 0},
        {"text", 100000, 1000000, prop_text, 0},
    });
}
