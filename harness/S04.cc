#include "h.h"
#include <inttypes.h>
/* number parsing: exact decimal oracle in 256-digit text arithmetic (__int128 saturating) */
typedef __int128 I;
static Str i2s (I v) { if (v == 0) return "0"; bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128) v : v; Str s; while (u) { s += (char) ('0' + (int) (u % 10)); u /= 10; } if (n) s += '-'; std::reverse(s.begin(), s.end()); return s; }
static int POISON[] = {0, ERANGE, EINVAL, ENOENT, EINTR};
struct Num { Str t; bool has; I v; };        /* has: there is a number; v saturated at +-10^30 */
static int e0; static int poison (Rng &r) { return e0 = POISON[r.below(5)]; }
#define KEPT(T) do { int e_ = errno; CHECK(e_ == e0, "errno", "parsing a number left errno %d where it was %d: %s", e_, e0, (T)); h::cov("errno-kept"); } while (0)
static void t_one (Rng &r, const Num &n)
{
    const I SMAX = LONG_MAX, SMIN = LONG_MIN;
    h::Exact e(n.t);
    {   errno = poison(r); long v = 0x5a5a5a5a5aL; int rc = u_atol(e.p, &v); KEPT("u_atol"); bool ok = n.has && n.v <= SMAX && n.v >= SMIN;
        CHECK((rc == 0) == ok, ok ? "refused" : "accepted", "long: [%s] %s", n.t.c_str(), rc ? "refused" : "accepted");
        CHECK(ok ? v == (long) n.v : v == 0x5a5a5a5a5aL, "value", "long: [%s] gave %ld", n.t.c_str(), v); h::cov(ok ? "long-ok" : "long-refused"); }
    {   errno = poison(r); int v = 0x5a5a5a5a; int rc = u_atoi(e.p, &v); KEPT("u_atoi"); bool ok = n.has && n.v <= INT_MAX && n.v >= INT_MIN;
        CHECK((rc == 0) == ok, ok ? "refused" : "accepted", "int: [%s] %s", n.t.c_str(), rc ? "refused" : "accepted");
        CHECK(ok ? v == (int) n.v : v == 0x5a5a5a5a, "value", "int: [%s] gave %d", n.t.c_str(), v); h::cov(ok ? "int-ok" : "int-refused"); }
    if (n.t.find('-') == Str::npos) {
        errno = poison(r); uintmax_t v = 0x5a5a; int rc = u_atoumax(e.p, &v); KEPT("u_atoumax"); bool ok = n.has && n.v <= (I) UINTMAX_MAX;
        CHECK((rc == 0) == ok, ok ? "refused" : "accepted", "umax: [%s] %s", n.t.c_str(), rc ? "refused" : "accepted");
        CHECK(ok ? v == (uintmax_t) n.v : v == 0x5a5a, "value", "umax: [%s] gave %ju", n.t.c_str(), v); h::cov(ok ? "umax-ok" : "umax-refused"); }
    h::sig(n.t.size()); h::sig(n.has); h::sig(n.v > INT_MAX); h::sig(n.v < INT_MIN); h::sig(n.v > SMAX); h::sig(n.v < SMIN); h::sig((u64) n.v & 15);
}
static void t_dbl (Rng &r, const Str &t, bool has, double want, bool range)
{   h::Exact e(t); errno = poison(r); double v = 1234.5; int rc = u_atof(e.p, &v); KEPT("u_atof");
    bool ok = has && !range; if (has && !range && want != 0 && fabs(want) < 2.2250738585072014e-308) return; /* subnormals: either way */
    CHECK((rc == 0) == ok, ok ? "refused" : "accepted", "double: [%s] %s", t.c_str(), rc ? "refused" : "accepted");
    CHECK(ok ? (v == want && std::signbit(v) == std::signbit(want)) : v == 1234.5, "value", "double: [%s] gave %.17g expected %.17g", t.c_str(), v, want); h::cov(ok ? "double-ok" : "double-refused"); }
void run_case (Rng &r, u64)
{
    static const I EDGE[] = {0, 1, -1, INT_MAX, INT_MIN, (I) UINT_MAX, LONG_MAX, LONG_MIN, (I) ULONG_MAX, (I) 1000000000000000000LL * 10, SHRT_MAX, 255};
    I big = 1; for (int i = 0; i < 30; ++i) big *= 10;
    for (int k = 0; k < 6; ++k) {
        Num n; n.has = true; unsigned kind = r.below(6);
        if (kind < 3) { n.v = EDGE[r.below(12)] + (I) r.below(7) - 3; n.t = i2s(n.v); }
        else if (kind == 3) { n.v = (I) (int64_t) r.next() >> r.below(64); n.t = i2s(n.v); }
        else if (kind == 4) { Str d = r.text(20 + r.below(300), "0123456789"); d[0] = '1' + (char) r.below(9); bool neg = r.chance(1, 2); n.v = 0; for (char c : d) if (n.v < big) n.v = n.v * 10 + (c - '0'); if (neg) n.v = -n.v; n.t = (neg ? "-" : "") + d; }
        else { n.has = false; n.v = 0; n.t = r.one({"", " ", "abc", "-", "+", "--5", "+-5", " x1", ".", "\t", "x", "- 5", "e5", "_1"}); }
        if (n.has && r.chance(1, 4)) n.t = Str(r.below(4), ' ') + n.t;
        if (n.has && r.chance(1, 5) && n.v >= 0) { size_t p = n.t.find_first_not_of(' '); n.t.insert(p, r.one({"0", "00", "+", "+0", "0000000000000000000000000"})); }
        h::tr("int[%s]", n.t.c_str()); t_one(r, n);
    }
    for (int k = 0; k < 4; ++k) {
        if (r.chance(1, 2)) { u64 b = r.next(); double d; memcpy(&d, &b, 8); if (!std::isfinite(d)) d = 1.5; char t[64]; snprintf(t, 64, "%.17g", d); t_dbl(r, t, true, d, false); h::tr("dbl[%s]", t); }
        else switch (r.below(4)) {
            case 0: { char t[64]; int ex = 310 + r.below(5000); snprintf(t, 64, "%s%de%d", r.chance(1, 2) ? "-" : "", 1 + (int) r.below(9), ex); t_dbl(r, t, true, 0, true); break; }
            case 1: { char t[64]; int ex = 330 + r.below(5000); snprintf(t, 64, "%de-%d", 1 + (int) r.below(9), ex); t_dbl(r, t, true, 0, true); break; }
            case 2: { int v = (int) r.next(); t_dbl(r, std::to_string(v), true, v, false); break; }
            case 3: { t_dbl(r, r.one({"", "abc", " ", "-", "+", ".", "e10", "x1", "-."}), false, 0, false); break; } }
    }
}
static void p_edges () { Rng r(7); for (I c : {(I) INT_MAX, (I) INT_MIN, (I) LONG_MAX, (I) LONG_MIN, (I) ULONG_MAX, (I) 0}) for (int d = -300; d <= 300; ++d) { Num n; n.has = true; n.v = c + d; n.t = i2s(n.v); for (int k = 0; k < 3; ++k) t_one(r, n); } }
static void p_stale_errno () { for (int p : POISON) { long v; int i; uintmax_t u; double d; errno = p; CHECK(!u_atol("9223372036854775807", &v) && v == LONG_MAX, "refused", "LONG_MAX with errno %d", p); errno = p; CHECK(!u_atol("-9223372036854775808", &v) && v == LONG_MIN, "refused", "LONG_MIN with errno %d", p);
    errno = p; CHECK(!u_atol("0", &v) && v == 0, "refused", "0 with errno %d", p); errno = p; CHECK(!u_atoi("0", &i) && i == 0, "refused", "int 0 with errno %d", p); errno = p; CHECK(!u_atoumax("0", &u) && u == 0, "refused", "umax 0 with errno %d", p); errno = p; CHECK(!u_atoumax("18446744073709551615", &u) && u == UINTMAX_MAX, "refused", "UINTMAX_MAX with errno %d", p); errno = p; CHECK(!u_atof("0", &d) && d == 0, "refused", "0.0 with errno %d", p); } }
static void p_null () { long l; int i; uintmax_t u; double d; CHECK(u_atol(0, &l) && u_atoi(0, &i) && u_atoumax(0, &u) && u_atof(0, &d) && u_atol("1", 0) && u_atoumax("1", 0) && u_atof("1", 0), "null-arg", "NULL accepted"); }
const Probe PROBES[] = { {"edges", p_edges}, {"stale-errno", p_stale_errno}, {"null-args", p_null}, {0, 0} };
