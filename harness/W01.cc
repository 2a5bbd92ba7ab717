#include "h.h"
#include "sys.h"
#include <time.h>
/* waiting, time differences and the clean-up macros. The sleeping system calls are trapped and run on a virtual clock. */
static Rng *G; static long long clk_ns, asked_ns; static int naps, cuts, cut_left; static bool frac; static long fail_with; static const long long SEC = 1000000000LL;
static bool nap (int nr, long *a, long *ret)
{   const struct timespec *rq = (const struct timespec *) (nr == SYS_nanosleep ? a[0] : a[2]); struct timespec *rm = (struct timespec *) (nr == SYS_nanosleep ? a[1] : a[3]); bool absolute = nr == SYS_clock_nanosleep && a[1] & TIMER_ABSTIME;
    if (nr != SYS_nanosleep && nr != SYS_clock_nanosleep) return false; if (absolute) h::fail("sleep-clock", "an absolute sleep on a clock that the monitor does not know"); long long want = rq->tv_sec * SEC + rq->tv_nsec; ++naps; asked_ns = want; if (naps > 10000) h::fail("sleep-endless", "10000 sleeps and no end");
    if (fail_with && naps == 1) { *ret = -fail_with; return true; }
    if (cut_left > 0 && want > 0) { --cut_left; ++cuts; long long el = frac ? (long long) G->below(want) : (long long) G->below((want + SEC - 1) / SEC) * SEC; clk_ns += el; if (rm) { rm->tv_sec = (want - el) / SEC; rm->tv_nsec = (want - el) % SEC; } *ret = -EINTR; return true; }
    clk_ns += want; *ret = 0; return true; }
static void sleeping (Rng &r)
{   if (h::memcheck) return; h::sys::install({SYS_nanosleep, SYS_clock_nanosleep}); G = &r; static const unsigned M[] = {0, 1, 2, 59, 3600, 86400, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu}; unsigned secs = r.chance(1, 2) ? (unsigned) r.below(20) : r.chance(1, 2) ? M[r.below(10)] : (unsigned) r.next(); clk_ns = 0; naps = cuts = 0; cut_left = r.chance(1, 4) ? 0 : (int) r.below(r.chance(1, 10) ? 200 : 6); frac = r.chance(1, 3); fail_with = 0; h::tr("sleep %u s, up to %d interruptions%s", secs, cut_left, frac ? " at odd times" : ""); h::sig(secs); h::sig(cut_left); h::sig(frac);
    errno = 0; h::sys::start(nap); int rc = u_sleep(secs); h::sys::stop(); long long want = secs * SEC; h::cov("sleeps"); h::cov("interruptions", cuts);
    CHECK(rc == 0, "sleep-result", "sleeping %u s with %d interruptions returns %d", secs, cuts, rc);
    /* an interrupted sleep(3) counts whole seconds: every interruption at a fraction may cost less than one */
    CHECK(clk_ns <= want + (frac ? cuts : 0) * SEC && (frac ? clk_ns > want - cuts * SEC || (!cuts && clk_ns == want) : clk_ns == want), "sleep-time", "sleeping %u s with %d interruptions lasts %.3f s", secs, cuts, clk_ns / 1e9); }
static void times (Rng &r)
{   auto tv = [&] { struct timeval t; t.tv_sec = r.chance(1, 3) ? (long) r.below(3) : (long) r.below(4000000000u); t.tv_usec = r.chance(1, 3) ? (long) r.below(3) : r.chance(1, 3) ? 999999 - (long) r.below(3) : (long) r.below(1000000); return t; }; struct timeval a = tv(), b = tv(); if (r.chance(1, 4)) b.tv_sec = a.tv_sec; if (timercmp(&a, &b, <)) std::swap(a, b); long long want = (a.tv_sec - b.tv_sec) * 1000000LL + a.tv_usec - b.tv_usec; struct timeval d = {-9, -9}, a0 = a, b0 = b; unsigned al = r.below(3); h::tr("%ld.%06ld - %ld.%06ld", (long) a.tv_sec, (long) a.tv_usec, (long) b.tv_sec, (long) b.tv_usec);
    if (al == 0) u_timersub(&a, &b, &d); else if (al == 1) { u_timersub(&a, &b, &a); d = a; a = a0; } else { u_timersub(&a, &b, &b); d = b; b = b0; }
    h::sig(want); h::sig(al); h::cov("differences"); CHECK(d.tv_sec * 1000000LL + d.tv_usec == want && d.tv_usec >= 0 && d.tv_usec < 1000000 && !memcmp(&a, &a0, sizeof a) && !memcmp(&b, &b0, sizeof b), "timersub", "%ld.%06ld - %ld.%06ld is %ld.%06ld", (long) a0.tv_sec, (long) a0.tv_usec, (long) b0.tv_sec, (long) b0.tv_usec, (long) d.tv_sec, (long) d.tv_usec); }
static int freed; static void ff (int *p) { ++freed; free(p); }
static int once (int *n) { U_ONCE ++*n; return *n; }
static int once2 (int *n) { U_ONCE { ++*n; } U_ONCE *n += 10; return *n; }
static void macros (Rng &r)
{   auto fd0 = h::fds(); size_t live = h::mem::live.size(); bool some = r.chance(1, 2); h::sig(some); unsigned which = r.below(7); h::sig(which); h::cov("macro-uses");
    switch (which) {
        case 0: { int fd = some ? open("/dev/null", O_RDONLY) : -1; if (r.chance(1, 2)) U_CLOSE(fd); else { U_CLOSE(fd); U_CLOSE(fd); } CHECK(fd == -1, "close-macro", "the descriptor is %d", fd); break; }
        case 1: { FILE *f = some ? fopen("/dev/null", "r") : nullptr; U_FCLOSE(f); U_FCLOSE(f); CHECK(!f, "fclose-macro", "the stream is still set"); break; }
        case 2: { char *p = some ? (char *) u_malloc(1 + r.below(50)) : nullptr; if (r.chance(1, 2)) U_FREE(p); else U_FREE(p); U_FREE(p); CHECK(!p, "free-macro", "the pointer is still set"); break; }
        case 3: { int *p = some ? (int *) malloc(4) : nullptr; freed = 0; U_FREEF(p, ff); U_FREEF(p, ff); CHECK(!p && freed == some, "freef-macro", "released %d times", freed); break; }
        case 4: { FILE *f = some && r.chance(1, 8) ? popen("exit 0", "r") : nullptr; U_PCLOSE(f); U_PCLOSE(f); CHECK(!f, "pclose-macro", "the stream is still set"); break; }
        case 5: { int a = (int) r.below(9) - 4, b = (int) r.below(9) - 4; CHECK(U_MAX(a, b) == std::max(a, b) && U_MIN(a, b) == std::min(a, b) && U_MAX(a + 1, b) * 2 == std::max(a + 1, b) * 2 && 10 - U_MIN(a & 3, b) == 10 - std::min(a & 3, b), "minmax", "of %d and %d", a, b); break; }
        default: { Str s = r.text(r.below(20), "abc"); struct { char b[10]; char guard[6]; } x; memset(&x, 'z', sizeof x); h::Exact e(s); char *q = U_SSTRCPY(x.b, e.p); Str want = s.substr(0, 9); CHECK(q == x.b && want == x.b && Str(x.guard, 6) == "zzzzzz", "sstrcpy", "'%s' in 10 bytes gives '%s'", s.c_str(), h::esc(Str(x.b, 10)).c_str()); } }
    h::expect_fds(fd0, "a clean-up macro"); CHECK(h::mem::live.size() == live, "macro-leak", "a block is left"); }
static const bool lowfd = h::low_fd = true;
void run_case (Rng &r, u64 n) { h::sig(n % 3); for (int i = 0; i < 4; ++i) switch (n % 3) { case 0: sleeping(r); break; case 1: times(r); break; default: macros(r); } }
static void p_once () { int n = 0, m = 0; for (int i = 0; i < 50; ++i) { once(&n); once2(&m); } CHECK(n == 1 && m == 11, "once", "the once-only statement ran %d times (%d)", n, m); }
const Probe PROBES[] = {{"once-only", p_once}, {nullptr, nullptr}};
