#include "h.h"
#include "sys.h"
#include <sys/socket.h>
/* exact I/O under arbitrary splits, interruptions, ends and errors */
static Rng *G; static Str src; static size_t src_pos; static Str got; static long script_err = 0; static long calls, fail_call, eof_call; static int want_fd; static unsigned eintr_den; static bool stopped;
static size_t part (size_t n) { return G->chance(1, 3) ? n : G->chance(1, 3) ? 1 : 1 + G->below(n); }
/* 0: end, -1: errno set, else count */
static ssize_t step (size_t n) { ++calls; CHECK(!stopped, "continues", "a further transfer was asked for after the end or an error"); if (eintr_den && G->chance(1, eintr_den)) { h::cov("interruptions"); errno = EINTR; return -1; }
    if (calls > 100000) h::fail("endless", "no progress after 100000 calls"); if (n == 0) h::fail("empty-transfer", "an empty transfer was asked for"); if (fail_call >= 0 && fail_call-- == 0) { stopped = true; errno = script_err; return -1; } if (eof_call >= 0 && eof_call-- == 0) { stopped = true; return 0; } size_t k = part(n); if (k < n) h::cov("partial-transfers"); return k; }
static ssize_t fake_read (int fd, void *b, size_t n) { CHECK(fd == want_fd, "descriptor", "another descriptor"); ssize_t k = step(n); if (k > 0) { if ((size_t) k > src.size() - src_pos) k = src.size() - src_pos; if (k == 0) { stopped = true; return 0; } memcpy(b, src.data() + src_pos, k); src_pos += k; } return k; }
static ssize_t fake_write (int fd, void *b, size_t n) { CHECK(fd == want_fd, "descriptor", "another descriptor"); ssize_t k = step(n); if (k > 0) got.append((char *) b, k); return k; }
static void plan (Rng &r) { G = &r; src_pos = 0; got.clear(); calls = 0; stopped = false; fail_call = r.chance(1, 4) ? (long) r.below(6) : -1; static const long er[] = {EIO, EAGAIN, ECONNRESET, EPIPE, ENOSPC, EBADF}; script_err = er[r.below(6)]; eof_call = r.chance(1, 5) ? (long) r.below(6) : -1; eintr_den = r.chance(1, 3) ? 0 : 1 + r.below(4); if (eintr_den == 1) eintr_den = 2; }
static void c_uio (Rng &r)
{
    plan(r); size_t want = r.size({0, 1, 4096}, 9000); bool rd = r.chance(1, 2); want_fd = 1000 + r.below(9); ssize_t n = 55; int eof = 66; bool pn = r.chance(5, 6), pe = r.chance(5, 6);
    if (rd) { src = r.bytes(r.chance(1, 2) ? want : r.size({want, 1}, 9000)); h::Exact b(want); int rc = u_io((iof_t) fake_read, want_fd, b.p, want, pn ? &n : nullptr, pe ? &eof : nullptr); size_t g = src_pos; bool ended = stopped && !(fail_call < 0 && errno == script_err && false);
        CHECK((rc == 0) == (g == want), "verdict", "reading %zu of %zu bytes returns %d", g, want, rc); if (pn) CHECK(n == (ssize_t) g, "count", "%zd reported, %zu transferred", n, g); CHECK(!memcmp(b.p, src.data(), g), "bytes", "other bytes were read"); for (size_t i = g; i < want; ++i) CHECK(b.p[i] == 0x5c, "beyond", "a byte beyond the transferred ones was written"); (void) ended; }
    else { Str d = r.bytes(want); h::Exact b(d, false); int rc = u_io((iof_t) fake_write, want_fd, b.p, want, pn ? &n : nullptr, pe ? &eof : nullptr); CHECK((rc == 0) == (got.size() == want), "verdict", "writing %zu of %zu bytes returns %d", got.size(), want, rc); if (pn) CHECK(n == (ssize_t) got.size(), "count", "%zd reported, %zu transferred", n, got.size()); CHECK(got == d.substr(0, got.size()), "bytes", "other bytes were written"); }
    size_t g = rd ? src_pos : got.size(); bool err = stopped && fail_call == -1 && errno == script_err && script_err; (void) err;
    if (pe && g == want) CHECK(eof == 0, "eof", "end of input reported though everything was transferred"); h::cov("exact-io-calls"); h::sig(rd); h::sig(h::szclass(want)); h::sig(g == want); h::sig(calls); h::sig(stopped);
}
/* precise end/error distinction */
static void c_uio_end (Rng &r)
{
    plan(r); bool err = r.chance(1, 2); fail_call = eof_call = -1; size_t want = 1 + r.below(5000); src = r.bytes(r.below(want)); want_fd = 7; size_t before = src.size(); ssize_t n = 9; int eof = 9; h::Exact b(want);
    if (err) fail_call = 1 + r.below(4); int rc = u_io((iof_t) fake_read, 7, b.p, want, &n, &eof); bool failed = err && fail_call < 0; CHECK(rc != 0, "verdict", "a short transfer succeeds"); CHECK(eof == !failed, "eof", "the end indication is %d after %s", eof, failed ? "an error" : "the end of input"); if (failed) CHECK(errno == script_err, "errno", "errno is %d after error %ld", errno, script_err); CHECK(n == (ssize_t) src_pos && (failed || src_pos == before), "count", "%zd reported, %zu transferred", n, src_pos); h::cov("ends-and-errors"); h::sig(100 + failed); h::sig(src_pos); h::sig(want);
}
/* the real calls on real descriptors, altered at the kernel boundary */
static Rng *K; static int kfd; static unsigned k_eintr, k_short, k_fail; static int k_errno; static bool k_failed; static size_t k_moved; static bool k_eof;
static bool khook (int nr, long *a, long *ret)
{
    if ((nr != SYS_read && nr != SYS_write) || a[0] != kfd) return false;
    if (k_eintr && K->chance(1, k_eintr)) { *ret = -EINTR; return true; }
    if (k_fail && K->chance(1, k_fail)) { k_failed = true; *ret = -k_errno; return true; }
    if (a[2] > 1 && k_short && K->chance(1, k_short)) a[2] = 1 + K->below(a[2]);
    *ret = h::sys::raw(nr, a[0], a[1], a[2]); if (*ret > 0) k_moved += *ret; if (*ret == 0 && a[2]) k_eof = true; return true;
}
static void c_real (Rng &r)
{
    h::sys::install({SYS_read, SYS_write}); auto before = h::fds(); K = &r; k_moved = 0; k_failed = k_eof = false; k_eintr = r.chance(2, 3) ? 2 + r.below(4) : 0; k_short = r.chance(3, 4) ? 1 + r.below(3) : 0; k_fail = r.chance(1, 5) ? 1 + r.below(12) : 0; static const int er[] = {EIO, EAGAIN, ECONNRESET, ENOSPC}; k_errno = er[r.below(4)];
    int p[2]; unsigned kind = r.below(3); if (kind == 0 ? pipe(p) : kind == 1 ? socketpair(AF_UNIX, SOCK_STREAM, 0, p) : 0) { perror("pipe"); _exit(70); } Str path = h::scratch() + "/n01"; if (kind == 2) { p[1] = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); p[0] = open(path.c_str(), O_RDONLY); }
    Str d = r.bytes(r.size({0, 1, 4096}, 30000)); size_t ask = r.chance(1, 2) ? d.size() : r.size({d.size()}, 30000);
    unsigned how = r.below(4);
    if (how < 2) { /* write */ h::Exact b(d, false); kfd = p[1]; h::sys::start(khook); ssize_t rc; if (how == 0) rc = u_write(p[1], b.p, d.size()); else if (r.chance(1, 2)) rc = u_net_writen(p[1], b.p, d.size()) ? -1 : (ssize_t) d.size(); else { ssize_t nw = 3; int eof = 3, x = u_net_write(p[1], b.p, d.size(), &nw, &eof); int ee = errno; rc = x ? -1 : nw; CHECK(nw == (ssize_t) k_moved && eof == 0, "count", "%zd reported with end %d, %zu moved", nw, eof, k_moved); errno = ee; } int e = errno; h::sys::stop(); CHECK(rc == (k_failed ? -1 : (ssize_t) d.size()), "write-verdict", "writing %zu bytes returns %zd (%zu written)", d.size(), rc, k_moved); if (k_failed) CHECK(e == k_errno, "errno", "errno %d after error %d", e, k_errno); Str back; close(p[1]); p[1] = -1; char buf[65536]; ssize_t k; while ((k = read(p[0], buf, sizeof buf)) > 0) back.append(buf, k); CHECK(back == d.substr(0, k_moved), "write-bytes", "the bytes that arrived differ"); h::cov("real-writes"); }
    else { size_t off = 0; while (off < d.size()) off += write(p[1], d.data() + off, d.size() - off); close(p[1]); p[1] = -1; kfd = p[0]; h::Exact b(ask); size_t expect = std::min(ask, d.size());
        h::sys::start(khook); ssize_t rc; int e; if (how == 2) { rc = u_read(p[0], b.p, ask); e = errno; h::sys::stop(); CHECK(rc == (k_failed ? -1 : (ssize_t) expect), "read-verdict", "reading %zu of %zu bytes returns %zd", ask, d.size(), rc); }
        else { ssize_t n = 3; int eof = 3; bool plain = r.chance(1, 3); int x = plain ? u_net_readn(p[0], b.p, ask) : u_net_read(p[0], b.p, ask, &n, &eof); e = errno; h::sys::stop(); CHECK((x == 0) == (!k_failed && expect == ask), "read-verdict", "reading %zu of %zu bytes returns %d", ask, d.size(), x); CHECK(plain || n == (ssize_t) k_moved, "count", "%zd reported, %zu moved", n, k_moved); CHECK(plain || eof == (k_eof ? 1 : 0), "eof", "end indication %d", eof); }
        if (k_failed) CHECK(e == k_errno, "errno", "errno %d after error %d", e, k_errno); else CHECK(k_moved == expect, "count", "%zu bytes moved instead of %zu", k_moved, expect); CHECK(!memcmp(b.p, d.data(), k_moved), "read-bytes", "other bytes were read"); for (size_t i = k_moved; i < ask; ++i) CHECK(b.p[i] == 0x5c, "beyond", "written beyond"); h::cov("real-reads"); }
    for (int fd : p) if (fd >= 0) close(fd); h::expect_fds(before, "exact I/O"); h::sig(200 + kind * 4 + how); h::sig(k_failed); h::sig(h::szclass(d.size())); h::sig(h::szclass(ask)); h::sig(k_eintr); h::sig(k_short);
}
static const bool lowfd = h::low_fd = true;
void run_case (Rng &r, u64 n) { unsigned k = h::memcheck ? r.below(2) : r.below(4); if (k == 0) c_uio_end(r); else if (k == 1) c_uio(r); else c_real(r); }
/* a real signal storm while a slow peer feeds and drains */
static volatile sig_atomic_t alarms; static void on_alrm (int) { ++alarms; }
static void p_storm ()
{
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alrm; sigaction(SIGALRM, &sa, nullptr); struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_usec = it.it_interval.tv_usec = 300; Rng r(h::seed);
    for (int round = 0; round < 8; ++round) { int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) _exit(70); Str d = r.bytes(400000 + r.below(100000)); pid_t c = fork();
        if (c == 0) { close(p[0]); Rng q(round); size_t off = 0; bool ok = true; if (round & 1) { while (off < d.size()) { size_t k = std::min<size_t>(1 + q.below(9000), d.size() - off); ssize_t w = write(p[1], d.data() + off, k); if (w < 0) _exit(3); off += w; if (q.chance(1, 4)) usleep(q.below(900)); } } else { char b[9000]; ssize_t k; while ((k = read(p[1], b, 1 + q.below(sizeof b))) > 0) { if (off + k > d.size() || memcmp(b, d.data() + off, k)) ok = false; off += k; if (q.chance(1, 4)) usleep(q.below(900)); } if (off != d.size()) ok = false; } _exit(ok ? 0 : 4); }
        close(p[1]); setitimer(ITIMER_REAL, &it, nullptr); if (round & 1) { Str b(d.size() + 10, 0); ssize_t k = u_read(p[0], &b[0], b.size()); CHECK(k == (ssize_t) d.size() && !memcmp(b.data(), d.data(), d.size()), "storm-read", "reading under a signal storm returns %zd of %zu", k, d.size()); } else { ssize_t k = u_write(p[0], &d[0], d.size()); CHECK(k == (ssize_t) d.size(), "storm-write", "writing under a signal storm returns %zd", k); }
        struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_REAL, &z, nullptr); close(p[0]); int st; while (waitpid(c, &st, 0) < 0) {} CHECK(st == 0, "storm-bytes", "the peer saw other bytes (%x)", st); }
    CHECK(alarms > 50, "storm-weak", "only %d signals", (int) alarms);
    it.it_value.tv_usec = it.it_interval.tv_usec = 200000; setitimer(ITIMER_REAL, &it, nullptr); struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); CHECK(u_sleep(1) == 0, "sleep", "sleep"); clock_gettime(CLOCK_MONOTONIC, &b); double s = b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) / 1e9; (void) s; struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_REAL, &z, nullptr);
}
const Probe PROBES[] = { {"signal-storm", p_storm}, {0, 0} };
