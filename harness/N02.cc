#include "h.h"
#include "sys.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
/* connecting, accepting, binding on the real kernel's loopback and local sockets, with calls interrupted or failed at the kernel boundary */
static double now () { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static bool has6 () { static int k = -1; if (k < 0) { int s = socket(AF_INET6, SOCK_STREAM, 0); struct sockaddr_in6 a; memset(&a, 0, sizeof a); a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; k = s >= 0 && bind(s, (struct sockaddr *) &a, sizeof a) == 0; if (s >= 0) close(s); } return k; }
enum Kind { TCP4, UDP4, UNIX, TCP6, UDP6 };
static const char *SCH[] = {"tcp4", "udp4", "unix", "tcp6", "udp6"};
static bool stream (int k) { return k == TCP4 || k == TCP6 || k == UNIX; }
static int dom (int k) { return k == UNIX ? AF_UNIX : k == TCP6 || k == UDP6 ? AF_INET6 : AF_INET; }
static int pick_kind (Rng &r) { return r.below(has6() ? 5 : 3); }
static unsigned sockno; static Str sock_path () { return h::scratch() + "/s" + std::to_string(++sockno); }
struct Addr { struct sockaddr_storage s; socklen_t n; Addr () { memset(&s, 0, sizeof s); n = sizeof s; } struct sockaddr *p () { return (struct sockaddr *) &s; }
    int port () const { return ntohs(s.ss_family == AF_INET6 ? ((struct sockaddr_in6 *) &s)->sin6_port : ((struct sockaddr_in *) &s)->sin_port); } };
static bool same (const Addr &a, const Addr &b) { if (a.s.ss_family != b.s.ss_family) return false;
    if (a.s.ss_family == AF_INET) { auto x = (const struct sockaddr_in *) &a.s, y = (const struct sockaddr_in *) &b.s; return x->sin_port == y->sin_port && x->sin_addr.s_addr == y->sin_addr.s_addr; }
    if (a.s.ss_family == AF_INET6) { auto x = (const struct sockaddr_in6 *) &a.s, y = (const struct sockaddr_in6 *) &b.s; return x->sin6_port == y->sin6_port && !memcmp(&x->sin6_addr, &y->sin6_addr, 16); }
    return !strcmp(((const struct sockaddr_un *) &a.s)->sun_path, ((const struct sockaddr_un *) &b.s)->sun_path); }
static Addr local (int sd) { Addr a; if (getsockname(sd, a.p(), &a.n)) h::fail("bad-descriptor", "getsockname of the returned descriptor: %s", strerror(errno)); return a; }
static int gopt (int sd, int lev, int o) { int v = 0; socklen_t n = sizeof v; if (getsockopt(sd, lev, o, &v, &n)) h::fail("bad-descriptor", "getsockopt of the returned descriptor: %s", strerror(errno)); return v; }
static bool nonblock (int sd) { int f = fcntl(sd, F_GETFL); if (f < 0) h::fail("bad-descriptor", "fcntl of the returned descriptor: %s", strerror(errno)); return f & O_NONBLOCK; }
static std::initializer_list<int> CALLS = {SYS_socket, SYS_setsockopt, SYS_getsockopt, SYS_bind, SYS_listen, SYS_connect, SYS_accept, SYS_accept4, SYS_fcntl, SYS_select, SYS_pselect6, SYS_poll, SYS_ppoll, SYS_getsockname, SYS_getpeername};
/* interruptions: what a signal does to each call */
static Rng *K; static unsigned k_den; static volatile unsigned k_n, k_budget;
static bool interrupt (int nr, long *a, long *ret)
{
    if (nr == SYS_accept || nr == SYS_accept4 || nr == SYS_select || nr == SYS_pselect6 || nr == SYS_poll || nr == SYS_ppoll || nr == SYS_connect) {} else return false;
    if (!k_budget || !K->chance(1, k_den)) return false;
    if (nr == SYS_connect) {
        struct sockaddr_storage *ss = (struct sockaddr_storage *) a[1]; int ty = 0; socklen_t n = sizeof ty; getsockopt(a[0], SOL_SOCKET, SO_TYPE, &ty, &n); if (ty != SOCK_STREAM) return false; long fl = h::sys::raw(SYS_fcntl, a[0], F_GETFL); if (fl & O_NONBLOCK) return false; /* never sleeps: cannot be interrupted */
        if (ss->ss_family != AF_UNIX) { h::sys::raw(SYS_fcntl, a[0], F_SETFL, fl | O_NONBLOCK); long r = h::sys::raw(SYS_connect, a[0], a[1], a[2]); h::sys::raw(SYS_fcntl, a[0], F_SETFL, fl); if (r != -EINPROGRESS) { *ret = r; return true; } } /* goes on asynchronously */
        /* a local connect gives up its wait and starts nothing */
    }
    k_budget = k_budget - 1; k_n = k_n + 1; *ret = -EINTR; return true;
}
static void arm_eintr (Rng &r) { h::sys::install(CALLS); K = &r; k_den = 1 + r.below(3); k_n = 0; k_budget = 1 + r.below(12); h::sys::start(interrupt); }
static void check_passive (int sd, int k, int opts, const Str &path, const Addr *want)
{
    CHECK(gopt(sd, SOL_SOCKET, SO_DOMAIN) == dom(k) && gopt(sd, SOL_SOCKET, SO_TYPE) == (stream(k) ? SOCK_STREAM : SOCK_DGRAM), "passive-kind", "a passive socket of another kind");
    CHECK(!nonblock(sd), "passive-mode", "a passive socket in non-blocking mode"); CHECK(gopt(sd, SOL_SOCKET, SO_ACCEPTCONN) == (stream(k) ? 1 : 0), "listening", "the passive %s socket is %slistening", SCH[k], stream(k) ? "not " : "");
    CHECK(!!gopt(sd, SOL_SOCKET, SO_REUSEADDR) == (k != UNIX && !(opts & U_NET_OPT_DONT_REUSE_ADDR)), "reuse", "address reuse is %d with options %#x on %s", gopt(sd, SOL_SOCKET, SO_REUSEADDR), opts, SCH[k]);
    Addr a = local(sd); if (k == UNIX) CHECK(path == ((struct sockaddr_un *) &a.s)->sun_path, "bound", "bound to another path"); else { CHECK(a.port() != 0, "bound", "not bound to a port"); if (want) CHECK(same(a, *want), "bound", "bound to another address"); }
}
static void check_active (int sd, int k, int opts, Addr *to)
{
    CHECK(gopt(sd, SOL_SOCKET, SO_DOMAIN) == dom(k) && gopt(sd, SOL_SOCKET, SO_TYPE) == (stream(k) ? SOCK_STREAM : SOCK_DGRAM), "active-kind", "an active socket of another kind");
    CHECK(!nonblock(sd), "active-mode", "an active socket left in non-blocking mode"); CHECK(!!gopt(sd, SOL_SOCKET, SO_BROADCAST) == (!stream(k) && (opts & U_NET_OPT_DGRAM_BROADCAST)), "broadcast", "broadcast is %d with options %#x", gopt(sd, SOL_SOCKET, SO_BROADCAST), opts);
    Addr p; int rc = getpeername(sd, p.p(), &p.n); if (opts & U_NET_OPT_DONT_CONNECT) CHECK(rc == -1, "connected", "connected in spite of the option"); else { CHECK(rc == 0, "not-connected", "the socket is not connected: %s", strerror(errno)); CHECK(same(p, *to), "peer", "connected to another address"); }
}
static Str uri_of (int k, const Str &path, int port) { return k == UNIX ? "unix://" + path : h::fmt("%s://%s:%s", SCH[k], dom(k) == AF_INET6 ? "[::1]" : "127.0.0.1", port ? std::to_string(port).c_str() : "*"); }
static int opener (Rng &r, const Str &uri, u_net_mode_t m, int opts, struct timeval *tv)
{
    if (r.chance(1, 2)) return tv || r.chance(1, 2) ? u_net_sd_ex(uri.c_str(), m, opts, tv) : u_net_sd(uri.c_str(), m, opts);
    u_net_addr_t *a = nullptr; bool was = h::sys::on; if (u_net_uri2addr(uri.c_str(), m, &a)) h::fail("uri", "%s refused", uri.c_str()); (void) was; if (r.chance(1, 2)) u_net_addr_set_opts(a, opts); else { u_net_addr_set_opts(a, 0); for (int b = 0; b < 31; ++b) if (opts & (1 << b)) u_net_addr_add_opts(a, 1 << b); }
    int sd = tv || r.chance(1, 2) ? u_net_sd_by_addr_ex(a, tv) : u_net_sd_by_addr(a); if (sd >= 0) CHECK(!!u_net_addr_can_accept(a) == (m == U_NET_SSOCK && !strncmp(uri.c_str(), "udp", 3) == 0), "can-accept", "eligible for accept: %d", u_net_addr_can_accept(a)); int e = errno; u_net_addr_free(a); errno = e; return sd;
}
static void exchange (Rng &r, int from, int to) { Str d = r.bytes(1 + r.below(900)); CHECK(send(from, d.data(), d.size(), MSG_NOSIGNAL) == (ssize_t) d.size(), "unusable", "sending on the connection: %s", strerror(errno)); char b[1000]; struct pollfd p = {to, POLLIN, 0}; CHECK(poll(&p, 1, 5000) == 1, "unusable", "nothing arrives"); ssize_t n = recv(to, b, sizeof b, MSG_DONTWAIT); CHECK(n == (ssize_t) d.size() && !memcmp(b, d.data(), n), "unusable", "%zd of %zu bytes arrive", n, d.size()); }
/* accept and verify the peer */
static int do_accept (Rng &r, int srv, int cli, bool intr)
{
    Addr a; unsigned how = r.below(4); struct sockaddr_storage exact; socklen_t n = sizeof exact; memset(&exact, 0x7e, sizeof exact); if (intr) arm_eintr(r); int ad = how == 0 ? u_accept(srv, nullptr, nullptr) : u_accept(srv, (struct sockaddr *) &exact, &n); int e = errno; if (intr) { h::sys::stop(); if (k_n) h::cov("interrupted-accepts"); }
    CHECK(ad >= 0, "accept", "accepting fails: %s", strerror(e)); CHECK(!nonblock(ad), "accept-mode", "accepted in non-blocking mode"); Addr me = local(cli);
    if (how) { CHECK(n <= sizeof exact, "peer-length", "length %u", n); memcpy(&a.s, &exact, n); a.n = n; if (a.s.ss_family != AF_UNIX) CHECK(same(a, me), "accept-peer", "the reported peer is another one"); else CHECK(n == me.n, "accept-peer", "peer length %u instead of %u", n, me.n); }
    Addr p; CHECK(getpeername(ad, p.p(), &p.n) == 0, "accept", "the accepted descriptor is not connected"); return ad;
}
static int rnd_opts (Rng &r) { int o = 0; if (r.chance(1, 3)) o |= U_NET_OPT_DONT_REUSE_ADDR; if (r.chance(1, 3)) o |= U_NET_OPT_DGRAM_BROADCAST; return o; }
static void c_pair (Rng &r)
{
    auto before = h::fds(); int k = pick_kind(r), so = rnd_opts(r), co = rnd_opts(r); Str path = sock_path(); bool intr = !h::memcheck && r.chance(2, 3); if (!stream(k) && r.chance(1, 4)) co |= U_NET_OPT_DONT_CONNECT; bool lim = r.chance(1, 2); struct timeval tv = {(time_t) (5 + r.below(60)), (suseconds_t) r.below(1000000)};
    h::tr("%s passive options %#x, active options %#x, %s, %s", SCH[k], so, co, intr ? "interrupted" : "calm", lim ? "limited" : "unlimited");
    if (intr) arm_eintr(r); int sd = opener(r, uri_of(k, path, 0), U_NET_SSOCK, so, r.chance(1, 2) ? &tv : nullptr); if (intr) h::sys::stop(); CHECK(sd >= 0, "passive", "opening a passive %s socket fails", SCH[k]); check_passive(sd, k, so, path, nullptr); Addr at = local(sd);
    if (k != UNIX && (stream(k) || (so & U_NET_OPT_DONT_REUSE_ADDR)) && r.chance(1, 6)) { auto f = h::fds(); int s2 = opener(r, uri_of(k, path, at.port()), U_NET_SSOCK, U_NET_OPT_DONT_REUSE_ADDR, nullptr); CHECK(s2 == -1, "taken", "a taken address is bound again (%d)", s2); h::expect_fds(f, "a refused bind"); h::cov("taken-addresses"); }
    if (k == UNIX && r.chance(1, 6)) { auto f = h::fds(); int s2 = opener(r, uri_of(k, path, 0), U_NET_SSOCK, 0, nullptr); CHECK(s2 == -1, "taken", "a taken path is bound again"); h::expect_fds(f, "a refused bind"); h::cov("taken-addresses"); }
    for (unsigned i = 0, n = 1 + r.below(2); i < n; ++i) {
        auto f = h::fds(); if (intr) arm_eintr(r); int cd = opener(r, uri_of(k, path, at.port()), U_NET_CSOCK, co, lim ? &tv : nullptr); int e = errno; if (intr) { h::sys::stop(); if (k_n) h::cov("interrupted-connects"); } CHECK(cd >= 0, "active", "connecting fails: %s (%u interruptions)", strerror(e), k_n); auto g = h::fds(); CHECK(g.size() == f.size() + 1, "one-descriptor", "connecting opened %zu descriptors", g.size() - f.size()); check_active(cd, k, co, &at);
        if (stream(k)) { int ad = do_accept(r, sd, cd, intr); CHECK(h::fds().size() == f.size() + 2, "one-descriptor", "accepting opened another number of descriptors"); exchange(r, cd, ad); exchange(r, ad, cd); if (k != UNIX && r.chance(1, 2)) { CHECK(u_net_nagle_off(cd) == 0 && gopt(cd, IPPROTO_TCP, TCP_NODELAY) != 0, "nagle", "Nagle's algorithm is still on"); } close(ad); } else if (!(co & U_NET_OPT_DONT_CONNECT)) exchange(r, cd, sd);
        close(cd); h::cov("connections"); }
    if (stream(k) && r.chance(1, 3)) { fcntl(sd, F_SETFL, O_NONBLOCK); errno = 0; int ad = u_accept(sd, nullptr, nullptr); CHECK(ad == -1 && errno == EAGAIN, "accept-none", "accepting nothing returns %d (%s)", ad, strerror(errno)); }
    close(sd); if (k == UNIX) unlink(path.c_str()); h::expect_fds(before, "the connections"); h::sig(k); h::sig(so); h::sig(co); h::sig(intr * 2 + lim); h::sig(intr ? k_n : 0);
}
/* every call of an opening fails in turn */
static void c_fault (Rng &r)
{
    h::sys::install(CALLS); int k = pick_kind(r), so = rnd_opts(r), co = rnd_opts(r); Str path = sock_path(); struct timeval tv = {5, 0}; bool lim = r.chance(1, 2); u_net_addr_t *sa = nullptr, *ca = nullptr; auto before = h::fds();
    CHECK(u_net_uri2addr(uri_of(k, path, 0).c_str(), U_NET_SSOCK, &sa) == 0, "uri", "refused"); u_net_addr_set_opts(sa, so); static const int er[] = {EMFILE, ENOBUFS, ENOMEM, EACCES, EIO, EPERM}; int e = er[r.below(6)]; int srv = -1; bool act = r.chance(2, 3);
    for (int kk = 0; ; ++kk) { auto f = h::fds(); h::sys::start_fail(act ? 1000 : kk, e); int sd = u_net_sd_by_addr(sa); bool hit = h::sys::injected; h::sys::stop(); if (sd < 0) { CHECK(sd == -1, "minus-one", "%d returned", sd); CHECK(hit, "passive", "opening a passive socket fails by itself"); h::expect_fds(f, "a failed opening"); h::cov("failed-openings"); if (k == UNIX) unlink(path.c_str()); continue; } check_passive(sd, k, so, path, nullptr); if (!hit) { srv = sd; break; } h::cov("survived-faults"); close(sd); if (k == UNIX) unlink(path.c_str()); }
    if (act) { Addr at = local(srv); CHECK(u_net_uri2addr(uri_of(k, path, at.port()).c_str(), U_NET_CSOCK, &ca) == 0, "uri", "refused"); u_net_addr_set_opts(ca, co);
        for (int kk = 0; ; ++kk) { auto f = h::fds(); h::sys::start_fail(kk, e); tv.tv_sec = 5; tv.tv_usec = 0; int sd = u_net_sd_by_addr_ex(ca, lim ? &tv : nullptr); bool hit = h::sys::injected; h::sys::stop(); if (sd < 0) { CHECK(sd == -1, "minus-one", "%d returned", sd); CHECK(hit, "active", "connecting fails by itself"); h::expect_fds(f, "a failed connect"); h::cov("failed-connects"); if (stream(k)) { fcntl(srv, F_SETFL, O_NONBLOCK); int x; while ((x = accept(srv, nullptr, nullptr)) >= 0) close(x); } continue; } check_active(sd, k, co, &at); close(sd); if (!hit) break; h::cov("survived-faults"); }
        if (stream(k)) { fcntl(srv, F_SETFL, 0); int cd = u_net_sd_by_addr(ca); CHECK(cd >= 0, "active", "connecting fails"); auto f = h::fds(); fcntl(srv, F_SETFL, O_NONBLOCK); int x; h::sys::start_fail(0, e); x = u_accept(srv, nullptr, nullptr); int ee = errno; h::sys::stop(); CHECK(x == -1 && ee == e, "accept-error", "a failing accept returns %d, errno %d", x, ee); h::expect_fds(f, "a failed accept"); close(cd); }
        u_net_addr_free(ca); }
    close(srv); if (k == UNIX) unlink(path.c_str()); u_net_addr_free(sa); h::expect_fds(before, "the openings"); h::sig(300 + k); h::sig(so); h::sig(co); h::sig(e); h::sig(act * 2 + lim);
}
/* connect on the caller's own descriptor: verdicts, time limits and modes */
struct Stuck { int l = -1; std::vector<int> c; Addr at; ~Stuck () { for (int x : c) close(x); if (l >= 0) close(l); } };
static void make_stuck (Stuck &s) { s.l = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (bind(s.l, (struct sockaddr *) &a, sizeof a) || listen(s.l, 0)) { perror("stuck"); _exit(70); } s.at = local(s.l);
    for (int i = 0; i < 8; ++i) { int c = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); s.c.push_back(c); connect(c, s.at.p(), sizeof a); struct pollfd p = {c, POLLOUT, 0}; if (poll(&p, 1, 3) == 0) return; } }
static volatile sig_atomic_t ticks; static void on_alrm (int) { if (++ticks > 3000) { struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_REAL, &z, nullptr); } }
static void storm (bool on) { struct itimerval it; memset(&it, 0, sizeof it); if (on) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alrm; sigaction(SIGALRM, &sa, nullptr); ticks = 0; it.it_value.tv_usec = it.it_interval.tv_usec = 2000; } setitimer(ITIMER_REAL, &it, nullptr); }
static void c_connect (Rng &r)
{
    auto before = h::fds(); { Stuck st; int what = r.below(h::memcheck ? 3 : 5); int k = what == 2 || what == 3 ? TCP4 : pick_kind(r); Str path = sock_path(); bool nb = r.chance(1, 3), lim = r.chance(2, 3) || what == 2, intr = !h::memcheck && r.chance(1, 2); long ms = 10 + r.below(35); if (what == 2) h::cov("time-limits"); int l = -1; Addr to;
    if (what == 2) { make_stuck(st); to = st.at; } else if (what != 1) { l = u_net_sd(uri_of(k, path, 0).c_str(), U_NET_SSOCK, 0); CHECK(l >= 0, "passive", "opening fails"); to = local(l); }
    else { k = r.chance(1, 2) ? TCP4 : UNIX; if (k == UNIX) { auto u = (struct sockaddr_un *) &to.s; u->sun_family = AF_UNIX; strcpy(u->sun_path, path.c_str()); to.n = sizeof *u; } else { int t = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); bind(t, (struct sockaddr *) &a, sizeof a); to = local(t); l = t; /* bound, not listening: refused */ } }
    int s = socket(dom(k), stream(k) ? SOCK_STREAM : SOCK_DGRAM, 0); bool high = what == 4 && r.chance(1, 2); if (high) { int h2 = fcntl(s, F_DUPFD, 1024 + (int) r.below(900)); if (h2 >= 0) { close(s); s = h2; } else high = false; } int fl0 = fcntl(s, F_GETFL); if (nb) fcntl(s, F_SETFL, fl0 | O_NONBLOCK); int mode = fcntl(s, F_GETFL); struct timeval tv; if (what == 2) { tv.tv_sec = 0; tv.tv_usec = ms * 1000; } else { tv.tv_sec = 20; tv.tv_usec = r.below(1000000); }
    h::tr("connect %s to %s, %s, %s, %s, descriptor %d", SCH[k], what == 2 ? "a full listener" : what == 1 ? "nobody" : "a listener", nb ? "non-blocking" : "blocking", lim ? "limited" : "unlimited", intr ? "interrupted" : "calm", s);
    if (intr) { if (what == 2) storm(true); else arm_eintr(r); } double t0 = now(); int rc = lim || r.chance(1, 2) ? u_connect_ex(s, to.p(), to.n, lim ? &tv : nullptr) : u_connect(s, to.p(), to.n); int e = errno; double el = now() - t0; if (intr) { if (what == 2) { storm(false); h::cov("signals-during-limited-connects", ticks); } else { h::sys::stop(); if (k_n) h::cov("interrupted-connects"); } }
    int m2 = fcntl(s, F_GETFL);
    if (high && rc == -1) h::cov("high-descriptors-refused");
    else if (what == 2) { CHECK(rc == -2, "timeout-verdict", "connecting to a full listener returns %d (%s) after %.3f s", rc, strerror(e), el); CHECK(el >= ms / 1000.0 - 0.003, "timeout-early", "gave up after %.4f s instead of %ld ms", el, ms); CHECK(el < 4.5, "timeout-late", "gave up after %.3f s instead of %ld ms (%d signals)", el, ms, (int) ticks); }
    else if (what == 1) CHECK(rc == -1 && (e == ECONNREFUSED || e == ENOENT), "refused-verdict", "connecting to nobody returns %d (%s)", rc, strerror(e));
    else { CHECK(rc == 0, "connect-verdict", "connecting returns %d (%s), %u interruptions", rc, strerror(e), k_n); Addr p; CHECK(getpeername(s, p.p(), &p.n) == 0, "not-connected", "connecting succeeds but the socket is not connected"); CHECK(same(p, to), "peer", "connected elsewhere"); if (stream(k)) { int ad = do_accept(r, l, s, false); exchange(r, s, ad); exchange(r, ad, s); close(ad); } else exchange(r, s, l); }
    CHECK(m2 == mode, "mode", "the descriptor's flags were %#x and are %#x after a connect that returns %d", mode, m2, rc);
    close(s); if (l >= 0) close(l); if (k == UNIX) unlink(path.c_str()); h::sig(400 + what); h::sig(k); h::sig(nb * 4 + lim * 2 + intr); h::sig(high); h::sig(intr ? k_n : 0); }
    h::expect_fds(before, "connecting");
}
/* waiting for the outcome fails for good */
static volatile unsigned w_n; static volatile int w_e;
static bool no_wait (int nr, long *a, long *ret)
{
    if (nr == SYS_connect) return interrupt(nr, a, ret);
    if (nr != SYS_select && nr != SYS_pselect6 && nr != SYS_poll && nr != SYS_ppoll) return false;
    w_n = w_n + 1; if (w_n > 300) return false; *ret = -w_e; return true;
}
static void c_nowait (Rng &r)
{
    h::sys::install(CALLS); auto before = h::fds(); int k = has6() && r.chance(1, 3) ? TCP6 : TCP4, l = u_net_sd(uri_of(k, "", 0).c_str(), U_NET_SSOCK, 0); CHECK(l >= 0, "passive", "opening fails"); Addr to = local(l); auto mid = h::fds(); static const int er[] = {EBADF, ENOMEM, EINVAL, EFAULT}; w_e = er[r.below(4)]; bool lim = r.chance(1, 2), own = r.chance(1, 2); struct timeval tv = {30, (suseconds_t) r.below(1000000)};
    int s = -1, mode = 0; u_net_addr_t *ca = nullptr; if (own) { s = socket(dom(k), SOCK_STREAM, 0); if (r.chance(1, 3)) fcntl(s, F_SETFL, fcntl(s, F_GETFL) | O_NONBLOCK); mode = fcntl(s, F_GETFL); } else CHECK(u_net_uri2addr(uri_of(k, "", to.port()).c_str(), U_NET_CSOCK, &ca) == 0, "uri", "refused");
    h::tr("%s, waiting fails for good with %d, %s, %s", SCH[k], w_e, lim ? "limited" : "unlimited", own ? "own descriptor" : "by address"); K = &r; k_den = 1; k_n = 0; k_budget = 1; w_n = 0; h::sys::start(no_wait);
    int rc = own ? u_connect_ex(s, to.p(), to.n, lim ? &tv : nullptr) : u_net_sd_by_addr_ex(ca, lim ? &tv : nullptr); int e = errno; h::sys::stop();
    if (w_n) { CHECK(w_n <= 300, "wait-forever", "a wait that fails for good with %d is repeated forever", w_e); CHECK(rc == -1, "wait-failure", "waiting for the connection fails, and connecting returns %d (%s)", rc, strerror(e)); h::cov("failed-waits", w_n); } else CHECK(own ? rc == 0 : rc >= 0, "active", "connecting fails: %s", strerror(e));
    if (own) { CHECK(fcntl(s, F_GETFL) == mode, "mode", "the descriptor's flags were %#x and are %#x after a connect that returns %d", mode, fcntl(s, F_GETFL), rc); close(s); } else { if (rc >= 0) close(rc); u_net_addr_free(ca); } h::expect_fds(mid, "a failed wait"); close(l); h::expect_fds(before, "connecting"); h::sig(600 + k); h::sig(w_e); h::sig(lim * 2 + own);
}
/* the connection takes long: a wait that has a limit ends without news, one without limit goes on */
static bool slow_wait (int nr, long *a, long *ret)
{
    if (nr == SYS_connect) return interrupt(nr, a, ret);
    if (nr != SYS_select && nr != SYS_pselect6 && nr != SYS_poll && nr != SYS_ppoll) return false;
    bool limited = nr == SYS_poll ? (int) a[2] >= 0 : nr == SYS_ppoll ? a[2] != 0 : a[4] != 0; w_n = w_n + 1; if (!limited || w_n > 40) return false;
    if (nr == SYS_select || nr == SYS_pselect6) for (int i = 1; i < 4; ++i) if (a[i]) memset((void *) a[i], 0, (a[0] + 7) / 8); *ret = 0; return true;
}
static void c_slow (Rng &r)
{
    h::sys::install(CALLS); auto before = h::fds(); int k = has6() && r.chance(1, 3) ? TCP6 : TCP4, l = u_net_sd(uri_of(k, "", 0).c_str(), U_NET_SSOCK, 0); CHECK(l >= 0, "passive", "opening fails"); Addr to = local(l); int s = -1; unsigned how = r.below(4); u_net_addr_t *ca = nullptr; if (how < 2) s = socket(dom(k), SOCK_STREAM, 0); else if (how == 2) CHECK(u_net_uri2addr(uri_of(k, "", to.port()).c_str(), U_NET_CSOCK, &ca) == 0, "uri", "refused");
    h::tr("%s, a slow connection without limit, way %u", SCH[k], how); K = &r; k_den = 1; k_n = 0; k_budget = 1; w_n = 0; Str u = uri_of(k, "", to.port()); h::sys::start(slow_wait); int rc = how == 0 ? u_connect(s, to.p(), to.n) : how == 1 ? u_connect_ex(s, to.p(), to.n, nullptr) : how == 2 ? u_net_sd_by_addr(ca) : u_net_sd(u.c_str(), U_NET_CSOCK, 0); int e = errno; h::sys::stop();
    CHECK(how < 2 ? rc == 0 : rc >= 0, "gave-up", "a connection that takes long, without limit, returns %d (%s) after %u waits", rc, strerror(e), (unsigned) w_n); h::cov("slow-connections"); close(how < 2 ? s : rc); if (ca) u_net_addr_free(ca); close(l); h::expect_fds(before, "a slow connection"); h::sig(700 + how); h::sig(k); h::sig(k_n);
}
/* plain wrappers */
static void c_wrap (Rng &r)
{
    h::sys::install(CALLS); int s = u_socket(AF_INET, SOCK_STREAM, 0); CHECK(s >= 0, "socket", "socket"); int f = (r.chance(1, 2) ? O_NONBLOCK : 0) | (r.chance(1, 2) ? O_APPEND : 0); fcntl(s, F_SETFL, f); int f0 = fcntl(s, F_GETFL);
    for (unsigned i = 0; i < 6; ++i) { bool on = r.chance(1, 2); int was = fcntl(s, F_GETFL); long fk = r.chance(1, 3) ? (long) r.below(2) : -1; if (fk >= 0) h::sys::start_fail(fk, EINVAL); int rc = on ? u_net_set_nonblocking(s) : u_net_unset_nonblocking(s); bool hit = h::sys::injected; if (fk >= 0) h::sys::stop(); else hit = false; int is = fcntl(s, F_GETFL); if (hit) CHECK(rc != 0 && is == was, "flag-failure", "a failed change of mode returns %d", rc); else { CHECK(rc == 0, "flag", "changing the mode fails"); CHECK(is == (on ? was | O_NONBLOCK : was & ~O_NONBLOCK), "flag", "flags %#x became %#x", was, is); } } (void) f0;
    int v = r.chance(1, 2), w = 9; socklen_t n = sizeof w; CHECK(u_setsockopt(s, SOL_SOCKET, SO_KEEPALIVE, &v, sizeof v) == 0 && u_getsockopt(s, SOL_SOCKET, SO_KEEPALIVE, &w, &n) == 0 && w == v, "options", "an option set to %d reads %d", v, w);
    CHECK(u_net_set_nonblocking(-1) != 0 && u_net_unset_nonblocking(-1) != 0 && u_net_nagle_off(-1) != 0 && u_setsockopt(-1, SOL_SOCKET, SO_KEEPALIVE, &v, sizeof v) == -1 && u_getsockopt(-1, SOL_SOCKET, SO_KEEPALIVE, &w, &n) == -1 && u_accept(-1, nullptr, nullptr) == -1 && u_listen(-1, 3) == -1 && u_socket(-1, 99, 99) == -1, "bad-descriptor-accepted", "a call on a bad descriptor succeeds");
    struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; CHECK(u_bind(-1, (struct sockaddr *) &a, sizeof a) == -1 && u_connect(-1, (struct sockaddr *) &a, sizeof a) == -1 && u_connect(s, nullptr, 16) == -1 && u_net_sd_by_addr(nullptr) == -1 && u_net_sd(nullptr, U_NET_CSOCK, 0) == -1, "bad-arguments", "a call with bad arguments does not return -1"); close(s); h::sig(500); h::sig(f); h::cov("wrapper-calls", 12);
}
static const bool lowfd = h::low_fd = true;
void run_case (Rng &r, u64 n) { static bool once = false; if (!once) { once = true; struct rlimit l; getrlimit(RLIMIT_NOFILE, &l); if (l.rlim_cur < 4096 && l.rlim_max >= 4096) { l.rlim_cur = 4096; setrlimit(RLIMIT_NOFILE, &l); } }
    unsigned k = r.below(11); if (h::memcheck) { if (k < 5) c_pair(r); else c_connect(r); return; } if (k < 5) c_pair(r); else if (k < 7) c_fault(r); else if (k < 9) c_connect(r); else if (k < 10) c_wrap(r); else if (r.chance(1, 2)) c_nowait(r); else c_slow(r); }
/* a local connect really interrupted while it waits for room */
static void p_local_wait ()
{
    Str path = sock_path(); int l = u_net_sd(("unix://" + path).c_str(), U_NET_SSOCK, 0); CHECK(l >= 0, "passive", "opening fails"); listen(l, 0); Addr to = local(l); std::vector<int> fill; for (int i = 0; i < 20; ++i) { int c = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0); if (connect(c, to.p(), to.n)) { close(c); break; } fill.push_back(c); } CHECK(!fill.empty(), "weak", "no connection queued");
    int pp[2]; if (pipe(pp)) _exit(70); pid_t c = fork(); if (c == 0) { close(pp[0]); storm(true); int s = socket(AF_UNIX, SOCK_STREAM, 0); int rc = u_connect(s, to.p(), to.n); Addr p; int g = getpeername(s, p.p(), &p.n); storm(false); char b = rc == 0 && g == 0 && ticks > 2 ? 'y' : rc == 0 && g == 0 ? 'w' : 'n'; if (write(pp[1], &b, 1)) {} _exit(0); }
    close(pp[1]); usleep(60000); for (int i = 0; i < 3; ++i) { int a = accept(l, nullptr, nullptr); if (a >= 0) close(a); if (i < 1) usleep(2000); if ((size_t) i + 1 >= fill.size()) break; } char b = '?'; struct pollfd p = {pp[0], POLLIN, 0}; CHECK(poll(&p, 1, 10000) == 1 && read(pp[0], &b, 1) == 1, "local-wait", "an interrupted local connect never ends"); int stt; waitpid(c, &stt, 0); CHECK(b != 'n', "local-wait", "an interrupted local connect fails, or succeeds without being connected"); for (int x : fill) close(x); close(pp[0]); close(l);
}
const Probe PROBES[] = { {"local-wait", p_local_wait}, {0, 0} };
