#include "h.h"
#include "sys.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/sctp.h>
#include <arpa/inet.h>
#include <netdb.h>
/* addresses given as URIs, against a stand-in for the kernel's socket calls that records what is asked for */
extern "C" { int __real_getaddrinfo (const char *, const char *, const struct addrinfo *, struct addrinfo **); void __real_freeaddrinfo (struct addrinfo *);
static std::set<void *> ai_live;
int __wrap_getaddrinfo (const char *a, const char *b, const struct addrinfo *h, struct addrinfo **r) { int rc = __real_getaddrinfo(a, b, h, r); if (rc == 0) ai_live.insert(*r); return rc; }
void __wrap_freeaddrinfo (struct addrinfo *p) { if (!ai_live.erase(p)) h::fail("foreign-address", "an address list is released twice, or was never handed out"); __real_freeaddrinfo(p); } }
struct Sock { int fd, dom, type, proto; unsigned nbind, nconn, nlisten, nopt; int backlog; struct sockaddr_storage at; socklen_t len; struct { int lev, name; socklen_t len; unsigned char v[64]; } opt[8]; bool closed, open_on_listen, opt_late; };
enum { NS = 64 }; static Sock S[NS]; static unsigned ns; static int scripted_err, scripted_call, err_left; static bool deny;
static Sock *find (int fd) { for (unsigned i = ns; i-- > 0;) if (S[i].fd == fd && !S[i].closed) return &S[i]; return nullptr; }
static bool kernel (int nr, long *a, long *ret)
{
    if (nr == SYS_socket) { if (deny) { *ret = -EAFNOSUPPORT; return true; } int fd = h::sys::raw(SYS_socket, AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0); if (ns < NS) { Sock &s = S[ns++]; memset(&s, 0, sizeof s); s.fd = fd; s.dom = a[0]; s.type = a[1]; s.proto = a[2]; } *ret = fd; return true; }
    Sock *s = find(a[0]); if (!s) return false;
    if (nr == SYS_close) { s->closed = true; return false; }
    if (nr == scripted_call && err_left > 0) { --err_left; *ret = -scripted_err; return true; }
    switch (nr) {
        case SYS_setsockopt: { if (s->nbind || s->nconn) s->opt_late = true; if (s->nopt < 8) { auto &o = s->opt[s->nopt++]; o.lev = a[1]; o.name = a[2]; o.len = a[4]; memcpy(o.v, (void *) a[3], std::min<size_t>(a[4], sizeof o.v)); } *ret = 0; return true; }
        case SYS_bind: case SYS_connect: { if (nr == SYS_bind) ++s->nbind; else ++s->nconn; s->len = a[2]; memset(&s->at, 0, sizeof s->at); memcpy(&s->at, (void *) a[1], std::min<size_t>(a[2], sizeof s->at)); *ret = 0; return true; }
        case SYS_listen: ++s->nlisten; s->backlog = a[1]; s->open_on_listen = s->nbind > 0; *ret = 0; return true;
    }
    return false;
}
struct Want { int ok = 0; /* 1 accepted, 0 refused, -1 unspecified */ int fam = 0, type = 0, proto = 0; struct in_addr v4; struct in6_addr v6; int port = 0; Str path; bool wild = false; };
static Str mixcase (Rng &r, Str s) { if (r.chance(1, 4)) for (char &c : s) if (r.chance(1, 2)) c = toupper(c); return s; }
static Str v6text (Rng &r, const struct in6_addr &a) { char b[64]; if (r.chance(2, 3)) { inet_ntop(AF_INET6, &a, b, sizeof b); return mixcase(r, b); } Str s; for (int i = 0; i < 8; ++i) s += h::fmt(i ? r.chance(1, 2) ? ":%x" : ":%04x" : "%x", a.s6_addr[2 * i] << 8 | a.s6_addr[2 * i + 1]); return mixcase(r, s); }
static struct in6_addr rnd6 (Rng &r) { struct in6_addr a; for (auto &b : a.s6_addr) b = r.below(256); unsigned k = r.below(4); if (k == 0) { int i = r.below(16), n = 1 + r.below(16 - i); memset(a.s6_addr + i, 0, n); } if (k == 1) { memset(&a, 0, 16); a.s6_addr[15] = r.below(3); } return a; }
static Want gen (Rng &r, Str &uri, bool passive)
{
    Want w; static const struct { const char *s; int f, t, p; } T[] = { {"tcp", AF_INET, SOCK_STREAM, IPPROTO_TCP}, {"tcp4", AF_INET, SOCK_STREAM, IPPROTO_TCP}, {"udp", AF_INET, SOCK_DGRAM, IPPROTO_UDP}, {"udp4", AF_INET, SOCK_DGRAM, IPPROTO_UDP}, {"sctp", AF_INET, SOCK_STREAM, IPPROTO_SCTP}, {"sctp4", AF_INET, SOCK_STREAM, IPPROTO_SCTP}, {"tcp6", AF_INET6, SOCK_STREAM, IPPROTO_TCP}, {"udp6", AF_INET6, SOCK_DGRAM, IPPROTO_UDP}, {"sctp6", AF_INET6, SOCK_STREAM, IPPROTO_SCTP}, {"unix", AF_UNIX, SOCK_STREAM, 0} };
    auto &t = T[r.below(10)]; w.fam = t.f; w.type = t.t; w.proto = t.p; w.ok = 1; Str sch = mixcase(r, t.s);
    if (r.chance(1, 12)) { sch = r.one({"http", "tcp5", "tc", "tcpx", "unixx", "udp46", "tcp64", "sctp1", "tcp-4", "un", "ud", "udp.4", "sct", "x"}); w.ok = 0; h::cov("unknown-schemes"); }
    if (w.fam == AF_UNIX && w.ok) {
        size_t n = r.chance(1, 3) ? 104 + r.below(8) : 1 + r.below(120); Str p = "/" + r.text(n - 1, "abcdefghijklmnopqrstuvwxyz0123456789._-~"); if (n > 3) for (unsigned i = r.below(3); i-- > 0;) { size_t at = 1 + r.below(n - 2); if (p[at - 1] != '/' && p[at + 1] != '/') p[at] = '/'; } w.path = p; uri = sch + "://" + p; if (p.size() >= sizeof(((struct sockaddr_un *) 0)->sun_path)) { w.ok = 0; h::cov("over-long-paths"); } if (r.chance(1, 20)) { uri = sch + "://"; w.ok = 0; h::cov("empty-paths"); } h::sig(p.size()); return w; }
    Str host; unsigned hk = r.below(10);
    if (w.fam == AF_INET) {
        if (hk < 5) { u8 q[4]; for (auto &b : q) b = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : 255) : r.below(256); memcpy(&w.v4, q, 4); host = h::fmt("%d.%d.%d.%d", q[0], q[1], q[2], q[3]); }
        else if (hk < 7) { host = "*"; w.wild = true; w.v4.s_addr = passive ? htonl(INADDR_ANY) : htonl(INADDR_LOOPBACK); h::cov("wildcard-hosts"); }
        else if (hk == 7) { host = "localhost"; w.v4.s_addr = htonl(INADDR_LOOPBACK); h::cov("names"); }
        else { host = r.one({"256.1.1.1", "1.2.3.4.5", "no-such-host.invalid", "[::1]", "[::]", "1.2.3.400", "a..b", "1.2.3.4x"}); w.ok = 0; h::cov("bad-hosts"); } }
    else {
        if (hk < 6) { w.v6 = rnd6(r); host = "[" + v6text(r, w.v6) + "]"; }
        else if (hk < 8) { host = r.chance(1, 2) ? "*" : "[*]"; w.wild = true; w.v6 = passive ? in6addr_any : in6addr_loopback; h::cov("wildcard-hosts"); }
        else { host = r.one({"1.2.3.4", "[1.2.3.4]", "[::g]", "[v1.x]", "[:::]", "[1:2:3:4:5:6:7]", "[1:2:3:4:5:6:7:8:9]", "[12345::1]", "no-such-host.invalid", "[::1.2.3]", "[]", "::1"}); w.ok = 0; h::cov("bad-hosts"); } }
    Str port; unsigned pk = r.below(12);
    if (pk < 5) { w.port = r.chance(1, 4) ? (r.chance(1, 2) ? 65535 : 1) : 1 + r.below(65535); port = r.chance(1, 8) ? h::fmt("%0*d", (int) (5 + r.below(4)), w.port) : std::to_string(w.port); h::cov("numeric-ports"); }
    else if (pk < 7) { port = "*"; w.port = 0; h::cov("wildcard-ports"); }
    else if (pk == 7 && w.proto != IPPROTO_SCTP) { port = w.type == SOCK_STREAM ? r.one({"http", "ssh", "domain", "smtp", "pop3"}) : r.one({"domain", "ntp", "snmp", "tftp"}); struct servent *s = getservbyname(port.c_str(), w.type == SOCK_STREAM ? "tcp" : "udp"); if (s) { w.port = ntohs(s->s_port); h::cov("service-names"); } else w.ok = 0; }
    else if (pk < 10) { w.port = 1 + r.below(65535); port = std::to_string(w.port); }
    else { switch (r.below(5)) { case 0: port = std::to_string(65536 + r.below(200000)); break; case 1: port = "65536"; break; case 2: port = std::to_string(4294967296ULL + r.below(70000)); break; case 3: port = r.one({"18446744073709551696", "99999999999999999999999", "340282366920938463463374607431768211536"}); break; default: port = r.one({"no-such-service", "-1", "80x", "8 0", "+80", "0x50", "80:80", "**", "http*"}); } w.ok = 0; h::cov("bad-ports"); }
    if (r.chance(1, 20)) { uri = sch + "://" + host + (r.chance(1, 2) ? "" : ":"); w.ok = 0; h::cov("missing-ports"); }
    else { uri = sch + "://" + host + ":" + port; if (r.chance(1, 8)) uri += r.one({"/", "/a/b", "?q", "#f", "/x?y#z"}); }
    return w;
}
static Str printed (const struct sockaddr_storage &s) { char b[128]; if (s.ss_family == AF_INET) { auto a = (const struct sockaddr_in *) &s; return h::fmt("%s:%d", inet_ntop(AF_INET, &a->sin_addr, b, sizeof b), ntohs(a->sin_port)); } if (s.ss_family == AF_INET6) { auto a = (const struct sockaddr_in6 *) &s; return h::fmt("[%s]:%d", inet_ntop(AF_INET6, &a->sin6_addr, b, sizeof b), ntohs(a->sin6_port)); } auto u = (const struct sockaddr_un *) &s; return Str(u->sun_path, strnlen(u->sun_path, sizeof u->sun_path)); }
static void check_sock (const Sock &s, const Want &w, bool passive, int opts, const Str &uri)
{
    const char *u = uri.c_str(); bool o2m = w.proto == IPPROTO_SCTP && (opts & U_NET_OPT_SCTP_ONE_TO_MANY); int type = o2m ? SOCK_SEQPACKET : w.type; CHECK(s.dom == w.fam && (s.type & 0xf) == type && s.proto == w.proto, "kind", "%s opens socket(%d, %d, %d)", u, s.dom, s.type, s.proto);
    bool conn = !passive && !(opts & U_NET_OPT_DONT_CONNECT); CHECK(s.nbind == (passive ? 1u : 0u) && s.nconn == (conn ? 1u : 0u), "calls", "%s: %u binds and %u connects", u, s.nbind, s.nconn); CHECK(s.nlisten == (passive && type != SOCK_DGRAM ? 1u : 0u) && (!s.nlisten || (s.open_on_listen && s.backlog == U_NET_BACKLOG)), "listen", "%s: %u listens, backlog %d", u, s.nlisten, s.backlog);
    if (passive || conn) { CHECK(s.at.ss_family == w.fam, "family", "%s: family %d", u, s.at.ss_family);
        if (w.fam == AF_INET) { auto a = (const struct sockaddr_in *) &s.at; CHECK(s.len == sizeof *a && a->sin_addr.s_addr == w.v4.s_addr, "host", "%s opened at host %s", u, printed(s.at).c_str()); CHECK(ntohs(a->sin_port) == w.port, "port", "%s opened at port %d", u, ntohs(a->sin_port)); }
        else if (w.fam == AF_INET6) { auto a = (const struct sockaddr_in6 *) &s.at; CHECK(s.len == sizeof *a && !memcmp(&a->sin6_addr, &w.v6, 16), "host", "%s opened at host %s", u, printed(s.at).c_str()); CHECK(ntohs(a->sin6_port) == w.port, "port", "%s opened at port %d", u, ntohs(a->sin6_port)); CHECK(a->sin6_scope_id == 0 && a->sin6_flowinfo == 0, "host", "scope %u flow %u", a->sin6_scope_id, a->sin6_flowinfo); }
        else { auto a = (const struct sockaddr_un *) &s.at; CHECK(s.len > offsetof(struct sockaddr_un, sun_path) + w.path.size() && s.len <= sizeof *a && w.path == printed(s.at), "path", "%s opened at %s", u, printed(s.at).c_str()); } }
    int reuse = 0, bc = 0; bool ev = false; for (unsigned i = 0; i < s.nopt; ++i) { auto &o = s.opt[i]; int v; memcpy(&v, o.v, 4); if (o.lev == SOL_SOCKET && o.name == SO_REUSEADDR) reuse = v; else if (o.lev == SOL_SOCKET && o.name == SO_BROADCAST) bc = v; else if (o.lev == IPPROTO_SCTP && o.name == SCTP_EVENTS) { ev = true; struct sctp_event_subscribe e, x; memset(&e, 0, sizeof e); memset(&x, 0, sizeof x); memcpy(&x, o.v, std::min<size_t>(o.len, sizeof x));
            e.sctp_data_io_event = !!(opts & U_NET_OPT_SCTP_DATA_IO_EVENT); e.sctp_association_event = !!(opts & U_NET_OPT_SCTP_ASSOCIATION_EVENT); e.sctp_address_event = !!(opts & U_NET_OPT_SCTP_ADDRESS_EVENT); e.sctp_send_failure_event = !!(opts & U_NET_OPT_SCTP_SEND_FAILURE_EVENT); e.sctp_peer_error_event = !!(opts & U_NET_OPT_SCTP_PEER_ERROR_EVENT); e.sctp_shutdown_event = !!(opts & U_NET_OPT_SCTP_SHUTDOWN_EVENT); e.sctp_partial_delivery_event = !!(opts & U_NET_OPT_SCTP_PARTIAL_DELIVERY_EVENT); e.sctp_adaptation_layer_event = !!(opts & U_NET_OPT_SCTP_ADAPTATION_LAYER_EVENT); e.sctp_authentication_event = !!(opts & U_NET_OPT_SCTP_AUTHENTICATION_EVENT);
            CHECK(!memcmp(&e, &x, sizeof e), "events", "%s: other events are subscribed than asked for (options %#x)", u, opts); h::cov("event-subscriptions"); } else h::fail("option", "%s: option %d of level %d is set", u, o.name, o.lev); }
    CHECK(!s.opt_late, "option-late", "%s: options set after the address", u); CHECK(!!reuse == (passive && w.fam != AF_UNIX && !(opts & U_NET_OPT_DONT_REUSE_ADDR)), "reuse", "%s: reuse %d with options %#x", u, reuse, opts); CHECK(!!bc == (!passive && type == SOCK_DGRAM && (opts & U_NET_OPT_DGRAM_BROADCAST)), "broadcast", "%s: broadcast %d with options %#x", u, bc, opts); CHECK(ev == o2m, "events", "%s: events %ssubscribed with options %#x", u, ev ? "" : "not ", opts);
}
static void c_uri (Rng &r)
{
    h::sys::install({SYS_socket, SYS_setsockopt, SYS_bind, SYS_listen, SYS_connect, SYS_close}); auto before = h::fds(); bool passive = r.chance(1, 2); Str uri; Want w = gen(r, uri, passive); h::tr("%s %s", passive ? "passive" : "active", h::esc(uri).c_str()); h::Exact ub(uri); scripted_call = -1; err_left = 0; ns = 0;
    int opts = 0; if (r.chance(1, 3)) opts |= U_NET_OPT_DONT_REUSE_ADDR; if (r.chance(1, 5)) opts |= U_NET_OPT_DONT_CONNECT; if (r.chance(1, 3)) opts |= U_NET_OPT_DGRAM_BROADCAST; if (w.proto == IPPROTO_SCTP && r.chance(2, 3)) { opts |= U_NET_OPT_SCTP_ONE_TO_MANY; for (int b = 3; b < 12; ++b) if (r.chance(1, 2)) opts |= 1 << b; }
    u_net_mode_t m = passive ? U_NET_SSOCK : U_NET_CSOCK; 
    bool name = uri.find("localhost") != Str::npos || uri.find("invalid") != Str::npos || (!w.ok);
    if (!name && r.chance(1, 3)) { /* one shot */
        deny = false; h::sys::start(kernel); int sd = u_net_sd(ub.p, m, opts); h::sys::stop(); if (w.ok == 1) { CHECK(sd >= 0, "refused", "%s is refused", uri.c_str()); Sock *s = find(sd); CHECK(s, "descriptor", "another descriptor is returned"); check_sock(*s, w, passive, opts, uri); close(sd); h::cov("one-shot-sockets"); } }
    else {
        u_net_addr_t *a = (u_net_addr_t *) 8, *none = a; deny = true; h::sys::start(kernel); int rc = u_net_uri2addr(ub.p, m, &a); h::sys::stop(); deny = false; h::cov(rc ? "addresses-refused" : "addresses-accepted"); if (w.ok >= 0) CHECK((rc == 0) == (w.ok == 1), w.ok ? "refused" : "accepted", "%s is %s", uri.c_str(), rc ? "refused" : "accepted");
        if (rc) { CHECK(a == none, "failure-result", "a refused address yields a pointer"); h::mem::expect_balanced("a refused address"); }
        else { for (unsigned i = 0, n = 1 + r.below(3); i < n; ++i) { ns = 0; bool reset = i == 0 || r.chance(1, 2); if (reset) u_net_addr_set_opts(a, opts); scripted_call = -1; err_left = 0; if (r.chance(1, 3)) { static const int c[] = {SYS_bind, SYS_connect, SYS_listen, SYS_setsockopt}; scripted_call = c[r.below(4)]; scripted_err = r.chance(1, 2) ? EADDRNOTAVAIL : ECONNREFUSED; err_left = 99; }
                int had = err_left; h::sys::start(kernel); int sd = u_net_sd_by_addr(a); h::sys::stop(); bool hit = err_left < had; if (hit) { CHECK(sd == -1, "failure-verdict", "%s: %d returned though a call fails", uri.c_str(), sd); h::expect_fds(before, "a failed opening"); h::cov("failed-openings"); } else { CHECK(sd >= 0, "open", "%s is not opened", uri.c_str()); Sock *s = find(sd); CHECK(s, "descriptor", "another descriptor is returned"); check_sock(*s, w, passive, opts, uri); if (!(opts & U_NET_OPT_SCTP_ONE_TO_MANY)) CHECK(!!u_net_addr_can_accept(a) == (passive && w.type == SOCK_STREAM), "can-accept", "%s: eligible for accept %d", uri.c_str(), u_net_addr_can_accept(a)); close(sd); s->closed = true; h::cov("sockets-opened"); } }
            u_net_addr_free(a); } }
    CHECK(ai_live.empty(), "address-leak", "%zu resolved addresses are not released", ai_live.size()); h::mem::expect_balanced("the address"); h::expect_fds(before, "the address"); h::sig(w.fam * 8 + w.type); h::sig(w.proto); h::sig(w.ok * 4 + passive * 2 + w.wild); h::sig(w.port); h::sig(opts); h::sig(w.fam == AF_INET ? (u64) w.v4.s_addr : 0);
}
/* printing */
static void c_print (Rng &r)
{
    struct sockaddr_storage s; memset(&s, 0x41, sizeof s); unsigned k = r.below(3); size_t len; if (k == 0) { auto a = (struct sockaddr_in *) &s; s.ss_family = AF_INET; a->sin_addr.s_addr = r.chance(1, 8) ? 0 : r.next(); a->sin_port = r.next(); len = sizeof *a; } else if (k == 1) { auto a = (struct sockaddr_in6 *) &s; s.ss_family = AF_INET6; a->sin6_addr = rnd6(r); a->sin6_port = r.next(); len = sizeof *a; } else { auto a = (struct sockaddr_un *) &s; s.ss_family = AF_UNIX; size_t n = r.chance(1, 3) ? sizeof a->sun_path - r.below(3) : r.below(sizeof a->sun_path); for (size_t i = 0; i < n; ++i) a->sun_path[i] = 'a' + r.below(26); if (n < sizeof a->sun_path) a->sun_path[n] = 0; if (n == sizeof a->sun_path) h::cov("unterminated-paths"); len = sizeof *a; h::sig(n); }
    h::Exact sb(len); memcpy(sb.p, &s, len); if (k == 2) memset((char *) &s + len, 0, sizeof s - len); Str want = printed(s); size_t room = r.chance(1, 2) ? want.size() + 1 + r.below(40) : 1 + r.below(want.size() + 3); h::Exact d(room); const char *p = u_sa_ntop((struct sockaddr *) sb.p, d.p, room);
    if (room > want.size()) { CHECK(p == d.p && want == p, "print", "printed as %s instead of %s", h::esc(p).c_str(), want.c_str()); h::cov("addresses-printed"); } else if (p == d.p) { CHECK(strnlen(d.p, room) < room, "print-end", "a truncated address is not terminated"); h::cov("addresses-truncated"); }
    if (k < 2) { const void *src = k == 0 ? (const void *) &((struct sockaddr_in *) sb.p)->sin_addr : (const void *) &((struct sockaddr_in6 *) sb.p)->sin6_addr; int af = k == 0 ? AF_INET : AF_INET6; char b[64]; Str x = inet_ntop(af, src, b, sizeof b); size_t rm = r.chance(1, 2) ? x.size() + 1 + r.below(20) : r.below(x.size() + 2); h::Exact e(rm); errno = 0; const char *q = u_inet_ntop(af, src, e.p, rm); if (rm > x.size()) CHECK(q == e.p && x == q, "ntop", "%s instead of %s", q ? q : "(null)", x.c_str()); else CHECK(q == nullptr && errno == ENOSPC, "ntop-room", "a host that does not fit gives %s, errno %d", q ? "a text" : "null", errno); }
    else { char b[20]; int z = 0; errno = 0; CHECK(u_inet_ntop(AF_UNIX, &z, b, sizeof b) == nullptr && errno == EAFNOSUPPORT, "ntop-family", "an unknown family is printed"); }
    h::sig(900 + k); h::sig(room); h::sig(want);
}
static const bool lowfd = h::low_fd = true;
void run_case (Rng &r, u64 n) { if (!h::memcheck && r.chance(3, 4)) c_uri(r); else c_print(r); }
/* every port */
static void p_ports () { for (int p = 1; p < 70000; p += p < 65530 && p > 40 ? 13 : 1) { u_net_addr_t *a = nullptr; Str u = h::fmt("udp4://127.0.0.1:%d", p); int rc = u_net_uri2addr(u.c_str(), U_NET_SSOCK, &a); CHECK((rc == 0) == (p < 65536), "ports", "%s is %s", u.c_str(), rc ? "refused" : "accepted"); if (!rc) u_net_addr_free(a); } }
static void p_null () { u_net_addr_t *a = nullptr; CHECK(u_net_uri2addr(nullptr, U_NET_SSOCK, &a) != 0 && u_net_uri2addr("tcp://1.1.1.1:1", U_NET_SSOCK, nullptr) != 0 && u_net_addr_can_accept(nullptr) == 0, "null", "nothing is accepted"); u_net_addr_free(nullptr); u_net_addr_set_opts(nullptr, 1); u_net_addr_add_opts(nullptr, 1); }
const Probe PROBES[] = { {"ports", p_ports}, {"null", p_null}, {0, 0} };
