#include "h.h"
#include <syslog.h>
/* every flow-control macro: one evaluation, control transferred exactly when the condition holds, the right message */
static int evals, cond, seterr; static int ev () { ++evals; errno = seterr; return cond; }
enum { NONE = -100 };
struct Out { int path; int rc; };           /* path: 0 fell through, 1 err label, 2 returned, 3 other label, 4 block entered */
enum What { W_NO, W_EXPR, W_EXPRP, W_MSG, W_ERRNO };  /* message: none, the expression, one with a percent sign, the given text, "errno: N (text)" */
struct Fn { const char *fam, *name; Out (*fn) (); int always; What w; bool err; int path, rc; };
static int P1 = 7; static const char *P2 = "txt";
#define FAMILY(X) \
static Out X##_f1 () { X##_err_if(ev()); return {0, NONE}; err: return {1, NONE}; } \
static Out X##_f2 () { X##_err_sif(ev()); return {0, NONE}; err: return {1, NONE}; } \
static Out X##_f3 () { X##_err_ifm(ev(), "given %d %s", P1, P2); return {0, NONE}; err: return {1, NONE}; } \
static Out X##_f4 () { X##_err_sifm(ev(), "given %d %s", P1, P2); return {0, NONE}; err: return {1, NONE}; } \
static Out X##_f5 () { int rc = 3; X##_err_rcif(ev(), 42); return {0, rc}; err: return {1, rc}; } \
static Out X##_f6 () { ++evals; X##_err("given %d %s", P1, P2); return {0, NONE}; err: return {1, NONE}; } \
static Out X##_f7 () { X##_if(ev()); return {0, NONE}; } \
static Out X##_f8 () { X##_ifm(ev(), "given %d %s", P1, P2); return {0, NONE}; } \
static Out X##_f9 () { X##_ifb (ev()) { return {4, NONE}; } return {0, NONE}; } \
static Out X##_f10 () { X##_return_if(ev(), (Out{2, 5})); return {0, NONE}; } \
static Out X##_f11 () { X##_return_sif(ev(), (Out{2, 6})); return {0, NONE}; } \
static Out X##_f12 () { X##_return_ifm(ev(), (Out{2, 7}), "given %d %s", P1, P2); return {0, NONE}; } \
static Out X##_f13 () { X##_return_sifm(ev(), (Out{2, 8}), "given %d %s", P1, P2); return {0, NONE}; } \
static Out X##_f14 () { X##_goto_if(ev(), gt); return {0, NONE}; gt: return {3, NONE}; } \
static Out X##_f15 () { ++evals; int keep = errno; errno = 1; errno = keep; X##_strerror(seterr); return {0, NONE}; } \
static Out X##_f16 () { ++evals; u_##X("given %d %s", P1, P2); return {0, NONE}; } \
static Out X##_f17 () { X##_err_if(ev() % 1000); return {0, NONE}; err: return {1, NONE}; } \
static Out X##_f18 () { X##_if(ev() % 1000 != 0); return {0, NONE}; } \
static Out X##_f19 () { int n = 0; for (int i = 0; i < 3; ++i) if (i == 1) X##_err_if(ev()); else ++n; return {0, n}; err: return {1, n}; } \
static Out X##_f20 () { X##_return_sif(ev() % 1000, (Out{2, 9})); return {0, NONE}; }
FAMILY(con) FAMILY(emerg) FAMILY(alert) FAMILY(crit) FAMILY(err) FAMILY(warn) FAMILY(notice) FAMILY(info) FAMILY(dbg)
#define ROWS(X) \
 {#X, "err_if", X##_f1, 0, W_EXPR, 0, 1, NONE}, {#X, "err_sif", X##_f2, 0, W_EXPR, 1, 1, NONE}, {#X, "err_ifm", X##_f3, 0, W_MSG, 0, 1, NONE}, {#X, "err_sifm", X##_f4, 0, W_MSG, 1, 1, NONE}, \
 {#X, "err_rcif", X##_f5, 0, W_EXPR, 0, 1, 42}, {#X, "err", X##_f6, 1, W_MSG, 0, 1, NONE}, {#X, "if", X##_f7, 0, W_EXPR, 0, 0, NONE}, {#X, "ifm", X##_f8, 0, W_MSG, 0, 0, NONE}, {#X, "ifb", X##_f9, 0, W_EXPR, 0, 4, NONE}, \
 {#X, "return_if", X##_f10, 0, W_EXPR, 0, 2, 5}, {#X, "return_sif", X##_f11, 0, W_EXPR, 1, 2, 6}, {#X, "return_ifm", X##_f12, 0, W_MSG, 0, 2, 7}, {#X, "return_sifm", X##_f13, 0, W_MSG, 1, 2, 8}, {#X, "goto_if", X##_f14, 0, W_EXPR, 0, 3, NONE}, \
 {#X, "strerror", X##_f15, 1, W_ERRNO, 0, 0, NONE}, {#X, "u_", X##_f16, 1, W_MSG, 0, 0, NONE}, {#X, "err_if%", X##_f17, 0, W_EXPRP, 0, 1, NONE}, {#X, "if%", X##_f18, 0, W_EXPRP, 0, 0, NONE}, {#X, "err_if-else", X##_f19, 0, W_EXPR, 0, 1, 1}, {#X, "return_sif%", X##_f20, 0, W_EXPRP, 1, 2, 9}
static Out nop_f1 () { nop_return_if(ev(), (Out{2, 5})); return {0, NONE}; } static Out nop_f2 () { nop_err_if(ev()); return {0, NONE}; err: return {1, NONE}; } static Out nop_f3 () { nop_goto_if(ev(), gt); return {0, NONE}; gt: return {3, NONE}; }
static const Fn T[] = { ROWS(con), ROWS(emerg), ROWS(alert), ROWS(crit), ROWS(err), ROWS(warn), ROWS(notice), ROWS(info), ROWS(dbg), {"nop", "return_if", nop_f1, 0, W_NO, 0, 2, 5}, {"nop", "err_if", nop_f2, 0, W_NO, 0, 1, NONE}, {"nop", "goto_if", nop_f3, 0, W_NO, 0, 3, NONE} };
static std::vector<std::pair<int, Str>> out; static int hook (void *, int l, const char *s) { out.push_back({l, s}); errno = 99; return 0; }
static int level (const Str &f) { static const std::map<Str, int> m = {{"emerg", LOG_EMERG}, {"alert", LOG_ALERT}, {"crit", LOG_CRIT}, {"err", LOG_ERR}, {"warn", LOG_WARNING}, {"notice", LOG_NOTICE}, {"info", LOG_INFO}, {"dbg", LOG_DEBUG}}; auto i = m.find(f); return i == m.end() ? -1 : i->second; }
/* the timing macros, with a clock of ours in scope */
static void c_timer (Rng &r)
{
    std::vector<long> T; for (int i = 0; i < 5; ++i) T.push_back((i ? T.back() : 1 + (long) r.below(2000000000)) + (r.chance(1, 3) ? 0 : r.chance(1, 4) ? (long) r.below(9000000000ULL) : (long) r.below(5000))); unsigned at = 0; auto time = [&] (int) -> time_t { return T[at++]; }; (void) time;
    out.clear(); u_log_set_hook(hook, nullptr, nullptr, nullptr); int after = 0; { TIMER_ON; TIMER_STEP; if (r.chance(1, 2)) TIMER_STEP; else ++after; TIMER_STEP; TIMER_OFF; } u_log_set_hook(h::null_hook, nullptr, nullptr, nullptr);
    std::vector<Str> want;
#ifdef DEBUG
    int steps = after ? 2 : 3; for (int i = 0; i < steps; ++i) want.push_back(h::fmt("step %d: %ld s (delta: %ld s)", i, T[i + 1] - T[0], T[i + 1] - T[i])); want.push_back(h::fmt("elapsed: %ld s", T[steps + 1] - T[0])); CHECK(at == want.size() + 1, "timer-clock", "the clock is read %u times for %zu messages", at, want.size());
#endif
    CHECK(out.size() == want.size(), "timer", "%zu messages instead of %zu", out.size(), want.size()); for (size_t i = 0; i < want.size(); ++i) CHECK(out[i].first == LOG_DEBUG && out[i].second.find(want[i]) != Str::npos, "timer", "message \"%s\" instead of \"%s\"", h::esc(out[i].second).c_str(), want[i].c_str()); h::cov("timers"); h::sig(7000 + after); for (long t : T) h::sig(t);
}
void run_case (Rng &r, u64 n)
{
    if (r.chance(1, 60)) return c_timer(r);
    static int memfd = memfd_create("con", 0), save = fcntl(2, F_DUPFD_CLOEXEC, 100); const Fn &f = T[n % (sizeof T / sizeof *T)]; Str fam = f.fam; bool con = fam == "con"; evals = 0; cond = r.chance(1, 2) ? 0 : r.chance(1, 2) ? 1 : (int) (1 + r.below(900)); seterr = r.chance(1, 6) ? 0 : (int) (1 + r.below(120)); P1 = r.below(10000); bool silent = fam == "nop";
#ifndef DEBUG
    if (fam == "dbg") silent = true;
#endif
    h::tr("%s_%s with condition %d and error %d", f.fam, f.name, cond, seterr); out.clear(); u_log_set_hook(hook, nullptr, nullptr, nullptr); int before = r.below(100); if (con) { fflush(stderr); if (ftruncate(memfd, 0)) {} lseek(memfd, 0, SEEK_SET); dup2(memfd, 2); } errno = before; if (f.always) errno = seterr; bool str = f.w == W_ERRNO; int other = 0; if (str) { errno = other = 1 + r.below(120); }
    Out o = f.fn(); int e = errno; Str text; if (con) { fflush(stderr); off_t k = lseek(memfd, 0, SEEK_END); text.assign(k, 0); if (k && pread(memfd, &text[0], k, 0) != k) _exit(70); dup2(save, 2); } u_log_set_hook(h::null_hook, nullptr, nullptr, nullptr);
    bool hit = f.always || cond; CHECK(evals == 1, "evaluated", "%s_%s evaluates its condition %d times", f.fam, f.name, evals); bool elsev = !strcmp(f.name, "err_if-else");
    if (hit) { CHECK(o.path == f.path && (o.rc == f.rc), "control", "%s_%s with a true condition takes way %d with %d instead of %d with %d", f.fam, f.name, o.path, o.rc, f.path, f.rc); } else CHECK(o.path == 0 && (o.rc == NONE || (elsev ? o.rc == 2 : o.rc == 3)), "control", "%s_%s with a false condition takes way %d with %d", f.fam, f.name, o.path, o.rc);
    if (!silent || !str) CHECK(e == (str ? other : seterr), "errno", "%s_%s leaves errno %d instead of %d", f.fam, f.name, e, str ? other : seterr);
    Str body; switch (f.w) { case W_NO: break; case W_EXPR: body = "ev()"; break; case W_EXPRP: body = !strcmp(f.name, "if%") ? "ev() % 1000 != 0" : "ev() % 1000"; break; case W_MSG: body = h::fmt("given %d %s", P1, P2); break; case W_ERRNO: body = h::fmt("errno: %d (%s)", seterr, strerror(seterr)); break; } Str es = f.err && seterr ? h::fmt("[errno: %d, %s]", seterr, strerror(seterr)) : Str();
    if (con) { CHECK(out.empty(), "sink", "con_%s reaches the log", f.name); CHECK(text == (hit ? body + (es.empty() ? "" : " ") + es + "\n" : Str()), "text", "con_%s writes \"%s\"", f.name, h::esc(text).c_str()); }
    else if (silent || !hit) CHECK(out.empty(), "message", "%s_%s logs \"%s\"", f.fam, f.name, h::esc(out[0].second).c_str());
    else { CHECK(out.size() == 1, "message", "%s_%s logs %zu messages", f.fam, f.name, out.size()); CHECK(out[0].first == level(fam), "level", "%s_%s logs at level %d", f.fam, f.name, out[0].first); const Str &s = out[0].second; Str tail = "] " + body + " " + es; CHECK(s.size() > tail.size() && s.compare(s.size() - tail.size(), Str::npos, tail) == 0, "text", "%s_%s logs \"%s\", not \"%s\"", f.fam, f.name, h::esc(s).c_str(), h::esc(tail).c_str()); bool ctx = s.find(".cc:") != Str::npos; CHECK(ctx == (fam != "info"), "context", "%s_%s logs \"%s\"", f.fam, f.name, h::esc(s).c_str()); h::cov("messages"); }
    h::cov(hit ? "conditions-true" : "conditions-false"); h::sig(n % (sizeof T / sizeof *T)); h::sig(hit); h::sig(seterr); h::sig(cond);
}
#ifndef DEBUG
static void p_no_debug () { int n = 0; (void) n; u_dbg("%d", ++n); CHECK(n == 0, "debug-arguments", "the arguments of a disabled message are evaluated"); }
#else
static void p_no_debug () {}
#endif
/* the names of the 1.x branch */
#undef _LIBU_COMPAT_H_
#define LIBU_1X_COMPAT
#include <u/compat.h>
static int u_uri_crumble (const char *s, int o, u_uri_t **u) { return ::u_uri_crumble(s, (u_uri_opts_t) o, u); } /* what C converts by itself */
static void p_compat ()
{
    static const int lv[] = {LOG_INFO, LOG_NOTICE, LOG_WARNING, LOG_ERR, LOG_CRIT, LOG_ALERT, LOG_EMERG, LOG_DEBUG}; out.clear(); u_log_set_hook(hook, nullptr, nullptr, nullptr);
    info("m%d", 0); notice("m%d", 1); warn("m%d", 2); err("m%d", 3); crit("m%d", 4); alert("m%d", 5); if (out.size() > 90) emerg("x"); else emerg("m%d", 6); dbg("m%d", 7);
    int memfd = memfd_create("con", 0), save = fcntl(2, F_DUPFD_CLOEXEC, 100); fflush(stderr); dup2(memfd, 2); con("c%d", 8); fflush(stderr); dup2(save, 2); close(save); char b[64] = ""; ssize_t k = pread(memfd, b, 63, 0); close(memfd);
    u_log_set_hook(h::null_hook, nullptr, nullptr, nullptr); size_t n = 7;
#ifdef DEBUG
    n = 8;
#endif
    CHECK(out.size() == n, "compat-log", "%zu messages instead of %zu", out.size(), n); for (size_t i = 0; i < n; ++i) { Str w = h::fmt("m%d", (int) i); CHECK(out[i].first == lv[i] && out[i].second.find(w) != Str::npos, "compat-log", "call %zu sends \"%s\" at level %d", i, h::esc(out[i].second).c_str(), out[i].first); } CHECK(Str(b, k > 0 ? k : 0) == "c8\n", "compat-con", "the console shows \"%s\"", b);
    u_uri_t *u = nullptr; CHECK(u_uri_parse("http://user@host:81/p?q", &u) == 0 && u && !strcmp(u_uri_get_host(u), "host") && !strcmp(u_uri_get_path(u), "/p"), "compat-uri", "the old name parses otherwise"); u_uri_free(u); u = nullptr; CHECK(u_uri_parse("::", &u) != 0, "compat-uri", "the old name parses anything");
    Str p = h::scratch() + "/c.sock", a = "unix://" + p; int sd = u_net_sock(a.c_str(), U_NET_SSOCK); struct stat st; CHECK(sd >= 0 && stat(p.c_str(), &st) == 0 && S_ISSOCK(st.st_mode), "compat-net", "the old name opens no socket"); int c = u_net_sock(a.c_str(), U_NET_CSOCK); CHECK(c >= 0, "compat-net", "no connection"); close(c); close(sd); unlink(p.c_str()); CHECK(u_net_sock(a.c_str(), U_NET_CSOCK) == -1, "compat-net", "connected to nothing");
}
const Probe PROBES[] = { {"no-debug", p_no_debug}, {"compat", p_compat}, {0, 0} };
