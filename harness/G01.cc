#include "h.h"
#include <syslog.h>
#include <pthread.h>
#include <atomic>
/* every log call, its sink, its lock callbacks and errno */
static std::vector<std::pair<int, Str>> out; static Str order; static int depth; static bool use_lock, nest, clobber; static int nested_left; static int hooks_seen[2];
extern "C" { void __wrap_vsyslog (int pri, const char *f, va_list ap) { char b[8192]; vsnprintf(b, sizeof b, f, ap); order += 'D'; out.push_back({pri, b}); if (clobber) errno = 77; }
void __wrap_syslog (int pri, const char *f, ...) { va_list ap; va_start(ap, f); __wrap_vsyslog(pri, f, ap); va_end(ap); }
void __wrap___vsyslog_chk (int pri, int, const char *f, va_list ap) { __wrap_vsyslog(pri, f, ap); } void __wrap___syslog_chk (int pri, int, const char *f, ...) { va_list ap; va_start(ap, f); __wrap_vsyslog(pri, f, ap); va_end(ap); } }
static int f_lock (void *a) { CHECK(a == &use_lock, "lock-arg", "the lock callback gets another argument"); order += 'L'; ++depth; if (clobber) errno = 78; return 0; }
static int f_unlock (void *a) { CHECK(a == &nest, "unlock-arg", "the unlock callback gets another argument"); CHECK(depth > 0, "unlock-order", "unlocked without lock"); order += 'U'; --depth; if (clobber) errno = 79; return 0; }
static int f_hook (void *a, int lev, const char *s) { CHECK(a == &out, "hook-arg", "the hook gets another argument"); order += 'D'; out.push_back({lev, s}); if (nested_left > 0) { --nested_left; u_log_write_ex(LOG_USER, LOG_INFO, 0, 0, "nf", 1, "nfn", "nested"); } if (clobber) errno = 80; return 0; }
static const char *LBL[] = {"emg", "alr", "crt", "err", "wrn", "ntc", "inf", "dbg"};
static void balanced () { CHECK(depth == 0, "lock-pairs", "%d locks are left taken (%s)", depth, order.c_str()); if (!use_lock) return; int d = 0; for (char c : order) { if (c == 'L') ++d; else if (c == 'U') --d; else CHECK(d > 0, "unlocked-delivery", "a message is delivered outside the lock (%s)", order.c_str()); } }
static void c_write (Rng &r)
{
    bool hook = r.chance(2, 3); use_lock = r.chance(1, 2); clobber = r.chance(1, 2); u_log_hook_t old; void *oa; u_log_set_lock(use_lock ? f_lock : nullptr, &use_lock); u_log_set_unlock(use_lock ? f_unlock : nullptr, &nest); order.clear(); depth = 0; u_log_set_hook(hook ? f_hook : nullptr, &out, &old, &oa); CHECK(depth == 0, "lock-pairs", "setting the hook leaves the lock taken"); h::tr("%s %s", hook ? "hook" : "syslog", use_lock ? "locked" : "unlocked");
    for (unsigned i = 1 + r.below(8); i-- > 0;) {
        out.clear(); order.clear(); int lev = r.below(8), fac = (int) r.below(24) << 3, flags = r.below(2), err; static const int er[] = {0, 0, 0, ENOENT, EINTR, ENOMEM, EIO, 133, 5000, 1, EHWPOISON, ENOTRECOVERABLE}; err = er[r.below(12)]; Str file = r.text(r.below(20), "abc/.c"), func = r.text(r.below(15), "fgh_"); int line = r.chance(1, 8) ? (int) r.next() : (int) r.below(3000);
        Str es = err ? h::fmt("[errno: %d, %s]", err, strerror(err)) : Str(); Str pre = flags ? h::fmt("[%s][%d:%s:%d:%s] ", LBL[lev], getpid(), file.c_str(), line, func.c_str()) : h::fmt("[%s][%d:::] ", LBL[lev], getpid()); size_t over = pre.size() + 1 + es.size(); size_t len = r.chance(1, 3) ? r.below(80) : r.chance(1, 2) ? 1015 + r.below(20) : (size_t) std::max<long>(0, 1024 - (long) over - 4 + (long) r.below(9)); if (r.chance(1, 30)) len = r.below(5000); Str msg = r.text(len, "abcdef ghi%[]\\"); Str line_ = pre + msg + " " + es;
        nested_left = hook && r.chance(1, 8) ? 1 : 0; int had = nested_left; int e0 = r.chance(1, 2) ? 0 : (int) (1 + r.below(130)); h::Exact mb(msg), fb(file), nb(func); errno = e0; int rc; unsigned how = r.below(3); int a = r.below(1000);
        if (how == 0 || msg.size() < 12) rc = u_log_write_ex(fac, lev, flags, err, fb.p, line, nb.p, "%s", mb.p); else { /* the same text through conversions */ Str tail = msg.substr(8), num = h::fmt("%08d", a); memcpy(&msg[0], num.data(), 8); line_ = pre + msg + " " + es; rc = u_log_write_ex(fac, lev, flags, err, fb.p, line, nb.p, "%08d%.*s%s", a, 2, tail.c_str(), tail.c_str() + 2); }
        int e1 = errno; CHECK(e1 == e0, "errno", "errno was %d and is %d after logging", e0, e1); balanced();
        bool maybe, must; if (hook) { must = line_.size() < 1024; maybe = line_.size() <= 1024; } else { must = msg.size() < 1024; maybe = msg.size() <= 1024; }
        size_t want_n = 1; if (had && nested_left == 0) want_n = 2; if (must) CHECK(out.size() == want_n, "delivered", "a message of %zu characters is delivered %zu times (line of %zu)", msg.size(), out.size(), line_.size()); else if (!maybe) CHECK(out.empty(), "over-long", "an over-long message (%zu, line %zu) is delivered", msg.size(), line_.size());
        if (!out.empty()) { CHECK(out[0].second == line_, "text", "delivered \"%s\" instead of \"%s\"", h::esc(out[0].second).c_str(), h::esc(line_).c_str()); if (hook) CHECK(out[0].first == lev, "level", "level %d instead of %d", out[0].first, lev); else CHECK(out[0].first == (fac | lev), "priority", "priority %d instead of %d", out[0].first, fac | lev); CHECK(rc == 0, "verdict", "a delivered message returns %d", rc); h::cov("messages-delivered"); if (want_n == 2) { CHECK(out[1].second == h::fmt("[inf][%d:::] nested ", getpid()), "nested", "nested \"%s\"", out[1].second.c_str()); h::cov("nested-messages"); } } else h::cov("messages-dropped");
        if (use_lock) { size_t nl = std::count(order.begin(), order.end(), 'L'); CHECK(out.size() == 0 || nl == out.size(), "lock-count", "%zu messages, %zu locks", out.size(), nl); }
        h::sig(lev); h::sig(fac); h::sig(flags); h::sig(err); h::sig(h::szclass(len)); h::sig(out.size()); h::sig(hook * 2 + use_lock); }
    nested_left = 0; u_log_hook_t o2; void *oa2; order.clear(); u_log_set_hook(h::null_hook, nullptr, &o2, &oa2); CHECK(o2 == (hook ? f_hook : nullptr) && oa2 == &out, "old-hook", "the previous hook is not given back"); balanced(); u_log_set_lock(nullptr, nullptr); u_log_set_unlock(nullptr, nullptr); h::mem::expect_balanced("logging");
}
static void c_level_macros (Rng &r)
{
    u_log_set_hook(nullptr, nullptr, nullptr, nullptr); facility = (int) r.below(24) << 3; clobber = true; int e0 = r.below(100), err = r.chance(1, 2) ? 0 : (int) (1 + r.below(60)), x = r.below(1000), fac = (int) r.below(24) << 3, fl = r.below(2); Str es = err ? h::fmt("[errno: %d, %s]", err, strerror(err)) : Str(); int ln = 0;
    auto one = [&] (int lev, int f, bool ctx) { int e1 = errno; CHECK(e1 == e0, "errno", "errno %d became %d", e0, e1); CHECK(out.size() == 1, "delivered", "%zu messages", out.size()); CHECK(out[0].first == (f | lev), "priority", "priority %#x instead of %#x", out[0].first, f | lev); Str w = (ctx ? h::fmt("[%s][%d:%s:%d:%s] ", LBL[lev], getpid(), __FILE__, ln, "c_level_macros") : h::fmt("[%s][%d:::] ", LBL[lev], getpid())) + "m" + std::to_string(x) + " " + es; CHECK(out[0].second == w, "text", "\"%s\" instead of \"%s\"", h::esc(out[0].second).c_str(), h::esc(w).c_str()); out.clear(); errno = e0; h::cov("messages-delivered"); };
    out.clear(); errno = e0;
#define M1(name, lev) ln = __LINE__; name(fac, fl, err, "m%d", x); one(lev, fac, fl);
    M1(u_log_emerg, LOG_EMERG) M1(u_log_alert, LOG_ALERT) M1(u_log_critical, LOG_CRIT) M1(u_log_error, LOG_ERR) M1(u_log_warning, LOG_WARNING) M1(u_log_notice, LOG_NOTICE) M1(u_log_info, LOG_INFO) M1(u_log_debug, LOG_DEBUG)
#define M2(name, lev, ctx) ln = __LINE__; name(err, "m%d", x); one(lev, facility, ctx);
    M2(emerg_, LOG_EMERG, 1) M2(alert_, LOG_ALERT, 1) M2(crit_, LOG_CRIT, 1) M2(err_, LOG_ERR, 1) M2(warn_, LOG_WARNING, 1) M2(notice_, LOG_NOTICE, 1) M2(info_, LOG_INFO, 0) M2(dbg_, LOG_DEBUG, 1)
    u_log_set_hook(h::null_hook, nullptr, nullptr, nullptr); facility = LOG_LOCAL0; h::sig(9000 + err); h::sig(fac); h::sig(e0); h::sig(x);
}
static void c_strerror (Rng &r)
{
    int en = r.chance(1, 3) ? (int) r.next() : (int) r.below(140); Str w = strerror(en); size_t room = r.chance(1, 2) ? w.size() + 1 + r.below(20) : 1 + r.below(w.size() + 1); h::Exact b(room); int rc = u_strerror_r(en, b.p, room); if (rc == 0) CHECK(Str(b.p) == w.substr(0, room - 1), "strerror", "error %d is \"%s\" instead of \"%s\"", en, b.p, w.c_str()); else CHECK(en < 0 || en > 133 || room <= w.size(), "strerror", "error %d has no text", en); h::sig(7000 + en); h::sig(room);
}
/* the console: text on standard error, then the error */
static void c_console (Rng &r)
{
    if (r.chance(1, 4)) { /* a console that takes nothing: the caller's errno stays */ fflush(stderr); int save = dup(2), f = r.chance(1, 2) ? open("/dev/full", O_WRONLY | O_CLOEXEC) : -1; if (f >= 0) { dup2(f, 2); close(f); } else close(2); int err = r.chance(1, 2) ? 0 : (int) (1 + r.below(60)), e0 = r.below(100); Str m = r.text(r.below(60), "abc %"); errno = e0; u_console_write(err, "%s", m.c_str()); int e1 = errno; clearerr(stderr); dup2(save, 2); close(save); clearerr(stderr); CHECK(e1 == e0, "errno", "errno %d became %d when the console could not be written", e0, e1); h::cov("console-unwritable"); return; }
    int t = memfd_create("c", 0), save = dup(2); fflush(stderr); dup2(t, 2); int err = r.chance(1, 2) ? 0 : (int) (1 + r.below(100)), e0 = r.below(100); Str m = r.text(r.below(3000), "abc %\\x"); h::Exact mb(m); errno = e0; int rc = r.chance(1, 2) ? u_console_write(err, "%s", mb.p) : (con_(err, "%s", mb.p)); int e1 = errno; fflush(stderr); dup2(save, 2); close(save); off_t n = lseek(t, 0, SEEK_END); Str got(n, 0); if (n && pread(t, &got[0], n, 0) != n) _exit(70); close(t); Str w = m + (err ? h::fmt(" [errno: %d, %s]", err, strerror(err)) : Str()) + "\n"; CHECK(got == w && rc == 0, "console", "\"%s\" instead of \"%s\"", h::esc(got).c_str(), h::esc(w).c_str()); CHECK(e1 == e0, "errno", "errno %d became %d", e0, e1); h::sig(8000 + err); h::sig(m.size()); h::cov("console-messages");
}
/* threads log through two recorders that are swapped all the time */
static pthread_mutex_t mx; static int t_lock (void *) { pthread_mutex_lock(&mx); return 0; } static int t_unlock (void *) { pthread_mutex_unlock(&mx); return 0; }
struct Rec { std::vector<std::pair<int, Str>> v; int id; };
static int rec_a (void *a, int l, const char *s) { Rec *x = (Rec *) a; CHECK(x->id == 1, "hook-arg", "the hook of one recorder gets the argument of another"); x->v.push_back({l, s}); errno = 90; return 0; }
static int rec_b (void *a, int l, const char *s) { Rec *x = (Rec *) a; CHECK(x->id == 2, "hook-arg", "the hook of one recorder gets the argument of another"); x->v.push_back({l, s}); errno = 91; return 0; }
struct Th { pthread_t t; int id, n; u64 seed; int bad; };
static void *logger (void *p) { Th *t = (Th *) p; Rng r(t->seed); for (int i = 0; i < t->n; ++i) { errno = 1000 + t->id; int rc = u_log_write_ex(LOG_USER, r.below(8), 0, 0, "f", 1, "g", "t%d-%d-%s", t->id, i, "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx" + r.below(100)); if (errno != 1000 + t->id || rc) t->bad++; if (r.chance(1, 16)) sched_yield(); } return nullptr; }
static void c_threads (Rng &r)
{
    pthread_mutexattr_t at; pthread_mutexattr_init(&at); pthread_mutexattr_settype(&at, PTHREAD_MUTEX_RECURSIVE); pthread_mutex_init(&mx, &at); Rec A, B; A.id = 1; B.id = 2; u_log_set_lock(t_lock, nullptr); u_log_set_unlock(t_unlock, nullptr); u_log_set_hook(rec_a, &A, nullptr, nullptr); Th th[5]; int nt = 2 + r.below(4), n = 20 + r.below(60); for (int i = 0; i < nt; ++i) { th[i].id = i; th[i].n = n; th[i].seed = r.next(); th[i].bad = 0; pthread_create(&th[i].t, nullptr, logger, &th[i]); } int swaps = r.below(60); for (int i = 0; i < swaps; ++i) { u_log_hook_t o; void *oa; if (i & 1) u_log_set_hook(rec_a, &A, &o, &oa); else u_log_set_hook(rec_b, &B, &o, &oa); CHECK((o == rec_a && oa == &A) || (o == rec_b && oa == &B), "old-hook", "a mixed hook is given back"); if (r.chance(1, 3)) sched_yield(); } for (int i = 0; i < nt; ++i) pthread_join(th[i].t, nullptr);
    u_log_set_hook(h::null_hook, nullptr, nullptr, nullptr); u_log_set_lock(nullptr, nullptr); u_log_set_unlock(nullptr, nullptr); CHECK(pthread_mutex_trylock(&mx) == 0, "lock-pairs", "the lock is left taken"); pthread_mutex_unlock(&mx); pthread_mutex_destroy(&mx);
    std::map<std::pair<int, int>, int> seen; std::map<int, int> lastA, lastB; u64 il = 0; int prev = -1; for (auto *v : {&A.v, &B.v}) for (auto &x : *v) { int id, k, at = 0; char lbl[4]; int pid; CHECK(sscanf(x.second.c_str(), "[%3s][%d:::] t%d-%d-%n", lbl, &pid, &id, &k, &at) == 4 && at > 0, "torn", "a torn message: %s", h::esc(x.second).c_str()); Str rest = x.second.substr(at); CHECK(!rest.empty() && rest.back() == ' ' && rest.find_first_not_of('x') == rest.size() - 1, "torn", "a torn message: %s", h::esc(x.second).c_str()); CHECK(Str(LBL[x.first]) == lbl, "level", "label %s at level %d", lbl, x.first); seen[{id, k}]++; auto &l = v == &A.v ? lastA : lastB; CHECK(!l.count(id) || l[id] < k, "order", "messages of one thread out of order"); l[id] = k; if (prev != id) ++il; prev = id; }
    for (int i = 0; i < nt; ++i) { CHECK(th[i].bad == 0, "errno", "errno of a thread was changed by logging (%d times)", th[i].bad); for (int k = 0; k < n; ++k) { auto it = seen.find({i, k}); CHECK(it != seen.end() && it->second == 1, "exactly-once", "a message is delivered %d times", it == seen.end() ? 0 : it->second); } } h::cov("threaded-messages", (u64) nt * n); h::cov("thread-switches-seen", il); h::sig(nt); h::sig(n); h::sig(il); h::sig(A.v.size());
}
void run_case (Rng &r, u64 n)
{
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
    c_threads(r); return;
#endif
#endif
    unsigned k = r.below(20); if (k < 11) c_write(r); else if (k < 14) c_level_macros(r); else if (k < 16) c_strerror(r); else if (k < 18 || h::memcheck) c_console(r); else c_threads(r);
}
/* die: one message, then the exit code */
static void p_die () { for (int k = 0; k < 3; ++k) { int p[2]; if (pipe(p)) _exit(70); fflush(stdout); pid_t c = fork(); if (c == 0) { static int fd; fd = p[1]; u_log_set_hook([] (void *, int l, const char *s) { if (dprintf(fd, "%d%s|", l, s)) {} return 0; }, nullptr, nullptr, nullptr); if (k == 0) die(7, "bye %d", 3); if (k == 1) { die_if(k > 1); die_if(k == 1); } if (k == 2) u_log_die(9, LOG_USER, 0, ENOENT, "%s", "gone"); _exit(99); } close(p[1]); Str g; char b[500]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) g.append(b, n); close(p[0]); int st; waitpid(c, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == (k == 0 ? 7 : k == 1 ? EXIT_FAILURE : 9), "die-code", "exit status %x", st); CHECK(g[0] == '0' + LOG_CRIT && std::count(g.begin(), g.end(), '|') == 1 && g.find(k == 0 ? "bye 3" : k == 1 ? "k == 1" : "gone [errno: 2, No such file or directory]") != Str::npos, "die-text", "%s", g.c_str()); } }
const Probe PROBES[] = { {"die", p_die}, {0, 0} };
