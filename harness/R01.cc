#include "h.h"
#include <fnmatch.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
/* the library's replacements for functions that some platforms lack, compiled under other names (R01.d) and watched next to what they stand for */
extern "C" {
char *r_strsep (char **, const char *); char *r_strtok_r (char *, const char *, char **); size_t r_strlcpy (char *, const char *, size_t); size_t r_strlcat (char *, const char *, size_t); time_t r_timegm (struct tm *);
int r_mkstemps (char *, int); int r_fnmatch (const char *, const char *, int); extern int r_fnm[5], r_fnm_nomatch; int r_daemon (int, int); void r_vsyslog (int, const char *, va_list);
static int fork_fails, setsid_fails; pid_t r_fork (void) { if (fork_fails) { errno = EAGAIN; return -1; } return fork(); } pid_t r_setsid (void) { if (setsid_fails) { errno = EPERM; return -1; } return setsid(); }
static int sl_n, sl_pri; static Str sl_msg; void r_syslog (int pri, const char *f, ...) { va_list ap; va_start(ap, f); char b[8192]; vsnprintf(b, sizeof b, f, ap); va_end(ap); ++sl_n; sl_pri = pri; sl_msg = b; }
}
static Str text (Rng &r, const char *alpha, size_t max) { Str s; size_t n = r.below(max + 1), m = strlen(alpha); while (n--) s += alpha[r.below(m)]; return s; }
static char *dup_exact (const Str &s) { char *p = (char *) malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }

static void tokens (Rng &r)
{   static const char A[] = "ab,;\xc3 -"; Str s = text(r, A, r.chance(1, 4) ? 40 : 9); bool sep = r.chance(1, 2); char *x = dup_exact(s), *y = dup_exact(s), *px = x, *py = y; h::tr("%s of '%s'", sep ? "strsep" : "strtok_r", h::esc(s).c_str()); h::sig(sep); h::sig(s.size());
    for (int i = 0; i < 60; ++i) { Str d = text(r, ",;\xc3 -", 3); char *a, *b;
        if (sep) { a = r_strsep(&px, d.c_str()); b = strsep(&py, d.c_str()); CHECK((px ? px - x : -1) == (py ? py - y : -1), "strsep-rest", "after token %d of '%s' the rest is at %td, expected %td", i, h::esc(s).c_str(), px ? px - x : -1, py ? py - y : -1); }
        else { a = r_strtok_r(i ? nullptr : x, d.c_str(), &px); b = strtok_r(i ? nullptr : y, d.c_str(), &py); }
        CHECK((a ? a - x : -1) == (b ? b - y : -1) && (!a || !strcmp(a, b)), sep ? "strsep" : "strtok_r", "token %d of '%s' split at '%s' is '%s', expected '%s'", i, h::esc(s).c_str(), h::esc(d).c_str(), a ? h::esc(a).c_str() : "(none)", b ? h::esc(b).c_str() : "(none)"); h::cov("tokens"); h::sig(a ? strlen(a) : 99);
        if (!a) { if (r.chance(1, 2)) break; } else CHECK(!memcmp(x, y, s.size() + 1), "strsep", "the text is not cut like the standard function does"); }
    free(x); free(y); }

static void bounded (Rng &r)
{   Str s = text(r, "ab\xff", r.chance(1, 3) ? 40 : 6), d = text(r, "xy", 8); size_t room = r.below(r.chance(1, 4) ? 60 : 14); bool cat = r.chance(1, 2); size_t have = std::max(room, (size_t) 1); char *buf = (char *) malloc(have), *src = dup_exact(s); memset(buf, 'z', have); h::sig(cat); h::sig(room); h::sig(s.size());
    if (!cat) { size_t rc = r_strlcpy(buf, src, room); h::tr("strlcpy '%s' room %zu", s.c_str(), room); CHECK(rc == s.size(), "strlcpy", "strlcpy of %zu characters returns %zu", s.size(), rc); if (room) { size_t k = std::min(s.size(), room - 1); CHECK(!memcmp(buf, s.data(), k) && !buf[k], "strlcpy", "strlcpy of %zu characters to room %zu leaves other text", s.size(), room); for (size_t i = k + 1; i < room; ++i) CHECK(buf[i] == 'z', "strlcpy", "strlcpy touches byte %zu after the text", i); } else CHECK(buf[0] == 'z', "strlcpy", "no room, yet written"); }
    else { bool term = r.chance(7, 8); size_t dl; if (room && term) { dl = std::min(d.size(), room - 1); memcpy(buf, d.data(), dl); buf[dl] = 0; } else dl = room; h::sig(dl); Str old(buf, std::min(dl, room)); size_t rc = r_strlcat(buf, src, room); h::tr("strlcat room %zu has %zu gets %zu", room, dl, s.size()); CHECK(rc == dl + s.size(), "strlcat", "strlcat of %zu to %zu characters in room %zu returns %zu", s.size(), dl, room, rc);
        if (dl < room) { size_t k = std::min(s.size(), room - 1 - dl); CHECK(!memcmp(buf, old.data(), dl) && !memcmp(buf + dl, s.data(), k) && !buf[dl + k], "strlcat", "strlcat of %zu to %zu characters in room %zu leaves other text", s.size(), dl, room); for (size_t i = dl + k + 1; i < room; ++i) CHECK(buf[i] == 'z', "strlcat", "strlcat touches byte %zu after the text", i); } else CHECK(Str(buf, room) == old, "strlcat", "a full destination is changed"); }
    h::cov("bounded-copies"); free(buf); free(src); }

/* ---- fnmatch: an ideal matcher over the pattern's own structure ---- */
enum { P_LIT, P_ANY, P_STAR, P_SET };
struct Atom { int t; unsigned char c; bool neg; std::vector<std::pair<unsigned char, unsigned char>> rg; Str text; };
enum { F_NOESC = 1, F_PATH = 2, F_PERIOD = 4, F_CASE = 8, F_DIR = 16 };
static int fold (int c, int f) { return f & F_CASE && c < 128 ? tolower(c) : c; }
static bool lead (const Str &s, size_t i, int f) { return i < s.size() && s[i] == '.' && f & F_PERIOD && (!i || (f & F_PATH && s[i - 1] == '/')); }
static bool ideal (const std::vector<Atom> &p, size_t k, const Str &s, size_t i, int f)
{   if (k == p.size()) return i == s.size() || (f & F_DIR && s[i] == '/');
    const Atom &a = p[k];
    if (a.t == P_STAR) { if (lead(s, i, f)) return false; for (size_t j = i; ; ++j) { if (ideal(p, k + 1, s, j, f)) return true; if (j == s.size() || (s[j] == '/' && f & F_PATH)) return false; } }
    if (i == s.size()) return false; unsigned char c = s[i]; int m = fold(c, f);
    if (a.t == P_LIT) return fold(a.c, f) == m && ideal(p, k + 1, s, i + 1, f);
    if ((c == '/' && f & F_PATH) || lead(s, i, f)) return false;
    if (a.t == P_SET) { bool in = false; for (auto &x : a.rg) in |= fold(x.first, f) <= m && m <= fold(x.second, f); if (in == a.neg) return false; }
    return ideal(p, k + 1, s, i + 1, f); }
static unsigned char sc (Rng &r, int f) { static const char A[] = "aabcABz09._\xc3\xe9-]![^*?\\"; (void) f; return A[r.below(sizeof A - 1)]; }
static Str esc_lit (Rng &r, unsigned char c, int f, bool force) { Str s; bool special = strchr("*?[\\", c) != nullptr; if (!(f & F_NOESC) && (force || special || r.chance(1, 8))) s += '\\'; s += (char) c; return s; }
static void match (Rng &r)
{   int f = r.below(32); std::vector<Atom> p; Str pat, s; int stars = 0; size_t n = r.below(7);
    for (size_t i = 0; i < n; ++i) { Atom a; a.neg = false; a.c = 0; unsigned k = r.below(12);
        if (k < 5) { a.t = P_LIT; do a.c = r.chance(1, 4) ? '/' : r.chance(1, 4) ? '.' : sc(r, f); while (f & F_NOESC && strchr("*?[\\", a.c)); a.text = esc_lit(r, a.c, f, false); }
        else if (k < 7) { a.t = P_ANY; a.text = "?"; } else if (k < 10) { if (++stars > 4) continue; a.t = P_STAR; a.text = r.chance(1, 6) ? "**" : "*"; }
        else { a.t = P_SET; a.neg = r.chance(1, 3); a.text = "["; if (a.neg) a.text += r.chance(1, 2) ? "!" : "^"; size_t m = 1 + r.below(3); bool first = true;
            for (size_t q = 0; q < m; ++q, first = false) { static const char *RG[] = {"az", "AZ", "09", "bb", "af"}; 
                if (r.chance(1, 3)) { const char *g = RG[r.below(5)]; a.rg.push_back({(unsigned char) g[0], (unsigned char) g[1]}); a.text += esc_lit(r, g[0], f, false); a.text += '-'; a.text += esc_lit(r, g[1], f, false); }
                else { unsigned char c; do c = r.chance(1, 5) ? '.' : r.chance(1, 6) ? ']' : sc(r, f); while (c == '/' || c == '[' || c == '-' || (c == '!' || c == '^') || (c == '\\' && f & F_NOESC && false) || (c == ']' && !first && f & F_NOESC)); a.rg.push_back({c, c}); if (c == ']' && first) a.text += "]"; else if (c == '\\') a.text += f & F_NOESC ? "\\" : "\\\\"; else a.text += esc_lit(r, c, f, c == ']'); } }
            if (r.chance(1, 8)) { a.rg.push_back({'-', '-'}); a.text += '-'; } a.text += ']'; }
        p.push_back(a); pat += a.text; }
    /* a subject that often matches: walk the pattern, then disturb it */
    for (auto &a : p) { if (a.t == P_LIT) s += (char) a.c; else if (a.t == P_ANY) s += (char) (r.chance(1, 6) ? '.' : sc(r, f)); else if (a.t == P_STAR) { for (size_t k = r.below(4); k--; ) s += r.chance(1, 5) ? '/' : r.chance(1, 5) ? '.' : (char) sc(r, f); } else { auto &g = a.rg[r.below(a.rg.size())]; s += a.neg ? (char) sc(r, f) : (char) (g.first + r.below(g.second - g.first + 1)); } }
    if (r.chance(1, 3)) for (size_t k = 1 + r.below(2); k--; ) { size_t at = r.below(s.size() + 1); switch (r.below(3)) { case 0: s.insert(at, 1, r.chance(1, 3) ? '/' : (char) sc(r, f)); break; case 1: if (at < s.size()) s.erase(at, 1); break; default: if (at < s.size()) s[at] = isalpha((unsigned char) s[at]) ? s[at] ^ 32 : (char) sc(r, f); } }
    if (r.chance(1, 8)) s += "/tail"; if (r.chance(1, 12)) s = "." + s;
    int fl = 0; for (int b = 0; b < 5; ++b) if (f & 1 << b) fl |= r_fnm[b]; char *xp = dup_exact(pat), *xs = dup_exact(s); bool want = ideal(p, 0, s, 0, f); int rc = r_fnmatch(xp, xs, fl); free(xp); free(xs);
    if (getenv("FNM_GLIBC")) { static const int G[] = {FNM_NOESCAPE, FNM_PATHNAME, FNM_PERIOD, FNM_CASEFOLD, FNM_LEADING_DIR}; int g = 0; for (int b = 0; b < 5; ++b) if (f & 1 << b) g |= G[b]; bool gl = fnmatch(pat.c_str(), s.c_str(), g) == 0; if (gl != want) printf("GLIBC differs: '%s' '%s' flags %d ideal %d\n", h::esc(pat).c_str(), h::esc(s).c_str(), f, want); }
    h::tr("fnmatch('%s', '%s', flags %d)", h::esc(pat).c_str(), h::esc(s).c_str(), f); h::sig(f); h::sig(pat); h::sig(want); h::cov(want ? "matches" : "mismatches");
    CHECK(rc == (want ? 0 : r_fnm_nomatch), "fnmatch", "pattern '%s' on '%s' with flags%s%s%s%s%s gives %d, expected %s", h::esc(pat).c_str(), h::esc(s).c_str(), f & 1 ? " noescape" : "", f & 2 ? " pathname" : "", f & 4 ? " period" : "", f & 8 ? " casefold" : "", f & 16 ? " leading-dir" : "", rc, want ? "a match" : "no match"); }

static __attribute__((noinline)) int clobber (int n) { volatile char b[700]; for (int i = 0; i < 700; ++i) b[i] = (char) (n + i); return b[n % 700]; }
static void gmt (Rng &r)
{   static const char *Z[] = {nullptr, "", "UTC", "EST5EDT", "CET-1CEST,M3.5.0,M10.5.0/3", "XYZ-11:30", "ABC+12"}; int z = r.below(7); Str ztext = Z[z] ? Z[z] : ""; if (z > 2 && r.chance(1, 12)) { ztext = "<" + Str(r.below(400) + 1, 'A') + ">-2"; } if (Z[z]) setenv("TZ", ztext.c_str(), 1); else unsetenv("TZ"); tzset();
    struct tm a; memset(&a, 0, sizeof a); bool wild = r.chance(1, 4); a.tm_year = r.chance(1, 20) ? (int) r.next() : wild ? (int) r.below(4000) - 1900 : 70 + r.below(130); a.tm_mon = wild ? (int) r.below(60) - 30 : r.below(12); a.tm_mday = wild ? (int) r.below(800) - 400 : 1 + r.below(31); a.tm_hour = wild ? (int) r.below(100) - 50 : r.below(24); a.tm_min = wild ? (int) r.below(500) - 250 : r.below(60); a.tm_sec = wild ? (int) r.below(100000) - 50000 : r.below(60); a.tm_isdst = (int) r.below(3) - 1;
    struct tm b = a, l0, l1; time_t probe = 1000000000 + r.below(800000000); localtime_r(&probe, &l0); h::tr("timegm of %d-%d-%d %d:%d:%d dst %d under TZ=%s", a.tm_year, a.tm_mon, a.tm_mday, a.tm_hour, a.tm_min, a.tm_sec, a.tm_isdst, Z[z] ? ztext.c_str() : "(unset)"); time_t y = timegm(&b), x = r_timegm(&a); clobber(r.below(99)); h::sig(z); h::sig(wild); h::sig(a.tm_isdst + 3); h::sig(x & 1023);
    CHECK(x == y, "timegm", "gives %lld, expected %lld", (long long) x, (long long) y); if (y != -1) CHECK(a.tm_year == b.tm_year && a.tm_mon == b.tm_mon && a.tm_mday == b.tm_mday && a.tm_hour == b.tm_hour && a.tm_min == b.tm_min && a.tm_sec == b.tm_sec && a.tm_wday == b.tm_wday && a.tm_yday == b.tm_yday, "timegm-fields", "the broken-down time is normalised to another one");
    const char *e = getenv("TZ"); CHECK((e != nullptr) == (Z[z] != nullptr) && (!e || ztext == e), "timegm-zone", "TZ was %s, it is now %s", Z[z] ? ztext.c_str() : "unset", e ? h::esc(e).c_str() : "unset"); localtime_r(&probe, &l1); CHECK(l0.tm_hour == l1.tm_hour && l0.tm_min == l1.tm_min && l0.tm_mday == l1.tm_mday, "timegm-zone", "local time has changed"); h::cov("times"); setenv("TZ", "UTC", 1); tzset(); }

static void temps (Rng &r, u64 n)
{   Str dir = h::scratch() + h::fmt("/t%llu", (unsigned long long) n); mkdir(dir.c_str(), 0755); unsigned nx = r.below(8), cnt = nx == 1 ? 64 : 2 + r.below(5); Str suf = text(r, "X.ab", 4), pre = text(r, "abX_", 5); std::set<Str> made; h::tr("mkstemps %s + %u X + %s, %u times", pre.c_str(), nx, suf.c_str(), cnt); h::sig(nx); h::sig(suf); Str keep = dir + "/keep"; h::put_file(keep, "precious");
    size_t px = pre.size(), run = 0; Str full = pre + Str(nx, 'X'); while (run < full.size() && full[full.size() - 1 - run] == 'X') ++run; if (full.empty()) { full = "q"; run = 0; }
    for (unsigned i = 0; i < cnt; ++i) { Str t = dir + "/" + full + suf; char *p = dup_exact(t); errno = 0; int fd = r_mkstemps(p, suf.size()); Str got = p; free(p);
        if (fd >= 0) { CHECK(got.size() == t.size() && !got.compare(0, t.size() - suf.size() - run, t, 0, t.size() - suf.size() - run) && !got.compare(got.size() - suf.size(), Str::npos, suf), "mkstemps-name", "template %s gives %s", t.c_str(), got.c_str()); CHECK(made.insert(got).second, "mkstemps-fresh", "%s is given twice", got.c_str()); struct stat sb, sc; CHECK(!fstat(fd, &sb) && !stat(got.c_str(), &sc) && sb.st_ino == sc.st_ino && S_ISREG(sb.st_mode) && !sb.st_size && (sb.st_mode & 0777) == 0600, "mkstemps-file", "%s is not a new private file", got.c_str()); CHECK((fcntl(fd, F_GETFL) & O_ACCMODE) == O_RDWR, "mkstemps-file", "not open for both reading and writing"); CHECK(write(fd, "x", 1) == 1, "mkstemps-file", "cannot write"); close(fd); h::cov("temporary-files"); }
        else { h::cov("temporary-refused"); double space = 1; for (size_t k = 0; k < run; ++k) space *= 62; CHECK(made.size() >= (run ? 1 : made.size()) && run < 4, "mkstemps-refused", "refused after %zu of %g names", made.size(), space); } }
    Str k; CHECK(h::get_file(keep, k) && k == "precious", "mkstemps-other", "another file was changed"); for (auto &m : made) unlink(m.c_str());
    { Str t = dir + "/none/aXXXXXX"; char *p = dup_exact(t); CHECK(r_mkstemps(p, 0) == -1, "mkstemps-nodir", "made in a directory that does not exist"); free(p); Str u = keep + "/aXXXXXX"; p = dup_exact(u); CHECK(r_mkstemps(p, 0) == -1 && errno == ENOTDIR, "mkstemps-nodir", "made inside a file"); free(p); }
    unlink(keep.c_str()); CHECK(rmdir(dir.c_str()) == 0, "mkstemps-litter", "files are left in the directory"); (void) px; }

struct Rep { pid_t pid, sid, me; int rc, err; char cwd[256]; int null[3]; int nfd; };
static void daemons (Rng &r)
{   bool nochdir = r.chance(1, 2), noclose = r.chance(1, 2); int fault = r.chance(1, 5) ? 1 : r.chance(1, 6) ? 2 : 0, closed = r.chance(1, 3) ? 1 + r.below(7) : 0; if (noclose) closed = 0; int pp[2], st; CHECK(!pipe(pp), "setup", "pipe"); Str wd = h::scratch(); h::tr("daemon(%d, %d) fault %d closed %d", nochdir, noclose, fault, closed); h::sig(nochdir * 2 + noclose); h::sig(fault * 8 + closed); fflush(nullptr);
    pid_t c = fork();
    if (c == 0) { alarm(20); int w = fcntl(pp[1], F_DUPFD, 40); close(pp[0]); close(pp[1]); if (chdir(wd.c_str())) _exit(9); Rep R; memset(&R, 0, sizeof R); R.me = getpid(); for (int i = 0; i < 3; ++i) if (closed & 1 << i) close(i); fork_fails = fault == 1; setsid_fails = fault == 2; int before = 0, after = 0; for (int i = 3; i < 60; ++i) before += fcntl(i, F_GETFD) != -1;
        R.rc = r_daemon(nochdir, noclose); R.err = errno; R.pid = getpid(); R.sid = getsid(0); if (!getcwd(R.cwd, sizeof R.cwd)) strcpy(R.cwd, "?"); for (int i = 0; i < 3; ++i) { struct stat sb; R.null[i] = fstat(i, &sb) ? -1 : S_ISCHR(sb.st_mode) && sb.st_rdev == makedev(1, 3); } for (int i = 3; i < 60; ++i) after += fcntl(i, F_GETFD) != -1; R.nfd = after - before; if (write(w, &R, sizeof R)) {} _exit(0); }
    close(pp[1]); Rep R; ssize_t k = read(pp[0], &R, sizeof R); while (waitpid(c, &st, 0) == -1 && errno == EINTR); close(pp[0]);
    CHECK(k == (ssize_t) sizeof R, "daemon", "the daemon did not survive"); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "daemon-parent", "the parent ended with status %x", st); h::cov("daemons");
    if (fault == 1) { CHECK(R.rc == -1 && R.pid == c, "daemon-fork", "fork fails, daemon returns %d", R.rc); return; }
    CHECK(R.pid != c, "daemon-fork", "it still is the first process"); if (fault == 2) { CHECK(R.rc == -1, "daemon-setsid", "setsid fails, daemon returns %d", R.rc); return; }
    CHECK(R.rc == 0 && R.sid == R.pid, "daemon-session", "returns %d, session %d of process %d", R.rc, (int) R.sid, (int) R.pid); char real[4096]; CHECK(realpath(wd.c_str(), real) && Str(R.cwd) == (nochdir ? real : "/"), "daemon-cwd", "it runs in %s", R.cwd); 
    if (!noclose) { for (int i = 0; i < 3; ++i) CHECK(R.null[i] == 1, "daemon-stdio", "descriptor %d is not /dev/null (%d)", i, R.null[i]); } CHECK(R.nfd == 0, "daemon-fds", "%d more descriptors than before", R.nfd); }

static void vs (const char *f, ...) { va_list ap; va_start(ap, f); r_vsyslog(LOG_USER | LOG_INFO, f, ap); va_end(ap); }
static void logs (Rng &r)
{   Str s = text(r, "ab%n%s", 40); if (r.chance(1, 3)) s += Str(900 + r.below(400), 'L'); int v = (int) r.next(); sl_n = 0; vs("%s:%d", s.c_str(), v); Str want = s + h::fmt(":%d", v); bool cut = want.size() > 1023; h::sig(h::szclass(want.size())); h::sig(s.substr(0, 30)); h::cov(cut ? "messages-cut" : "messages");
    CHECK(sl_n == 1 && sl_pri == (LOG_USER | LOG_INFO), "vsyslog", "%d messages, priority %d", sl_n, sl_pri); CHECK(cut ? sl_msg.size() >= 1000 && !want.compare(0, sl_msg.size(), sl_msg) : sl_msg == want, "vsyslog-text", "message '%s' arrives as '%s'", h::esc(want).c_str(), h::esc(sl_msg).c_str()); }

void run_case (Rng &r, u64 n)
{   unsigned k = n % 40; h::sig(k < 10 ? 0 : k < 14 ? 1 : k < 30 ? 2 : k < 36 ? 3 : 9 + k);
    if (k < 10) for (int i = 0; i < 4; ++i) tokens(r); else if (k < 14) for (int i = 0; i < 10; ++i) bounded(r); else if (k < 30) for (int i = 0; i < 10; ++i) match(r); else if (k < 36) for (int i = 0; i < 4; ++i) gmt(r); else if (k == 36) temps(r, n); else if (k < 39) for (int i = 0; i < 3; ++i) logs(r); else daemons(r); }

static void p_fn () { static const struct { const char *p, *s; int f, want; } T[] = {{"*.c", "a.c", 0, 1}, {"[]a]", "]", 0, 1}, {"[!]a]", "b", 0, 1}, {"*/b", "a/b", F_PATH, 1}, {"*b", "a/b", F_PATH, 0}, {"*", ".a", F_PERIOD, 0}, {"?a", ".a", F_PERIOD, 0}, {"[.]a", ".a", F_PERIOD, 0}, {".a", ".a", F_PERIOD, 1}, {"*a/?b", "xa/.b", F_PATH | F_PERIOD, 0}, {"\xc3\xa9", "\xc3\xa9", 0, 1}, {"[\xe0-\xef]", "\xe9", 0, 1}, {"A*", "abc", F_CASE, 1}, {"a", "a/b", F_DIR, 1}, {"\\*", "*", 0, 1}, {"\\*", "\\x", F_NOESC, 1}, {"", "", 0, 1}, {"", "a", 0, 0}};
    for (auto &t : T) { int fl = 0; for (int b = 0; b < 5; ++b) if (t.f & 1 << b) fl |= r_fnm[b]; int rc = r_fnmatch(t.p, t.s, fl); CHECK((rc == 0) == (t.want != 0), "fnmatch", "pattern '%s' on '%s' flags %d gives %d", h::esc(t.p).c_str(), h::esc(t.s).c_str(), t.f, rc); } }
static void p_tz () { setenv("TZ", "EST5EDT", 1); tzset(); struct tm t; memset(&t, 0, sizeof t); t.tm_year = 100; t.tm_mday = 1; CHECK(r_timegm(&t) == 946684800, "timegm", "year 2000"); CHECK(Str(getenv("TZ")) == "EST5EDT", "timegm-zone", "TZ is lost"); unsetenv("TZ"); r_timegm(&t); CHECK(!getenv("TZ"), "timegm-zone", "TZ appears"); setenv("TZ", "UTC", 1); tzset(); }
const Probe PROBES[] = {{"fnmatch-table", p_fn}, {"timezone-restored", p_tz}, {nullptr, nullptr}};
