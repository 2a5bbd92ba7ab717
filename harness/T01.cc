#include "h.h"
#include <atomic>
#include <numeric>
#include <time.h>
#include <sys/utsname.h>
/* the unit-test runner over random dependency graphs: every start and end of a case recorded in shared memory, every fork and wait of the runner counted, every report read back */
enum { MAXC = 64, CHUNK = 32 };
enum Beh { B_OK, B_FAIL, B_KILL, B_SEGV, B_USR1, B_ALRM, B_EXIT1, B_R5, B_RM1, B_R256, B_RMIN, B_R2, B_R3, B_STOP, B_BURN, B_N };
struct Shm { std::atomic<int> n; struct { short c; char k; } ev[4096]; std::atomic<int> intr; long cpu[MAXC]; pid_t pid[MAXC]; };
static Shm *sh; static Beh beh[MAXC]; static int nap[MAXC]; static int intr_case = -1, intr_sig; static pid_t runner;
static int outstanding, most, forks, fork_fail_at, forks_failed, eintr_num, waits_broken, bad_kill; static std::set<pid_t> kids; static std::map<pid_t, struct rusage> used; static bool counting;
static int time_calls, time_intr_at; static u64 leap; static long skew, extra; static std::vector<time_t> told; /* clocks that leap, CPU times beyond an hour */
static void log_ev (int c, char k) { int i = sh->n++; if (i < 4096) { sh->ev[i].c = c; sh->ev[i].k = k; } }
static int body (int c)
{
    log_ev(c, 'S'); sh->pid[c] = getpid(); if (nap[c]) usleep(nap[c]); if (c == intr_case) { kill(runner, intr_sig); sh->intr++; usleep(2000); }
    if (beh[c] == B_BURN) { struct timespec a, b; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a); do clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b); while ((b.tv_sec - a.tv_sec) * 1000000L + (b.tv_nsec - a.tv_nsec) / 1000 < 25000); }
    log_ev(c, 'E'); if (getpid() != runner) { struct rusage u; getrusage(RUSAGE_SELF, &u); sh->cpu[c] = u.ru_utime.tv_sec * 1000000L + u.ru_utime.tv_usec + u.ru_stime.tv_sec * 1000000L + u.ru_stime.tv_usec; }
    switch (beh[c]) { case B_OK: return U_TEST_SUCCESS; case B_FAIL: return U_TEST_FAILURE; case B_KILL: kill(getpid(), SIGKILL); break; case B_SEGV: signal(SIGSEGV, SIG_DFL); raise(SIGSEGV); break; case B_USR1: raise(SIGUSR1); break; case B_ALRM: signal(SIGALRM, SIG_DFL); raise(SIGALRM); break; case B_EXIT1: _exit(1); case B_R5: return 5; case B_RM1: return -1; case B_R256: return 256; case B_RMIN: return INT_MIN; case B_R2: return U_TEST_ABORTED; case B_R3: return U_TEST_SKIPPED;
        case B_STOP: { pid_t me = getpid(), g = fork(); if (g == 0) { for (int i = 0; i < 20000 && getppid() == me; ++i) { usleep(500); kill(me, SIGCONT); } _exit(0); } raise(SIGSTOP); if (g > 0) { kill(g, SIGKILL); waitpid(g, nullptr, 0); } return U_TEST_SUCCESS; } default: break; }
    return U_TEST_SUCCESS;
}
template <int N> struct F { static int f (u_test_case_t *) { return body(N); } };
static u_test_f FN[MAXC]; template <int N> struct Fill { static void go () { FN[N] = F<N>::f; Fill<N - 1>::go(); } }; template <> struct Fill<-1> { static void go () {} };
extern "C" {
pid_t __real_fork (); pid_t __real_waitpid (pid_t, int *, int); pid_t __real_wait4 (pid_t, int *, int, struct rusage *); int __real_kill (pid_t, int); time_t __real_time (time_t *);
pid_t __wrap_fork () { if (!counting || getpid() != runner) return __real_fork(); if (++forks == fork_fail_at) { ++forks_failed; errno = EAGAIN; return -1; } pid_t p = __real_fork(); if (p > 0) { kids.insert(p); if (++outstanding > most) most = outstanding; } return p; }
static pid_t any_wait (pid_t w, int *st, int op, struct rusage *ru) { bool mine = counting && getpid() == runner; if (mine && eintr_num > 0 && !(op & WNOHANG)) { --eintr_num; ++waits_broken; errno = EINTR; return -1; } struct rusage mru; pid_t p = __real_wait4(w, st, op, &mru); if (p > 0 && ru) { *ru = mru; if (mine) ru->ru_utime.tv_sec += extra; } if (mine && p > 0) used[p] = mru; if (mine && p > 0 && kids.count(p) && (!st || WIFEXITED(*st) || WIFSIGNALED(*st))) { kids.erase(p); --outstanding; } return p; }
pid_t __wrap_wait3 (int *st, int op, struct rusage *ru) { return any_wait(-1, st, op, ru); }
pid_t __wrap_wait4 (pid_t w, int *st, int op, struct rusage *ru) { return any_wait(w, st, op, ru); }
pid_t __wrap_waitpid (pid_t w, int *st, int op) { return any_wait(w, st, op, nullptr); }
pid_t __wrap_wait (int *st) { return any_wait(-1, st, 0, nullptr); }
/* the runner may only kill its own cases: anything else is recorded and goes nowhere */
int __wrap_kill (pid_t p, int s) { if (counting && getpid() == runner && p != runner && !kids.count(p)) { ++bad_kill; errno = ESRCH; return -1; } return __real_kill(p, s); }
time_t __wrap_time (time_t *t) { if (counting && getpid() == runner && ++time_calls == time_intr_at) raise(SIGINT); if (!counting || getpid() != runner) return __real_time(t); if (leap) { leap = leap * 6364136223846793005ULL + 1; if ((leap >> 33) % 3 == 0) skew += (long) ((leap >> 40) % ((leap >> 60) % 4 == 0 ? 20000 : 90)); } time_t v = __real_time(nullptr) + skew; told.push_back(v); if (t) *t = v; return v; }
}
struct Case { Str id; int fn; std::vector<int> deps; bool unknown = false; u_test_case_t *h = nullptr; };
struct Suite { Str id; std::vector<Case> c; std::vector<int> deps; bool unknown = false; u_test_suite_t *h = nullptr; };
struct RC { Str first, second, sys, user, elapsed; };
struct Rep { Str id, status, begin, end, elapsed, host; std::vector<RC> cases; long total = -1, pass = -1, fail = -1, abrt = -1, skip = -1; };
static Str ident (Rng &r, int k) { Str s = h::fmt("%d", k) + r.text(r.chance(1, 12) ? 100 + r.below(25) : r.below(14), "abcXYZ_-. ()[]'"); while (s.back() == ' ') s.pop_back(); return s; }
/* both report formats, by line */
static bool parse (const Str &txt, bool xml, std::vector<Rep> &rs, Rep &tot)
{
    size_t at = 0; Rep *cur = nullptr; bool incase = false, ended = false;
    while (at < txt.size()) { size_t e = txt.find('\n', at); if (e == Str::npos) e = txt.size(); Str l = txt.substr(at, e - at); at = e + 1; char w[40]; long v; int k = 0;
        { /* the times */ struct { const char *x, *t; int k; } TM[] = {{"<begin>", "begin: ", 0}, {"<end>", "end: ", 1}, {"<elapsed>", "elapsed:", 2}, {"<sys_time>", "sys time: ", 3}, {"<user_time>", "user time: ", 4}, {"<host>", "\1", 5}}; for (auto &q : TM) { size_t a = l.find_first_not_of(" \t"); const char *pf = xml ? q.x : q.t; if (a == Str::npos || l.compare(a, strlen(pf), pf)) continue; Str v = l.substr(a + strlen(pf)); if (xml) { size_t z = v.find("</"); if (z == Str::npos) return false; v.resize(z); } while (!v.empty() && v[0] == ' ') v.erase(0, 1); bool ic = xml ? incase : l.compare(0, 4, "\t\t  ") == 0 && l[2] == ' '; if (q.k == 5) { tot.host = v; continue; } if (!cur) return false; if (ic && cur->cases.empty()) return false; Str &o = q.k == 0 ? cur->begin : q.k == 1 ? cur->end : q.k == 2 ? (ic ? cur->cases.back().elapsed : cur->elapsed) : q.k == 3 ? cur->cases.back().sys : cur->cases.back().user; if (!o.empty()) return false; o = v; } if (!xml && tot.host.empty() && at == e + 1 && cur == nullptr && !l.empty() && l.back() == ')') { size_t a = l.rfind(" ("); if (a != Str::npos) tot.host = l.substr(a + 2, l.size() - a - 3); } }
        if (xml) { auto tag = [&] (const char *p, Str &o) { size_t a = l.find(p); if (a == Str::npos) return false; a += strlen(p); size_t z = l.rfind("\">"); if (z == Str::npos || z < a) return false; o = l.substr(a, z - a); return true; }; Str id;
            if (tag("<test_suite id=\"", id)) { rs.push_back({}); cur = &rs.back(); cur->id = id; } else if (l.find("</test_suite>") != Str::npos) cur = nullptr; else if (tag("<test_case id=\"", id)) { if (!cur) return false; cur->cases.push_back({id, "", "", "", ""}); incase = true; } else if (l.find("</test_case>") != Str::npos) incase = false; else if (l == "</test>") ended = true;
            else { size_t a = l.find("<status>"); if (a != Str::npos) { Str s = l.substr(a + 8, l.find('<', a + 1) - a - 8); if (!cur) return false; if (incase) cur->cases.back().second = s; else cur->status = s; } else { a = l.find('<'); if (a != Str::npos && sscanf(l.c_str() + a, "<%30[a-z]>%ld<%n", w, &v, &k) == 2 && k) { Rep &t = cur ? *cur : tot; Str n = w; if (n == "total") t.total = v; if (n == "passed") t.pass = v; if (n == "failed") t.fail = v; if (n == "aborted") t.abrt = v; if (n == "skipped") t.skip = v; } } } }
        else { if (l.compare(0, 3, "\t* ") == 0) { size_t z = l.find("] "); if (z == Str::npos) return false; rs.push_back({}); cur = &rs.back(); cur->status = l.substr(4, z - 4); cur->id = l.substr(z + 2); } else if (l.compare(0, 4, "\t\t* ") == 0) { size_t z = l.find("] "); if (z == Str::npos || !cur) return false; cur->cases.push_back({l.substr(z + 2), l.substr(5, z - 5), "", "", ""}); }
            else { size_t a = l.find_first_not_of(" \t"); if (a != Str::npos && (l[0] != '\t' || l[1] != '\t')) { bool inner = l[0] == '\t'; if (inner && !cur) return false; Rep &t = inner ? *cur : tot; const char *q = l.c_str() + a; if (sscanf(q, "Number of test cases: %ld", &v) == 1 && inner) t.total = v; else if (sscanf(q, "Number of test suites: %ld", &v) == 1 && !inner) t.total = v; else if (sscanf(q, "Passed: %ld", &v) == 1) t.pass = v; else if (sscanf(q, "Failed: %ld", &v) == 1) t.fail = v; else if (sscanf(q, "Aborted: %ld", &v) == 1) t.abrt = v; else if (sscanf(q, "Skipped: %ld", &v) == 1) { t.skip = v; if (!inner) ended = true; } } } } }
    return ended;
}
/* every element of an XML report is closed in its own place */
static Str misnested (const Str &txt, const Str &name)
{
    std::vector<Str> st; size_t at = 0; int roots = 0; Str root; if (txt.compare(0, 5, "<?xml")) return "it does not begin as XML";
    while (at < txt.size()) { size_t e = txt.find('\n', at); if (e == Str::npos) e = txt.size(); Str l = txt.substr(at, e - at); at = e + 1; size_t a = l.find_first_not_of(" \t"); if (a == Str::npos) continue; l.erase(0, a); if (l[0] != '<') return "stray text: " + l; if (l[1] == '?') continue;
        if (l[1] == '/') { Str n = l.substr(2, l.find('>') - 2); if (st.empty() || st.back() != n) return "the end of " + n + " comes out of place"; st.pop_back(); continue; }
        Str n = l.substr(1, l.find_first_of(" >") - 1); if (st.empty()) { if (roots++) return "a second root: " + n; root = l; } Str z = "</" + n + ">"; if (l.size() > z.size() && l.compare(l.size() - z.size(), z.size(), z) == 0) continue; st.push_back(n); }
    if (!st.empty()) return st.back() + " is not closed"; if (roots != 1 || root.compare(0, 5, "<test") || root.find(name) == Str::npos) return "the root is " + root; return "";
}
/* custom report functions: brackets and one call per case */
static std::vector<std::pair<char, void *>> calls; static int c_t (FILE *f, u_test_t *t, u_test_rep_tag_t g) { calls.push_back({g == U_TEST_REP_HEAD ? 'T' : 't', t}); fprintf(f, "x"); return 0; } static int c_s (FILE *, u_test_suite_t *s, u_test_rep_tag_t g) { calls.push_back({g == U_TEST_REP_HEAD ? 'S' : 's', s}); return 0; } static int c_c (FILE *, u_test_case_t *c) { calls.push_back({'c', c}); return 0; }
void run_case (Rng &r, u64 n)
{
    if (!sh) { sh = (Shm *) mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); Fill<MAXC - 1>::go(); struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); }
    unsigned mode = r.below(20); /* 0 cycle, 1 unknown, 2 fork failure, 3 broken waits, 4 interrupt, 5 timed interrupt, 6 custom reports, 7 wide */ bool serial = r.chance(1, 6); if (mode == 2) serial = false; bool wide = mode == 7 && r.chance(1, 3) && !h::memcheck; unsigned par = wide ? 32 : 1 + r.below(4); if (!wide && r.chance(1, 15)) par = 0; bool xml = r.chance(1, 2);
    std::vector<Suite> s; unsigned ns = wide ? 1 + r.below(2) : r.chance(1, 12) ? 0 : 1 + r.below(4); int fn = 0, id = 0; unsigned edges = r.below(4); bool allok = r.chance(1, 5);
    for (unsigned i = 0; i < ns; ++i) { s.push_back({}); s[i].id = ident(r, id++); unsigned nc = wide ? (i ? 3 : 33 + r.below(8)) : r.chance(1, 10) ? 0 : 1 + r.below(7); for (unsigned j = 0; j < nc && fn < MAXC; ++j) { Case c; c.id = ident(r, id++); c.fn = fn++; s[i].c.push_back(c); } }
    for (int i = 0; i < fn; ++i) { beh[i] = allok || r.chance(3, 5) ? B_OK : (Beh) r.below(B_N); if ((beh[i] == B_STOP || beh[i] == B_BURN) && (h::memcheck || r.chance(3, 4))) beh[i] = B_OK; if (serial && ((beh[i] >= B_KILL && beh[i] <= B_EXIT1) || beh[i] == B_STOP)) beh[i] = B_FAIL; nap[i] = r.chance(1, 6) ? (int) r.below(1500) : 0; }
    /* dependencies follow a hidden order, so that the graph is acyclic; order of registration is another */
    auto order = [&] (size_t k) { std::vector<int> o(k); for (size_t i = 0; i < k; ++i) o[i] = i; for (size_t i = k; i > 1; --i) std::swap(o[i - 1], o[r.below(i)]); return o; };
    auto connect = [&] (size_t k, auto &&get) { auto o = order(k); for (size_t i = 1; i < k; ++i) for (unsigned e = r.below(edges + 1); e-- > 0;) { int d = o[r.chance(1, 2) ? i - 1 : r.below(i)]; get(o[i]).push_back(d); } };
    connect(s.size(), [&] (int i) -> std::vector<int> & { return s[i].deps; }); for (auto &x : s) if (!wide || r.chance(1, 2)) connect(x.c.size(), [&] (int i) -> std::vector<int> & { return x.c[i].deps; });
    bool refuse = false;
    if (mode == 0 && !s.empty()) { /* close a cycle of some length */ auto cyc = [&] (size_t k, auto &&get) { auto o = order(k); size_t len = 1 + r.below(std::min<size_t>(k, 4)); for (size_t i = 0; i < len; ++i) get(o[i]).push_back(o[(i + 1) % len]); refuse = true; }; Suite &x = s[r.below(s.size())]; if (r.chance(1, 2) || x.c.empty()) cyc(s.size(), [&] (int i) -> std::vector<int> & { return s[i].deps; }); else cyc(x.c.size(), [&] (int i) -> std::vector<int> & { return x.c[i].deps; }); }
    if (mode == 1 && !s.empty()) { Suite &x = s[r.below(s.size())]; if (r.chance(1, 3) || x.c.empty()) x.unknown = true; else x.c[r.below(x.c.size())].unknown = true; refuse = true; }
    /* build */
    u_test_t *t = nullptr; Str name = "T" + r.text(r.below(100), "abc "); CHECK(u_test_new(name.c_str(), &t) == 0 && t, "new", "a test is not created");
    for (int i : order(s.size())) { Suite &x = s[i]; CHECK(u_test_suite_new(x.id.c_str(), &x.h) == 0, "new", "a suite is not created"); bool early = r.chance(1, 2); if (early) CHECK(u_test_suite_add(x.h, t) == 0, "add", "a suite is not added");
        if (r.chance(1, 10)) { u_test_suite_t *no = nullptr; u_test_case_t *nc = nullptr; Str lng(128 + r.below(20), 'x'); CHECK(u_test_suite_new(lng.c_str(), &no) != 0 && u_test_case_new(lng.c_str(), FN[0], &nc) != 0 && u_test_case_register(lng.c_str(), FN[0], x.h) != 0 && u_test_case_depends_on("nobody", "no", x.h) != 0 && u_test_suite_dep_register(lng.c_str(), x.h) != 0, "long-id", "an identifier of %zu characters is accepted", lng.size()); }
        for (int j : order(x.c.size())) { Case &c = x.c[j]; if (r.chance(1, 2)) { CHECK(u_test_case_new(c.id.c_str(), FN[c.fn], &c.h) == 0, "new", "a case is not created"); if (r.chance(1, 2)) for (int d : c.deps) { CHECK(u_test_case_dep_register(x.c[d].id.c_str(), c.h) == 0, "dep", "a dependency is refused"); } CHECK(u_test_case_add(c.h, x.h) == 0, "add", "a case is not added"); } else CHECK(u_test_case_register(c.id.c_str(), FN[c.fn], x.h) == 0, "register", "a case is not registered"); }
        for (int j : order(x.c.size())) { Case &c = x.c[j]; for (int d : c.deps) { bool a = c.h && r.chance(1, 2); int rep = r.chance(1, 6) ? 2 : 1; while (rep-- > 0) CHECK((a ? u_test_case_dep_register(x.c[d].id.c_str(), c.h) : u_test_case_depends_on(c.id.c_str(), x.c[d].id.c_str(), x.h)) == 0, "dep", "a dependency is refused"); } if (c.unknown) CHECK(u_test_case_depends_on(c.id.c_str(), "nobody", x.h) == 0, "dep", "a dependency is refused"); }
        if (!early) CHECK(u_test_suite_add(x.h, t) == 0, "add", "a suite is not added"); }
    for (int i : order(s.size())) { Suite &x = s[i]; for (int d : x.deps) { bool a = r.chance(1, 2); int rep = r.chance(1, 6) ? 2 : 1; while (rep-- > 0) CHECK((a ? u_test_suite_dep_register(s[d].id.c_str(), x.h) : u_test_suite_depends_on(x.id.c_str(), s[d].id.c_str(), t)) == 0, "dep", "a dependency is refused"); } if (x.unknown) CHECK(u_test_suite_dep_register("nobody", x.h) == 0, "dep", "a dependency is refused"); }
    if (h::trace_on) { for (auto &x : s) { h::tr("suite %s%s:", h::esc(x.id, 20).c_str(), x.unknown ? " (needs nobody)" : ""); for (int d : x.deps) h::tr("needs %s", h::esc(s[d].id, 20).c_str()); for (auto &c : x.c) { h::tr("case %s does %d%s", h::esc(c.id, 20).c_str(), beh[c.fn], c.unknown ? " (needs nobody)" : ""); for (int d : c.deps) h::tr("needs %s", h::esc(x.c[d].id, 20).c_str()); } } h::tr("%s, %u at a time, mode %u", serial ? "serial" : "sandboxed", par, mode); }
    /* run */
    static const char *TZS[] = {"UTC", "UTC", "XYZ-5:30", "ABC+3:45", "CET-1CEST,M3.5.0,M10.5.0/3", "QQQ-12:59:30"}; const char *zone = TZS[r.below(6)]; setenv("TZ", zone, 1); tzset(); memset(sh->cpu, 0, sizeof sh->cpu); bool onout = r.chance(1, 6) && mode != 4 && mode != 5;
    Str rep = h::scratch() + "/report"; unlink(rep.c_str()); Str repname = onout ? "-" : rep; std::vector<Str> a = {"runtest"}; bool byset = r.chance(1, 3); if (byset) CHECK(u_test_set_outfn(t, repname.c_str()) == 0, "outfn", "an output name is refused"); else { a.push_back("-o"); a.push_back(repname); } if (!(wide && r.chance(1, 2))) { a.push_back("-p"); a.push_back(std::to_string(par)); } if (serial) a.push_back("-s"); bool custom = mode == 6; if (!custom) { if (xml) { a.push_back("-f"); a.push_back(r.chance(1, 3) ? "XML" : "xml"); } else if (r.chance(1, 2)) { a.push_back("-f"); a.push_back("txt"); } } else { calls.clear(); u_test_set_u_test_rep(t, c_t); u_test_set_u_test_suite_rep(t, c_s); u_test_set_u_test_case_rep(t, c_c); }
    std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(nullptr); optind = 0;
    sh->n = 0; used.clear(); memset(sh->pid, 0, sizeof sh->pid); sh->intr = 0; intr_case = -1; outstanding = most = forks = fork_fail_at = forks_failed = eintr_num = waits_broken = bad_kill = time_calls = time_intr_at = 0; skew = 0; told.clear(); leap = r.chance(1, 3) ? r.next() | 1 : 0; extra = r.chance(1, 8) ? r.below(9000) : 0; kids.clear(); bool interrupt = (mode == 4 || mode == 5) && fn > 0; static const int sg[] = {SIGINT, SIGTERM, SIGQUIT}; intr_sig = sg[r.below(3)];
    if (mode == 2) fork_fail_at = 1 + r.below(fn + 1); if (mode == 3) eintr_num = 1 + r.below(6); if (interrupt && mode == 4) intr_case = r.below(fn); if (interrupt && mode == 5) time_intr_at = 1 + r.below(2 * (fn + s.size()) + 1);
    fflush(stdout); pid_t stray = r.chance(1, 8) ? __real_fork() : 1; if (stray == 0) _exit(0); int rc; bool died = false;
    time_t wall0 = 0, wall1 = 0; struct timespec mono0, mono1; pid_t me_ = getpid(); h::tr("zone %s%s", zone, onout ? ", report on the standard output" : "");
    auto go = [&] { int o = dup(1), e = dup(2), z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2); close(z); runner = getpid(); counting = true; int of = -1; if (onout) { of = open(rep.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(of, 1); close(of); } __real_time(&wall0); clock_gettime(CLOCK_MONOTONIC, &mono0); int q = u_test_run((int) a.size(), av.data(), t); clock_gettime(CLOCK_MONOTONIC, &mono1); __real_time(&wall1); counting = false; if (onout && getpid() == me_) { CHECK(fcntl(1, F_GETFD) != -1 && printf("still here") == 10 && fflush(stdout) == 0, "stdout-closed", "the standard output is unusable after a report on it"); if (ftruncate(1, lseek(1, 0, SEEK_END) - 10)) {} } fflush(stdout); fflush(stderr); dup2(o, 1); dup2(e, 2); close(o); close(e); return q; };
    if (interrupt) { pid_t c = __real_fork(); if (c == 0) { int q = go(); _exit(bad_kill ? 9 : q == 0 ? 0 : 3); } int st; while (__real_waitpid(c, &st, 0) == -1) {} died = true; rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128; CHECK(rc != 9, "foreign-kill", "the runner kills processes that are not its cases"); }
    else { rc = go(); signal(SIGINT, SIG_DFL); signal(SIGTERM, SIG_DFL); signal(SIGQUIT, SIG_DFL); CHECK(!bad_kill, "foreign-kill", "the runner kills processes that are not its cases"); }
    if (stray > 1) __real_waitpid(stray, nullptr, 0);
    /* the recorded trace */
    int ne = std::min<int>(sh->n, 4096); std::vector<int> st(fn, 0), en(fn, 0), sa(fn, -1), ea(fn, -1); for (int i = 0; i < ne; ++i) { int c = sh->ev[i].c; if (sh->ev[i].k == 'S') { st[c]++; sa[c] = i; } else { en[c]++; ea[c] = i; } }
    h::cov("case-starts-seen", std::accumulate(st.begin(), st.end(), 0)); h::cov("forks-seen", forks);
    for (int i = 0; i < fn; ++i) CHECK(st[i] <= 1, "once", "a case runs %d times", st[i]);
    auto truth = [&] (int f) { return beh[f] == B_OK || beh[f] == B_STOP || beh[f] == B_BURN; };
    if (died) { bool all = true; for (int i = 0; i < fn; ++i) if (!st[i] || !truth(i)) all = false; CHECK(rc != 0 || (all && !refuse), "result", "an interrupted run ends in success though not every case ran and succeeded"); if (intr_case >= 0 && st[intr_case]) CHECK(rc != 0, "result", "an interrupted run ends in success"); h::cov("interrupted-runs"); h::sig(rc); h::sig(mode); h::sig(ne); u_test_free(t); h::mem::expect_balanced("the test was freed"); return; }
    CHECK(outstanding == 0, "reaped", "%d cases are left running or unwaited for", outstanding);
    if (refuse) { CHECK(rc != 0, "refused", "a dependency cycle or an unknown dependency is accepted"); CHECK(ne == 0, "refused-late", "cases run before the dependency graph is refused"); h::cov("graphs-refused"); h::sig(77); h::sig(mode); h::sig(fn); u_test_free(t); h::mem::expect_balanced("the test was freed"); return; }
    if (!serial) CHECK(most <= (int) (wide && std::find(a.begin(), a.end(), "-p") == a.end() ? CHUNK : par ? par : MAXC), "parallel", "%d cases run at the same time, the limit is %u", most, par);
    /* what must have happened */
    std::vector<Str> sst(s.size()); int lost = 0; bool every = true; std::vector<std::vector<Str>> want(s.size()); std::vector<int> done(s.size(), 0);
    std::function<void (int)> suite = [&] (int i) { if (done[i]) return; done[i] = 1; Suite &x = s[i]; bool skip = false; for (int d : x.deps) { suite(d); if (sst[d] != "PASS") skip = true; } want[i].assign(x.c.size(), ""); bool ok = true;
        std::function<void (int)> one = [&] (int j) { if (!want[i][j].empty()) return; Case &c = x.c[j]; bool sk = skip; for (int d : c.deps) { one(d); if (want[i][d] != "PASS") sk = true; }
            if (sk) { CHECK(!st[c.fn], "skip", "a case runs though a dependency did not succeed"); want[i][j] = "SKIP"; } else { if (!st[c.fn]) { ++lost; want[i][j] = "?"; } else { for (int d : c.deps) CHECK(ea[x.c[d].fn] >= 0 && ea[x.c[d].fn] < sa[c.fn], "order", "a case starts before its dependency has ended"); for (int sd : x.deps) for (auto &q : s[sd].c) CHECK(ea[q.fn] >= 0 && ea[q.fn] < sa[c.fn], "order", "a case starts before the suite its own depends on has ended"); switch (beh[c.fn]) { case B_OK: case B_STOP: case B_BURN: want[i][j] = "PASS"; break; case B_KILL: case B_SEGV: case B_USR1: case B_ALRM: want[i][j] = "ABRT"; break; case B_R2: want[i][j] = "ABRT"; break; case B_R3: want[i][j] = "SKIP"; break; default: want[i][j] = "FAIL"; } } } if (want[i][j] != "PASS") ok = every = false; };
        for (size_t j = 0; j < x.c.size(); ++j) one(j); sst[i] = skip ? "SKIP" : ok ? "PASS" : "FAIL"; if (sst[i] != "PASS") every = false; };
    for (size_t i = 0; i < s.size(); ++i) suite(i);
    CHECK(lost <= forks_failed, "not-run", "%d cases never run though nothing prevents it", lost - forks_failed); CHECK((rc == 0) == every, "result", "the overall result is %d though %s", rc, every ? "every case succeeded" : "not every case succeeded");
    Str txt; CHECK(h::get_file(rep, txt), "report", "no report is written");
    if (custom) { std::map<void *, int> seen; void *in = nullptr; CHECK(calls.size() >= 2 && calls[0].first == 'T' && calls.back().first == 't', "report-calls", "the report is not opened and closed"); for (size_t i = 1; i + 1 < calls.size(); ++i) { auto &c = calls[i]; if (c.first == 'S') { CHECK(!in, "report-calls", "suites overlap in the report"); in = c.second; seen[in]++; } else if (c.first == 's') { CHECK(in == c.second, "report-calls", "a suite is not closed in the report"); in = nullptr; } else { CHECK(c.first == 'c' && in, "report-calls", "a case is reported outside its suite"); for (auto &x : s) for (auto &k : x.c) if (k.h == c.second) CHECK(x.h == in, "report-calls", "a case is reported under another suite"); seen[c.second]++; } } size_t tot = s.size(); for (auto &x : s) { tot += x.c.size(); CHECK(seen[x.h] == 1, "report-calls", "a suite is reported %d times", seen[x.h]); for (auto &k : x.c) if (k.h) CHECK(seen[k.h] == 1, "report-calls", "a case is reported %d times", seen[k.h]); } CHECK(seen.size() == tot, "report-calls", "%zu objects in the report instead of %zu", seen.size(), tot); h::cov("custom-reports"); }
    else { std::vector<Rep> rs; Rep tot; CHECK(parse(txt, xml, rs, tot), "report", "the report cannot be read: %s", h::esc(txt).c_str()); if (xml) { Str m = misnested(txt, name); CHECK(m.empty(), "report-xml", "%s: %s", h::esc(m).c_str(), h::esc(txt).c_str()); } CHECK(rs.size() == s.size(), "report", "%zu suites reported instead of %zu", rs.size(), s.size()); long cnt[4] = {0, 0, 0, 0}; auto slot = [] (const Str &q) { return q == "PASS" ? 0 : q == "FAIL" ? 1 : q == "ABRT" ? 2 : q == "SKIP" ? 3 : 4; };
        for (size_t i = 0; i < s.size(); ++i) { const Rep *q = nullptr; for (auto &y : rs) if (y.id == s[i].id) { CHECK(!q, "report", "a suite is reported twice"); q = &y; } CHECK(q, "report", "a suite is not reported"); CHECK(q->status == sst[i], "suite-verdict", "suite %s is reported %s instead of %s", h::esc(q->id, 20).c_str(), q->status.c_str(), sst[i].c_str()); if (slot(q->status) < 4) cnt[slot(q->status)]++; CHECK(q->cases.size() == s[i].c.size(), "report", "%zu cases reported instead of %zu", q->cases.size(), s[i].c.size()); long cc[4] = {0, 0, 0, 0};
            for (size_t j = 0; j < s[i].c.size(); ++j) { const Str *v = nullptr; for (auto &k : q->cases) if (k.first == s[i].c[j].id) { CHECK(!v, "report", "a case is reported twice"); v = &k.second; } CHECK(v, "report", "a case is not reported"); if (want[i][j] == "?") CHECK(*v != "PASS", "case-verdict", "a case that did not succeed is reported PASS"); else CHECK(*v == want[i][j], "case-verdict", "case %s is reported %s instead of %s", h::esc(s[i].c[j].id, 20).c_str(), v->c_str(), want[i][j].c_str()); CHECK(slot(*v) < 4, "case-verdict", "a case is reported as %s", v->c_str()); cc[slot(*v)]++; h::cov(("verdicts-" + *v).c_str()); }
            /* when and how long, in whichever zone */
            auto stamp = [&] (time_t t) { char b[80]; struct tm tm; localtime_r(&t, &tm); strftime(b, sizeof b, "%a %Y-%m-%d %H:%M:%S %Z", &tm); return Str(b); }; auto span = [] (long t) { return h::fmt("%02ld:%02ld", t / 60, t % 60); }; auto secs = [] (const Str &t, long &us) { int m, x; long u = 0; int k = 0; if (sscanf(t.c_str(), "%4d:%2d.%n", &m, &x, &k) != 2 || !k || k == (int) t.size()) return false; long unit = 1000000; for (size_t z = k; z < t.size(); ++z) { if (!isdigit((unsigned char) t[z])) return false; unit /= 10; u += (t[z] - '0') * unit; } us = (m * 60L + x) * 1000000 + u; return true; };
            long wall = (mono1.tv_sec - mono0.tv_sec) * 1000000L + (mono1.tv_nsec - mono0.tv_nsec) / 1000; bool pass = q->status == "PASS"; CHECK(q->begin.empty() == !pass && q->end.empty() == !pass && q->elapsed.empty() == !pass, "suite-times", "a suite that is %s is reported with times \"%s\" \"%s\" \"%s\"", q->status.c_str(), q->begin.c_str(), q->end.c_str(), q->elapsed.c_str());
            if (pass) { bool ok = false; for (time_t b = wall0; b <= wall1 && !ok; ++b) for (time_t e = b; e <= wall1 && !ok; ++e) ok = q->begin == stamp(b) && q->end == stamp(e) && q->elapsed == span(e - b); std::vector<time_t> cb, ce; for (time_t v : told) { Str sv = stamp(v); if (sv == q->begin) cb.push_back(v); if (sv == q->end) ce.push_back(v); } for (time_t b : cb) for (time_t e : ce) if (e >= b && q->elapsed == span(e - b)) ok = true; if (leap) h::cov("leaps-of-time"); CHECK(ok, "suite-times", "a suite run between \"%s\" and \"%s\" (zone %s) is reported from \"%s\" to \"%s\", elapsed \"%s\"", stamp(wall0).c_str(), stamp(wall1).c_str(), zone, q->begin.c_str(), q->end.c_str(), q->elapsed.c_str()); h::cov("suite-times"); }
            for (size_t j = 0; j < s[i].c.size(); ++j) for (auto &k : q->cases) if (k.first == s[i].c[j].id) { bool cp = k.second == "PASS"; CHECK(k.sys.empty() == !(cp && !serial) && k.user.empty() == !(cp && !serial) && k.elapsed.empty() == !(cp && serial), "case-times", "a case that is %s is reported with times \"%s\" \"%s\" \"%s\"", k.second.c_str(), k.sys.c_str(), k.user.c_str(), k.elapsed.c_str()); long us = 0, uu = 0; if (cp && !serial) { CHECK(secs(k.sys, us) && secs(k.user, uu), "case-times", "CPU times \"%s\" \"%s\"", k.sys.c_str(), k.user.c_str()); long mine = sh->cpu[s[i].c[j].fn]; auto ku = used.find(sh->pid[s[i].c[j].fn]); if (ku != used.end()) { long a = ku->second.ru_utime.tv_sec * 1000000L + ku->second.ru_utime.tv_usec, b = ku->second.ru_stime.tv_sec * 1000000L + ku->second.ru_stime.tv_usec; CHECK((labs(a - uu) <= 100 || labs(a + extra * 1000000 - uu) <= 100) && labs(b - us) <= 100, "case-times", "a case used %ld us of user and %ld us of system CPU time, %s and %s are reported", a, b, k.user.c_str(), k.sys.c_str()); h::cov("exact-cpu-times"); } CHECK(us + uu + 1000 >= mine && us + uu <= wall + 100000 + extra * 1000000, "case-times", "a case used %ld us of CPU in a run of %ld us, %ld are reported (zone %s)", mine, wall, us + uu, zone); h::cov("cpu-times"); } if (cp && serial) { bool ok = false; for (long d = 0; d <= wall1 - wall0; ++d) ok = ok || k.elapsed == span(d); for (size_t x = 0; x < told.size() && !ok; ++x) for (size_t y = x; y < told.size() && y < x + 4 && !ok; ++y) ok = k.elapsed == span(told[y] - told[x]); CHECK(ok, "case-times", "a case in a run of %ld s is reported elapsed \"%s\"", (long) (wall1 - wall0), k.elapsed.c_str()); h::cov("elapsed-times"); } }
            CHECK(q->total == (long) s[i].c.size() && q->pass == cc[0] && q->fail == cc[1] && q->abrt == cc[2] && q->skip == cc[3], "suite-totals", "the totals of suite %s are %ld = %ld + %ld + %ld + %ld, but %zu = %ld + %ld + %ld + %ld", h::esc(q->id, 20).c_str(), q->total, q->pass, q->fail, q->abrt, q->skip, s[i].c.size(), cc[0], cc[1], cc[2], cc[3]); }
        struct utsname un; uname(&un); CHECK(tot.host == Str(un.nodename) + " - " + un.sysname + " " + un.release + " " + un.machine, "host", "the report names \"%s\" as the host", h::esc(tot.host).c_str());
        CHECK(tot.total == (long) s.size() && tot.pass == cnt[0] && tot.fail == cnt[1] && tot.abrt == cnt[2] && tot.skip == cnt[3], "totals", "the totals are %ld = %ld + %ld + %ld + %ld, but %zu = %ld + %ld + %ld + %ld", tot.total, tot.pass, tot.fail, tot.abrt, tot.skip, s.size(), cnt[0], cnt[1], cnt[2], cnt[3]); }
    if (forks_failed) h::cov("failed-forks"); if (waits_broken) h::cov("interrupted-waits", waits_broken); h::cov("most-parallel", most > 1); h::sig(s.size()); h::sig(fn); h::sig(edges); h::sig(serial ? 0 : par); h::sig(mode); for (auto &x : want) for (auto &y : x) h::sig(y); int last = -1; for (int i = 0; i < ne; ++i) if (sh->ev[i].k == 'S') { h::sig(sh->ev[i].c > last); last = sh->ev[i].c; }
    u_test_free(t); h::mem::expect_balanced("the test was freed");
}
/* waiting is impossible when children are discarded: what became of a case is unknown, so it must not pass when it did not */
static void p_discarded () { static int k; for (k = 0; k < 3; ++k) { Rng r(k); if (!sh) { sh = (Shm *) mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); Fill<MAXC - 1>::go(); } sh->n = 0; beh[0] = B_OK; beh[1] = k ? B_FAIL : B_KILL; beh[2] = B_OK; nap[1] = 3000; u_test_t *t; u_test_suite_t *s; u_test_new("t", &t); u_test_suite_new("s", &s); u_test_suite_add(s, t); u_test_case_register("a", FN[0], s); u_test_case_register("b", FN[1], s); u_test_case_register("c", FN[2], s); if (k == 2) u_test_case_depends_on("c", "b", s); Str rep = h::scratch() + "/r"; Str p2 = "2"; char *av[] = {(char *) "x", (char *) "-o", &rep[0], (char *) "-f", (char *) "xml", (char *) "-p", &p2[0], nullptr}; optind = 0; fflush(stdout); signal(SIGCHLD, SIG_IGN); int o = dup(1), e = dup(2), z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2); int rc = u_test_run(7, av, t); fflush(stdout); dup2(o, 1); dup2(e, 2); close(o); close(e); close(z); signal(SIGCHLD, SIG_DFL); signal(SIGINT, SIG_DFL); signal(SIGTERM, SIG_DFL); CHECK(rc != 0, "discarded-result", "a run with a failed case ends in success"); Str txt; if (h::get_file(rep, txt)) { std::vector<Rep> rs; Rep tot; if (parse(txt, true, rs, tot)) for (auto &x : rs) for (auto &c : x.cases) CHECK(c.first != "b" || c.second != "PASS", "discarded-verdict", "a failed case is reported PASS"); if (rs.size()) for (auto &x : rs) for (auto &c : x.cases) if (c.first == "b") CHECK(c.second != "SKIP", "discarded-verdict", "a case that ran is reported SKIP"); } if (k == 2) for (int i = 0; i < sh->n; ++i) CHECK(sh->ev[i].c != 2, "discarded-skip", "a case runs though its dependency failed"); u_test_free(t); } }
/* what cases and the program print: each line once, under the name of its case, the condition text never taken as a format */
static int pr_err (u_test_case_t *tc) { u_test_err_if(strchr("%s%n", '%') != nullptr); return U_TEST_SUCCESS; err: return U_TEST_FAILURE; }
static int pr_errm (u_test_case_t *tc) { int x = 7; u_test_err_ifm(x % 4 == 3, "x is %d (%s)", x, "100%"); return U_TEST_SUCCESS; err: return U_TEST_FAILURE; }
static int pr_none (u_test_case_t *tc) { u_test_err_if(tc == nullptr); u_test_err_ifm(tc == nullptr, "never"); if (tc) u_test_err_if(tc == nullptr); else return U_TEST_FAILURE; return U_TEST_SUCCESS; err: return U_TEST_FAILURE; }
static int pr_plain (u_test_case_t *tc) { return u_test_case_printf(tc, "%s-%d", "abc", 42) == 6 ? U_TEST_SUCCESS : U_TEST_FAILURE; }
static void p_messages () { for (int mode = 0; mode < 6; ++mode) {
    u_test_t *t; u_test_suite_t *s; u_test_new("t", &t); u_test_suite_new("s", &s); u_test_suite_add(s, t); u_test_case_register("one", pr_err, s); u_test_case_register("t%dwo", pr_errm, s); u_test_case_register("three", pr_none, s); u_test_case_register("four", pr_plain, s);
    Str rep = h::scratch() + "/m", p = mode % 3 == 0 ? "1" : "4"; std::vector<Str> a = {"x", "-o", rep, "-p", p}; if (mode % 2) a.push_back("-s"); std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(nullptr); optind = 0;
    fflush(stdout); int mf = memfd_create("m", 0), save = dup(1); dup2(mf, 1); printf("written before\n"); Str own = h::scratch() + "/own"; FILE *ff = fopen(own.c_str(), "w"); if (!ff) _exit(70); fprintf(ff, "kept in a file\n"); int rc = u_test_run((int) a.size(), av.data(), t); fprintf(ff, "the end\n"); fclose(ff); printf("written after\n"); fflush(stdout); dup2(save, 1); close(save); Str out(lseek(mf, 0, SEEK_END), 0); if (pread(mf, &out[0], out.size(), 0) < 0) _exit(70); close(mf); u_test_free(t);
    CHECK(rc != 0, "result", "cases that failed make a successful run"); { Str f; CHECK(h::get_file(own, f) && f == "kept in a file\nthe end\n", "messages", "the program's own file has got the text \"%s\"", h::esc(f).c_str()); } auto count = [&] (const char *l) { int k = 0; for (size_t i = 0; (i = out.find(l, i)) != Str::npos; i += 3) ++k; return k; };
    for (const char *l : {"{one} strchr(\"%s%n\", '%') != nullptr\n", "{t%dwo} x is 7 (100%)\n", "{four} abc-42\n", "written before\n", "written after\n"}) CHECK(count(l) == 1, "messages", "%s the line \"%s\" appears %d times in \"%s\"", mode % 2 ? "without sandbox," : "in the sandbox,", h::esc(l).c_str(), count(l), h::esc(out).c_str());
    CHECK(!count("{three}") && !count("never"), "messages", "a case that succeeded has a failure message"); Str r; CHECK(h::get_file(rep, r) && r.find("four") != Str::npos, "report", "no report"); h::cov("messages-read", 5); } }
/* chatting or debugging changes nothing but the standard output and error; wrong options run nothing */
static void p_options () { if (!sh) { sh = (Shm *) mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); Fill<MAXC - 1>::go(); }
    static Str LONG = h::scratch(); { Str end = "/r"; while (LONG.size() < 4095 - end.size()) LONG += "/"; LONG += end + "est"; } static const char *V[][3] = {{"-p", "2", 0}, {"-v", 0}, {"-d", 0}, {"-v", "-d", "-s"}, {"-vd", 0}, {"-h", 0}, {"-f", "pdf", 0}, {"-p", "two", 0}, {"-p", "-1", 0}, {"-p", "99999999999", 0}, {"-z", 0}, {"-f", 0}, {"-o", LONG.c_str(), 0}, {"-f", "txtx", 0}, {"-f", "xmlx", 0}, {"-f", "xm", 0}, {"-f", "t", 0}, {"-f", "", 0}, {"-p", "", 0}};
    for (int k = 0; k < 19; ++k) for (int bad = 0; bad < 2; ++bad) { sh->n = 0; Str rep = h::scratch() + "/r"; unlink(rep.c_str()); for (int i = 0; i < 4; ++i) { beh[i] = i == 1 && bad ? B_FAIL : B_OK; nap[i] = 0; } intr_case = -1;
        fflush(stdout); fflush(stderr); pid_t c = __real_fork(); if (c == 0) { int z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2); close(z); runner = getpid(); u_test_t *t; u_test_suite_t *s, *s2; u_test_new("t", &t); u_test_suite_new("s", &s); u_test_suite_new("s2", &s2); u_test_suite_add(s, t); u_test_suite_add(s2, t); u_test_suite_dep_register("s", s2); u_test_case_register("a", FN[0], s); u_test_case_register("b", FN[1], s); u_test_case_register("c", FN[2], s); u_test_case_depends_on("c", "b", s); u_test_case_register("d", FN[3], s2);
            std::vector<Str> a = {"x", "-o", rep}; for (int i = 0; i < 3 && V[k][i]; ++i) a.push_back(V[k][i]); std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(nullptr); optind = 0; int rc = u_test_run((int) a.size(), av.data(), t); u_test_free(t); _exit(rc ? 3 : 0); }
        int st; while (__real_waitpid(c, &st, 0) == -1) {} CHECK(WIFEXITED(st), "options", "the runner dies on a signal with option %s", V[k][0]);
        Str txt; bool have = h::get_file(rep, txt); if (k >= 5) { CHECK(WEXITSTATUS(st) != 0 && !have && sh->n == 0, "options", "a wrong option (%s %s) still runs cases or ends in success", V[k][0], V[k][1] ? V[k][1] : ""); continue; }
        CHECK(WEXITSTATUS(st) == (bad ? 3 : 0), "options", "with option %s the outcome is %d", V[k][0], WEXITSTATUS(st)); CHECK(sh->n == (bad ? 4 : 8), "options", "with option %s %d starts and ends are seen", V[k][0], (int) sh->n); std::vector<Rep> rs; Rep tot; CHECK(have && parse(txt, false, rs, tot) && rs.size() == 2 && tot.pass == (bad ? 0 : 2) && tot.total == 2, "options", "with option %s the report is \"%s\"", V[k][0], h::esc(txt).c_str()); h::cov("option-runs"); }
    /* a report that cannot be written is not a success */
    { u_test_t *t; u_test_suite_t *s; u_test_new("t", &t); u_test_suite_new("s", &s); u_test_suite_add(s, t); u_test_case_register("a", FN[0], s); beh[0] = B_OK; CHECK(u_test_set_outfn(t, (h::scratch() + "/no/such/dir/r").c_str()) == 0, "outfn", "an output name is refused"); auto f = h::fds(); char *av[] = {(char *) "x", nullptr}; optind = 0; int o = dup(1), e = dup(2), z = open("/dev/null", O_WRONLY); fflush(stdout); dup2(z, 1); dup2(z, 2); close(z); int rc = u_test_run(1, av, t); fflush(stdout); dup2(o, 1); dup2(e, 2); close(o); close(e); CHECK(rc != 0, "result", "a run without its report ends in success"); h::expect_fds(f, "a run without its report");
      u_test_free(t); signal(SIGINT, SIG_DFL); signal(SIGTERM, SIG_DFL); signal(SIGQUIT, SIG_DFL); } }
/* a full device, a size limit: the report is incomplete, so the run is no success */
static void p_report_cut () { if (!sh) { sh = (Shm *) mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); Fill<MAXC - 1>::go(); } for (int i = 0; i < 4; ++i) { beh[i] = B_OK; nap[i] = 0; } intr_case = -1;
    for (int xml = 0; xml < 2; ++xml) for (int cases = 1; cases <= 200; cases += 199) for (int how = 0; how < 5; ++how) { Str rep = how == 1 ? "/dev/full" : how == 3 || how == 4 ? Str("-") : h::scratch() + "/r"; unlink((h::scratch() + "/r").c_str()); sh->n = 0; fflush(stdout); fflush(stderr); pid_t c = __real_fork();
        if (c == 0) { int z = open("/dev/null", O_WRONLY); if (how == 3) z = open("/dev/full", O_WRONLY); dup2(z, 1); dup2(z, 2); close(z); runner = getpid(); u_test_t *t; u_test_suite_t *s; u_test_new("t", &t); u_test_suite_new("s", &s); u_test_suite_add(s, t); for (int i = 0; i < cases; ++i) u_test_case_register(h::fmt("case%d", i).c_str(), FN[0], s); if (how == 2) { signal(SIGXFSZ, SIG_IGN); struct rlimit l = {40, 40}; setrlimit(RLIMIT_FSIZE, &l); }
            std::vector<Str> a = {"x", "-o", rep, "-f", xml ? "xml" : "txt", "-s"}; std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(nullptr); optind = 0; int rc = u_test_run((int) a.size(), av.data(), t); u_test_free(t); _exit(rc ? 3 : 0); }
        int st; while (__real_waitpid(c, &st, 0) == -1) {} bool cut = how >= 1 && how <= 3; CHECK(WIFEXITED(st) && WEXITSTATUS(st) == (cut ? 3 : 0), "report-cut", "a run of %d cases whose %s report %s ends with status %x", cases, xml ? "xml" : "txt", how == 0 ? "is written to a file" : how == 1 ? "goes to a full device" : how == 2 ? "exceeds the size limit" : how == 3 ? "goes to an output that is full" : "goes to the output", st); h::cov(cut ? "reports-cut" : "reports-whole"); } }
static int rep_fail_at; static int rf_t (FILE *, u_test_t *, u_test_rep_tag_t g) { return rep_fail_at == (g == U_TEST_REP_HEAD ? 0 : 4) ? ~0 : 0; } static int rf_s (FILE *, u_test_suite_t *, u_test_rep_tag_t g) { return rep_fail_at == (g == U_TEST_REP_HEAD ? 1 : 3) ? ~0 : 0; } static int rf_c (FILE *, u_test_case_t *) { return rep_fail_at == 2 ? ~0 : 0; }
static void p_report_fails () { if (!sh) { sh = (Shm *) mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); Fill<MAXC - 1>::go(); } for (int i = 0; i < 4; ++i) { beh[i] = B_OK; nap[i] = 0; } intr_case = -1;
    for (int onout = 0; onout < 2; ++onout) for (rep_fail_at = 0; rep_fail_at < 6; ++rep_fail_at) { u_test_t *t; u_test_suite_t *s; u_test_new("t", &t); u_test_suite_new("s", &s); u_test_suite_add(s, t); u_test_case_register("a", FN[0], s); u_test_set_outfn(t, onout ? "-" : (h::scratch() + "/r").c_str()); u_test_set_u_test_rep(t, rf_t); u_test_set_u_test_suite_rep(t, rf_s); u_test_set_u_test_case_rep(t, rf_c); auto f = h::fds(); char *av[] = {(char *) "x", nullptr}; optind = 0; int o = dup(1), e = dup(2), z = open("/dev/null", O_WRONLY); fflush(stdout); dup2(z, 1); dup2(z, 2); close(z); int rc = u_test_run(1, av, t); bool alive = fcntl(1, F_GETFD) != -1 && fileno(stdout) == 1 && printf("still here") == 10 && fflush(stdout) == 0; if (!alive) { fcntl(o, F_GETFD); dup2(e, 2); } fflush(stdout); dup2(o, 1); dup2(e, 2); close(o); close(e); CHECK(alive, "stdout-closed", "the standard output is unusable after a report that failed at step %d", rep_fail_at); CHECK((rc == 0) == (rep_fail_at == 5), "result", "a run whose report fails at step %d ends with %d", rep_fail_at, rc); h::expect_fds(f, "a run whose report fails"); u_test_free(t); h::cov("reports-failed"); } signal(SIGINT, SIG_DFL); signal(SIGTERM, SIG_DFL); signal(SIGQUIT, SIG_DFL); }
const Probe PROBES[] = { {"discarded-children", p_discarded}, {"messages", p_messages}, {"options", p_options}, {"report-fails", p_report_fails}, {"report-cut", p_report_cut}, {0, 0} };
