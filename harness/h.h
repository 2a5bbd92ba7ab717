/* Common machinery of every harness: case loop, PRNG, oracle reporting,
 * allocator monitor, coverage counters, descriptor-leak monitor. */
#ifndef H_H
#define H_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <climits>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <list>
#include <functional>
#include <algorithm>
#include <memory>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <dirent.h>
#include <ftw.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#define _Bool bool
extern "C" {
#include <complex.h>
}
#include <u/libu.h>
#undef _Bool

extern "C" { int facility = LOG_LOCAL0; }

typedef std::string Str;
typedef uint64_t u64;
typedef uint8_t u8;

/* provided by each harness */
struct Rng;
void run_case (Rng &r, u64 n);
struct Probe { const char *name; void (*fn) (); };
extern const Probe PROBES[];

extern "C" const char *__asan_default_options () { return
    "detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=8192:malloc_fill_byte=165:"
    "exitcode=78:handle_abort=1:detect_stack_use_after_return=1:quarantine_size_mb=32:"
    "max_allocation_size_mb=4096:print_summary=1:allocator_release_to_os_interval_ms=-1"; }
extern "C" const char *__ubsan_default_options () { return "halt_on_error=1:print_stacktrace=1:exitcode=78"; }
extern "C" const char *__tsan_default_options () { return "halt_on_error=1:exitcode=78:second_deadlock_stack=1"; }

struct Rng {
    u64 s;
    explicit Rng (u64 seed) : s(seed) {}
    u64 next () { u64 z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    u64 below (u64 n) { return n ? next() % n : 0; }
    u64 range (u64 a, u64 b) { return a + below(b - a + 1); }   /* inclusive */
    bool chance (unsigned num, unsigned den) { return below(den) < num; }
    template <class C> auto &pick (C &c) { return c[below(c.size())]; }
    const char *one (std::initializer_list<const char *> l) { return *(l.begin() + below(l.size())); }
    char ch (const char *set) { return set[below(strlen(set))]; }
    /* sizes biased to boundaries around the given interesting values */
    size_t size (std::initializer_list<size_t> marks, size_t max) {
        switch (below(4)) {
            case 0: return below(8);
            case 1: return below(max + 1);
            default: { size_t m = *(marks.begin() + below(marks.size())); long d = (long) below(7) - 3; long v = (long) m + d; return v < 0 ? 0 : ((size_t) v > max ? max : (size_t) v); }
        }
    }
    Str text (size_t n, const char *set) { Str s; for (size_t i = 0; i < n; ++i) s += ch(set); return s; }
    Str bytes (size_t n) { Str s; for (size_t i = 0; i < n; ++i) s += (char) below(256); return s; }
    Str nzbytes (size_t n) { Str s; for (size_t i = 0; i < n; ++i) s += (char) (1 + below(255)); return s; }
};

namespace h {
static u64 seed = 1, cur_case = 0;
static bool thorough = false, verbose = false, memcheck = false;
static const char *probe_name = nullptr;
static char *progress = nullptr;      /* mmaped: current case as decimal text */
static u64 evals = 0;
static std::unordered_set<u64> sigs;
static u64 sig_h = 0; static bool sig_set = false;
static std::map<Str, u64> covs;
static std::vector<Str> samples;
static Str trace;                      /* human-readable history of the case */
static bool trace_on = false;

static inline Str fmtv (const char *f, va_list ap) { char b[4096]; vsnprintf(b, sizeof b, f, ap); return b; }
static inline Str fmt (const char *f, ...) { va_list ap; va_start(ap, f); Str s = fmtv(f, ap); va_end(ap); return s; }
static inline Str esc (const Str &s, size_t max = 300) {
    Str o; for (size_t i = 0; i < s.size() && i < max; ++i) { unsigned char c = s[i]; if (c == '\\') o += "\\\\"; else if (c >= 32 && c < 127) o += c; else { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } }
    if (s.size() > max) o += fmt("...(%zu)", s.size());
    return o; }
static inline void cov (const char *name, u64 n = 1) { covs[name] += n; }
static inline void sig (u64 v) { sig_h = (sig_h ^ v) * 0x100000001b3ULL; sig_h ^= sig_h >> 29; sig_set = true; }
static inline void sig (const Str &s) { for (unsigned char c : s) sig(c); sig(0x1ff); }
static inline u64 szclass (size_t n) { u64 c = 0; while (n) { ++c; n >>= 1; } return c; }
/* append to the case's trace (only kept when a sample or replay needs it) */
static inline void tr (const char *f, ...) { if (!trace_on) return; if (trace.size() > 6000) return; va_list ap; va_start(ap, f); trace += fmtv(f, ap); trace += "; "; va_end(ap); }

[[noreturn]] static inline void fail (const char *key, const char *f, ...)
{
    va_list ap; va_start(ap, f); Str m = fmtv(f, ap); va_end(ap);
    fflush(stdout);
    Str o = fmt("VIOL key=%s %s=%s seed=%llu msg=", key, probe_name ? "probe" : "case",
        probe_name ? probe_name : std::to_string(cur_case).c_str(), (unsigned long long) seed) + m + "\n";
    if (trace_on) o += "TRACE " + trace + "\n";
    size_t off = 0; while (off < o.size()) { ssize_t w = write(1, o.data() + off, o.size() - off); if (w <= 0) break; off += w; }
    _exit(77);
}
#define CHECK(c, key, ...) do { if (!(c)) h::fail(key, __VA_ARGS__); } while (0)

/* ---- allocator monitor ------------------------------------------------ */
namespace mem {
static std::unordered_map<void *, size_t> live;
static u64 n_alloc = 0, n_free = 0, n_failed = 0;
static long fail_at = -1;             /* fail the k-th allocation from now (0 = next) */
static bool fail_sticky = false;      /* ... and every later one */
static bool installed = false;
static bool should_fail () {
    if (fail_at < 0) return false;
    if (fail_at == 0) { if (!fail_sticky) fail_at = -1; ++n_failed; return true; }
    --fail_at; return false; }
static void *reg (void *p, size_t sz) { if (p) { ++n_alloc; live[p] = sz; } return p; }
static void *m (size_t sz) { if (sz > (size_t) 1 << 40 || should_fail()) { errno = ENOMEM; return nullptr; } return reg(malloc(sz), sz); }
static void *c (size_t n, size_t sz) { if ((sz && n > ((size_t) 1 << 40) / sz) || should_fail()) { errno = ENOMEM; return nullptr; } return reg(calloc(n, sz), n * sz); }
static void f (void *p) {
    if (!p) return;
    auto it = live.find(p);
    if (it == live.end()) h::fail("foreign-free", "a block that the installed allocator did not hand out, or already released, was passed to its free: %p", p);
    live.erase(it); ++n_free; free(p); }
static void *r (void *p, size_t sz) {
    if (sz > (size_t) 1 << 40 || should_fail()) { errno = ENOMEM; return nullptr; }
    if (p && live.find(p) == live.end()) h::fail("foreign-realloc", "realloc of a block not handed out by the installed allocator: %p", p);
    size_t old = p ? live[p] : 0;
    /* always move, so that stale pointers are caught */
    void *q = malloc(sz ? sz : 1); if (!q) return nullptr;
    if (p) { memcpy(q, p, old < sz ? old : sz); live.erase(p); free(p); ++n_free; }
    return reg(q, sz); }
static void install () { u_memory_set_malloc(m); u_memory_set_calloc(c); u_memory_set_realloc(r); u_memory_set_free(f); installed = true; }
static void arm (long k, bool sticky = false) { fail_at = k; fail_sticky = sticky; }
static void disarm () { fail_at = -1; fail_sticky = false; }
static void expect_balanced (const char *where) {
    if (!live.empty()) { size_t b = 0; for (auto &x : live) b += x.second; fail("leak", "%zu block(s), %zu bytes still allocated after %s", live.size(), b, where); } }
}
static inline void *xm (const void *p, size_t n) { void *q = u_malloc(n ? n : 1); memcpy(q, p, n); return q; }

/* ---- heap block of exact size: ASan sees any access beyond it ---------- */
struct Exact {
    char *p; size_t n;
    explicit Exact (size_t n_) : n(n_) { p = (char *) malloc(n_ ? n_ : 1); if (n_ == 0) { free(p); p = (char *) malloc(0); } memset(p, 0x5c, n_); }
    explicit Exact (const Str &s, bool nul = true) : n(s.size() + nul) { p = (char *) malloc(n ? n : 1); memcpy(p, s.data(), s.size()); if (nul) p[s.size()] = 0; }
    ~Exact () { free(p); }
    Exact (const Exact &) = delete; Exact &operator= (const Exact &) = delete;
};

/* ---- open descriptors -------------------------------------------------- */
static inline std::map<int, Str> fds () {
    std::map<int, Str> m;
    for (int fd = 0; fd < 256; ++fd) { if (fcntl(fd, F_GETFD) == -1) continue; char l[64], t[256]; snprintf(l, 64, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, t, 255); m[fd] = k > 0 ? Str(t, k) : Str("?"); }
    return m; }
static inline void expect_fds (const std::map<int, Str> &before, const char *where) {
    auto a = fds();
    for (auto &x : a) if (!before.count(x.first)) fail("fd-leak", "descriptor %d (%s) left open after %s", x.first, x.second.c_str(), where);
    for (auto &x : before) if (!a.count(x.first)) fail("fd-closed", "descriptor %d (%s) was closed by %s", x.first, x.second.c_str(), where); }

/* ---- scratch directory -------------------------------------------------- */
static Str scratch_dir;
static inline const Str &scratch () {
    if (scratch_dir.empty()) { const char *b = getenv("H_SCRATCH"); Str t = Str(b ? b : "/tmp") + "/hXXXXXX"; std::vector<char> v(t.begin(), t.end()); v.push_back(0);
        if (!mkdtemp(v.data())) { perror("mkdtemp"); _exit(70); } scratch_dir = v.data(); }
    return scratch_dir; }
static inline void put_file (const Str &p, const Str &s) { FILE *f = fopen(p.c_str(), "w"); if (!f) { perror(p.c_str()); _exit(70); } if (s.size()) fwrite(s.data(), 1, s.size(), f); fclose(f); }
static inline bool get_file (const Str &p, Str &s) { s.clear(); FILE *f = fopen(p.c_str(), "r"); if (!f) return false; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return true; }
static int rm_one (const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static inline void rm_scratch () { if (scratch_dir.empty()) return; nftw(scratch_dir.c_str(), rm_one, 20, FTW_DEPTH | FTW_PHYS | FTW_MOUNT); scratch_dir.clear(); }

/* ---- hang alarm (CPU time of one case) ----------------------------------- */
static void on_prof (int) {
    static const char m[] = "HANG cpu limit for one case exceeded\n"; if (write(1, m, sizeof m - 1)) {} _exit(76); }
static unsigned cpu_limit = 15;
static inline void arm_cpu (unsigned s) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s; setitimer(ITIMER_PROF, &it, nullptr); }

/* some cases run without a standard input, so that descriptor 0 is the first one handed out */
static bool low_fd = false;
static inline void stdin_away () { close(0); }
static inline void stdin_back () { int fd = open("/dev/null", O_RDONLY); if (fd > 0) { dup2(fd, 0); close(fd); } }

static int null_hook (void *, int, const char *) { return 0; }

static inline void one (u64 n)
{
    cur_case = n; sig_h = 1469598103934665603ULL; sig_set = false; trace.clear();
    if (progress) snprintf(progress, 64, "%llu\n", (unsigned long long) n);
    arm_cpu(cpu_limit * (memcheck ? 8 : 1));
    Rng r(seed * 0x9e3779b97f4a7c15ULL + n * 0xd1342543de82ef95ULL + 12345);
    r.next();
    bool low = low_fd && n % 7 == 3; if (low) { stdin_away(); cov("cases-with-descriptor-0-free"); }
    { static const int stale[] = {0, EXDEV, EINTR, ERANGE, ENOENT, EAGAIN}; errno = stale[n % 6]; } /* what earlier calls left */
    run_case(r, n);
    if (low) { if (fcntl(0, F_GETFD) != -1) fail("fd-leak", "descriptor 0 left open"); stdin_back(); }
    mem::disarm();
    if (mem::installed) mem::expect_balanced("the case ended");
    ++evals;
    if (sig_set) sigs.insert(sig_h);
}
}

#ifndef H_NO_MAIN
int main (int argc, char **argv)
{
    u64 from = 0, to = 0; const char *out = nullptr, *probe = nullptr, *prog = nullptr; bool list = false;
    for (int i = 1; i < argc; ++i) { Str a = argv[i];
        if (a == "--seed") h::seed = strtoull(argv[++i], 0, 10);
        else if (a == "--from") from = strtoull(argv[++i], 0, 10);
        else if (a == "--to") to = strtoull(argv[++i], 0, 10);
        else if (a == "--case") { from = strtoull(argv[++i], 0, 10); to = from + 1; h::trace_on = true; }
        else if (a == "--out") out = argv[++i];
        else if (a == "--progress") prog = argv[++i];
        else if (a == "--probe") probe = argv[++i];
        else if (a == "--list") list = true;
        else if (a == "--thorough") h::thorough = true;
        else if (a == "--memcheck") h::memcheck = true;
        else if (a == "--cpu") h::cpu_limit = atoi(argv[++i]);
        else { fprintf(stderr, "bad arg %s\n", argv[i]); return 70; } }
    if (list) { for (const Probe *p = PROBES; p->name; ++p) puts(p->name); return 0; }
    signal(SIGPIPE, SIG_IGN);
    signal(SIGPROF, h::on_prof);
    if (prog) { int fd = open(prog, O_RDWR | O_CREAT, 0600); if (fd >= 0) { if (ftruncate(fd, 64)) {} void *m = mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); if (m != MAP_FAILED) h::progress = (char *) m; } }
    u_log_set_hook(h::null_hook, nullptr, nullptr, nullptr);
    h::mem::install();
    if (probe) {
        for (const Probe *p = PROBES; p->name; ++p) if (!strcmp(p->name, probe)) {
            h::probe_name = p->name; h::trace_on = true; h::arm_cpu(h::cpu_limit * (h::memcheck ? 8 : 4));
            p->fn(); h::mem::disarm(); h::mem::expect_balanced("the probe ended"); h::rm_scratch(); puts("PROBE-OK"); return 0; }
        return 70; }
    for (u64 n = from; n < to; ++n) {
        if (h::samples.size() < 3 && n < from + 40 && !h::memcheck) h::trace_on = true;
        else if (to - from > 1) h::trace_on = false;
        h::one(n);
        if (h::trace_on && !h::trace.empty() && h::samples.size() < 3 && h::trace.size() < 1500) h::samples.push_back(h::fmt("case %llu: ", (unsigned long long) n) + h::trace);
    }
    h::rm_scratch();
    if (out) { FILE *f = fopen(out, "w"); if (!f) return 70;
        fprintf(f, "E %llu\n", (unsigned long long) h::evals);
        fprintf(f, "C alloc-events %llu\nC free-events %llu\nC injected-allocation-failures %llu\n", (unsigned long long) h::mem::n_alloc, (unsigned long long) h::mem::n_free, (unsigned long long) h::mem::n_failed);
        for (auto &c : h::covs) fprintf(f, "C %s %llu\n", c.first.c_str(), (unsigned long long) c.second);
        for (auto &s : h::samples) fprintf(f, "S %s\n", h::esc(s, 1400).c_str());
        for (u64 s : h::sigs) fprintf(f, "G %llx\n", (unsigned long long) s);
        fprintf(f, "END\n"); fclose(f); }
    return 0;
}
#endif
#endif
