/* System call monitor and fault engine: a seccomp filter traps the chosen calls of this process
 * (wherever they come from), a SIGSYS handler records them and decides whether to pass them on,
 * shorten them, or return an error.  Calls made through h::sys::raw are never trapped. */
#ifndef SYS_H
#define SYS_H
#include <ucontext.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <ftw.h>
extern "C" { extern char h_stub_end[]; long h_raw6 (long n, long a, long b, long c, long d, long e, long f); }
__asm__(".text\n.globl h_raw6\n.globl h_stub_end\nh_raw6:\nmov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\nsyscall\nh_stub_end:\nret\n");
namespace h { namespace sys {
struct Ev { int nr; long a[6]; long r; bool injected; };
enum { MAXEV = 20000 };
static Ev ev[MAXEV]; static volatile unsigned nev = 0, total = 0; static volatile bool on = false, overflow = false;
static volatile long fail_at = -1; static volatile int fail_errno = 0; static volatile bool fail_sticky = false; /* the k-th trapped call fails */
static volatile unsigned injected = 0;
/* called for each trapped call while on: return true to use *ret as result, false to go on (args may be changed) */
typedef bool (*Hook) (int nr, long *a, long *ret);
static Hook hook = nullptr;
static inline long raw (long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return h_raw6(n, a, b, c, d, e, f); }
__attribute__((no_sanitize("address", "undefined"))) static void handler (int, siginfo_t *, void *u)
{
    greg_t *g = ((ucontext_t *) u)->uc_mcontext.gregs; int nr = g[REG_RAX]; long a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
    if (!on) { g[REG_RAX] = raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]); return; }
    on = false; long r = 0; bool done = false; int se = errno;
    if (fail_at >= 0) { if (fail_at == 0) { if (nr == SYS_close) raw(nr, a[0]); /* a failing close(2) still closes */ r = -fail_errno; done = true; if (!fail_sticky) fail_at = -1; } else fail_at = fail_at - 1; }
    if (!done && hook) done = hook(nr, a, &r);
    if (done) injected = injected + 1; else r = raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    errno = se; total = total + 1; if (nev < MAXEV) { Ev &e = ev[nev]; e.nr = nr; for (int i = 0; i < 6; ++i) e.a[i] = a[i]; e.r = r; e.injected = done; nev = nev + 1; } else overflow = true;
    g[REG_RAX] = r; on = true;
}
static bool installed = false;
static void install (std::initializer_list<int> nrs)
{
    if (installed) return; installed = true;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigemptyset(&sa.sa_mask); if (sigaction(SIGSYS, &sa, nullptr)) { perror("sigaction"); _exit(70); }
    unsigned long ip = (unsigned long) h_stub_end; std::vector<sock_filter> f; unsigned n = nrs.size();
    f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, (unsigned) offsetof(struct seccomp_data, instruction_pointer)));
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned) ip, 0, 2));
    f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, (unsigned) offsetof(struct seccomp_data, instruction_pointer) + 4));
    f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned) (ip >> 32), (unsigned char) (n + 1), 0));
    f.push_back(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, (unsigned) offsetof(struct seccomp_data, nr)));
    unsigned i = 0; for (int x : nrs) { f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned) x, (unsigned char) (n - i), 0)); ++i; }
    f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)); f.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
    struct sock_fprog p = { (unsigned short) f.size(), f.data() };
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) { perror("seccomp"); _exit(70); }
}
static void start (Hook hk = nullptr) { nev = 0; total = 0; injected = 0; overflow = false; hook = hk; fail_at = -1; fail_sticky = false; on = true; }
static void start_fail (long k, int e, bool sticky = false) { start(); on = false; fail_at = k; fail_errno = e; fail_sticky = sticky; on = true; }
static void stop () { on = false; hook = nullptr; fail_at = -1; if (total) cov("system-calls-observed", total); if (injected) cov("system-calls-failed-or-altered", injected); }
} }
#endif
