#include "h.h"
#include "sys.h"
/* file operations: success only when the bytes are there; every system call failed in turn */
static const char *OPS[] = {"copy", "move", "move-across", "load", "dump", "save", "pid", "buf-load", "remove"};
enum { COPY, MOVE, XMOVE, LOAD, DUMP, SAVE, PID, BLOAD, REMOVE, NOPS };
static bool exists (const Str &p) { struct stat s; return lstat(p.c_str(), &s) == 0; }
static bool xdev (int nr, long *, long *ret) { if (nr == SYS_link || nr == SYS_linkat) { *ret = -EXDEV; return true; } return false; }
struct Short { Rng *r; unsigned den; bool dev; } static SH;
static bool shorten (int nr, long *a, long *ret) { if (SH.dev && xdev(nr, a, ret)) return true; if ((nr == SYS_read || nr == SYS_write) && a[2] > 1 && SH.r->chance(1, SH.den)) a[2] = 1 + SH.r->below(a[2]); return false; }
struct World { Str a, b, data, old; bool had; size_t lim; Str pre; bool special; };
static unsigned maxcalls = 0;
/* one operation; k >= 0: its k-th system call fails with e */
static void op (Rng &r, int o, World &w, long k, int e, bool sticky, bool shortened, unsigned *ncalls)
{
    unlink(w.a.c_str()); unlink(w.b.c_str()); h::put_file(w.a, w.data); if (w.had) h::put_file(w.b, w.old); else unlink(w.b.c_str()); auto fd0 = h::fds(); char *buf = (char *) 0x11; size_t sz = 77; u_buf_t *ub = nullptr; h::Exact d(w.data, false);
    if (o == SAVE || o == BLOAD) { u_buf_create(&ub); if (o == SAVE) { if (w.data.size()) u_buf_append(ub, w.data.data(), w.data.size()); } else if (w.pre.size()) u_buf_append(ub, w.pre.data(), w.pre.size()); }
    SH = {&r, 3, o == XMOVE}; if (k >= 0) { h::sys::start_fail(k, e, sticky); if (o == XMOVE) h::sys::hook = xdev; } else h::sys::start(shortened ? shorten : o == XMOVE ? xdev : nullptr);
    int rc = -99; static const int stale[] = {0, EXDEV, EINTR, EEXIST, ERANGE, ENOENT}; static unsigned turn; errno = stale[turn++ % 6]; switch (o) { case COPY: rc = u_copy(w.a.c_str(), w.b.c_str()); break; case MOVE: case XMOVE: rc = u_move(w.a.c_str(), w.b.c_str()); break; case LOAD: rc = u_load_file(w.a.c_str(), w.lim, &buf, &sz); break; case DUMP: rc = u_data_dump(d.p, w.data.size(), w.b.c_str()); break; case SAVE: rc = u_buf_save(ub, w.b.c_str()); break; case PID: rc = u_savepid(w.b.c_str()); break; case BLOAD: rc = u_buf_load(ub, w.a.c_str()); break; case REMOVE: rc = u_remove(w.a.c_str()); break; }
    unsigned inj = h::sys::injected, tot = h::sys::total; bool over = h::sys::overflow;
    /* the trace: every descriptor opened by the call is closed once, and data is never written after a failed write succeeded silently */
    std::map<long, int> open_; for (unsigned i = 0; i < h::sys::nev && !over; ++i) { auto &v = h::sys::ev[i]; if (v.nr == SYS_openat || v.nr == SYS_open) { if (v.r >= 0) open_[v.r] = 1; } else if (v.nr == SYS_close) { if (!open_.count(v.a[0])) { h::sys::stop(); h::fail("close-twice", "%s closes descriptor %ld that it does not own", OPS[o], v.a[0]); } open_.erase(v.a[0]); } }
    h::sys::stop(); const char *n = OPS[o]; CHECK(open_.empty(), "fd-leak", "%s (failing call %ld) leaves a descriptor open", n, k); h::expect_fds(fd0, n); if (ncalls) *ncalls = tot; if (tot > maxcalls) maxcalls = tot;
    Str ca, cb; bool ea = h::get_file(w.a, ca), eb = h::get_file(w.b, cb); bool clean = k < 0;
    if (clean && o == MOVE && w.had) CHECK(rc != 0 || cb == w.data, "move-bytes", "moved over with other bytes");
    else if (clean && !(o == LOAD && w.lim && w.data.size() > w.lim)) CHECK(rc == 0, "refused", "%s of %zu bytes fails without cause", n, w.data.size());
    if (rc == 0) switch (o) { case COPY: CHECK(eb && cb == w.data, "copy-bytes", "a copy of %zu bytes succeeded (call %ld failing with %d) but the destination has %zu bytes", w.data.size(), k, e, cb.size()); break;
        case MOVE: case XMOVE: CHECK(eb && cb == w.data, "move-bytes", "a move succeeded (call %ld failing with %d) but the destination differs", k, e); CHECK(!ea && !exists(w.a), "move-source", "a move succeeded but the source is still there (call %ld failing with %d)", k, e); break;
        case LOAD: CHECK(!w.lim || w.data.size() <= w.lim, "limit", "a file of %zu bytes was loaded with limit %zu", w.data.size(), w.lim); CHECK(sz == w.data.size() && buf && !memcmp(buf, w.data.data(), sz), "load-bytes", "%zu bytes loaded of %zu (call %ld failing)", sz, w.data.size(), k); u_free(buf); break;
        case DUMP: case SAVE: CHECK(eb && cb == w.data, "save-bytes", "%s of %zu bytes succeeded (call %ld failing with %d) but the file has %zu", n, w.data.size(), k, e, cb.size()); break;
        case PID: CHECK(eb && cb == h::fmt("%ld\n", (long) getpid()), "pid", "the process id file holds '%s'", h::esc(cb).c_str()); break;
        case BLOAD: CHECK(u_buf_len(ub) == (ssize_t) w.data.size() && (w.data.empty() || !memcmp(u_buf_ptr(ub), w.data.data(), w.data.size())), "load-bytes", "the buffer has %zd bytes of %zu", u_buf_len(ub), w.data.size()); if (u_buf_ptr(ub)) CHECK(((char *) u_buf_ptr(ub))[w.data.size()] == 0, "load-end", "the loaded buffer is not terminated"); break;
        case REMOVE: CHECK(!exists(w.a), "remove", "the file is still there"); break; }
    else { if (o == LOAD) CHECK(buf == (char *) 0x11 && sz == 77, "load-result", "a failed load set its results"); h::cov("operations-refused"); }
    if (!(rc == 0 && (o == MOVE || o == XMOVE || o == REMOVE)) && !(o == REMOVE)) CHECK(ea && ca == w.data, "source-lost", "%s returned %d (call %ld failing with %d) and the source is damaged", n, rc, k, e);
    if (ub) u_buf_free(ub); h::mem::expect_balanced(n); h::cov((Str("op-") + n).c_str()); if (inj && rc == 0) h::cov("faults-survived"); h::sig(o); h::sig(rc == 0); h::sig(k); h::sig(e); h::sig(h::szclass(w.data.size())); h::sig(w.had);
}
static World world (Rng &r) { World w; Str d = h::scratch(); w.a = d + "/src-file"; w.b = d + "/dst-file"; w.data = r.bytes(r.size({0, 1, 4095, 4096, 8192, 65536}, r.chance(1, 20) ? 300000 : 20000)); w.had = r.chance(1, 2); w.old = r.bytes(r.below(30000)); w.lim = r.chance(1, 3) ? 0 : r.size({w.data.size()}, 400000); w.pre = r.bytes(r.below(3) * 9000); return w; }
static void install () { h::sys::install({SYS_openat, SYS_open, SYS_read, SYS_write, SYS_close, SYS_newfstatat, SYS_fstat, SYS_stat, SYS_link, SYS_linkat, SYS_unlink, SYS_unlinkat, SYS_lseek, SYS_rename, SYS_writev, SYS_readv, SYS_ftruncate, SYS_fsync, SYS_sendfile, SYS_copy_file_range, SYS_pread64, SYS_pwrite64}); }
static const int ERR[] = {EIO, ENOSPC, EINTR, EACCES, ENOENT, EDQUOT, EMFILE, EAGAIN};
static const bool lowfd = h::low_fd = true;
void run_case (Rng &r, u64 n)
{
    World w = world(r); int o = r.below(NOPS);
    if (h::memcheck) { op(r, o == XMOVE ? MOVE : o, w, -1, 0, false, false, nullptr); return; }
    install(); unsigned nc = 0; op(r, o, w, -1, 0, false, r.chance(1, 2), nullptr); op(r, o, w, -1, 0, false, false, &nc);
    h::tr("%s of %zu bytes, %u system calls", OPS[o], w.data.size(), nc);
    unsigned tries = h::thorough ? nc : std::min(nc, 6u); for (unsigned i = 0; i < tries; ++i) { long k = tries == nc ? i : r.below(nc); op(r, o, w, k, ERR[r.below(8)], r.chance(1, 3), false, nullptr); }
}
static void p_every_fault () { install(); Rng r(h::seed + 5); for (int o = 0; o < NOPS; ++o) for (size_t len : {0, 1, 4096, 10000}) for (int had = 0; had < 2; ++had) { World w = world(r); w.data = r.bytes(len); w.had = had; w.lim = 0; unsigned nc = 0; op(r, o, w, -1, 0, false, false, &nc); for (unsigned k = 0; k < nc; ++k) for (int e : ERR) for (int st = 0; st < 2; ++st) op(r, o, w, k, e, st, false, nullptr); } }
static void p_limits () { Rng r(3); for (size_t len : {0, 1, 2, 100, 5000}) for (long d = -2; d <= 2; ++d) { World w = world(r); w.data = r.bytes(len); if ((long) len + d < 0) continue; w.lim = len + d; op(r, LOAD, w, -1, 0, false, false, nullptr); } }
static void p_same_file ()
{
    Str d = h::scratch(), a = d + "/one", data = Rng(4).bytes(10000), c; h::put_file(a, data); auto fd0 = h::fds();
    u_copy(a.c_str(), a.c_str()); h::get_file(a, c); CHECK(c == data, "source-lost", "copying a file onto itself left %zu bytes", c.size()); u_copy(a.c_str(), (d + "/./one").c_str()); h::get_file(a, c); CHECK(c == data, "source-lost", "copying onto another spelling of the name");
    if (symlink(a.c_str(), (d + "/sym").c_str())) _exit(70); u_copy(a.c_str(), (d + "/sym").c_str()); h::get_file(a, c); CHECK(c == data, "source-lost", "copying onto a link to itself left %zu bytes", c.size()); if (link(a.c_str(), (d + "/hard").c_str())) _exit(70); u_copy(a.c_str(), (d + "/hard").c_str()); h::get_file(a, c); CHECK(c == data, "source-lost", "copying onto a hard link left %zu bytes", c.size());
    u_move(a.c_str(), a.c_str()); CHECK(h::get_file(a, c) && c == data, "source-lost", "moving a file onto itself lost it"); u_move(a.c_str(), (d + "/hard").c_str()); CHECK(h::get_file(d + "/hard", c) && c == data, "source-lost", "moving onto a hard link lost the data");
    u_move(a.c_str(), (d + "/sym").c_str()); Str c2; CHECK((h::get_file(a, c) && c == data) || (h::get_file(d + "/hard", c2) && c2 == data), "source-lost", "lost"); CHECK(u_copy((d + "/sym").c_str(), (d + "/viasym").c_str()) != 0 || (h::get_file(d + "/viasym", c) && c == data), "copy-bytes", "through a link"); h::expect_fds(fd0, "copies onto itself"); }
static void p_odd ()
{
    Str d = h::scratch(), a = d + "/f", c, dir = d + "/dir", out = d + "/out"; Str data(6000, 'x'); h::put_file(a, data); mkdir(dir.c_str(), 0755); auto fd0 = h::fds(); char *b = nullptr; size_t sz = 0; u_buf_t *ub; u_buf_create(&ub); u_buf_append(ub, "zz", 2);
    CHECK(u_copy(dir.c_str(), out.c_str()) != 0, "copy-dir", "copying a directory succeeds"); CHECK(u_copy(a.c_str(), dir.c_str()) != 0, "copy-dir", "copying onto a directory succeeds"); CHECK(u_copy((d + "/none").c_str(), out.c_str()) != 0 && u_copy(a.c_str(), (d + "/none/x").c_str()) != 0, "copy-none", "copying from or to nowhere succeeds");
    for (size_t n : {0, 1, 3000, 4096, 5000, 100000}) { h::put_file(a, Str(n, 'y')); int rc = u_copy(a.c_str(), "/dev/full"); CHECK((rc == 0) == (n == 0), "full", "copying %zu bytes to a full device returns %d", n, rc); Str z(n, 'q'); rc = u_data_dump(&z[0], n, "/dev/full"); CHECK((rc == 0) == (n == 0), "full", "dumping %zu bytes to a full device returns %d", n, rc); u_buf_t *q; u_buf_create(&q); if (n) u_buf_append(q, z.data(), n); rc = u_buf_save(q, "/dev/full"); CHECK((rc == 0) == (n == 0), "full", "saving to a full device"); u_buf_free(q); } CHECK(u_savepid("/dev/full") != 0, "full", "saving the pid to a full device succeeds");
    CHECK(u_load_file(dir.c_str(), 0, &b, &sz) != 0 && u_load_file((d + "/none").c_str(), 0, &b, &sz) != 0 && !b && !sz, "load-none", "loading a directory or nothing succeeds"); CHECK(u_buf_load(ub, dir.c_str()) != 0 && u_buf_load(ub, (d + "/none").c_str()) != 0, "load-none", "loading a directory or nothing into a buffer succeeds"); int rc = u_load_file("/proc/self/status", 0, &b, &sz); if (rc == 0) { CHECK(sz > 0, "load-bytes", "a non-empty file was loaded as empty"); u_free(b); } rc = u_buf_load(ub, "/proc/self/status"); CHECK(rc != 0 || u_buf_len(ub) > 0, "load-bytes", "a non-empty file was loaded as empty");
    CHECK(u_move((d + "/none").c_str(), out.c_str()) != 0 && u_move(a.c_str(), (d + "/none/x").c_str()) != 0 && exists(a), "move-none", "moving nothing or to nowhere"); CHECK(u_remove((d + "/none").c_str()) != 0 && u_remove(dir.c_str()) != 0 && exists(dir), "remove-none", "removing nothing or a directory"); CHECK(u_data_dump((char *) "x", 1, dir.c_str()) != 0 && u_savepid(dir.c_str()) != 0, "dump-dir", "dumping onto a directory");
    CHECK(u_copy(nullptr, "x") && u_copy("x", nullptr) && u_move(nullptr, "x") && u_remove(nullptr) && u_load_file(nullptr, 0, &b, &sz) && u_savepid(nullptr), "null", "null arguments"); u_buf_free(ub); h::expect_fds(fd0, "odd operations"); }
const Probe PROBES[] = { {"every-fault", p_every_fault}, {"limits", p_limits}, {"same-file", p_same_file}, {"odd", p_odd}, {0, 0} };
