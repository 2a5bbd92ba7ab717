#include "cfg.h"
#include "sys.h"
/* hostile texts, include graphs, drivers, and every system call failing in turn */
static Str D () { return h::scratch(); }
typedef std::map<Str, Str> Files;
static Str incl (Rng &r, const std::vector<Str> &names, bool drv)
{   Str n = r.chance(1, 12) ? Str(drv ? "missing" : D() + r.one({"/missing", "/", "/no/such", ""})) : r.pick(const_cast<std::vector<Str> &>(names)); if (n.empty()) n = "x"; if (!drv && r.chance(1, 12) && n.rfind('/') != Str::npos) n.insert(n.rfind('/'), r.one({"/", "/.", "//"}));
    Str s = ws(r, false) + r.one({"include", "include", "-include"}) + ws(r, true); if (r.chance(1, 10)) return s + "${inc}" + ws(r, false) + "\n"; if (r.chance(1, 40)) return s + "\n"; if (r.chance(1, 12)) { Str k = fresh_text(r).substr(0, 0); (void) k; return "p.q " + n + "\n" + s + "${p.q}\n"; } return s + n + (r.chance(1, 8) ? " # c" : ws(r, false)) + r.one({"\n", "\n", "\r\n"}); }
static Files graph (Rng &r, std::vector<Str> &names, bool drv, bool acyclic)
{   Files f; unsigned n = 1 + r.below(5); names.clear(); for (unsigned i = 0; i < n; ++i) names.push_back((drv ? "f" : D() + "/f") + std::to_string(i));
    for (unsigned i = 0; i < n; ++i) { Str t; unsigned parts = 1 + r.below(3); std::vector<Str> to = acyclic || r.chance(1, 2) ? std::vector<Str>(names.begin() + i + 1, names.end()) : names; for (unsigned p = 0; p < parts; ++p) { Str x; do { x.clear(); gtext(r, x, r.below(3), r.below(3), r.below(4)); } while (has_directive(x)); t += x; if (!to.empty() && r.chance(2, 3)) { Str l = incl(r, to, drv); if (r.chance(1, 4)) l = "sec\n{\n" + l + "}\n"; t += l; } } if (r.chance(1, 12)) mutate(r, t); for (char &c : t) if (!c) c = ' '; f[names[i]] = t; } return f; }
/* ---- caller-supplied driver ------------------------------------------------------ */
struct Src { Str t; size_t p = 0; bool closed = false; unsigned no; };
static Files *df; static std::deque<Src> opened; static long fail_open, fail_close; static unsigned nclose, resolved; static bool with_resolv;
static int d_open (const char *uri, void **arg) { auto i = df->find(uri); if (i == df->end()) return ~0; if (fail_open-- == 0) { h::cov("driver-opens-failed"); return ~0; } opened.emplace_back(); opened.back().t = i->second; *arg = &opened.back(); h::cov("driver-opens"); return 0; }
static Src *src (void *a) { for (Src &s : opened) if (&s == a) return &s; h::fail("driver-arg", "a callback got an argument which no open returned"); }
static int d_close (void *a) { Src *s = src(a); CHECK(!s->closed, "closed-twice", "a source was closed twice"); s->closed = true; ++nclose; if (fail_close-- == 0) { h::cov("driver-closes-failed"); return ~0; } return 0; }
static char *d_gets (void *a, char *b, size_t sz) { Src *s = src(a); CHECK(!s->closed, "closed-read", "a closed source was read"); if (s->p >= s->t.size()) return nullptr; size_t n = 0; while (n + 1 < sz && s->p < s->t.size()) { b[n] = s->t[s->p++]; if (b[n++] == '\n') break; } b[n] = 0; h::cov("reader-calls"); return b; }
static bool m_resolv (Str &s) { if (s.find('1') != Str::npos && s[0] == 'r') return false; s = s.substr(0, 200); return true; }
static int d_resolv (const char *n, char *uri, size_t sz) { ++resolved; Str s = n; if (!m_resolv(s)) return ~0; return u_strlcpy(uri, s.c_str(), sz) ? ~0 : 0; }
static void by_driver (Rng &r)
{
    std::vector<Str> names; Files f = graph(r, names, true, false); CN root; Parse p; p.over = r.chance(1, 3); with_resolv = r.chance(1, 3); bool noinc = r.chance(1, 12); p.open = [&] (const Str &u, Str &t) { auto i = f.find(u); if (i == f.end()) return false; t = i->second; return true; }; if (with_resolv) p.resolv = m_resolv; p.chain.push_back(names[0]);
    Reader q; q.t = f[names[0]]; bool ok = p.body(&root, q, false, 0); for (auto &x : f) h::tr("%s: %s", x.first.c_str(), h::esc(x.second).c_str()); unsigned opens = p.files + 1; long fo = -1, fc = -1; if (r.chance(1, 4)) fo = (long) r.below(opens); else if (r.chance(1, 4)) fc = (long) r.below(opens);
    (void) noinc; u_config_driver_t d = {d_open, d_close, d_gets, with_resolv ? d_resolv : nullptr}; df = &f; opened.clear(); fail_open = fo; fail_close = fc; nclose = 0; u_config_t *c = nullptr; int rc = u_config_load_from_drv(names[0].c_str(), &d, p.over, &c);
    for (Src &s : opened) CHECK(s.closed, "not-closed", "an opened source was not closed (%zu opened, load returned %d)", opened.size(), rc); CHECK((rc == 0) == (c != nullptr), "result", "returned %d", rc); bool hit = fail_open < -1 && fo >= 0 ? fail_open != fo - (long) 0 && fo + 1 <= (long) (fo - fail_open) : false; bool hitc = fc >= 0 && fail_close < 0;
    hit = fo >= 0 && fail_open < 0; if (!p.unspec && p.deepest < 100) { if (!hit && !hitc) { CHECK((rc == 0) == ok, ok ? "refused" : "accepted", "load from a driver returns %d", rc); if (ok) expect_tree(c, &root, "tree", "the loaded tree"); h::cov(ok ? "graphs-loaded" : p.fatal ? "circular-graphs-refused" : "graphs-refused"); } else if (!p.optional_used) CHECK(rc != 0, "fault-accepted", "a failing %s went unnoticed", hit ? "open" : "close"); } else h::cov("unspecified-graphs");
    if (c) u_config_free(c); h::sig(ok); h::sig(opened.size()); h::sig(h::szclass(root.count())); h::sig(hit + 2 * hitc + 4 * p.fatal); }
/* ---- files ------------------------------------------------------------------------ */
static bool real_open (const Str &u, Str &t) { struct stat st; if (stat(u.c_str(), &st) || !S_ISREG(st.st_mode)) return false; return h::get_file(u, t); }
static void by_file (Rng &r, bool faults)
{
    std::vector<Str> names; Files f = graph(r, names, false, faults); for (auto &x : f) { h::put_file(x.first, x.second); h::tr("%s: %s", x.first.c_str(), h::esc(x.second).c_str()); }
    CN root; Parse p; p.open = real_open; bool fd_load = r.chance(1, 3); p.over = fd_load && r.chance(1, 2); if (!fd_load) p.chain.push_back(names[0]); Reader q; q.t = f[names[0]]; bool ok = p.body(&root, q, false, 0), known = !p.unspec && p.deepest < 100; auto fd0 = h::fds();
    auto load = [&] (u_config_t **pc, int fd) { *pc = nullptr; if (!fd_load) return u_config_load_from_file(names[0].c_str(), pc); if (u_config_create(pc)) return -3; int rc = u_config_load(*pc, fd, p.over); return rc; };
    int fd = fd_load ? open(names[0].c_str(), O_RDONLY) : -1; u_config_t *c; int rc = load(&c, fd); if (known) { CHECK((rc == 0) == ok, ok ? "refused" : "accepted", "load returns %d", rc); if (ok) expect_tree(c, &root, "tree", "the loaded tree"); h::cov(ok ? "graphs-loaded" : p.fatal ? "circular-graphs-refused" : "graphs-refused"); } else h::cov("unspecified-graphs"); if (c) u_config_free(c); if (fd_load) { CHECK(fcntl(fd, F_GETFD) != -1, "fd-closed", "the caller's descriptor was closed"); close(fd); } h::expect_fds(fd0, "loading"); h::mem::expect_balanced("loading");
    h::sig(ok); h::sig(p.files); h::sig(h::szclass(root.count())); h::sig(p.fatal); if (!faults || h::memcheck || p.files > 30) return;
    h::sys::install({SYS_openat, SYS_open, SYS_read, SYS_close, SYS_newfstatat, SYS_fstat, SYS_dup, SYS_fcntl, SYS_lseek});
    for (int e : {EIO, EINTR, EMFILE, ENOENT}) for (int sticky = 0; sticky < 2; ++sticky) for (long k = 0; k < 60; ++k) { if (e != EIO && e != EINTR && k > 12) break; if (sticky && e == EINTR) break; fd = fd_load ? open(names[0].c_str(), O_RDONLY) : -1; auto fd1 = h::fds(); c = nullptr; if (fd_load && u_config_create(&c)) break; h::sys::start_fail(k, e, sticky); int rv = fd_load ? u_config_load(c, fd, p.over) : u_config_load_from_file(names[0].c_str(), &c); bool hit = h::sys::injected > 0; int nr = -1; long fa = -1; for (unsigned j = 0; j < h::sys::nev; ++j) if (h::sys::ev[j].injected && nr < 0) { nr = h::sys::ev[j].nr; fa = h::sys::ev[j].r; } h::sys::stop();
            (void) fa; if (known && (rv == 0)) { CHECK(ok || p.optional_used, "fault-accepted", "a broken graph is accepted when call %d fails", nr); if (!p.optional_used) expect_tree(c, &root, "fault-tree", h::fmt("the tree loaded while call number %ld (nr %d) failed with %s", k, nr, strerror(e)).c_str()); if (!p.optional_used && hit && nr == SYS_read) h::fail("read-error", "a failing read (%s) went unnoticed", strerror(e)); } if (known && hit && e == EINTR && (nr == SYS_openat || nr == SYS_open)) { CHECK((rv == 0) == ok, "interrupted-open", "an interrupted open makes the load return %d", rv); if (ok) expect_tree(c, &root, "interrupted-open", "the tree loaded while an open was interrupted"); h::cov("interrupted-opens"); } h::cov(rv ? "faults-refused" : "faults-survived");
            if (c) u_config_free(c); h::expect_fds(fd1, h::fmt("a load in which call %ld (nr %d) failed with %s", k, nr, strerror(e)).c_str()); if (fd_load) close(fd); h::mem::expect_balanced("a load with a failing call"); if (!hit) break; } }
static void bytes (Rng &r)
{   Str t; switch (r.below(4)) { case 0: t = r.bytes(r.below(600)); break; case 1: t = r.text(r.below(400), "{}\n\n#\\ .$ab\r\t"); break; case 2: t = fresh_text(r); mutate(r, t); t.insert(r.below(t.size() + 1), 1 + r.below(3), '\0'); break; default: { unsigned n = r.below(60); for (unsigned i = 0; i < n; ++i) t += r.one({"a\n", "{\n", "}\n", "a b\n", "include ", "-include x\n", "${", "}", "\r", "\n", "#", "\\", " ", "a.b", "."}); } } h::tr("bytes %s", h::esc(t).c_str());
    Str path = D() + "/bytes"; h::put_file(path, t); auto fd0 = h::fds(); u_config_t *c = nullptr; int a = u_config_load_from_file(path.c_str(), &c); CHECK((a == 0) == (c != nullptr), "result", "returned %d", a); char buf[64]; if (c) { (void) u_config_save_to_buf(c, buf, sizeof buf); u_config_free(c); } c = nullptr; h::Exact e(t, false); if (t.size()) { int b = u_config_load_from_buf(e.p, t.size(), &c); CHECK((b == 0) == (c != nullptr), "result", "returned %d", b); if (t.find('\0') == Str::npos && !has_directive(t)) CHECK(a == b, "verdict", "the file gives %d, the buffer %d", a, b); if (c) u_config_free(c); } h::expect_fds(fd0, "loading bytes"); h::cov(a ? "bytes-refused" : "bytes-accepted"); h::sig(t.substr(0, 40)); }
static const bool lowfd = h::low_fd = true;
void run_case (Rng &r, u64 n) { switch (n % 8) { case 0: case 1: case 2: by_driver(r); break; case 3: case 4: by_file(r, false); break; case 5: by_file(r, true); break; default: bytes(r); } }
static int load_text (const Str &t, u_config_t **c) { Str p = D() + "/p"; h::put_file(p, t); *c = nullptr; return u_config_load_from_file(p.c_str(), c); }
static Str rep (const char *s, unsigned n) { Str o; for (unsigned i = 0; i < n; ++i) o += s; return o; }
static void p_deep () { u_config_t *c; auto fd0 = h::fds(); unsigned n = h::memcheck ? 3000 : 300000; for (const Str &t : {rep("a\n{\n", n), rep("a\n{\n", n) + rep("}\n", n), rep("a\n{\nb 1\n", n), rep("a.", n) + " 1\n", "x " + rep("${", n) + rep("}", n) + "\n", rep("a.", n / 3) + "b 1\n" + rep("a.", n / 3) + "c 2\n", rep("\n{", n), rep("}", n), rep("include\n", 100)}) { int rc = load_text(t, &c); CHECK((rc == 0) == (c != nullptr), "result", "rc"); if (c) u_config_free(c); h::mem::expect_balanced("a deep text"); } CHECK(load_text(rep("a\n{\n", 100) + rep("}\n", 100), &c) == 0, "refused", "100 levels"); u_config_free(c); h::expect_fds(fd0, "deep texts"); }
static void p_big () { u_config_t *c; Str v((h::memcheck ? 200 : 4000) * 1000, 'v'); CHECK(load_text("k " + v + "\n", &c) == 0 && v == u_config_get_subkey_value(c, "k"), "big", "a value of %zu bytes", v.size()); u_config_free(c); Str many; for (unsigned i = 0; i < 20000; ++i) many += "k" + std::to_string(i) + " v\n"; if (!h::memcheck) { CHECK(load_text(many, &c) == 0 && u_config_get_subkey_value(c, "k19999"), "big", "20000 keys"); u_config_free(c); } }
static void p_cycles ()
{   u_config_t *c; auto fd0 = h::fds(); Str p = D() + "/p", a = D() + "/a", b = D() + "/b", cc = D() + "/c"; for (const char *inc : {"include ", "-include "}) for (bool sec : {false, true}) { Str pre = sec ? "s\n{\n" : "", post = sec ? "}\n" : ""; CHECK(load_text("x 1\n" + pre + inc + p + "\n" + post, &c) != 0 && !c, "cycle", "a file including itself is accepted"); h::put_file(a, pre + inc + b + "\n" + post); h::put_file(b, Str(inc) + cc + "\n"); h::put_file(cc, pre + Str(inc) + a + "\n" + post); CHECK(load_text(Str(inc) + a + "\n", &c) != 0 && !c, "cycle", "a cycle of three is accepted"); h::put_file(a, Str(inc) + D() + "//a\n"); CHECK(load_text(Str(inc) + a + "\n", &c) != 0 && !c, "cycle", "a cycle through another name is accepted"); }
    h::put_file(a, "v 1\n"); CHECK(load_text("include " + a + "\ninclude " + a + "\ns\n{\ninclude " + a + "\n}\n", &c) == 0, "repeat", "including a file again, not circularly, is refused"); CHECK(!strcmp(u_config_get_subkey_value(c, "s.v"), "1"), "repeat", "value"); u_config_free(c);
    for (unsigned i = 0; i < 60; ++i) h::put_file(D() + "/n" + std::to_string(i), i == 59 ? "leaf 1\n" : "include " + D() + "/n" + std::to_string(i + 1) + "\n"); CHECK(load_text("include " + D() + "/n0\n", &c) == 0 && u_config_get_subkey_value(c, "leaf"), "chain", "a chain of 60 includes is refused"); u_config_free(c);
    Str seq = rep(("include " + a + "\n").c_str(), h::memcheck ? 100 : 3000); CHECK(load_text(seq, &c) == 0, "sequence", "many includes one after the other"); u_config_free(c); h::expect_fds(fd0, "include chains");
    for (const char *opt : {"", "-"}) CHECK(load_text("s\n" + Str(opt) + "include " + a + "\n{\nb 1\n}\n", &c) != 0 && !c, "brace", "a block after an include directive is accepted"); CHECK(load_text("s\n-include " + D() + "/nope\n{\nb 1\n}\n", &c) != 0 && !c, "brace", "a block after an optional include is accepted"); CHECK(load_text("include " + D() + "\n", &c) != 0, "directory", "a directory is read as an empty file"); CHECK(load_text("-include " + D() + "/nope\nk 1\n", &c) == 0 && u_config_get_subkey_value(c, "k"), "optional", "a missing optional file"); u_config_free(c); CHECK(load_text("include " + D() + "/nope\nk 1\n", &c) != 0, "required", "a missing required file"); c = nullptr; CHECK(u_config_load_from_file(D().c_str(), &c) != 0 && !c, "directory", "a directory is loaded"); CHECK(u_config_load_from_file((D() + "/nope").c_str(), &c) != 0 && !c, "missing", "a missing file is loaded"); h::expect_fds(fd0, "failing includes");
    CHECK(u_config_create(&c) == 0 && u_config_load(c, -1, 0) != 0 && u_config_load(c, 1000, 0) != 0, "bad-fd", "a bad descriptor"); int fd = open(D().c_str(), O_RDONLY); CHECK(u_config_load(c, fd, 0) != 0 && fcntl(fd, F_GETFD) != -1, "bad-fd", "a directory"); close(fd); fd = open(a.c_str(), O_WRONLY); CHECK(u_config_load(c, fd, 0) != 0 && fcntl(fd, F_GETFD) != -1, "bad-fd", "a write-only descriptor"); close(fd); u_config_free(c); h::expect_fds(fd0, "bad descriptors"); }
/* a source whose names never repeat: only a bound on the depth can end it */
static unsigned f_open, f_close, f_live; static bool f_sect, f_opt;
struct Fresh { unsigned n; unsigned line; };
static int fr_open (const char *u, void **a) { CHECK(++f_open < 100000, "unbounded", "includes follow each other without end"); ++f_live; *a = new Fresh{(unsigned) atoi(u), 0}; return 0; }
static int fr_close (void *a) { ++f_close; --f_live; delete (Fresh *) a; return 0; }
static char *fr_gets (void *a, char *b, size_t n) { Fresh *f = (Fresh *) a; unsigned l = f->line++; if (f_sect ? l == 0 : 0) { snprintf(b, n, "s\n"); return b; } if (f_sect && l == 1) { snprintf(b, n, "{\n"); return b; } unsigned m = f_sect ? l - 2 : l; if (m == 0) { snprintf(b, n, "%sinclude %u\n", f_opt ? "-" : "", f->n + 1); return b; } if (f_sect && m == 1) { snprintf(b, n, "}\n"); return b; } return nullptr; }
static int fr_resolv (const char *name, char *uri, size_t sz) { snprintf(uri, sz, "%d%s", atoi(name), "/x"); return 0; }
static void p_fresh () { for (int k = 0; k < 8; ++k) { f_sect = k & 1; f_opt = k & 4; f_open = f_close = f_live = 0; u_config_t *c = nullptr; u_config_driver_t d = {fr_open, fr_close, fr_gets, k & 2 ? fr_resolv : nullptr}; int rc = u_config_load_from_drv("0", &d, 0, &c); CHECK(f_opt || (rc != 0 && !c), "unbounded", "an endless inclusion loads"); if (c) u_config_free(c); CHECK(f_open == f_close && !f_live && f_open > 20, "closed", "%u sources were opened, %u closed", f_open, f_close); } }
/* a driver need not know how to close, and one that cannot open takes no includes */
static const char *b_main = "a 1\ninclude two\nb 2\n", *b_two = "in 3\n"; static unsigned b_left;
struct Bare { const char *t; };
static int br_open (const char *u, void **a) { static Bare pool[8]; static unsigned k; Bare *x = &pool[k++ % 8]; x->t = strcmp(u, "two") ? b_main : b_two; *a = x; ++b_left; return 0; }
static char *br_gets (void *a, char *b, size_t n) { static Bare alone = {b_main}; Bare *x = a ? (Bare *) a : &alone; if (!*x->t) { alone.t = b_main; return nullptr; } size_t k = strcspn(x->t, "\n") + 1; if (k >= n) return nullptr; memcpy(b, x->t, k); b[k] = 0; x->t += k; return b; }
static void p_bare () { b_left = 0; u_config_t *c = nullptr; u_config_driver_t d = {br_open, nullptr, br_gets, nullptr}; CHECK(u_config_load_from_drv("one", &d, 0, &c) == 0 && c, "refused", "a driver without close"); const char *v; CHECK((v = u_config_get_subkey_value(c, "in")) && !strcmp(v, "3") && (v = u_config_get_subkey_value(c, "b")) && !strcmp(v, "2"), "tree", "keys around the include"); CHECK(b_left == 2, "opened", "%u opened", b_left); u_config_free(c); h::mem::expect_balanced("a driver without close");
    c = nullptr; u_config_driver_t e = {nullptr, nullptr, br_gets, nullptr}; int rc = u_config_load_from_drv("one", &e, 0, &c); CHECK(rc != 0 && !c, "accepted", "an include that nothing can open is ignored"); h::mem::expect_balanced("a driver without open"); }
static void p_grow () { Str t = "a0 xxxxxxxxxxxxxxxx\n"; for (unsigned i = 1; i < (h::memcheck ? 10 : 18); ++i) t += h::fmt("a%u ${a%u}${a%u}\n", i, i - 1, i - 1); u_config_t *c; CHECK(load_text(t, &c) == 0, "grow", "doubling values"); const char *v = u_config_get_subkey_value(c, h::memcheck ? "a9" : "a17"); CHECK(v && strlen(v) == (h::memcheck ? 16u << 9 : 16u << 17), "grow", "length"); u_config_free(c); }
const Probe PROBES[] = { {"deep", p_deep}, {"big", p_big}, {"cycles", p_cycles}, {"grow", p_grow}, {"fresh", p_fresh}, {"bare", p_bare}, {0, 0} };
