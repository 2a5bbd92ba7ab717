#include "cfg.h"
/* one text through every loader, against the independent reader */
struct Mem { const char *p; size_t left; unsigned style; Rng *r; };
static char *mem_gets (void *arg, char *buf, size_t sz) { Mem *m = (Mem *) arg; CHECK(sz > 1, "gets-size", "a reader got room for %zu bytes", sz); if (!m->left) return nullptr; size_t n = 0; while (n + 1 < sz && m->left) { char c = *m->p++; --m->left; buf[n++] = c; if (c == '\n') break; } buf[n] = 0; h::cov("reader-calls"); return buf; }
static Mem *dm; static unsigned dopen, dclose; static int d_open (const char *uri, void **arg) { CHECK(!strcmp(uri, "the-source"), "driver-uri", "%s", uri); ++dopen; *arg = dm; return 0; } static int d_close (void *a) { CHECK(a == dm, "driver-arg", "close"); ++dclose; return 0; }
static void judge (Rng &r, const Str &t, bool strict)
{
    for (int over = 0; over < 2; ++over) { CN root; Parse p; p.over = over; Reader q; q.t = t; bool ok = p.body(&root, q, false, 0); if (p.unspec || p.deepest > 100) { h::cov("unspecified-texts"); continue; } if (strict) CHECK(ok, "harness", "the generator made a broken text: %s", h::esc(t, 3000).c_str());
        h::Exact e(t, false), z(t, true); Str path = h::scratch() + "/f01"; auto fd0 = h::fds(); h::put_file(path, t); int verdict[6]; u_config_t *c;
        for (int how = 0; how < 7; ++how) { c = nullptr; int rc = -9; Mem m = {e.p, t.size(), 0, &r}; bool fits = true; const char *n = "?";
            switch (how) { case 0: n = "load_from_file"; if (over) continue; rc = u_config_load_from_file(path.c_str(), &c); break;
                case 1: { n = "load"; int fd = open(path.c_str(), O_RDONLY); CHECK(u_config_create(&c) == 0, "create", "create"); rc = u_config_load(c, fd, over); CHECK(fcntl(fd, F_GETFD) != -1, "fd-closed", "the caller's descriptor was closed"); close(fd); break; }
                case 2: n = "load_from_buf"; if (over || t.empty()) continue; rc = u_config_load_from_buf(e.p, t.size(), &c); break;
                case 3: n = "load_from_buf with terminator"; if (over) continue; rc = u_config_load_from_buf(z.p, t.size() + 1, &c); break;
                case 4: n = "load_from"; CHECK(u_config_create(&c) == 0, "create", "create"); rc = u_config_load_from(c, mem_gets, &m, over); break;
                case 5: { n = "load_from_drv"; u_config_driver_t d = {d_open, d_close, mem_gets, nullptr}; dm = &m; dopen = dclose = 0; rc = u_config_load_from_drv("the-source", &d, over, &c); CHECK(dopen == 1 && dclose == 1, "driver-close", "opened %u times, closed %u times", dopen, dclose); break; }
                case 6: { n = "load_from_drv without open or close"; bool o = r.chance(1, 2); static bool have; have = o; u_config_driver_t d = {o ? d_open : nullptr, nullptr, [] (void *a, char *b, size_t k) { CHECK(have || !a, "driver-arg", "a reader without open got %p", a); return mem_gets(dm, b, k); }, nullptr}; dm = &m; rc = u_config_load_from_drv("the-source", &d, over, &c); h::cov("bare-drivers"); break; } }
            (void) fits; (void) verdict; CHECK((rc == 0) == ok, ok ? "refused" : "accepted", "%s (overwrite %d) returns %d for a %s text: %s", n, over, rc, ok ? "correct" : "broken", h::esc(t, 1500).c_str());
            if (ok) expect_tree(c, &root, "tree", n, t); else if (how == 0 || how == 2 || how == 3 || how >= 5) CHECK(!c, "result", "a tree came from a refused text"); if (c) u_config_free(c); h::expect_fds(fd0, n); h::cov(ok ? "loads" : "refusals"); }
        h::sig(ok); h::sig(root.count()); h::sig(p.deepest); h::sig(h::szclass(t.size())); h::sig(over); }
}
static const bool lowfd = h::low_fd = true;
void run_case (Rng &r, u64 n)
{
    Str t = fresh_text(r); bool broken = r.chance(1, 3); if (broken) { mutate(r, t); for (char &c : t) if (!c) c = ' '; } else if (r.chance(1, 15)) { /* long lines around the chunk size */ Str k = gkey(r), v(r.range(1000, 1040) - k.size() + (r.chance(1, 3) ? 1023 * r.below(4) : 0), 'L'); for (int i = 0; i < 6; ++i) v[r.below(v.size())] = r.ch(" \r\tab"); t += "\n" + k + " x" + v + r.one({"\n", "\r\n", "", "#c\n", "  \n"}); }
    if (has_directive(t)) { for (size_t p; (p = t.find("include")) != Str::npos;) t[p] = 'X'; } h::tr("%s", h::esc(t, 300).c_str()); judge(r, t, false);
}
static void p_widths () { Rng r(5); for (size_t w = 1000; w < 3200; w += (w > 1060 && w < 2030) || w > 2090 ? 61 : 1) for (const char *e : {"\n", "\r\n", "", "\r", "\n\n", " \n", "#\n"}) { Str k = "k ", v(w - 2, 'v'); judge(r, k + v + e, true); judge(r, k + v + e + "b 2" + e, true); v[v.size() / 2] = '\r'; judge(r, k + v + e, true); Str b(w, ' '); judge(r, b + "k v" + b + e, true); judge(r, "# " + b + "x y" + e + "c 1\n", true); Str hs(w, '#'); judge(r, "k v" + hs + e, true); judge(r, Str(w, 'k') + " v" + e, true); judge(r, Str(w, 'k') + "\n{\nb 2\n}" + e, true); } }
static void p_examples ()
{
    Rng r(6); judge(r, "last_name   blues\n\ntype    musician\n\n# elwood's brother\nname\n{\n    first   joliet\n    middle  jake\n    last    ${last_name}    # use substitution\n}\n\naddress city of chicago\n", true); judge(r, "name.first  joliet\nname.middle jake\nname.last   blues\n", true);
    for (const char *t : {"a 1", "a 1\n", "", "\n", "#", "# x", "a \\#1\n", "a 1\\#2#3\n", "a \\\\#x\n", "\\#k v\n", "s\n{\n}\n", "s\n{\n}", "s\n\n#c\n{\n  a 1\n}\n", "s\r\n{\r\na 1\r\n}\r\n", "a { b\n", "a\tb\tc\n", " \t a \t b c \t \n", "a 1\na 2\na 3\n", "a.b 1\na.b 2\na.c 3\n", "s\n{\na 1\n}\ns\n{\na 2\n}\n", "a x\nb ${a}${a}\nc ${b}-${nope}.\n", "a 1\ns\n{\na 2\nb ${a}\n}\n", "s\n{\nt\n{\nu 1\n}\n}\nv ${s.t.u}\n"}) judge(r, t, true);
    for (const char *t : {"{\n}\n", "}\n", "a 1\n{\n}\n", "s\n{ x\n}\n", "s\n{\n} x\n", "s\n{\na 1\n", "s\n{\n", "s\n{\n}\n}\n", "a ${b\n", "s\n{\ns\n{\n}\n", "s\nb 1\n{\n}\n", "s {\na 1\n}\n"}) { CN root; Parse p; Reader q; q.t = t; CHECK(!p.body(&root, q, false, 0), "harness", "oracle accepts %s", t); judge(r, t, false); } }
static void p_depth () { Rng r(7); for (unsigned d : {1, 5, 19, 20, 21, 60, 99, 100}) { Str o, c, k; for (unsigned i = 0; i < d; ++i) k += "s."; judge(r, k + "k v\n" + k + "k w\n" + k + "l v\n", true); for (unsigned i = 0; i < d; ++i) { o += "s\n{\n"; c += "}\n"; } judge(r, o + "k v\n" + c, true); judge(r, o + "k v\n" + c + "}\n", false); judge(r, o + "k v\n" + c.substr(2), false); } }
static void p_large () { Rng r(22); Str t; for (int i = 0; i < 10500; ++i) switch (i % 7) { case 3: t += h::fmt("s%d\n{\n  a %d\n}\n", i, i); break; case 5: t += h::fmt("# line %d\n\n", i); break; default: t += h::fmt("k%d value number %d\n", i, i); } judge(r, t, true); for (size_t n : {20000, 70000}) { Str v(n, 'v'); v[n / 2] = ' '; judge(r, "a 1\nk " + v + "\nb " + v + " # " + v + "\n" + Str(n, 'k') + " x\n# " + v + "\nc 2\n", true); judge(r, "s\n{\nk " + v + "\n}\n", true); judge(r, "k " + v, true); } }
const Probe PROBES[] = { {"widths", p_widths}, {"examples", p_examples}, {"depth", p_depth}, {"large", p_large}, {0, 0} };
