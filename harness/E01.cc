#include "h.h"
extern "C" char **environ;
/* environment files evaluated by the real shell; the generator knows what each one exports */
typedef std::map<Str, Str> Env;
static Env snapshot () { Env e; for (char **p = environ; p && *p; ++p) { const char *q = strchr(*p, '='); if (q) { Str n(*p, q - *p); CHECK(!e.count(n), "twice", "variable %s is twice in the environment", n.c_str()); e[n] = q + 1; } } return e; }
static Str quote (Rng &r, const Str &v) { unsigned k = r.below(3); if (k == 0) { bool plain = !v.empty(); for (char c : v) if (!isalnum((unsigned char) c) && !strchr("_./:,+-", c)) plain = false; if (plain) return v; } if (k == 1) { Str o = "\""; for (char c : v) { if (strchr("\"\\$`", c)) o += '\\'; o += c; } return o + "\""; } Str o = "'"; for (char c : v) { if (c == '\'') o += "'\\''"; else o += c; } return o + "'"; }
static Str value (Rng &r, const Str &pfx)
{
    switch (r.below(12)) {
        case 0: return ""; case 1: { size_t n = r.size({1010, 1023, 1024, 2048, 4096}, 9000); h::cov("long-values"); return r.text(n, "abcdefghij =_"); }
        case 2: case 3: { Str v; for (unsigned i = 1 + r.below(4); i-- > 0;) { v += r.chance(1, 2) ? pfx + r.one({"A=forged", "B", "FORGED=1", "=x"}) : r.text(r.below(20), "xyz= "); v += "\n"; } if (r.chance(1, 2)) v += r.text(r.below(9), "pqr"); h::cov("values-of-several-lines"); return v; }
        case 4: return r.one({"a=b", "=", "==x", "a b  c", " lead", "trail ", "\ttab", "it's", "\"q\"", "$HOME", "`id`", "\\n", "*", "#no", "a;b", "%s%n", "tip", "&& false"});
        case 5: { Str s; for (size_t i = 1 + r.below(30); i-- > 0;) { unsigned char c = 1 + r.below(255); s += (char) c; } return s; }
        default: return r.text(1 + r.below(40), "abcXYZ019_-./:"); }
}
static unsigned fileno_;
static const bool lowfd = h::low_fd = true;
void run_case (Rng &r, u64 n)
{
    Str pfx = r.one({"PFX_", "PFX_", "PFX_", "PX", "APP__", "x"}); const char *names[] = {"A", "B", "VAR1", "LONG_NAME_9", "a", "", "C", "D"}; Env want, extra; std::vector<Str> mine; Str s; std::map<Str, Str> plain; /* set, not exported */ bool fails = false; auto fd0 = h::fds();
    /* the environment before */
    clearenv(); setenv("PATH", "/usr/bin:/bin", 1); setenv("HOME", "/nowhere", 1); if (r.chance(1, 2)) setenv("OTHER", value(r, pfx).c_str(), 1); if (r.chance(1, 3)) { Str nm = pfx + "A"; setenv(nm.c_str(), "before", 1); } if (r.chance(1, 3)) { Str nm = pfx + "KEPT"; setenv(nm.c_str(), value(r, pfx).c_str(), 1); } Env before = snapshot(); want = before; Env cur = before; /* what the shell has */ std::set<Str> exported; for (auto &x : before) exported.insert(x.first);
    auto nm = [&] (bool in) { Str x = in ? pfx + names[r.below(8)] : Str(r.one({"OTHER", "Q_", "TMPV", "ZED"})) + names[r.below(8)]; if (!in && x.compare(0, pfx.size(), pfx) == 0) x = "Z" + x; return x; };
    unsigned lines = r.below(9); for (unsigned i = 0; i < lines; ++i) switch (r.below(12)) {
        case 0: case 1: case 2: case 3: { Str a = nm(r.chance(4, 5)), v = value(r, pfx); if (r.chance(1, 3)) s += a + "=" + quote(r, v) + "\nexport " + a + "\n"; else { s += "export " + a + "=" + quote(r, v) + "\n"; } cur[a] = v; exported.insert(a); break; }
        case 4: { Str a = nm(true), v = value(r, pfx); s += a + "=" + quote(r, v) + "\n"; cur[a] = v; h::cov("unexported"); break; }
        case 5: { Str a = nm(true); long x = r.below(100000), y = 1 + r.below(1000); s += h::fmt("export %s=$((%ld * %ld))\n", a.c_str(), x, y); cur[a] = std::to_string(x * y); exported.insert(a); break; }
        case 6: { Str a = nm(true), v = value(r, pfx); bool c = r.chance(1, 2); s += h::fmt("if [ %d = 1 ]; then\nexport %s=%s\nfi\n", c, a.c_str(), "X"); (void) v; if (c) { cur[a] = "X"; exported.insert(a); } break; }
        case 7: s += "echo " + quote(r, pfx + "NOISE=1") + "\n"; h::cov("noise"); break;
        case 8: s += "echo " + quote(r, pfx + "NOISE=1") + " >&2\n"; break;
        case 9: { s += "# " + r.text(r.below(20), "abc =$'") + "\n\n"; break; }
        case 10: { Str a = nm(true), b = nm(true); if (cur.count(a)) { s += "export " + b + "=\"$" + a + "/x\"\n"; cur[b] = cur[a] + "/x"; exported.insert(b); } break; }
        default: { Str a = nm(true); if (!before.count(a)) { s += "unset " + a + "\n"; cur.erase(a); exported.erase(a); } else { Str p = h::scratch() + "/inc" + std::to_string(++fileno_); h::put_file(p, "export " + a + "=included\n"); s += ". " + p + "\n"; cur[a] = "included"; } break; } }
    s += r.one({":\n", "true\n", "Z9=1\n", ":"});
    /* failures */
    if (r.chance(1, 6)) { fails = true; switch (r.below(4)) { case 0: s += "\nfalse\n"; break; case 1: s += "\nif then (\n"; break; case 2: s += "\nexit 3\n"; break; default: s += "\n. /no/such/file\n"; } h::cov("failing-files"); }
    Str dir = h::scratch(), base = r.one({"conf", "my conf", "a'b", "a$HOME", "x;y", "c`d`", "-e", "~x", "*", "q\"q", "a\\b", "(z)", "#h"}); base += std::to_string(++fileno_); Str path = dir + "/" + base; h::put_file(path, s); if (base[0] != 'c') h::cov("odd-file-names"); bool rel = r.chance(1, 3); if (rel) { if (chdir(dir.c_str())) _exit(70); path = base; }
    bool missing = r.chance(1, 20), isdir = !missing && r.chance(1, 30), nofd = !missing && !isdir && !h::memcheck && r.chance(1, 20); if (missing) path += ".none"; if (isdir) path = dir; if (missing || isdir) fails = true;
    for (auto &x : cur) if (exported.count(x.first) && x.first.compare(0, pfx.size(), pfx) == 0) want[x.first] = x.second;
    struct rlimit rl, was; if (nofd) { getrlimit(RLIMIT_NOFILE, &was); rl = was; rl.rlim_cur = fd0.rbegin()->first + 1; setrlimit(RLIMIT_NOFILE, &rl); fails = true; h::cov("no-descriptors"); }
    h::tr("prefix %s file %s%s: %s", pfx.c_str(), h::esc(path).c_str(), fails ? " (failing)" : "", h::esc(s).c_str()); h::Exact pb(path), xb(pfx); int rc = u_env_init(xb.p, pb.p); if (nofd) setrlimit(RLIMIT_NOFILE, &was); if (rel && chdir("/")) _exit(70);
    h::expect_fds(fd0, "loading the environment"); int st; CHECK(waitpid(-1, &st, WNOHANG) == -1 && errno == ECHILD, "child", "a child process is left behind"); h::mem::expect_balanced("loading the environment");
    Env after = snapshot(); if (fails) { CHECK(rc != 0, "verdict", "a %s file is reported loaded", missing ? "missing" : "failing"); for (auto &x : before) CHECK(after.count(x.first), "others", "%s vanished", x.first.c_str()); }
    else { CHECK(rc == 0, "verdict", "loading returns %d", rc); for (auto &x : want) { CHECK(after.count(x.first), "missing", "%s is not set", x.first.c_str()); CHECK(after[x.first] == x.second, "value", "%s is \"%s\" instead of \"%s\"", x.first.c_str(), h::esc(after[x.first]).c_str(), h::esc(x.second).c_str()); const char *g = u_env_var(x.first.c_str()); CHECK(g && x.second == g, "getter", "reading %s", x.first.c_str()); } for (auto &x : after) CHECK(want.count(x.first), "invented", "%s=\"%s\" appeared", h::esc(x.first).c_str(), h::esc(x.second).c_str()); h::cov("variables-checked", after.size()); }
    CHECK(u_env_var("NO_SUCH_VARIABLE") == nullptr, "absent", "an absent variable has a value"); h::sig(want.size()); h::sig(fails * 4 + rel * 2 + missing); h::sig(s.size()); h::sig(pfx);
}
static void p_args () { CHECK(u_env_init(nullptr, "/dev/null") != 0 && u_env_init("X", nullptr) != 0 && u_env_init("X", "") != 0, "args", "nothing is accepted"); }
/* many and huge variables: more than a pipe holds */
static void p_volume () { Str p = h::scratch() + "/big", s; Env w; Rng r(h::seed); for (int i = 0; i < 400; ++i) { Str v = r.text(1 + r.below(900), "abcdef "); Str k = "BIG_" + std::to_string(i); w[k] = v; s += "export " + k + "='" + v + "'\n"; } for (int i = 0; i < 3; ++i) { Str v = r.text(60000, "xyz"); Str k = "BIG_H" + std::to_string(i); w[k] = v; s += "export " + k + "='" + v + "'\n"; } h::put_file(p, s); clearenv(); setenv("PATH", "/usr/bin:/bin", 1); CHECK(u_env_init("BIG_", p.c_str()) == 0, "volume", "loading fails"); for (auto &x : w) { const char *g = u_env_var(x.first.c_str()); CHECK(g && x.second == g, "volume", "%s differs", x.first.c_str()); } }
const Probe PROBES[] = { {"args", p_args}, {"volume", p_volume}, {0, 0} };
