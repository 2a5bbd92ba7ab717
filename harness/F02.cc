#include "cfg.h"
/* save, load, compare; exact buffers; unwritable destinations */
static Str skey (Rng &r) { switch (r.below(5)) { case 0: return r.one({"a#b", "#", "##x", "k\\", "k\\#z", "\\", "x}", "y{", "$", "${v", "includes", "-includ", "\"", "=", "\xff\x80", "%s"}); case 1: return r.chance(1, 30) ? Str(r.range(1000, 1050), 'K') : r.text(1 + r.below(6), "abc#\\${}\"=\xe9%"); default: return KEYS[r.below(7)]; } }
static bool keyok (const Str &k) { return !k.empty() && k[0] != '{' && k[0] != '}' && k != "include" && k != "-include"; }
static Str sval (Rng &r) { switch (r.below(6)) { case 0: return r.one({"a # b", "#", "##", "\\", "\\#", "\\\\#", "#x#", "a\\", "{", "}", "{ }", "a  b\tc", "a\rb", "%s%n", "include x", "$", "$ {", "x=y", "0"}); case 1: return r.text(1 + r.below(20), "abc #\\ \t{}.$x\r\xe9"); case 2: return r.chance(1, 6) ? Str(r.range(980, 1060), 'V') + r.text(r.below(30), "ab #\r\\") : r.chance(1, 10) ? r.text(r.range(2000, 5000), "abc #\r\\") : Str("v"); default: return gval(r); } }
static Str norm (Str v) { for (size_t p; (p = v.find("${")) != Str::npos;) v[p] = 'S'; v = trimb(v); while (!v.empty() && strchr(" \t\r", v.back())) v.pop_back(); return v; }
static void build (Rng &r, CN *n, u_config_t *c, unsigned depth, unsigned width)
{   unsigned k = r.below(width + 1); for (unsigned i = 0; i < k; ++i) { Str key; do key = skey(r); while (!keyok(key)); Str v = norm(sval(r)); bool sect = depth && r.chance(1, 3), none = sect || v.empty() || r.chance(1, 12); CN *x = n->add(key); u_config_t *d;
        CHECK(u_config_add_child(c, key.c_str(), &d) == 0, "add", "add_child"); if (!none) { x->hasval = true; x->val = v; CHECK(u_config_set_value(d, v.c_str()) == 0, "set", "set_value '%s'", h::esc(v).c_str()); } else if (r.chance(1, 3)) { const char *nv = r.one({"(null)", "(null)", "", " \t", "${no.such.key}"}); if (nv[0] == '(') nv = nullptr; CHECK(u_config_set_value(d, nv) == 0, "set", "set_value %s", nv ? nv : "NULL"); h::cov("empty-values"); } if (sect) build(r, x, d, depth - 1, width); } }
static void reload (const CN &want, const Str &text, const char *how)
{   u_config_t *c = nullptr; h::Exact e(text, false); int rc = text.empty() ? u_config_create(&c) : u_config_load_from_buf(e.p, text.size(), &c); CHECK(rc == 0, "reload", "what %s wrote is refused: %s", how, h::esc(text, 3000).c_str()); expect_tree(c, &want, "tree", how, text); u_config_free(c);
    c = nullptr; Str path = h::scratch() + "/f02r"; h::put_file(path, text); CHECK(u_config_load_from_file(path.c_str(), &c) == 0, "reload", "what %s wrote is refused from a file", how); expect_tree(c, &want, "tree", how, text); u_config_free(c); h::cov("reloads", 2); }
static void whole (u_config_t *c, Str &s) { for (int i = 0; u_config_t *d = u_config_get_child_n(c, nullptr, i); ++i) { const char *v = u_config_get_value(d); s += "("; s += u_config_get_key(d); s += v ? "\1" : "\2"; if (v) s += v; whole(d, s); s += ")"; } }
static void save (Rng &r, u_config_t *c, const CN &want, Str *out)
{
    static const size_t BIG = 1 << 20; char *big = (char *) malloc(BIG); memset(big, 0x7e, BIG); CHECK(u_config_save_to_buf(c, big, BIG) == 0, "save", "no room in 1 MB"); Str text = big; CHECK(text.size() + 1 < BIG && (unsigned char) big[text.size() + 1] == 0x7e && big[BIG - 1] == 0x7e, "save-extent", "bytes behind the text were touched"); free(big); if (out) *out = text;
    reload(want, text, "save_to_buf");
    size_t tries[] = {text.size() + 1, text.size() + 2, text.size(), text.size() ? text.size() - 1 : 0, r.below(text.size() + 1), text.size() + r.below(100), 1, 0};
    for (size_t sz : tries) { h::Exact b(sz); int rc = u_config_save_to_buf(c, b.p, sz); bool fit = sz > text.size(); CHECK((rc == 0) == fit, "save-size", "%zu bytes of text, room %zu: returns %d", text.size(), sz, rc); if (fit) CHECK(text == b.p, "save-text", "another text in another room"); h::cov(fit ? "saves-that-fit" : "saves-refused"); }
    Str path = h::scratch() + "/f02"; FILE *fp = fopen(path.c_str(), "w"); int lev = r.chance(1, 3) ? (int) r.below(8) : 0; u_config_print_to_fp(c, fp, lev); CHECK(!ferror(fp) && !fclose(fp), "print", "stream error"); Str t2; h::get_file(path, t2); reload(want, t2, "print_to_fp");
    h::sig(want.ch.size()); h::sig(h::szclass(text.size()));
}
static int devfull (u_config_t *c, bool nobuf) { FILE *fp = fopen("/proc/self/mem", "r"); if (fp) { if (nobuf) setvbuf(fp, nullptr, _IONBF, 0); u_config_print_to_fp(c, fp, 0); int e = ferror(fp); fclose(fp); return e; } return 1; }
static const bool lowfd = h::low_fd = true;
void run_case (Rng &r, u64)
{
    CN root; u_config_t *c; CHECK(u_config_create(&c) == 0, "create", "create"); auto fd0 = h::fds();
    if (r.chance(1, 4)) { Str t; for (;;) { t = fresh_text(r); if (r.chance(1, 3)) for (size_t p = 0; (p = t.find("abc", p)) != Str::npos; ++p) t.replace(p, 3, "\\#c"); if (has_directive(t)) continue; Parse p; Reader q; q.t = t; root.clear(); if (p.body(&root, q, false, 0) && !p.unspec && dump(&root).find("${") == Str::npos) { std::function<bool (CN *)> fine = [&] (CN *n) { if (n->up && (!keyok(n->key) || n->key.find('.') != Str::npos || (n->hasval && (n->val.empty() || norm(n->val) != n->val)) || (n->hasval && !n->ch.empty()))) return false; for (CN *x : n->ch) if (!fine(x)) return false; return true; }; if (fine(&root)) break; } }
        h::tr("loaded %s", h::esc(t).c_str()); h::Exact e(t, true); u_config_free(c); CHECK(u_config_load_from_buf(e.p, t.size() + 1, &c) == 0, "load", "correct text refused: %s", h::esc(t, 2000).c_str()); expect_tree(c, &root, "load", "load", t); h::cov("trees-loaded"); }
    else { build(r, &root, c, r.below(5), 1 + r.below(6)); h::tr("built %s", h::esc(dump(&root, -1), 600).c_str()); h::cov("trees-built"); }
    Str was; whole(c, was); Str text; save(r, c, root, &text); size_t n = root.count(); h::sig(n);
    /* an include node is left out; the rest is unchanged */
    if (r.chance(1, 5)) { u_config_t *d; const char *k = r.one({"include", "-include"}); CHECK(u_config_add_child(c, k, &d) == 0 && u_config_set_value(d, "some/file") == 0, "add", "include"); save(r, c, root, nullptr); CHECK(u_config_del_child(c, d) == 0, "del", "include"); h::cov("includes-left-out"); }
    /* a section on its own */
    if (!root.ch.empty()) { size_t i = r.below(root.ch.size()); CN one; one.add("")->copy(*root.ch[i]); u_config_t *d = u_config_get_child_n(c, nullptr, (int) i); CHECK(d, "child", "child %zu is missing", i); save(r, d, one, nullptr); h::cov("sections-saved"); }
    if (n > 1) CHECK(devfull(c, r.chance(1, 2)), "print-error", "printing to a stream that cannot be written leaves no error");
    Str is; whole(c, is); CHECK(is == was, "unchanged", "the tree after saving it is\n%s\ninstead of\n%s", h::esc(is, 2000).c_str(), h::esc(was, 2000).c_str()); u_config_free(c); h::expect_fds(fd0, "saving");
}
static void p_full () { u_config_t *c; CHECK(u_config_create(&c) == 0 && u_config_add_key(c, "a", "1") == 0, "add", "add"); FILE *fp = fopen("/dev/full", "w"); if (fp) { setvbuf(fp, nullptr, _IONBF, 0); u_config_print_to_fp(c, fp, 0); CHECK(ferror(fp), "print-error", "no error on a full device"); fclose(fp); } CHECK(devfull(c, true), "print-error", "no error on a read-only stream"); u_config_free(c); }
static void p_both () { /* a key with a value and children, as dotted keys make it */ u_config_t *c, *d = nullptr; CHECK(u_config_create(&c) == 0 && u_config_add_key(c, "a", "1") == 0 && u_config_add_key(c, "a.b", "2") == 0, "add", "add"); char buf[100]; CHECK(u_config_save_to_buf(c, buf, sizeof buf) == 0, "save", "save"); u_config_free(c); CHECK(u_config_load_from_buf(buf, strlen(buf), &d) == 0, "value-and-children", "a key with both a value and children is saved as a text which loading refuses: %s", h::esc(buf).c_str()); const char *v = u_config_get_subkey_value(d, "a.b"), *w = u_config_get_subkey_value(d, "a"); CHECK(v && w && !strcmp(v, "2") && !strcmp(w, "1"), "value-and-children", "lost"); u_config_free(d); }
static void p_empty () { u_config_t *c; CHECK(u_config_create(&c) == 0, "create", "create"); h::Exact e(1); CHECK(u_config_save_to_buf(c, e.p, 1) == 0 && !e.p[0], "save", "an empty tree needs room for the terminator only"); h::Exact z(0); CHECK(u_config_save_to_buf(c, z.p, 0), "save-size", "room for nothing accepted"); u_config_free(c); }
static void p_large () { Rng r(23); CN root; u_config_t *c, *d, *e; CHECK(u_config_create(&c) == 0, "create", "create"); for (int i = 0; i < 10500; ++i) { Str k = "k" + std::to_string(i), v = i % 1000 == 7 ? Str(17000, 'v') : i == 5000 ? Str(70000, 'w') : "v" + std::to_string(i); CHECK(u_config_add_child(c, k.c_str(), &d) == 0, "add", "add"); CN *x = root.add(k); if (i % 1000 == 3) { CHECK(u_config_add_child(d, "in", &e) == 0 && u_config_set_value(e, v.c_str()) == 0, "add", "add"); x = x->add("in"); } else CHECK(u_config_set_value(d, v.c_str()) == 0, "add", "set"); x->hasval = true; x->val = v; } Str t; save(r, c, root, &t); u_config_free(c); }
const Probe PROBES[] = { {"full", p_full}, {"both", p_both}, {"empty", p_empty}, {"large", p_large}, {0, 0} };
