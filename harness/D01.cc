#include "h.h"
#include <arpa/inet.h>
/* printing and dumping objects shows what they hold and changes nothing */
namespace js {
#include "js.h"
}
namespace uri {
#include "uri.h"
}
namespace cfg {
#include "cfg.h"
}
static std::vector<Str> logged; static int take (void *, int, const char *s) { logged.push_back(s); return 0; }
/* what fn writes to a standard stream */
static Str written (int fd, FILE *f, const std::function<void ()> &fn)
{   fflush(f); int keep = fcntl(fd, F_DUPFD, 100), m = memfd_create("d01", 0); CHECK(keep >= 0 && m >= 0, "setup", "no memfd"); dup2(m, fd); fn(); fflush(f); dup2(keep, fd); close(keep); off_t n = lseek(m, 0, SEEK_END); Str s(n, 0); CHECK(pread(m, &s[0], n, 0) == n, "setup", "memfd"); close(m); h::cov("bytes-shown", n); return s; }
static std::vector<Str> lines (const Str &s) { std::vector<Str> v; size_t a = 0; while (a < s.size()) { size_t e = s.find('\n', a); if (e == Str::npos) e = s.size(); v.push_back(s.substr(a, e - a)); a = e + 1; } return v; }
static size_t count (const Str &s, const Str &x) { size_t n = 0; for (size_t i = s.find(x); i != Str::npos; i = s.find(x, i + x.size())) ++n; return n; }

static void preorder (const js::Node &n, std::vector<const js::Node *> &v) { v.push_back(&n); for (auto &c : n.ch) preorder(c, v); }
static void json (Rng &r)
{   js::Node n; do n = js::gtree(r, r.below(6), true); while (!js::fits(n)); u_json_t *j = js::build(n, &r); if (r.chance(1, 3)) u_json_index(j); Str before = js::encode(j), out = written(2, stderr, [&] { u_json_print(j); }); std::vector<const js::Node *> v; preorder(n, v); auto l = lines(out); static const char *T[] = {"string", "number", "object", "array", "true", "false", "null"};
    h::tr("print the JSON tree %s", h::esc(before).c_str()); h::sig(v.size()); h::sig(out); CHECK(l.size() == v.size(), "json-lines", "%zu nodes are shown in %zu lines", v.size(), l.size());
    for (size_t i = 0; i < v.size(); ++i) { const js::Node &x = *v[i]; Str want = Str(T[x.t]) + " " + x.key + (x.t == js::OBJ || x.t == js::ARR ? "" : x.t == js::STR || x.t == js::NUM ? " : '" + x.val + "'" : " : '"); CHECK(l[i].find(want) != Str::npos, "json-node", "node %zu ('%s') is shown as '%s'", i, h::esc(want).c_str(), h::esc(l[i]).c_str()); h::cov("nodes-shown"); }
    CHECK(js::encode(j) == before, "json-changed", "printing changed the tree"); u_json_free(j); }

static void uris (Rng &r)
{   uri::Uri u; Str t = uri::raw_text(uri::guri(r)); uri::V verdict = uri::read_uri(t, u); if (verdict != uri::ACCEPTED) return; u_uri_t *o = nullptr; CHECK(u_uri_crumble(t.c_str(), U_URI_OPT_NONE, &o) == 0, "uri", "refused"); bool ext = r.chance(1, 2); Str out = written(2, stderr, [&] { u_uri_print(o, ext); }); auto l = lines(out); h::tr("print the URI '%s'%s", h::esc(t).c_str(), ext ? ", extended" : ""); h::sig(t); h::sig(ext);
    size_t shown = 0; auto part = [&] (const char *name, const Str &v, bool may) { if (v.empty() || !may) return; Str want = Str(name) + ": \"" + v + "\""; for (auto &x : l) if (x.find(want) != Str::npos) { ++shown; h::cov("parts-shown"); return; } h::fail("uri-part", "%s '%s' is missing in: %s", name, h::esc(v).c_str(), h::esc(out).c_str()); };
    part("scheme", u.scheme, true); part("userinfo", u.userinfo, true); if (u.userinfo.size()) { part("user", u.user, ext); part("pwd", u.pwd, ext); } part("host", u.host, true); part("port", u.port, true); part("path", u.path, true); part("query", u.query, true); part("fragment", u.fragment, true);
    size_t q = 0; for (auto &x : l) q += x.find('"') != Str::npos; CHECK(q == shown, "uri-extra", "%zu parts are shown, %zu are there: %s", q, shown, h::esc(out).c_str()); u_uri_free(o); }

static void config (Rng &r)
{   Str t = cfg::fresh_text(r); if (cfg::has_directive(t)) return; u_config_t *c = nullptr; if (u_config_load_from_buf(const_cast<char *>(t.c_str()), t.size(), &c) || !c) { return; } h::sig(t); h::tr("print the configuration %s", h::esc(t).c_str()); int lev = r.chance(1, 3) ? r.below(5) : 0;
    char *m = nullptr; size_t n = 0; FILE *fp = open_memstream(&m, &n); u_config_print_to_fp(c, fp, lev); fclose(fp); Str want(m, n); free(m); Str out = written(1, stdout, [&] { u_config_print(c, lev); }); CHECK(out == want, "config-print", "print shows '%s' where print_to_fp writes '%s'", h::esc(out).c_str(), h::esc(want).c_str()); h::cov("configurations-shown"); u_config_free(c); }

static int str_calls; static bool str_fail;
static u_string_t *own_str (u_hmap_o_t *o) { ++str_calls; if (str_fail && str_calls % 3 == 0) return nullptr; u_string_t *s = nullptr; const char *k = (const char *) u_hmap_o_get_key(o); Str t = Str("<") + k + ">"; CHECK(u_string_create(t.c_str(), t.size() + (str_calls & 1), &s) == 0, "setup", "string"); return s; }
static std::set<Str> held; static int hold (const void *k, const void *) { held.insert((const char *) k); return 0; }
static void map (Rng &r)
{   u_hmap_opts_t *o = nullptr; u_hmap_t *m = nullptr; CHECK(u_hmap_opts_new(&o) == 0, "map", "options"); bool vp = r.chance(1, 3), own = r.chance(1, 4), longs = r.chance(1, 5); u_hmap_pcy_type_t pcy = (u_hmap_pcy_type_t) r.one({"\0", "\1", "\2", "\3"})[0]; unsigned kt = r.below(4); int max = 3 + r.below(8);
    if (r.chance(1, 3)) u_hmap_opts_set_type(o, U_HMAP_TYPE_LINEAR); u_hmap_opts_set_policy(o, pcy); u_hmap_opts_set_max(o, max); u_hmap_opts_set_size(o, 1 + r.below(20)); u_hmap_opts_set_val_type(o, vp ? U_HMAP_OPTS_DATATYPE_POINTER : U_HMAP_OPTS_DATATYPE_STRING); if (own) u_hmap_opts_set_strfunc(o, own_str); if (kt == 0) { u_hmap_opts_set_key_type(o, U_HMAP_OPTS_DATATYPE_OPAQUE); u_hmap_opts_set_key_sz(o, 24); }
    /* advanced interface: the map owns what it is given */
    str_calls = 0; str_fail = false; CHECK(u_hmap_new(o, &m) == 0, "map", "new"); std::map<Str, Str> ref; unsigned n = r.below(10);
    for (unsigned i = 0; i < n; ++i) { Str k = h::fmt("k%u", i) + r.text(r.below(6), "%sdn[]: x"), v = h::fmt("v%u", i) + r.text(r.below(8), "%sn[]: x"); if (longs && r.chance(1, 2)) v += Str(r.range(200, 900), '%'); if (k.size() > 20) k.resize(20); char kb[24] = {0}; memcpy(kb, k.c_str(), k.size()); u_hmap_o_t *ob = u_hmap_o_new(m, kb, vp ? (const void *) "p" : v.c_str()), *old = nullptr; CHECK(ob, "map", "object"); int rc = u_hmap_put(m, ob, &old); CHECK(rc == 0, "map", "put %d", rc); ref[k] = vp ? "" : v; h::tr("put %s", k.c_str());  if (r.chance(1, 3)) { u_hmap_o_t *g; u_hmap_get(m, kb, &g); } }
    held.clear(); u_hmap_foreach_keyval(m, hold); for (auto i = ref.begin(); i != ref.end(); ) if (held.count(i->first)) ++i; else i = ref.erase(i); CHECK(ref.size() == held.size(), "map", "unknown keys");
    int count0 = u_hmap_count(m); size_t live = h::mem::live.size(); str_calls = 0; if (own && r.chance(1, 3)) str_fail = true; h::tr("dump a map of %d, policy %d, string function %s", count0, pcy, own ? str_fail ? "failing" : "own" : "library"); h::sig(pcy * 16 + vp * 8 + own * 4 + str_fail * 2 + longs); h::sig(count0); h::sig(kt);
    auto shows = [&] (const char *what, const std::function<void ()> &fn, bool all) { logged.clear(); str_calls = 0; fn(); CHECK(h::mem::live.size() == live, "dump-leak", "%s changes the number of live blocks from %zu to %zu", what, live, h::mem::live.size()); CHECK(u_hmap_count(m) == count0, "dump-changed", "%s changes the count", what); h::cov("dumps");
#ifdef LIB_DEBUG
        Str all_text; for (auto &l : logged) all_text += l + "\n"; if (str_fail || !all) return; size_t big = 0; for (auto &e : ref) big += e.first.size() + e.second.size() + 12; if (big > 700) return; for (auto &e : ref) { Str obj = own ? "<" + e.first + ">" : kt == 0 && vp ? "[]" : kt == 0 ? "[:" + e.second + "]" : "[" + e.first + ":" + e.second + "]"; size_t c = count(all_text, obj); CHECK(obj == "[]" ? c >= ref.size() : c == 1, "dump-object", "%s shows '%s' %zu times in: %s", what, h::esc(obj).c_str(), c, h::esc(all_text).c_str()); h::cov("objects-shown"); }
#else
        CHECK(logged.empty(), "dump-silent", "%s logs '%s' in a build without debugging", what, logged[0].c_str());
#endif
    };
    shows("u_hmap_dbg", [&] { u_hmap_dbg(m); }, true); shows("u_hmap_pcy_dbg", [&] { u_hmap_pcy_dbg(m); }, pcy != U_HMAP_PCY_NONE); shows("u_hmap_opts_dbg", [&] { u_hmap_opts_dbg(o); }, false);
    for (auto &e : ref) { char kb[24] = {0}; memcpy(kb, e.first.c_str(), e.first.size()); u_hmap_o_t *g = nullptr; CHECK(u_hmap_get(m, kb, &g) == 0 && g && (vp || e.second == (const char *) u_hmap_o_get_val(g)), "dump-changed", "'%s' is not the same after the dumps", e.first.c_str()); }
    u_hmap_free(m); u_hmap_opts_free(o); }
void run_case (Rng &r, u64 n) { u_log_set_hook(take, nullptr, nullptr, nullptr); switch (n % 5) { case 0: json(r); break; case 1: uris(r); break; case 2: config(r); break; default: map(r); } }
static void p_null () { u_json_print(nullptr); u_hmap_dbg(nullptr); u_hmap_pcy_dbg(nullptr); u_hmap_opts_dbg(nullptr); }
const Probe PROBES[] = {{"nothing-to-dump", p_null}, {nullptr, nullptr}};
