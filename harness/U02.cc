#include "uri.h"
/* composing and splitting are inverse */
static Str knead (u_uri_t *o) { h::Exact b((size_t) U_URI_STRMAX); CHECK(u_uri_knead(o, b.p) == 0, "compose", "composing fails"); Str s = b.p; h::Exact c((size_t) U_URI_STRMAX); CHECK(u_uri_knead(o, c.p) == 0 && s == c.p, "compose-again", "composing again gives '%s' after '%s'", h::esc(c.p).c_str(), h::esc(s).c_str()); h::cov("composed"); return s; }
static bool fits (const Uri &u) { for (const Str *s : {&u.scheme, &u.userinfo, &u.host, &u.port, &u.path, &u.query, &u.fragment}) if (s->size() > U_TOKEN_SZ - 3) return false; return true; }
typedef int (*Set) (u_uri_t *, const char *); typedef const char *(*Get) (u_uri_t *);
static bool set (u_uri_t *o, Set s, Get g, const Str &v, const char *name) { Str old = g(o); h::Exact e(v); int rc = s(o, e.p); memset(e.p, 'Z', e.n); if (v.size() < U_TOKEN_SZ) { CHECK(rc == 0, "set", "setting a %s of %zu fails", name, v.size()); CHECK(Str(g(o)) == v, "set-value", "the %s set to '%s' reads '%s'", name, h::esc(v).c_str(), h::esc(g(o)).c_str()); return true; }
    CHECK(rc != 0, "set-long", "setting a %s of %zu succeeds", name, v.size()); CHECK(Str(g(o)) == old, "set-failed", "a refused %s changed the old one", name); h::cov("over-long-refused"); return false; }
#define SET(f, v) set(o, u_uri_set_##f, u_uri_get_##f, v, #f)
static void back (const Str &s, const Uri &w) { u_uri_t *q = nullptr; h::Exact e(s); CHECK(u_uri_crumble(e.p, U_URI_OPT_NONE, &q) == 0, "split", "the composed '%s' is refused", h::esc(s).c_str()); same_parts(q, w, s); h::cov("round-trips"); u_uri_free(q); }
static void settle (Uri &u) { size_t k = u.userinfo.find(':'); u.user = u.userinfo.substr(0, k); u.pwd = k == Str::npos ? "" : u.userinfo.substr(k + 1); u.ip = u.literal || dotted(u.host); }
static void compose (Rng &r)
{
    u_uri_t *o = nullptr; Uri u = guri(r); CHECK(u_uri_new(U_URI_OPT_NONE, &o) == 0 && o, "new", "no new URI"); CHECK(GET(path) == "/", "default-path", "the path of a new URI is '%s'", GET(path).c_str());
    if (u.literal && u.host.find(':') == Str::npos) { u.host = "v1." + u.host + ":"; }
    if (r.chance(1, 6)) u.path = gpath(r, true, true); if (r.chance(1, 20)) u.path.insert(0, "//");
    unsigned how = r.below(4); if (!u.has_auth) { u.host = u.port = u.userinfo = ""; u.literal = false; }
    if (r.chance(1, 8) && u.has_auth) u.host = "", u.literal = false; /* an authority without a host */
    settle(u); bool sp = !r.chance(1, 10) || u.path.compare(0, 1, "/") != 0;
    h::tr("compose how=%u '%s'", how, h::esc(raw_text(u)).c_str());
    std::vector<std::function<bool ()>> st; Uri w = u;
    st.push_back([&] { return SET(scheme, u.scheme); });
    if (sp) st.push_back([&] { return SET(path, u.path); }); else w.path = u.path = "/";
    if (u.query.size() || r.chance(1, 2)) st.push_back([&] { return SET(query, u.query); });
    if (u.fragment.size() || r.chance(1, 2)) st.push_back([&] { return SET(fragment, u.fragment); });
    Str au = authority_of(u); bool by_auth = how == 0 && au.size() && au.size() < U_TOKEN_SZ;
    if (by_auth) st.push_back([&] { return SET(authority, au); });
    else { st.push_back([&] { return SET(host, u.host); }); if (u.port.size()) st.push_back([&] { return SET(port, u.port); });
        if (how == 1) { if (u.user.size()) st.push_back([&] { return SET(user, u.user); }); if (u.pwd.size()) st.push_back([&] { return SET(pwd, u.pwd); }); if (u.pwd.empty()) w.userinfo = u.user; }
        else if (u.userinfo.size()) st.push_back([&] { return SET(userinfo, u.userinfo); }); }
    for (size_t i = st.size(); i > 1; --i) std::swap(st[i - 1], st[r.below(i)]);
    bool all = true; for (auto &f : st) if (!f()) all = false;
    settle(w); if (w.user.empty() && w.pwd.empty() && how == 1) w.userinfo = "";
    w.has_auth = w.host.size() || w.port.size() || w.userinfo.size() || w.path.compare(0, 2, "//") == 0;
    if (w.has_auth && w.path.size() && w.path[0] != '/') w.path.insert(0, "/"); /* as documented */
    if (all) { Str s = knead(o), want = recompose(w); CHECK(s == want, "composed-text", "composed '%s', expected '%s'", h::esc(s).c_str(), h::esc(want).c_str()); if (fits(w)) back(s, w); h::sig(how | w.has_auth << 4); h::sig(h::szclass(w.host.size()) << 8 | h::szclass(w.path.size())); }
    else { (void) knead(o); h::sig(99); }
    u_uri_free(o);
}
static void split_first (Rng &r)
{
    Uri u = guri(r); Str t = raw_text(u); Uri w; V v = read_uri(t, w); if (v != ACCEPTED) { h::sig(7); return; }
    u_uri_t *o = nullptr; h::Exact e(t); CHECK(u_uri_crumble(e.p, r.chance(1, 6) ? U_URI_OPT_DONT_PARSE_USERINFO : U_URI_OPT_NONE, &o) == 0, "split", "'%s' is refused", h::esc(t).c_str()); h::tr("split '%s'", h::esc(t).c_str());
    Str s = knead(o), want = recompose(w); CHECK(s == want, "recomposed", "'%s' is split and composed as '%s', expected '%s'", h::esc(t).c_str(), h::esc(s).c_str(), h::esc(want).c_str()); back(s, w); h::sig(w.has_auth | w.literal << 1 | w.has_q << 2 | w.has_f << 3 | w.has_ui << 4 | w.has_port << 5);
    /* replace parts and compose again */
    for (unsigned i = r.below(4); i > 0; --i) { Uri x = guri(r); unsigned k = r.below(7); h::sig(k);
        switch (k) { case 0: if (!x.scheme.empty() && SET(scheme, x.scheme)) w.scheme = x.scheme; break; case 1: if (SET(query, x.query)) w.query = x.query; break; case 2: if (SET(fragment, x.fragment)) w.fragment = x.fragment; break;
            case 3: { Str p = gpath(r, true); if (SET(path, p)) w.path = p; break; } case 4: if (SET(port, x.port)) w.port = x.port; break; case 5: if (x.userinfo.size() && SET(userinfo, x.userinfo)) { w.userinfo = x.userinfo; } break;
            case 6: { bool l; Str hs = ghost(r, l); if (l && hs.find(':') == Str::npos) break; if (SET(host, hs)) { w.host = hs; w.literal = l; } break; } } }
    w.has_auth = w.has_auth || w.host.size() || w.port.size() || w.userinfo.size() || w.path.compare(0, 2, "//") == 0; settle(w); if (w.has_auth && w.path.size() && w.path[0] != '/') w.path.insert(0, "/");
    s = knead(o); want = recompose(w); CHECK(s == want, "edited", "after edits '%s' is composed, expected '%s'", h::esc(s).c_str(), h::esc(want).c_str()); if (fits(w)) { back(s, w); h::cov("edited-round-trips"); }
    u_uri_free(o);
}
void run_case (Rng &r, u64 n) { if (n % 2) compose(r); else split_first(r); }
static void p_documented () { u_uri_t *o = nullptr; CHECK(u_uri_new(0 ? U_URI_OPT_DONT_PARSE_USERINFO : U_URI_OPT_NONE, &o) == 0, "new", "new"); SET(scheme, "http"); SET(authority, "www.ietf.org"); SET(path, "rfc/rfc3986.txt"); CHECK(knead(o) == "http://www.ietf.org/rfc/rfc3986.txt", "documented-example", "the documented example gives %s", knead(o).c_str()); u_uri_free(o); o = nullptr; CHECK(u_uri_crumble("ftp://ftp.is.co.za/rfc/rfc1808.txt", U_URI_OPT_NONE, &o) == 0, "split", "documented URI refused"); CHECK(GET(authority) == "ftp.is.co.za", "documented-example", "its authority is %s", GET(authority).c_str()); u_uri_free(o); }
static void p_full () { u_uri_t *o = nullptr; CHECK(u_uri_new(U_URI_OPT_NONE, &o) == 0, "new", "new"); Str x(U_TOKEN_SZ - 1, 'x'); SET(scheme, x); SET(userinfo, x); SET(host, x); SET(port, x); SET(path, x); SET(query, x); SET(fragment, x); CHECK(knead(o) == x + "://" + x + "@" + x + ":" + x + "/" + x + "?" + x + "#" + x, "full", "the longest URI is composed wrong"); u_uri_free(o); }
const Probe PROBES[] = { {"documented-examples", p_documented}, {"longest", p_full}, {0, 0} };
