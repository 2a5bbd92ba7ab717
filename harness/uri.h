/* Independent reading of RFC 3986 (scheme required) and a generator of URIs. */
#ifndef URI_H
#define URI_H
#include "h.h"
#include <arpa/inet.h>
struct Uri { Str scheme, userinfo, user, pwd, host, port, path, query, fragment; bool has_auth = false, has_ui = false, has_port = false, has_q = false, has_f = false, literal = false, ip = false; };
enum V { REFUSED, ACCEPTED, EITHER };
static bool unres (unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '-' || c == '.' || c == '_' || c == '~'; }
static bool subd (char c) { return c && strchr("!$&'()*+,;=", c); }
static bool xd (unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool run_of (const Str &s, const char *extra) { for (size_t i = 0; i < s.size(); ++i) { char c = s[i]; if (c == '%') { if (i + 2 >= s.size() || !xd(s[i + 1]) || !xd(s[i + 2])) return false; i += 2; } else if (!unres(c) && !subd(c) && !(c && strchr(extra, c))) return false; } return true; }
static bool dotted (const Str &s) { int parts = 0; size_t i = 0; for (;;) { size_t j = i; int v = 0; while (j < s.size() && s[j] >= '0' && s[j] <= '9' && j - i < 4) v = v * 10 + s[j++] - '0'; if (j == i || j - i > 3 || v > 255 || (j - i > 1 && s[i] == '0')) return false; ++parts; if (j == s.size()) return parts == 4; if (s[j] != '.') return false; i = j + 1; } }
static V read_uri (const Str &t, Uri &u, bool split_ui = true)
{
    size_t c = t.find(':'); if (c == Str::npos || c == 0) return REFUSED; u.scheme = t.substr(0, c);
    for (size_t i = 0; i < c; ++i) { unsigned char x = t[i]; bool al = (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z'); if (!al && (i == 0 || !((x >= '0' && x <= '9') || x == '+' || x == '-' || x == '.'))) return REFUSED; }
    Str rest = t.substr(c + 1); size_t k;
    if ((k = rest.find('#')) != Str::npos) { u.has_f = true; u.fragment = rest.substr(k + 1); rest.resize(k); }
    if ((k = rest.find('?')) != Str::npos) { u.has_q = true; u.query = rest.substr(k + 1); rest.resize(k); }
    bool odd = false;
    if (rest.compare(0, 2, "//") == 0) {
        u.has_auth = true; size_t e = rest.find('/', 2); Str a = rest.substr(2, e == Str::npos ? Str::npos : e - 2); u.path = e == Str::npos ? "" : rest.substr(e);
        if ((k = a.find('@')) != Str::npos) { u.has_ui = true; u.userinfo = a.substr(0, k); a.erase(0, k + 1); if (!run_of(u.userinfo, ":")) return REFUSED; }
        if (a.compare(0, 1, "[") == 0) { k = a.find(']'); if (k == Str::npos || k == 1) return REFUSED; u.host = a.substr(1, k - 1); u.literal = u.ip = true; if (!run_of(u.host, ":@")) return REFUSED;
            char b[16]; bool v6 = inet_pton(AF_INET6, u.host.c_str(), b) == 1, vf = false; size_t d = u.host.find('.');
            if ((u.host[0] == 'v' || u.host[0] == 'V') && d != Str::npos && d > 1 && d + 1 < u.host.size()) { vf = true; for (size_t i = 1; i < d; ++i) if (!xd(u.host[i])) vf = false; for (size_t i = d + 1; i < u.host.size(); ++i) if (!unres(u.host[i]) && !subd(u.host[i]) && u.host[i] != ':') vf = false; }
            if (!v6 && !vf && u.host != "*") odd = true; a.erase(0, k + 1); if (a.size() && a[0] != ':') return REFUSED; }
        else { k = a.find(':'); u.host = a.substr(0, k); a.erase(0, u.host.size()); if (!run_of(u.host, "")) return REFUSED; u.ip = dotted(u.host); }
        if (a.size()) { u.has_port = true; u.port = a.substr(1); for (unsigned char x : u.port) { if (x == '~' || !(unres(x) || x == '*')) return REFUSED; if (x == '*' && u.port != "*") odd = true; } }
    } else u.path = rest;
    if (!run_of(u.path, ":@/") || !run_of(u.query, ":@/?") || !run_of(u.fragment, ":@/?")) return REFUSED;
    if (split_ui) { k = u.userinfo.find(':'); u.user = u.userinfo.substr(0, k); if (k != Str::npos) u.pwd = u.userinfo.substr(k + 1); }
    for (const Str *s : {&u.scheme, &u.userinfo, &u.host, &u.port, &u.path, &u.query, &u.fragment}) { if (s->size() >= U_TOKEN_SZ) return REFUSED; if (s->size() > U_TOKEN_SZ - 3) odd = true; }
    return odd ? EITHER : ACCEPTED;
}
static Str authority_of (const Uri &u) { Str s; if (u.userinfo.size()) s += u.userinfo + "@"; s += u.literal ? "[" + u.host + "]" : u.host; if (u.port.size()) s += ":" + u.port; return s; }
/* the text of the URI with empty delimited components left out */
static Str recompose (const Uri &u) { Str s = u.scheme + ":"; if (u.has_auth) s += "//" + authority_of(u); s += u.path; if (u.query.size()) s += "?" + u.query; if (u.fragment.size()) s += "#" + u.fragment; return s; }

static size_t glen (Rng &r) { return r.chance(1, 40) ? r.size({124, 125, 126, 127, 128, 129, 255, 256}, 300) : r.chance(1, 6) ? r.below(30) : r.below(7); }
static Str chars (Rng &r, size_t n, const char *extra) { Str s; Str set = Str("abcXYZ019-._~!$&'()*+,;=") + extra; while (s.size() < n) { if (n - s.size() >= 3 && r.chance(1, 8)) { s += '%'; s += r.ch("0123456789abcdefABCDEF"); s += r.ch("0123456789abcdefABCDEF"); } else s += r.chance(1, 2) ? r.ch("abcdexyz0123456789") : set[r.below(set.size())]; } return s; }
static Str gscheme (Rng &r) { if (r.chance(1, 2)) return r.one({"http", "tcp4", "ftp", "mailto", "urn", "file", "a", "coap+tcp", "x-y.z1"}); Str s(1, r.ch("abczABCZ")); return s + r.text(glen(r), "abzABZ019+-."); }
static Str ghost (Rng &r, bool &lit) { lit = false; switch (r.below(9)) {
    case 0: lit = true; return r.one({"::1", "::", "2001:200::8002:203:47ff:fea5:3085", "::ffff:1.2.3.4", "fe80::1", "1:2:3:4:5:6:7:8", "v1.x", "vF.a:b"});
    case 1: return h::fmt("%u.%u.%u.%u", (unsigned) r.below(300), (unsigned) r.below(300), (unsigned) r.below(260), (unsigned) r.below(260));
    case 2: return r.one({"1.2.3", "1.2.3.4.5", "01.2.3.4", "1.2.3.4.", "1..2.3", "127.0.0.1", "255.255.255.255", "0.0.0.0", "256.1.1.1", "1.2.3.x", "1and1.com", "3com", "*", "9"});
    case 3: return r.one({"localhost", "www.kame.net", "h"}); case 4: return ""; default: return chars(r, glen(r), ""); } }
static Str gpath (Rng &r, bool auth, bool noauth_any = false) { Str s; unsigned n = r.below(5); for (unsigned i = 0; i < n; ++i) { if (i || auth || r.chance(1, 2)) s += '/'; s += chars(r, glen(r), ":@"); } if (r.chance(1, 5)) s += '/'; if (!auth && !noauth_any && s.compare(0, 2, "//") == 0) s.erase(0, 1); return s; }
static Uri guri (Rng &r) { Uri u; u.scheme = gscheme(r); u.has_auth = r.chance(3, 4);
    if (u.has_auth) { if (r.chance(1, 3)) { u.has_ui = true; u.userinfo = r.chance(1, 2) ? chars(r, glen(r), ":") : chars(r, r.below(6), "") + ":" + chars(r, r.below(6), ":"); } u.host = ghost(r, u.literal); if (r.chance(1, 2)) { u.has_port = true; u.port = r.chance(1, 2) ? std::to_string(r.below(70000)) : r.chance(1, 8) ? Str("*") : r.text(glen(r), "abz019_-."); } }
    u.path = gpath(r, u.has_auth); if (r.chance(1, 3)) { u.has_q = true; u.query = chars(r, glen(r), ":@/?"); } if (r.chance(1, 3)) { u.has_f = true; u.fragment = chars(r, glen(r), ":@/?"); } return u; }
static Str raw_text (const Uri &u) { Str s = u.scheme + ":"; if (u.has_auth) { s += "//"; if (u.has_ui) s += u.userinfo + "@"; s += u.literal ? "[" + u.host + "]" : u.host; if (u.has_port) s += ":" + u.port; } s += u.path; if (u.has_q) s += "?" + u.query; if (u.has_f) s += "#" + u.fragment; return s; }
#define GET(f) Str(u_uri_get_##f(o) ? u_uri_get_##f(o) : "(null)")
static void same_parts (u_uri_t *o, const Uri &u, const Str &t)
{
#define PART(f) CHECK(GET(f) == u.f, "component-" #f, "%s of '%s' is '%s', expected '%s'", #f, h::esc(t).c_str(), h::esc(GET(f)).c_str(), h::esc(u.f).c_str())
    PART(scheme); PART(userinfo); PART(user); PART(pwd); PART(host); PART(port); PART(path); PART(query); PART(fragment);
    CHECK(GET(authority) == authority_of(u), "component-authority", "authority of '%s' is '%s', expected '%s'", h::esc(t).c_str(), h::esc(GET(authority)).c_str(), h::esc(authority_of(u)).c_str());
    int fl = (u.ip ? U_URI_FLAGS_HOST_IS_IPADDRESS : 0) | (u.literal ? U_URI_FLAGS_HOST_IS_IPLITERAL : 0);
    CHECK((int) u_uri_get_flags(o) == fl, "flags", "host flags of '%s' are %d, expected %d", h::esc(t).c_str(), (int) u_uri_get_flags(o), fl);
}
#endif
