#include "uri.h"
/* splitting URIs vs an independent reading of the RFC */
static void judge (const Str &t, bool split)
{
    Uri u; V v = read_uri(t, u, split); h::Exact e(t); u_uri_t *o = (u_uri_t *) 0x10;
    int rc = u_uri_crumble(e.p, split ? U_URI_OPT_NONE : U_URI_OPT_DONT_PARSE_USERINFO, &o); memset(e.p, 'Z', e.n);
    if (rc) { CHECK(v != ACCEPTED, "refused", "'%s' fits the RFC and is refused", h::esc(t).c_str()); CHECK(o == (u_uri_t *) 0x10, "result-touched", "the result is set for the refused '%s'", h::esc(t).c_str()); h::cov("refused"); }
    else { if (v == REFUSED) { Str got = GET(scheme) + "|" + GET(userinfo) + "|" + GET(host) + "|" + GET(port) + "|" + GET(path) + "|" + GET(query) + "|" + GET(fragment); h::fail("accepted", "'%s' does not fit the RFC and is split as %s", h::esc(t).c_str(), h::esc(got).c_str()); }
        same_parts(o, u, t); u_uri_free(o); h::cov("accepted-and-compared"); if (u.has_auth) h::cov("with-authority"); if (u.literal) h::cov("with-literal-host"); if (u.ip) h::cov("with-numeric-host"); }
    h::Exact e2(t); int ab = u_uri_is_absolute(e2.p); CHECK(ab == 0 || ab == 1, "is-absolute", "absolute test gives %d", ab);
    if (v == REFUSED || (u.has_f && u.fragment.size())) CHECK(ab == 0, "is-absolute", "'%s' counts as absolute", h::esc(t).c_str()); else if (v == ACCEPTED && !u.has_f) CHECK(ab == 1, "is-absolute", "'%s' does not count as absolute", h::esc(t).c_str());
    h::sig(v); h::sig(u.has_auth | u.has_ui << 1 | u.has_port << 2 | u.has_q << 3 | u.has_f << 4 | u.literal << 5 | u.ip << 6); h::sig(h::szclass(u.host.size()) << 16 | h::szclass(u.path.size()) << 8 | h::szclass(u.query.size()));
}
static const char SOUP[] = "/:@?#%[]a1.*";
void run_case (Rng &r, u64 n)
{
    Str t;
    switch (r.below(10)) {
        case 0: t = Str(r.one({"a:", "a://", "http://", "x1:/"})) + r.text(r.below(9), SOUP); break;
        case 1: t = r.text(r.below(12), "ab:/@?#%[]19.-+ \\^\"<>|`{}\x80\xff\t\n"); break;
        default: { Uri u = guri(r); t = raw_text(u); unsigned m = r.chance(1, 2) ? 0 : 1 + r.below(3);
            for (unsigned i = 0; i < m; ++i) { size_t p = r.below(t.size() + 1); char c = r.chance(1, 2) ? r.ch(":/@?#%[]") : r.chance(2, 3) ? r.ch("a0.- \\^\"<>|`{}*+") : (char) (1 + r.below(255));
                switch (r.below(5)) { case 0: if (t.size()) t.erase(p < t.size() ? p : 0, 1 + r.below(3)); break; case 1: if (p < t.size()) t[p] = c; break; case 2: t.resize(p); break; case 3: t.insert(p, Str(r.chance(1, 6) ? 128 : 1, c)); break; default: t.insert(p, 1, c); } } } }
    for (char &c : t) if (!c) c = '0';
    h::tr("'%s'", h::esc(t).c_str()); judge(t, !r.chance(1, 5)); (void) n;
}
/* every short text over the delimiters and a few letters after three openings */
static void p_enum () { const char *pre[] = {"a:", "a://", "a://h"}; for (const char *p : pre) for (unsigned len = 0; len <= (h::memcheck ? 2 : h::thorough ? 6 : 4); ++len) { u64 tot = 1; for (unsigned i = 0; i < len; ++i) tot *= 12; if (len >= 5) h::arm_cpu(600); for (u64 k = 0; k < tot; ++k) { Str t = p; u64 x = k; for (unsigned i = 0; i < len; ++i) { t += SOUP[x % 12]; x /= 12; } judge(t, true); } } }
static void p_each_char () { for (int c = 1; c < 256; ++c) for (const char *f : {"%cb:x", "a%cb:x", "a:%cx", "a:x%c", "a:/%c/y", "a://%c@h", "a://u%c@h", "a://h%c", "a://%c.h/", "a://h:%c", "a://h:1%c/", "a://[%c]", "a://[::%c]:1", "a://h/%c", "a:?%c", "a:#%c", "a:x?y%c#z", "a:%%%c0", "a:%%0%c", "a://%%%c0", "a://h/?%%0%c"}) { Str t; for (const char *p = f; *p; ++p) { if (*p == '%') { ++p; if (*p == 'c') t += (char) c; else t += '%'; } else t += *p; } judge(t, true); } }
static void p_lengths () { for (size_t n = 100; n < 300; ++n) { Str x(n, 'x'); for (Str t : {x + ":", "a:" + x, "a:/" + x, "a://" + x, "a://" + x + "@h", "a://u:" + x + "@h", "a://h:" + x, "a://[v1." + x + "]", "a://h/" + x, "a:?" + x, "a:#" + x, "a://" + x + "/p", "a://h:" + x + "?q#f", "a:" + x + "?q"}) judge(t, true); } }
const Probe PROBES[] = { {"short-texts", p_enum}, {"every-character", p_each_char}, {"component-lengths", p_lengths}, {0, 0} };
