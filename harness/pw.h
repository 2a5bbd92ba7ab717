/* ideal reading of password files, generator of them, and scripted sources */
#ifndef PW_H
#define PW_H
#include "h.h"
struct Rec { Str user, pass, opaque; bool has_op = false; };
enum { LNMAX = U_PWD_LINE_MAX };
/* records in order; 'maybe' collects those on lines whose length is at the edge of the limit */
static std::vector<Rec> read_pw (const Str &t, std::vector<Rec> *maybe = nullptr)
{
    std::vector<Rec> v; size_t i = 0;
    while (i < t.size()) { size_t e = t.find('\n', i); Str l = t.substr(i, e == Str::npos ? Str::npos : e - i); i = e == Str::npos ? t.size() : e + 1;
        if (l.empty() || l[0] == '#' || l.find('\0') != Str::npos || l.size() >= LNMAX) continue;
        Rec r; size_t a = l.find(':'); if (a == Str::npos || a == 0) continue; r.user = l.substr(0, a); size_t b = l.find(':', a + 1); r.pass = l.substr(a + 1, b == Str::npos ? Str::npos : b - a - 1); if (r.pass.empty()) continue;
        if (b != Str::npos) { r.opaque = l.substr(b + 1); r.opaque = r.opaque.substr(0, r.opaque.find(':')); r.has_op = !r.opaque.empty(); }
        if (l.size() > LNMAX - 3) { if (maybe) maybe->push_back(r); } else v.push_back(r); }
    return v;
}
static Str word (Rng &r, size_t n) { return r.text(n, r.chance(1, 6) ? "ab #\\.-_/\x80\xff\t" : "abcd019"); }
static Str gword (Rng &r) { return r.chance(1, 4) ? word(r, 1 + r.below(20)) : word(r, 1 + r.below(4)); }
struct Gen { Str text; std::vector<Str> users, passes; };   /* plus interesting names and secrets to try */
static void note (Gen &g, const Str &u, const Str &p) { g.users.push_back(u); g.passes.push_back(p); }
static Gen gpw (Rng &r, std::function<Str (const Str &)> secret, bool dups)
{
    Gen g; std::set<Str> seen; unsigned n = r.chance(1, 12) ? 200 + r.below(200) : r.below(14);
    for (unsigned i = 0; i < n; ++i) {
        Str u = gword(r), p = gword(r), o = gword(r), l; if (u[0] == '#') u[0] = 'h'; bool fresh = seen.insert(u).second; if (!fresh && !dups) { u += "-" + std::to_string(i); seen.insert(u); }
        Str s = secret(p);
        switch (r.below(16)) {
            case 0: l = "#" + u + ":" + s; note(g, u, p); note(g, "#" + u, p); break;
            case 1: l = u + "::" + secret(o); note(g, u, o); note(g, u, ""); break;                 /* no secret */
            case 2: l = ":" + secret(u) + ":" + secret(p); note(g, u, p); note(g, "", u); note(g, secret(u), p); break;         /* no name */
            case 3: l = u + r.one({"", ":", "::", " "}); note(g, u, ""); note(g, u, ":"); break;
            case 4: { size_t at = LNMAX - 1 + r.below(3) * (LNMAX - 1); l = u + ":" + s + ":"; if (l.size() < at) l += word(r, at - l.size()); l += o + ":" + secret(p); note(g, o, p); note(g, u, p); note(g, l.substr(LNMAX - 1, l.find(':', LNMAX) - LNMAX + 1), p); if (l.size() < LNMAX) l += Str(LNMAX, 'x'); break; } /* too long, its tail looks like a record */
            case 5: l = Str(1, '\0') + u + ":" + s; note(g, u, p); break;
            case 6: l = u + ":" + s + Str(1, '\0') + ":" + o; note(g, u, p); break;
            case 7: l = ""; break;
            case 8: { l = u + ":" + s + ":" + word(r, r.size({10, LNMAX / 2}, LNMAX - 80)); note(g, u, p); if (l.size() >= LNMAX - 4) l.resize(LNMAX - 5); break; }
            case 9: { l = u + Str(1, '\0') + word(r, 300) + "\n"; l.pop_back(); break; }
            case 10: l = u + ":" + s + ":" + o + ":" + gword(r); note(g, u, p); note(g, u + ":" + s, o); break;
            case 11: case 12: l = u + ":" + s + ":" + secret(o); note(g, u, p); note(g, u + ":" + s, o); note(g, u, o); break;
            default: l = u + ":" + s; note(g, u, p); break; }
        g.text += l; if (i + 1 < n || r.chance(3, 4)) g.text += '\n'; }
    return g;
}
/* a scripted source with fgets-like loading */
struct Src { Str text; time_t stamp = 1; bool open_fails = false, has_close = true; unsigned opens = 0, closes = 0, notifies = 0; size_t pos = 0; bool isopen = false, keep_nl = true; int changed_override = -1; };
static Src *S;
static int s_open (const char *uri, void **ph) { CHECK(Str(uri) == "the-source", "uri", "open is called for '%s'", uri); if (S->open_fails) return ~0; if (S->isopen && S->has_close) h::fail("open-twice", "the source is opened again before being closed"); S->isopen = true; S->pos = 0; ++S->opens; *ph = S; return 0; }
static char *s_load (char *b, int sz, void *hd) { CHECK(hd == S && S->isopen, "load-closed", "a line is read from a source that is not open"); CHECK(sz == LNMAX, "load-size", "a line is read in %d bytes", sz);
    if (S->pos >= S->text.size()) return nullptr; int n = 0; while (n < sz - 1 && S->pos < S->text.size()) { char c = S->text[S->pos++]; if (c == '\n' && !S->keep_nl) { break; } b[n++] = c; if (c == '\n') break; } b[n] = 0; return b; }
static void s_close (void *hd) { CHECK(hd == S && S->isopen, "close-twice", "the source is closed while not open"); S->isopen = false; ++S->closes; }
static int s_notify (const char *uri, time_t last, time_t *now) { CHECK(Str(uri) == "the-source", "uri", "notify is called for '%s'", uri); ++S->notifies; if (S->stamp != last) { *now = S->stamp; return 1; } return 0; }
/* a toy hash of a given length, which fills its room to the last byte */
static size_t HL = 8;
static Str toy_hash (const Str &p) { u64 x = 1469598103934665603ULL; for (unsigned char c : p) x = (x ^ c) * 0x100000001b3ULL; Str o; while (o.size() < HL) { o += "0123456789abcdef"[(x >> 60) & 15]; x = x * 6364136223846793005ULL + 99; } return o; }
static int cb_hash (const char *p, size_t n, char out[]) { CHECK(strlen(p) == n, "hash-length", "the password of %zu is hashed as %zu", strlen(p), n); Str s = toy_hash(Str(p, n)); memcpy(out, s.c_str(), s.size() + 1); return 0; }
static bool same_rec (u_pwd_rec_t *q, const Rec &w) { const char *u = u_pwd_rec_get_user(q), *p = u_pwd_rec_get_password(q), *o = u_pwd_rec_get_opaque(q); return u && p && w.user == u && w.pass == p && (w.has_op ? o && w.opaque == o : o == nullptr || !*o); }
#endif
