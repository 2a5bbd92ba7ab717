#include "h.h"
/* text helpers vs naive re-implementations, in exact-size heap buffers */
static std::vector<Str> split (const Str &s, const Str &d)
{   std::vector<Str> v; Str cur; for (char c : s) { if (d.find(c) != Str::npos) { if (cur.size()) v.push_back(cur); cur.clear(); } else cur += c; } if (cur.size()) v.push_back(cur); return v; }
static Str trimmed (const Str &s) { size_t a = 0, b = s.size(); auto bl = [] (char c) { return c == ' ' || c == '\t'; }; while (a < b && bl(s[a])) ++a; while (b > a && bl(s[b - 1])) --b; return s.substr(a, b - a); }
static Str collapse (const Str &s, char sep) { Str o; for (char c : s) if (!(c == sep && o.size() && o.back() == sep)) o += c; return o; }
static void t_split (Rng &r, const Str &s, const Str &d)
{
    auto want = split(s, d); h::Exact es(s), ed(d); char **tv = nullptr; size_t n = 777;
    CHECK(u_strtok(es.p, ed.p, &tv, &n) == 0, "split-failed", "split of [%s] failed", h::esc(s).c_str());
    CHECK(n == want.size(), "split-count", "split of [%s] by [%s] gave %zu tokens, expected %zu", h::esc(s).c_str(), h::esc(d).c_str(), n, want.size());
    for (size_t i = 0; i < n; ++i) CHECK(want[i] == tv[i], "split-token", "token %zu is [%s] expected [%s]", i, h::esc(tv[i]).c_str(), h::esc(want[i]).c_str());
    CHECK(s == es.p, "split-input", "the input text was altered"); u_strtok_cleanup(tv, n);
    size_t room = r.chance(1, 3) ? 1 + r.below(3) : r.chance(1, 2) ? want.size() + r.below(4) : 1 + r.below(want.size() + 12); if (room == 0) room = 1;
    h::Exact et(s); char **v = (char **) malloc(room * sizeof(char *)); memset(v, 0x5c, room * sizeof(char *));
    CHECK(u_tokenize(et.p, ed.p, v, room) == 0, "tokenize-failed", "tokenize failed");
    size_t k = 0; while (k < room && v[k]) ++k;
    CHECK(k < room, "tokenize-unterminated", "token vector of %zu slots has no end mark", room);
    size_t w = std::min(want.size(), room - 1);
    CHECK(k == w, "tokenize-count", "tokenize of [%s] into %zu slots gave %zu tokens, expected %zu", h::esc(s).c_str(), room, k, w);
    for (size_t i = 0; i < k; ++i) CHECK(want[i] == v[i], "tokenize-token", "token %zu is [%s] expected [%s]", i, h::esc(v[i]).c_str(), h::esc(want[i]).c_str());
    free(v); h::cov("splits"); h::cov("tokens", want.size()); h::sig(want.size()); h::sig(w); h::sig(s.size() && d.find(s[0]) != Str::npos); h::sig(s.size() && d.find(s.back()) != Str::npos);
}
void run_case (Rng &r, u64)
{
    {   Str d = r.one({":", " ", ":;", " \t", "", "/", ",;:", "a", "\xc3"}); size_t n = r.size({10, 19, 20, 21, 40, 60}, 300); Str s = r.chance(1, 4) ? r.nzbytes(n) : r.text(n, r.chance(1, 2) ? "ab:; \t/,x" : "abcdefgh:"); 
        if (r.chance(1, 3)) { s.clear(); unsigned k = r.below(45); for (unsigned i = 0; i < k; ++i) s += r.text(r.below(3), "xyz") + (d.size() ? d.substr(r.below(d.size()), 1) : ""); }
        h::tr("split[%s] by [%s]", h::esc(s, 60).c_str(), d.c_str()); t_split(r, s, d); }
    {   Str s = r.text(r.below(6), " \t") + r.text(r.below(30), "ab \t\n") + r.text(r.below(6), " \t"); h::Exact e(s); u_trim(e.p); Str w = trimmed(s); CHECK(w == e.p, "trim", "trim of [%s] gave [%s]", h::esc(s).c_str(), h::esc(e.p).c_str());
        h::Exact f(s); CHECK((u_isblank_str(f.p) != 0) == (w.empty()), "isblank", "[%s]", h::esc(s).c_str()); h::sig(w.size() < s.size()); h::cov("trims"); }
    {   Str s = r.text(r.size({1, 2, 30}, 60), "//ab./"); char sep = r.chance(3, 4) ? '/' : '.'; size_t room = r.chance(1, 2) ? s.size() + 1 + r.below(3) : r.below(s.size() + 2); h::Exact o(room); h::tr("path[%s] room %zu", s.c_str(), room);
        int rc = u_path_snprintf(o.p, room, sep, "%s", s.c_str());
        if (s.size() < room) { CHECK(rc == 0, "path-failed", "path [%s] in %zu failed", s.c_str(), room); CHECK(collapse(s, sep) == o.p, "path", "path of [%s] gave [%s]", s.c_str(), o.p); }
        else { CHECK(rc != 0, "path-room", "path [%s] in %zu not refused", s.c_str(), room); }
        h::sig(rc); h::sig(s.size() - collapse(s, sep).size()); h::cov(rc ? "path-refused" : "path-ok"); }
    {   Str s = r.nzbytes(r.size({7, 8, 9}, 40)); size_t room = r.chance(1, 2) ? s.size() + r.below(3) : r.below(50); h::Exact in(s), o(room);
        int rc = u_strlcpy(o.p, in.p, room); CHECK((rc == 0) == (s.size() < room), "copy-verdict", "copy of %zu into %zu returned %d", s.size(), room, rc);
        if (room) CHECK(s.substr(0, room - 1) == o.p, "copy-text", "copy into %zu gave [%s]", room, h::esc(o.p).c_str());
        Str a = r.nzbytes(r.below(room ? room : 1)); if (room) { memcpy(o.p, a.c_str(), a.size() + 1); rc = u_strlcat(o.p, in.p, room); Str w = a + s; CHECK((rc == 0) == (w.size() < room), "cat-verdict", "cat of %zu to %zu in %zu returned %d", s.size(), a.size(), room, rc); CHECK(w.substr(0, room - 1) == o.p, "cat-text", "cat gave [%s]", h::esc(o.p).c_str()); }
        h::Exact p(room); int x = (int) r.next(); Str w = s + std::to_string(x); rc = u_snprintf(p.p, room, "%s%d", in.p, x); CHECK((rc == 0) == (w.size() < room), "print-verdict", "print of %zu into %zu returned %d", w.size(), room, rc); if (room) CHECK(w.substr(0, room - 1) == p.p, "print-text", "print gave [%s]", h::esc(p.p).c_str());
        CHECK(u_snprintf(p.p, room, "%lc", (wint_t) 0x10ffff) != 0, "print-error", "a formatting error was reported as success");
        if (room > 1) { h::Exact q(room); u_sstrncpy(q.p, in.p, room - 1); CHECK(s.substr(0, room - 1) == q.p, "sstrncpy", "gave [%s]", h::esc(q.p).c_str()); }
        h::cov("bounded-copies"); h::sig(s.size() < room); h::sig(s.size() + 1 == room); }
    {   Str s = r.nzbytes(r.below(60)); h::Exact in(s); char *c = u_strdup(in.p); CHECK(c && s == c && c != in.p, "strdup", "copy differs"); u_free(c); size_t k = r.below(s.size() + 4); c = u_strndup(in.p, k);
        if (k <= s.size()) { CHECK(c && s.substr(0, k) == c, "strndup", "copy of %zu differs", k); u_free(c); } else CHECK(c == nullptr, "strndup-beyond", "copy of %zu of %zu bytes not refused", k, s.size());
        Str b = r.bytes(1 + r.below(80)); h::Exact eb(b, false); void *m = u_memdup(eb.p, b.size()); CHECK(m && !memcmp(m, b.data(), b.size()) && m != eb.p, "memdup", "copy differs"); u_free(m);
        bool bin = false; for (unsigned char ch : b) bin |= ch > 127; CHECK((u_data_is_bin(eb.p, b.size()) != 0) == bin, "is-bin", "verdict differs for [%s]", h::esc(b).c_str()); h::cov("duplicates"); h::sig(bin); h::sig(b.size()); }
}
static void p_tok_one_slot () { for (size_t room = 1; room < 6; ++room) for (const char *s : {"", "a", "a:b", ":", "::a::", "a:b:c:d:e:f:g"}) { h::Exact e((Str(s))); char **v = (char **) malloc(room * sizeof(char *)); CHECK(u_tokenize(e.p, ":", v, room) == 0, "tokenize-failed", "x"); size_t k = 0; while (k < room && v[k]) ++k; CHECK(k == std::min(split(s, ":").size(), room - 1), "tokenize-count", "[%s] in %zu gave %zu", s, room, k); free(v); }
    char b[] = "a"; char *v[1]; CHECK(u_tokenize(b, ":", v, 0) != 0, "tokenize-zero", "no room not refused"); }
static void p_split_many () { Rng r(3); for (size_t n = 0; n < 64; ++n) { Str s; for (size_t i = 0; i < n; ++i) s += Str(i ? ":" : "") + "t" + std::to_string(i); t_split(r, s, ":"); t_split(r, ":" + s + ":", ":"); t_split(r, s, "|"); } }
static void p_misc () { CHECK(u_isblank(' ') && u_isblank('\t') && !u_isblank('\n') && !u_isblank('a') && !u_isblank(0), "isblank", "x"); CHECK(u_isnl('\n') && u_isnl('\r') && !u_isnl(' ') && !u_isnl(0), "isnl", "x"); CHECK(u_isblank_str("") && u_isblank_str(" \t ") && !u_isblank_str(" a"), "isblank", "x"); u_trim(nullptr); h::Exact e(Str("")); u_trim(e.p); CHECK(*e.p == 0, "trim", "empty"); u_strtok_cleanup(nullptr, 0); }
static void p_large () { Rng r(14); for (size_t n : {255, 256, 257, 1023, 1024, 1025, 4999, 32768, 65537, 100000}) { Str s; for (size_t i = 0; i < n; ++i) s += Str(i ? r.chance(1, 9) ? "::" : ":" : "") + "t" + std::to_string(i); for (int k = 0; k < 4; ++k) t_split(r, s, ":"); t_split(r, s, "|"); }
    for (size_t n : {32768, 65536, 200000}) { Str s = Str(n, ' ') + r.text(n, "ab \t") + Str(n, '\t'); h::Exact e(s); u_trim(e.p); CHECK(trimmed(s) == e.p, "trim", "trim of %zu", s.size()); Str p = r.text(n, "//ab"); for (size_t room : {n + 1, n, n / 2}) { h::Exact o(room); int rc = u_path_snprintf(o.p, room, '/', "%s", p.c_str()); CHECK((rc == 0) == (n < room), "path-room", "path of %zu in %zu gives %d", n, room, rc); if (!rc) CHECK(collapse(p, '/') == o.p, "path", "path of %zu", n); }
      for (size_t room : {n + 1, n, n / 2}) { h::Exact o(room); int rc = u_strlcpy(o.p, p.c_str(), room); CHECK((rc == 0) == (n < room) && p.substr(0, room - 1) == o.p, "copy-verdict", "copy of %zu into %zu", n, room); rc = u_snprintf(o.p, room, "%s", p.c_str()); CHECK((rc == 0) == (n < room) && p.substr(0, room - 1) == o.p, "print-verdict", "print of %zu into %zu", n, room); }
      char *c = u_strdup(p.c_str()); CHECK(c && p == c, "strdup", "copy of %zu", n); u_free(c); c = u_strndup(p.c_str(), n - 1); CHECK(c && p.substr(0, n - 1) == c, "strndup", "copy of %zu", n); u_free(c); Str b = r.bytes(n); void *m = u_memdup(b.data(), n); CHECK(m && !memcmp(m, b.data(), n), "memdup", "copy of %zu", n); u_free(m); } }
const Probe PROBES[] = { {"token-room", p_tok_one_slot}, {"token-counts", p_split_many}, {"classes", p_misc}, {"large", p_large}, {0, 0} };
