#include "h.h"
/* lexer vs an ideal cursor over the text */
static bool ws (char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
/* the macros of a hand-written parser */
static int macro_skip (u_lexer_t *l, char *c) { U_LEXER_SKIP(l, c); return 0; err: return -1; }
static int macro_next (u_lexer_t *l, char *c) { U_LEXER_NEXT(l, c); return 0; err: return -1; }
static int macro_err (u_lexer_t *l, const char *s, int d) { U_LEXER_ERR(l, "%s:%d", s, d); return 0; err: return -1; }
struct L { Str t; u_lexer_t *l = nullptr; size_t pos = 0, lm = 0, rm = 0; Str err;
    explicit L (const Str &t_) : t(t_) { h::Exact e(t); CHECK(u_lexer_new(e.p, &l) == 0 && l, "new", "no lexer for a text of %zu", t.size()); memset(e.p, 'Z', e.n); }
    ~L () { u_lexer_free(l); }
    char at (size_t p) { return p < t.size() ? t[p] : 0; }
    void state (const char *after) {
        CHECK(u_lexer_pos(l) == pos, "position", "after %s the position is %zu, expected %zu of %zu", after, u_lexer_pos(l), pos, t.size());
        CHECK(u_lexer_peek(l) == at(pos), "peek", "after %s peek gives %d, expected %d", after, u_lexer_peek(l), at(pos));
        CHECK((u_lexer_eot(l) != 0) == (pos >= t.size()), "eot", "after %s at %zu of %zu the end indication is %d", after, pos, t.size(), u_lexer_eot(l));
        CHECK(Str(u_lexer_lookahead(l)) == t.substr(pos), "lookahead", "after %s the lookahead is not the rest of the text", after);
        CHECK(Str(u_lexer_geterr(l)) == err, "error-text", "after %s the error text is '%s', expected '%s'", after, h::esc(u_lexer_geterr(l)).c_str(), h::esc(err).c_str()); h::cov("states-compared"); }
    void next (bool want) { char c = 'Q'; int rc = u_lexer_next(l, want ? &c : nullptr); if (pos >= t.size()) { CHECK(rc != 0 && c == 'Q', "next-end", "advancing at the end gives %d", rc); h::cov("ends-met"); } else { ++pos; CHECK(rc == 0, "next", "advancing at %zu of %zu fails", pos - 1, t.size()); if (want) CHECK(c == at(pos), "next-char", "advancing to %zu gives %d, expected %d", pos, c, at(pos)); } state("next"); }
    void skip (bool want) { char c = 'Q'; int rc = u_lexer_skip(l, want ? &c : nullptr); bool end = pos >= t.size(); if (!end) { ++pos; if (pos >= t.size()) end = true; else while (pos < t.size() && ws(t[pos])) ++pos; }
        CHECK((rc != 0) == end, "skip", "skipping to %zu of %zu returns %d", pos, t.size(), rc); if (!end && want) CHECK(c == at(pos), "skip-char", "skipping to %zu gives %d, expected %d", pos, c, at(pos)); state("skip"); }
    void eat () { bool end = pos >= t.size(); int rc = u_lexer_eat_ws(l); while (pos < t.size() && ws(t[pos])) ++pos; CHECK((rc != 0) == end, "eat", "eating blanks returns %d (at the end: %d)", rc, end); state("eat_ws"); }
    void expect (char c) { int rc = u_lexer_expect_char(l, c); bool ok = at(pos) == c && pos < t.size(); CHECK((rc == 0) == ok, "expect", "expecting %d at %d returns %d", c, at(pos), rc); if (ok) ++pos; else { Str e = u_lexer_geterr(l); CHECK(e.size() > 0 && e.size() < U_LEXER_ERR_SZ && e != "", "expect-error", "no error text"); err = e; } state("expect_char"); }
    void get () { char m[U_TOKEN_SZ + 16]; memset(m, 0x7e, sizeof m); h::Exact b(U_TOKEN_SZ); char *p = u_lexer_get_match(l, b.p);
        if (rm < lm) CHECK(p == nullptr, "match-reversed", "a match with marks %zu > %zu is given", lm, rm);
        else if (rm - lm + 1 >= U_TOKEN_SZ) { CHECK(p == nullptr, "match-long", "a match of %zu is given", rm - lm + 1); h::cov("matches-too-long"); }
        else { Str want = t.substr(lm, rm - lm + 1); CHECK(p == b.p && Str(p) == want, "match", "the match from %zu to %zu is '%s', expected '%s'", lm, rm, p ? h::esc(Str(p)).c_str() : "(null)", h::esc(want).c_str()); h::cov("matches"); } state("get_match"); }
    void macros (Rng &r) { char c = 'Q'; bool sk = r.chance(1, 2), end = pos >= t.size(); int rc = sk ? macro_skip(l, &c) : macro_next(l, &c); if (!end) { ++pos; if (sk) { if (pos >= t.size()) end = true; else while (pos < t.size() && ws(t[pos])) ++pos; } }
        CHECK((rc != 0) == end, "macro", "the %s macro at %zu of %zu goes to %s", sk ? "skip" : "next", pos, t.size(), rc ? "err" : "the next statement"); if (end) { err = u_lexer_geterr(l); CHECK(err.find(std::to_string(pos)) != Str::npos, "macro-error", "the error text at %zu is '%s'", pos, h::esc(err).c_str()); h::cov("macro-ends"); } else CHECK(c == at(pos), "macro-char", "advancing to %zu gives %d, expected %d", pos, c, at(pos)); state("macro");
        if (r.chance(1, 5)) { int d = (int) r.next(); CHECK(macro_err(l, "bad", d) == -1, "macro", "the error macro does not go to err"); err = "bad:" + std::to_string(d); state("error macro"); } }
    void seterr (const Str &s) { int rc = s.size() % 2 ? u_lexer_seterr(l, "%s", s.c_str()) : u_lexer_seterr(l, "%s%s%c%d", s.substr(0, s.size() / 2).c_str(), s.substr(s.size() / 2).c_str(), '#', (int) s.size()); CHECK(rc == 0, "seterr", "setting the error text returns %d", rc); err = s.size() % 2 ? s : s + "#" + std::to_string(s.size()); if (err.size() >= U_LEXER_ERR_SZ) err.resize(U_LEXER_ERR_SZ - 1); state("seterr"); }
};
void run_case (Rng &r, u64 n)
{
    size_t len = n < 40 ? n : r.size({0, 1, 126, 127, 128, 129, 256}, 600); Str t; static const char *set[] = {"ab \t", " \t\r\n\v\f", "a\x80\xff\xc0 ", "{}[]\":,1e+ \n"}; const char *s = set[r.below(4)]; t = r.text(len, s);
    if (r.chance(1, 3)) t += Str(r.below(6), ' ');
    L a(t), b(r.chance(1, 2) ? t : Str("other text ")); h::sig(h::szclass(t.size())); h::tr("text '%s'", h::esc(t, 80).c_str()); a.state("new");
    unsigned ops = h::memcheck ? 60 : 60 + r.below(700);
    for (unsigned i = 0; i < ops; ++i) { L &x = r.chance(1, 12) ? b : a; unsigned k = r.below(26); h::sig(k);
        if (k < 8) x.next(r.chance(2, 3)); else if (k < 10) x.skip(r.chance(2, 3)); else if (k < 12) x.eat(); else if (k < 14) x.expect(r.chance(2, 3) ? x.at(x.pos) : r.chance(1, 2) ? (char) r.below(256) : 0);
        else if (k < 17) { u_lexer_record_lmatch(x.l); x.lm = x.pos; x.state("lmatch"); } else if (k < 20) { u_lexer_record_rmatch(x.l); x.rm = x.pos; x.state("rmatch"); } else if (k < 23) x.get(); else if (k < 25) x.macros(r); else { static const size_t es[] = {0, 1, 20, U_LEXER_ERR_SZ - 2, U_LEXER_ERR_SZ - 1, U_LEXER_ERR_SZ, U_LEXER_ERR_SZ + 1, 3000}; size_t m = es[r.below(8)]; x.seterr(r.text(m, "abc%sn ")); } }
    a.state("history"); b.state("history");
}
static void p_windows () { Str t; for (int i = 0; i < 300; ++i) t += (char) ('a' + i % 26); for (size_t lo = 0; lo < 140; lo += 7) for (size_t hi = lo; hi <= 300; ++hi) { if (hi > lo + 3 && hi < lo + 124) continue; L x(t); while (x.pos < lo) { u_lexer_next(x.l, nullptr); ++x.pos; } u_lexer_record_lmatch(x.l); x.lm = lo; while (x.pos < hi) { u_lexer_next(x.l, nullptr); ++x.pos; } u_lexer_record_rmatch(x.l); x.rm = hi; x.get(); } }
static void p_large () { Rng r(18); for (size_t n : {4096, 32768, 65536, 150000}) { Str t = r.text(n, "ab {}:\",\t\n"); if (ws(t[0])) t[0] = 'a'; u_lexer_t *l = nullptr; { h::Exact e(t); CHECK(u_lexer_new(e.p, &l) == 0, "new", "no lexer for %zu", n); } size_t pos = 0; char c; while (!u_lexer_eot(l)) { CHECK(u_lexer_pos(l) == pos && u_lexer_peek(l) == t[pos], "position", "at %zu of %zu the position is %zu", pos, n, u_lexer_pos(l)); switch (r.below(4)) { case 0: { CHECK(u_lexer_expect_char(l, t[pos]) == 0 || pos + 1 == n, "expect", "at %zu of %zu", pos, n); if (u_lexer_pos(l) != pos) ++pos; else { CHECK(pos + 1 == n, "expect", "at %zu", pos); u_lexer_next(l, nullptr); ++pos; } break; } case 1: { size_t q = pos + 1; while (q < n && ws(t[q])) ++q; int rc = u_lexer_skip(l, &c); pos = q; CHECK((rc == 0) == (q < n) && (rc || c == t[q]), "skip", "to %zu of %zu", q, n); break; } case 2: { while (pos < n && ws(t[pos])) ++pos; u_lexer_eat_ws(l); break; } default: u_lexer_next(l, &c); ++pos; }
      if (pos + 200 < n && r.chance(1, 50)) { unsigned w = r.below(126); u_lexer_record_lmatch(l); for (unsigned i = 0; i < w; ++i) u_lexer_next(l, nullptr); u_lexer_record_rmatch(l); char m[U_TOKEN_SZ]; CHECK(u_lexer_get_match(l, m) == m && t.substr(pos, w + 1) == m, "match", "from %zu of %zu", pos, n); pos += w; } if (r.chance(1, 2000)) CHECK(Str(u_lexer_lookahead(l)) == t.substr(pos), "lookahead", "at %zu of %zu", pos, n); }
      CHECK(u_lexer_pos(l) == n && pos == n && u_lexer_peek(l) == 0, "position", "the end of %zu is at %zu", n, u_lexer_pos(l)); u_lexer_free(l); } }
const Probe PROBES[] = { {"match-windows", p_windows}, {"large", p_large}, {0, 0} };
