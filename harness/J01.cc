#include "js.h"
/* acceptance: decoding and validating vs an independent reader */
static void judge (const Str &t)
{
    Node n; P p(t, true); V v = p.top(n); bool deep = v != BAD && p.deepest >= U_JSON_MAX_DEPTH; h::Exact e(t); u_json_t *j = nullptr; char st[U_LEXER_ERR_SZ + 8]; memset(st, 0x7e, sizeof st);
    int rv = p.deepest > 300 ? -1 : u_json_validate(e.p, st), rd = u_json_decode(e.p, &j); CHECK(st[U_LEXER_ERR_SZ] == 0x7e, "status-overrun", "the status text exceeds its room"); if (rv && p.deepest <= 300) CHECK(memchr(st, 0, U_LEXER_ERR_SZ), "status", "unterminated status");
    if (v == BAD) { CHECK(rv != 0, "validate-accepts", "text that is not JSON is found valid: %s", h::esc(t).c_str()); CHECK(rd != 0, "decode-accepts", "text that is not JSON was decoded: %s", h::esc(t).c_str()); h::cov("texts-refused"); }
    else { if (v == OK && p.deepest <= 300) CHECK(rv == 0, "validate-refuses", "valid JSON is found invalid (%s): %s", h::esc(st).c_str(), h::esc(t, 600).c_str()); if (deep) { CHECK(rd != 0, "too-deep", "nesting of %u was decoded", p.deepest); h::cov("texts-too-deep"); } else { if (v == OK) CHECK(rd == 0 && j, "decode-refuses", "valid JSON was not decoded: %s", h::esc(t, 600).c_str()); CHECK((rv == 0) == (rd == 0), "verdicts", "validation says %d, decoding %d: %s", rv, rd, h::esc(t).c_str()); h::cov(v == OK ? "texts-accepted" : "texts-tolerated"); } }
    if (rd == 0) { same(j, n, "the decoded text"); h::cov("nodes-decoded", nodes(n)); u_json_free(j); } h::sig(v * 4 + deep * 2 + (rd == 0)); h::sig(h::szclass(t.size())); char last = 0; for (size_t i = 0; i < t.size() && i < 400; ++i) { unsigned char c = t[i]; char k = isdigit(c) ? '0' : isalpha(c) ? 'a' : c > 127 ? 'h' : c < 33 ? ' ' : c; if (k != last) h::sig((unsigned char) k); last = k; }
}
static const char *const FRAG[] = {"{", "}", "[", "]", ",", ":", "\"", "\\", "\"a\"", "\"k\":", "1", "-", "0", "1.5", "1.", ".5", "1e", "1e+", "1E5", "01", "-0", "+1", "true", "tru", "false", "null", "nul", "t r u e", "n\null", "True", "NaN", "\"\\u12", "\"\\u12G4\"", "\"\\x\"", "\"\t\"", "\"a\nb\"", " ", "\n", "/", "//", "'a'", "\"a\"\"b\"", "\x01", "\x7f", "\xc3\xa9", "\"\\", "{}", "[]", "{\"a\":1}", "[1,2]", "--1", "1-", "0x1", "0.0e-0"};
void run_case (Rng &r, u64 n)
{
    static const unsigned NF = sizeof FRAG / sizeof *FRAG; Str t; Blanks b = { r.chance(1, 2) ? &r : nullptr, " \t\r\n" };
    unsigned style = r.below(8);
    if (style == 0) { unsigned k = r.below(12); for (unsigned i = 0; i < k; ++i) t += FRAG[r.below(NF)]; if (r.chance(1, 2)) t = "[" + t + "]"; h::sig(77); }
    else if (style == 1) { unsigned d = 1 + r.below(r.chance(1, 4) ? 40 : 20); Str c; for (unsigned i = 0; i < d; ++i) { bool o = r.chance(1, 2); t += o ? "{\"k\":" : "["; if (!o && r.chance(1, 8)) t += "1,"; c = Str(o ? "}" : "]") + c; } t += r.one({"", "1", "[]", "{}", "\"x\"", "null"}); if (t.back() == ':') t += "0"; t += c; if (r.chance(1, 5)) t.pop_back(); h::sig(78); h::sig(d); }
    else { Node x = gtree(r, r.chance(1, 10) ? 14 : 1 + r.below(5), true); t = b(); write(x, t, b); if (r.chance(1, 4)) t += r.one({" ", "\n", "x", "]", "}", ",", "{}", "\"", " trailing text", "\xff"});
        if (style >= 4) { unsigned m = 1 + r.below(3); for (unsigned i = 0; i < m && !t.empty(); ++i) { size_t p = r.below(t.size()), q = r.below(t.size()); switch (r.below(8)) { case 0: t.erase(p, 1 + r.below(3)); break; case 1: t.insert(p, FRAG[r.below(NF)]); break; case 2: t[p] = (char) (1 + r.below(255)); break; case 3: t.resize(p); break; case 4: std::swap(t[p], t[q]); break; case 5: t.insert(p, t.substr(q, 1 + r.below(8))); break; case 6: t.insert(p, 1, r.ch(" \t\n\r")); break; default: t[p] = r.ch("{}[]\",:\\0123456789eE+-.tfn"); } } h::sig(79); } }
    t = Str(t.c_str()); for (char &c : t) if (c == '\v' || c == '\f') c = ' '; h::tr("%s", h::esc(t, 200).c_str()); judge(t);
}
static void p_all_bytes () { for (int a = 1; a < 256; ++a) { if (a == 11 || a == 12) continue; Str c(1, (char) a); for (const Str &t : {"[" + c + "]", "[1" + c + "]", "[\"" + c + "\"]", "[\"\\" + c + "\"]", "[\"\\u00" + c + "0\"]", "[-" + c + "]", "[1." + c + "]", "[1e" + c + "]", "[1e+" + c + "]", "[tr" + c + "e]", "{\"a\"" + c + "1}", "{" + c + "}", c, c + "[]", "[]" + c, "[1" + c + "2]"}) judge(t); } for (const char *f : FRAG) for (const char *g : FRAG) { judge(Str("[") + f + g + "]"); judge(Str("{\"k\":") + f + g + "}"); judge(Str("{") + f + g + "1}"); judge(Str(f) + g); } judge(""); judge(" "); judge("\n\t "); }
static void p_truncations () { Str t = "{ \"a\" : [ 1 , -2.5e+10 , \"x\\u00e9\\n\" , true , false , null , { } , [ ] ] , \"b\" : { \"c\" : 0 } }"; for (size_t i = 0; i <= t.size(); ++i) { judge(t.substr(0, i)); Str d = t; if (i < t.size()) { d.erase(i, 1); judge(d); d = t; d.insert(i, 1, t[i]); judge(d); } } }
static void p_lengths () { for (size_t n = 100; n <= 400; ++n) { if (n > 140 && n % 37) continue; Str s(n, 'q'), d(n, '7'); judge("[\"" + s + "\"]"); judge("{\"" + s + "\":1}"); judge("[" + d + "]"); judge("[-" + d.substr(1) + "]"); judge("[0." + d.substr(2) + "]"); judge("[1e" + d.substr(2) + "]"); judge("{\"" + s + "\":\"" + s + "\"}"); Str u; while (u.size() + 6 <= n) u += "\\u00e9"; judge("[\"" + u + "\"]"); } }
static void p_depth () { for (unsigned d = 1; d < 60; ++d) for (int leaf = 0; leaf < 2; ++leaf) { judge(Str(d, '[') + (leaf ? "1" : "") + Str(d, ']')); Str o, c; for (unsigned i = 0; i < d; ++i) { o += "{\"k\":"; c += "}"; } judge(o + (leaf ? "[]" : "1") + c); } u_json_t *j; Str t(100000, '['); CHECK(u_json_decode(t.c_str(), &j) != 0, "too-deep", "100000 brackets were decoded"); }
static void p_wide () { Str t = "["; for (int i = 0; i < 150000; ++i) t += i ? ",1" : "1"; t += "]"; u_json_t *j = nullptr; CHECK(u_json_decode(t.c_str(), &j) == 0, "decode-refuses", "a wide array was not decoded"); CHECK(u_json_array_count(j) == 150000, "array-count", "the array counts %u", u_json_array_count(j)); Str e = encode(j); CHECK(e.size() > 300000, "encode", "short"); u_json_free(j); }
static void p_vt_ff () { for (const char *t : {"[\v1]", "[1\f,2]", "\f[]", "{\v}"}) { u_json_t *j = nullptr; int rc = u_json_decode(t, &j); if (rc == 0) u_json_free(j); CHECK(rc != 0, "vt-ff-blanks", "vertical tab or form feed taken as white space: %s", h::esc(t).c_str()); } }
/* every one-byte change of every position of small texts */
static void p_one_byte () { for (const char *w : {"[\"\\u00eF\"]", "{\"a\\n\":-10.5e+3}", "[true,false,null]", "[1,0,\"x\"]", "[{},[] ]"}) { Str t = w; for (size_t i = 0; i <= t.size(); ++i) for (int a = 1; a < 256; ++a) { if (a == 11 || a == 12) continue; Str d = t; d.insert(i, 1, (char) a); judge(d); if (i < t.size()) { d = t; d[i] = (char) a; judge(d); } h::cov("one-byte-changes"); } } }
const Probe PROBES[] = { {"one-byte", p_one_byte}, {"all-bytes", p_all_bytes}, {"truncations", p_truncations}, {"lengths", p_lengths}, {"depth", p_depth}, {"wide", p_wide}, {"vt-ff", p_vt_ff}, {0, 0} };
