#include "js.h"
/* encode/decode round trips of whole trees and of every subtree */
static void subtrees (u_json_t *j, const Node &n, Rng &r)
{   std::vector<u_json_t *> c; u_json_it_t it; u_json_it(u_json_child_first(j), &it); while (u_json_t *x = u_json_it_next(&it)) c.push_back(x);
    for (size_t i = 0; i < c.size() && i < n.ch.size(); ++i) { if (n.ch[i].t == OBJ || n.ch[i].t == ARR) { Str s = encode(c[i]); Node m; CHECK(strict(s, m), "subtree-not-json", "a subtree is encoded as text that is not JSON: %s", h::esc(s).c_str()); m.key = n.ch[i].key; CHECK(m == n.ch[i], "subtree", "the encoding of a subtree is not that subtree: %s", h::esc(s).c_str()); h::cov("subtrees-encoded"); } subtrees(c[i], n.ch[i], r); } }
static void trip (u_json_t *j, const Node &n, Rng &r)
{   Str a = encode(j); Node m; CHECK(strict(a, m), "not-json", "a tree is encoded as text that is not JSON: %s", h::esc(a).c_str()); CHECK(m == n, "tree", "the encoded text is not the tree: %s", h::esc(a).c_str()); subtrees(j, n, r);
    if (height(n) >= U_JSON_MAX_DEPTH) return; u_json_t *k = nullptr; h::Exact e(a); CHECK(u_json_validate(e.p, nullptr) == 0, "own-text-invalid", "validation refuses encoded text %s", h::esc(a).c_str()); CHECK(u_json_decode(e.p, &k) == 0 && k, "own-text-refused", "decoding refuses encoded text %s", h::esc(a, 1000).c_str()); navigate(k, n); Str b = encode(k); CHECK(a == b, "unstable", "encoding the decoded text again gives another text"); u_json_free(k); h::cov("round-trips"); h::cov("nodes", nodes(n)); }
static Node trim (Node n) { if (n.key.size() > 126) n.key = "k"; if (n.val.size() > 126) n.val = n.t == NUM ? "1" : "v"; for (auto &c : n.ch) c = trim(c); return n; }
void run_case (Rng &r, u64 n)
{
    Node x = trim(gtree(r, r.chance(1, 8) ? 15 : 1 + r.below(6), true)); Blanks b = { &r, " \t\r\n" }; h::sig(nodes(x)); h::sig(height(x)); { Str s; Blanks q = {nullptr, ""}; write(x, s, q); h::tr("%s", h::esc(s, 300).c_str()); h::sig(s.size()); }
    u_json_t *j; if (r.chance(1, 2)) { j = build(x, &r); h::cov("built-by-hand"); } else { Str t; write(x, t, b); h::Exact e(t); CHECK(u_json_decode(e.p, &j) == 0, "decode-refuses", "valid JSON was not decoded: %s", h::esc(t).c_str()); h::cov("decoded"); }
    if (r.chance(1, 4)) { CHECK(u_json_index(j) == 0 || height(x) > 1, "index", "no index"); } trip(j, x, r); u_json_free(j);
}
static void p_reals () { for (double d : {0.0, 1.0, -1.5, 1e300, 1e-300, 123456.0, 0.001, -2.5e17, 1e22}) { u_json_t *j = nullptr, *a = nullptr; double e; CHECK(u_json_new_real("r", d, &j) == 0, "real", "no number for %g", d); CHECK(u_json_get_real(j, &e) == 0 && e == d, "real", "%g reads %g", d, e); CHECK(u_json_new_object(nullptr, &a) == 0 && u_json_add(a, j) == 0, "add", "add"); Str s = encode(a); Node n; CHECK(strict(s, n) && n.ch.size() == 1 && n.ch[0].t == NUM && strtod(n.ch[0].val.c_str(), 0) == d, "real", "%g is encoded as %s", d, s.c_str()); u_json_free(a); }
    for (double d : {(double) INFINITY, (double) -INFINITY, (double) NAN}) { u_json_t *j = nullptr; CHECK(u_json_new_real("r", d, &j) != 0, "real", "a number object for %g", d); } for (long l : {0L, 1L, -1L, LONG_MAX, LONG_MIN}) { u_json_t *j = nullptr; long m = 5; CHECK(u_json_new_int("i", l, &j) == 0 && u_json_get_int(j, &m) == 0 && m == l, "int", "%ld reads %ld", l, m); u_json_free(j); } }
static void p_keys () { Rng r(2); Node n; n.t = OBJ; for (const char *k : {"", "a", "", "x y", "\\\"", "\\u0041", "a", "%s%n"}) { Node c; c.t = STR; c.key = k; c.val = "%d%s"; n.ch.push_back(c); } Node a; a.t = ARR; a.key = "arr"; a.ch = n.ch; for (auto &c : a.ch) c.key = ""; n.ch.push_back(a); u_json_t *j = build(n, &r); trip(j, n, r); u_json_free(j); }
static void p_unknown () { u_json_t *j = nullptr, *k = nullptr; CHECK(u_json_new(&j) == 0 && u_json_new_array(nullptr, &k) == 0 && u_json_add(k, j) == 0, "new", "new"); char *s = nullptr; CHECK(u_json_encode(k, &s) != 0 && !s, "incomplete", "a tree with an untyped node was encoded"); CHECK(u_json_set_type(j, U_JSON_TYPE_NULL) == 0 && encode(k).size() > 5, "complete", "not encodable"); u_json_free(k); }
static void p_large () { Rng r(21); for (auto type : {ARR, OBJ}) { Node n; n.t = type; for (int i = 0; i < 12000; ++i) { Node c; c.t = i % 5 == 0 ? STR : i % 5 == 4 ? ARR : NUM; if (type == OBJ) c.key = "k" + std::to_string(i); if (c.t != ARR) c.val = std::to_string(i); else if (i % 2) { Node z; z.t = TRU; c.ch.push_back(z); } n.ch.push_back(c); } u_json_t *j = build(n, &r); trip(j, n, r); u_json_free(j); } }
const Probe PROBES[] = { {"reals", p_reals}, {"keys", p_keys}, {"untyped", p_unknown}, {"large", p_large}, {0, 0} };
