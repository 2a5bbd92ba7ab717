#include "h.h"
/* an independent JSON reader and writer used as the oracle of J01..J04 */
enum T { STR, NUM, OBJ, ARR, TRU, FAL, NUL };
struct Node { T t = NUL; Str key, val; std::vector<Node> ch; bool operator== (const Node &o) const { return t == o.t && key == o.key && val == o.val && ch == o.ch; } bool operator!= (const Node &o) const { return !(*this == o); } };
enum V { OK, BAD, EITHER };
struct P {
    const Str &s; size_t i = 0; V v = OK; unsigned deepest = 0; bool tolerant;
    P (const Str &s_, bool tol) : s(s_), tolerant(tol) {}
    int c () { return i < s.size() ? (unsigned char) s[i] : -1; }
    void bad () { throw 1; }
    void may () { if (!tolerant) bad(); v = EITHER; }
    void ws () { while (c() == ' ' || (c() >= 9 && c() <= 13)) { if (c() == 11 || c() == 12) may(); ++i; } }
    void room (size_t n) { if (n >= U_TOKEN_SZ) { if (tolerant) bad(); } else if (n == U_TOKEN_SZ - 1) { if (tolerant) v = EITHER; } }
    Str string () { if (c() != '"') bad(); size_t a = ++i; for (;;) { int k = c(); if (k == -1 || k < 32) bad(); if (k == '"') break; ++i; if (k == '\\') { k = c(); ++i; if (k == -1 || !strchr("\"\\/bfnrtu", k)) bad(); if (k == 'u') for (int j = 0; j < 4; ++j, ++i) if (c() == -1 || !isxdigit(c())) bad(); } } Str r = s.substr(a, i - a); ++i; room(r.size()); return r; }
    Str number () { size_t a = i; if (c() == '-') ++i; auto dig = [&] { return c() >= '0' && c() <= '9'; }; if (!dig()) bad(); if (c() == '0') ++i; else while (dig()) ++i; if (c() == '.') { ++i; if (!dig()) bad(); while (dig()) ++i; } if (c() == 'e' || c() == 'E') { ++i; if (c() == '+' || c() == '-') ++i; if (!dig()) bad(); while (dig()) ++i; } Str r = s.substr(a, i - a); room(r.size()); return r; }
    void lit (const char *l) { size_t n = strlen(l); if (s.compare(i, n, l)) bad(); i += n; }
    Node value (unsigned d) {
        if (d > deepest) deepest = d; if (d > 4000) bad(); Node n; switch (c()) {
            case '"': n.t = STR; n.val = string(); break; case 't': n.t = TRU; lit("true"); break; case 'f': n.t = FAL; lit("false"); break; case 'n': n.t = NUL; lit("null"); break;
            case '[': n.t = ARR; ++i; ws(); if (c() == ']') { ++i; break; } for (;;) { n.ch.push_back(value(d + 1)); ws(); if (c() == ',') { ++i; ws(); if (c() == ']') { may(); ++i; break; } continue; } if (c() != ']') bad(); ++i; break; } break;
            case '{': n.t = OBJ; ++i; ws(); if (c() == '}') { ++i; break; } for (;;) { Str k = string(); ws(); if (c() != ':') bad(); ++i; ws(); Node x = value(d + 1); x.key = k; n.ch.push_back(x); ws(); if (c() == ',') { ++i; ws(); if (c() == '}') { may(); ++i; break; } continue; } if (c() != '}') bad(); ++i; break; } break;
            default: n.t = NUM; n.val = number(); } return n; }
    V top (Node &n) { try { ws(); if (c() != '[' && c() != '{') bad(); n = value(0); return v; } catch (int) { return BAD; } }
};
/* strict reading of text that libu wrote */
static bool strict (const Str &s, Node &n) { P p(s, false); if (p.top(n) == BAD) return false; while (p.c() != -1 && strchr(" \t\r\n", p.c())) ++p.i; return p.i == s.size(); }
struct Blanks { Rng *r; const char *set; Str operator() () { if (!r || !r->chance(1, 3)) return ""; return r->text(1 + r->below(3), set); } };
static void write (const Node &n, Str &o, Blanks &b)
{   switch (n.t) { case STR: o += '"' + n.val + '"'; break; case NUM: o += n.val; break; case TRU: o += "true"; break; case FAL: o += "false"; break; case NUL: o += "null"; break;
        default: o += n.t == OBJ ? '{' : '['; o += b(); for (size_t i = 0; i < n.ch.size(); ++i) { if (i) { o += ',' + b(); } if (n.t == OBJ) o += '"' + n.ch[i].key + '"' + b() + ':' + b(); write(n.ch[i], o, b); o += b(); } o += n.t == OBJ ? '}' : ']'; } }
static Str gstr (Rng &r) { Str s; size_t n = r.chance(1, 12) ? r.range(120, 131) : r.below(r.chance(1, 5) ? 60 : 9); if (h::memcheck && n > 110) n = 100; while (s.size() < n) switch (r.below(14)) { case 0: s += '\\'; s += r.ch("\"\\/bfnrt"); break; case 1: s += "\\u"; for (int i = 0; i < 4; ++i) s += r.ch("0123456789abcdefABCDEF"); break; case 2: s += (char) (0x80 + r.below(128)); break; case 3: s += r.ch("{}[]:,'/ \x7f"); break; default: s += r.ch("abcXYZ019_.-%s"); } return s; }
static Str gnum (Rng &r) { Str s; if (r.chance(1, 3)) s = "-"; switch (r.below(6)) { case 0: s += "0"; break; case 1: { static const char *L[] = {"9223372036854775807", "9223372036854775808", "9223372036854775809", "2147483648", "18446744073709551616"}; s += L[r.below(5)]; break; } case 2: s += (char) ('1' + r.below(9)); s += r.text(r.chance(1, 6) ? r.range(110, 132) : r.below(25), "0123456789"); break; default: s += (char) ('1' + r.below(9)); s += r.text(r.below(5), "0123456789"); }
    if (r.chance(1, 4)) s += "." + r.text(1 + r.below(6), "0123456789"); if (r.chance(1, 5)) { s += r.ch("eE"); if (r.chance(1, 2)) s += r.ch("+-"); s += r.text(1 + r.below(3), "0123456789"); } return s; }
static Node gtree (Rng &r, unsigned depth, bool container)
{   Node n; unsigned k = container ? r.below(2) : r.below(8); if (depth == 0 && k < 2 && !container) k = 2 + r.below(6);
    switch (k) { case 0: case 1: { n.t = k ? ARR : OBJ; size_t c = r.chance(1, 4) ? 0 : 1 + r.below(depth > 3 ? 4 : 3); if (depth == 0) c = 0; for (size_t i = 0; i < c; ++i) { Node x = gtree(r, depth - 1, r.chance(depth > 8 ? 3 : 1, 4) && depth > 1); if (n.t == OBJ) x.key = gstr(r); n.ch.push_back(x); } break; }
        case 2: case 3: n.t = STR; n.val = gstr(r); break; case 4: case 5: n.t = NUM; n.val = gnum(r); break; case 6: n.t = r.chance(1, 2) ? TRU : FAL; break; default: n.t = NUL; } return n; }
static size_t nodes (const Node &n) { size_t c = 1; for (auto &x : n.ch) c += nodes(x); return c; }
static unsigned height (const Node &n) { unsigned h = 0; for (auto &x : n.ch) h = std::max(h, 1 + height(x)); return h; }
static bool fits (const Node &n) { if (n.val.size() > U_TOKEN_SZ - 2 || n.key.size() > U_TOKEN_SZ - 2) return false; for (auto &x : n.ch) if (!fits(x)) return false; return true; }
static bool is_int (const Str &v) { size_t i = v[0] == '-'; if (i >= v.size()) return false; for (; i < v.size(); ++i) if (!isdigit((unsigned char) v[i])) return false; return true; }
static Str encode (u_json_t *j) { char *s = nullptr; CHECK(u_json_encode(j, &s) == 0 && s, "encode", "a complete tree cannot be encoded"); Str o = s; u_free(s); return o; }
/* typed getters of a node against the expected value */
static void values (u_json_t *j, const Node &n)
{   const char *v = u_json_get_val(j); long l = 77; double d = 7.5; char b = 9; int ri = u_json_get_int(j, &l), rd = u_json_get_real(j, &d), rb = u_json_get_bool(j, &b); h::cov("nodes-read");
    switch (n.t) { case STR: case NUM: CHECK(v && n.val == v, "value", "value '%s' instead of '%s'", v ? h::esc(v).c_str() : "(null)", h::esc(n.val).c_str()); break; case TRU: CHECK(v && !strcmp(v, "true"), "value", "no true"); break; case FAL: CHECK(v && !strcmp(v, "false"), "value", "no false"); break; case NUL: CHECK(v && !strcmp(v, "null"), "value", "no null"); break; default: CHECK(!v, "value", "a container has the value '%s'", v); }
    if (n.t == TRU || n.t == FAL) CHECK(rb == 0 && b == (n.t == TRU), "bool", "boolean %d reads %d/%d", n.t == TRU, rb, b); else CHECK(rb != 0 && b == 9, "bool", "a boolean was read from type %d", n.t);
    if (n.t == NUM) { errno = 0; double w = strtod(n.val.c_str(), nullptr); bool e = errno == ERANGE; errno = 0; CHECK(e ? rd != 0 && d == 7.5 : rd == 0 && d == w, "real", "%s reads as real %g (%d)", n.val.c_str(), d, rd);
        if (is_int(n.val)) { errno = 0; long x = strtol(n.val.c_str(), nullptr, 10); bool e2 = errno == ERANGE; errno = 0; CHECK(e2 ? ri != 0 && l == 77 : ri == 0 && l == x, "int", "%s reads as integer %ld (%d)", n.val.c_str(), l, ri); } }
    else CHECK(ri != 0 && rd != 0 && l == 77 && d == 7.5, "number", "a number was read from type %d", n.t); }
/* navigation: children, order, counts, iteration both ways */
static void navigate (u_json_t *j, const Node &n)
{   values(j, n); std::vector<u_json_t *> c; u_json_it_t it; u_json_t *x, *f = u_json_child_first(j), *l = u_json_child_last(j);
    CHECK(u_json_it(f, &it) == 0, "iterator", "no iterator"); while ((x = u_json_it_next(&it))) { c.push_back(x); CHECK(c.size() <= n.ch.size(), "child-count", "more than %zu children", n.ch.size()); } CHECK(c.size() == n.ch.size(), "child-count", "%zu children, expected %zu", c.size(), n.ch.size());
    CHECK(u_json_it_next(&it) == nullptr, "iterator", "an exhausted iterator went on"); if (c.size()) { CHECK(l == c.back(), "last-child", "the last child is another one"); size_t k = c.size(); u_json_it(l, &it); while ((x = u_json_it_prev(&it))) { CHECK(k > 0 && x == c[--k], "backward", "backward iteration differs"); } CHECK(k == 0, "backward", "backward iteration stops early"); } else CHECK(!f && !l, "no-child", "a child of an empty node");
    CHECK(u_json_array_count(j) == (n.t == ARR ? n.ch.size() : 0), "array-count", "the array counts %u, expected %zu", u_json_array_count(j), n.ch.size());
    if (n.t == ARR) { for (size_t k = 0; k < c.size(); ++k) if (c.size() < 60 || k % 97 == 0 || k + 3 > c.size()) CHECK(u_json_array_get_nth(j, k) == c[k], "nth", "element %zu of %zu is another one", k, c.size()); CHECK(!u_json_array_get_nth(j, c.size()) && !u_json_array_get_nth(j, -1), "nth-beyond", "an element beyond the end"); } else CHECK(!u_json_array_get_nth(j, 0), "nth-of-no-array", "a node that is no array has a 0th element");
    for (size_t k = 0; k < c.size(); ++k) navigate(c[k], n.ch[k]); }
static void same (u_json_t *j, const Node &n, const char *what)
{   navigate(j, n); Str s = encode(j); Node m; CHECK(strict(s, m), "not-json", "%s is encoded as text that is not JSON: %s", what, h::esc(s).c_str()); m.key = n.key; CHECK(m == n, "tree", "%s is not the expected tree: %s", what, h::esc(s).c_str()); }
/* build a tree with the API */
static u_json_t *build (const Node &n, Rng *r)
{   u_json_t *j = nullptr; int rc = -1; const char *k = n.key.empty() && r && r->chance(1, 2) ? nullptr : n.key.c_str(); long l; char b[64];
    switch (n.t) { case STR: rc = u_json_new_string(k, n.val.c_str(), &j); break; case NUM: if (is_int(n.val) && r && r->chance(1, 2) && (errno = 0, l = strtol(n.val.c_str(), 0, 10), errno == 0) && (snprintf(b, 64, "%ld", l), n.val == b)) rc = u_json_new_int(k, l, &j); else rc = u_json_new_number(k, n.val.c_str(), &j); break; case OBJ: rc = u_json_new_object(k, &j); break; case ARR: rc = u_json_new_array(k, &j); break; case NUL: rc = u_json_new_null(k, &j); break; default: rc = u_json_new_bool(k, n.t == TRU ? (r && r->chance(1, 2) ? (char) r->one({"\x2a", "\xff", "\x80", "\x02", "\x40", "\x7f"})[0] : 1) : 0, &j); }
    errno = 0; CHECK(rc == 0 && j, "build", "a node of type %d (key '%s', value '%s') could not be created", n.t, h::esc(n.key).c_str(), h::esc(n.val).c_str());
    for (auto &c : n.ch) { u_json_t *x = build(c, r); CHECK(u_json_add(j, x) == 0, "add", "a child could not be added"); } return j; }
