#include "js.h"
/* edit histories on a tree vs an ideal ordered tree */
struct M { Node n; u_json_t *j; M *up; std::vector<M *> ch; ~M () { for (M *c : ch) delete c; } };
static Node image (const M *m) { Node n = m->n; n.ch.clear(); for (M *c : m->ch) n.ch.push_back(image(c)); return n; }
static void all (M *m, std::vector<M *> &v) { v.push_back(m); for (M *c : m->ch) all(c, v); }
static void ptrs (M *m) { u_json_it_t it; u_json_it(u_json_child_first(m->j), &it); for (M *c : m->ch) { u_json_t *x = u_json_it_next(&it); CHECK(x == c->j, "child-object", "a child is another node than the one added"); ptrs(c); } 
    for (size_t i = 0; i < m->ch.size(); ++i) { u_json_it_t a; u_json_it(m->ch[i]->j, &a); for (size_t k = i; k < m->ch.size(); ++k) CHECK(u_json_it_next(&a) == m->ch[k]->j, "iterate-from", "iteration from child %zu differs", i); CHECK(!u_json_it_next(&a), "iterate-from", "goes on"); u_json_it(m->ch[i]->j, &a); for (size_t k = i + 1; k-- > 0;) CHECK(u_json_it_prev(&a) == m->ch[k]->j, "iterate-back", "backward iteration from child %zu differs", i); CHECK(!u_json_it_prev(&a), "iterate-back", "goes on"); if (i > 12) break; } }
static std::vector<std::pair<u_json_t *, size_t>> walked; static void wcb (u_json_t *j, size_t l, void *a) { if (a != &walked) h::fail("walk-arg", "argument"); walked.push_back({j, l}); }
static void expect_walk (M *m, size_t l, int s, std::vector<std::pair<u_json_t *, size_t>> &o) { if (s == U_JSON_WALK_PREORDER) o.push_back({m->j, l}); for (M *c : m->ch) expect_walk(c, l + 1, s, o); if (s == U_JSON_WALK_POSTORDER) o.push_back({m->j, l}); }
static M *wrap (const Node &n, u_json_t *j, M *up) { M *m = new M{n, j, up, {}}; u_json_it_t it; u_json_it(u_json_child_first(j), &it); for (auto &c : n.ch) { u_json_t *x = u_json_it_next(&it); CHECK(x, "child-count", "a child is missing"); m->ch.push_back(wrap(c, x, m)); } return m; }
void run_case (Rng &r, u64 n)
{
    Node x = gtree(r, r.below(4), true); if (!fits(x)) x = Node{ARR}; u_json_t *j; if (r.chance(1, 2)) j = build(x, &r); else { Str t; Blanks b = {nullptr, ""}; write(x, t, b); CHECK(u_json_decode(t.c_str(), &j) == 0, "decode-refuses", "%s", t.c_str()); }
    M *root = wrap(x, j, nullptr); unsigned ops = h::memcheck ? 25 : 60;
    for (unsigned o = 0; o < ops; ++o) { std::vector<M *> v; all(root, v); M *m = r.pick(v); unsigned k = r.below(12); bool cont = m->n.t == OBJ || m->n.t == ARR; h::sig(k * 8 + m->n.t);
        if (v.size() > 150) k = 7;
        if (k < 5) { Node c = gtree(r, r.below(3), false); if (!fits(c)) continue; if (cont && m->n.t == OBJ) { c.key = gstr(r); if (c.key.size() > 126) c.key = "kk"; } u_json_t *y = build(c, &r); int rc = u_json_add(m->j, y); if (cont) { CHECK(rc == 0, "add", "a child could not be added"); m->ch.push_back(wrap(c, y, m)); h::cov("additions"); h::tr("add"); } else { CHECK(rc != 0, "add-to-leaf", "a child was added to a leaf"); u_json_free(y); h::cov("refused-additions"); } }
        else if (k < 8) { if (m == root) continue; h::tr("remove"); size_t at = std::find(m->up->ch.begin(), m->up->ch.end(), m) - m->up->ch.begin(); h::sig(at + 1 == m->up->ch.size()); CHECK(u_json_remove(m->j) == 0, "remove", "a node could not be removed"); m->up->ch.erase(m->up->ch.begin() + at); delete m; h::cov("removals"); }
        else if (k < 10) { bool num = m->n.t == NUM, str = m->n.t == STR; if (!num && !str) continue; Str val; bool good; unsigned w = r.below(6); bool fill = r.chance(1, 20); 
            if (w == 0) { val = r.nzbytes(r.below(12)); } else if (w == 1) { val = num ? gnum(r) : gstr(r); val += r.one({"\"", "x", " ", ",", "]", "\\", "\n", "\" ", "1e", "."}); } else if (w == 2) { val = r.chance(1, 2) ? "" : Str(r.range(127, 4000), '1'); } else val = num ? gnum(r) : gstr(r); if (fill) val = Str(U_TOKEN_SZ - 1 - r.below(2), num ? '7' : 'f');
            { Str q = str ? "\"" + val + "\"" : val; Node z; Str t = "[" + q + "]"; good = strict(t, z) && z.ch.size() == 1 && z.ch[0].t == m->n.t && z.ch[0].val == val; } bool edge = val.size() == U_TOKEN_SZ - 1; if (val.size() >= U_TOKEN_SZ) good = false;
            h::Exact e(val); int rc = u_json_set_val_ex(m->j, e.p, 1); h::tr("set %s", h::esc(val, 30).c_str()); if (!edge) CHECK((rc == 0) == good, "checked-set", "checked setting of %s '%s' returns %d", num ? "number" : "string", h::esc(val).c_str(), rc); if (rc == 0) m->n.val = val; const char *g = u_json_get_val(m->j); CHECK(g && m->n.val == g, "value", "after %s setting the value is '%s', expected '%s'", rc ? "refused" : "successful", h::esc(g).c_str(), h::esc(m->n.val).c_str()); if (edge && rc == 0) { Node w; Str t = encode(root->j); CHECK(strict(t, w), "not-json", "with a value of %zu characters the tree is encoded as %s", val.size(), h::esc(t).c_str()); h::cov("edge-values-kept"); } h::cov(good ? "checked-sets" : "checked-refusals"); }
        else if (k < 11) { int s = r.chance(1, 2) ? U_JSON_WALK_PREORDER : U_JSON_WALK_POSTORDER; walked.clear(); std::vector<std::pair<u_json_t *, size_t>> w; expect_walk(m, 3, s, w); u_json_walk(m->j, s, 3, wcb, &walked); CHECK(walked.size() == w.size(), "walk-extent", "walking a node visits %zu nodes, its subtree has %zu", walked.size(), w.size()); auto a = walked; if (s == U_JSON_WALK_PREORDER) CHECK(a == w, "walk-order", "the walk visits other nodes or levels"); else { std::sort(a.begin(), a.end()); std::sort(w.begin(), w.end()); CHECK(a == w, "walk-nodes", "the walk visits other nodes or levels"); CHECK(walked.back().first == m->j, "walk-last", "the node is not visited last"); } h::cov("walks"); }
        else if (cont) same(m->j, image(m), "an edited subtree"); else navigate(m->j, m->n.ch.empty() ? m->n : image(m));
        if (o % 7 == 0) { ptrs(root); } }
    Node im = image(root); ptrs(root); same(root->j, im, "the edited tree"); if (r.chance(1, 2)) u_json_free(root->j); else CHECK(u_json_remove(root->j) == 0, "remove-root", "removing the root fails"); delete root;
}
static void p_remove_each () { for (int k = 0; k < 5; ++k) for (int type = 0; type < 2; ++type) { u_json_t *j = nullptr; CHECK(u_json_decode(type ? "{\"a\":1,\"b\":[1,2],\"c\":{\"x\":3},\"d\":null,\"e\":5}" : "[1,[1,2],{\"x\":3},null,5]", &j) == 0, "decode-refuses", "no"); u_json_it_t it; u_json_it(u_json_child_first(j), &it); u_json_t *x = nullptr; for (int i = 0; i <= k; ++i) x = u_json_it_next(&it); CHECK(u_json_remove(x) == 0, "remove", "remove"); Node n; n.t = type ? OBJ : ARR; Node e[5]; e[0].t = NUM; e[0].val = "1"; e[1].t = ARR; for (const char *s : {"1", "2"}) { Node z; z.t = NUM; z.val = s; e[1].ch.push_back(z); } e[2].t = OBJ; { Node z; z.t = NUM; z.key = "x"; z.val = "3"; e[2].ch.push_back(z); } e[3].t = NUL; e[4].t = NUM; e[4].val = "5"; for (int i = 0; i < 5; ++i) { if (type) e[i].key = Str(1, 'a' + i); if (i != k) n.ch.push_back(e[i]); } same(j, n, "the tree after a removal"); u_json_free(j); } }
static void p_args () { u_json_t *j = nullptr; CHECK(u_json_new_number("n", "12x", &j) && u_json_new_number("n", "", &j) && u_json_new_number("n", "1 ", &j) && u_json_new_number("n", "0x10", &j) && u_json_new_string("s", "a\"b", &j) && u_json_new_string("s", "a\\", &j) && u_json_new_string("s", "\n", &j) && u_json_new_string("s", nullptr, &j) && !j, "new-check", "an invalid value was taken"); CHECK(u_json_new_string(Str(U_TOKEN_SZ, 'k').c_str(), "v", &j) != 0 && u_json_new_array(Str(4000, 'k').c_str(), &j) != 0 && !j, "key-long", "a key beyond the token size was taken"); Str big(300000, '1'); CHECK(u_json_new_number("n", big.c_str(), &j) && u_json_new_string("n", big.c_str(), &j) && !j, "val-long", "a value beyond the token size was taken"); u_json_free(nullptr); CHECK(u_json_remove(nullptr) && !u_json_child_first(nullptr) && u_json_get_val(nullptr) == nullptr, "null", "null"); }
static void p_large () { for (auto type : {ARR, OBJ}) { u_json_t *j = nullptr; CHECK((type == ARR ? u_json_new_array(nullptr, &j) : u_json_new_object(nullptr, &j)) == 0, "new", "new"); Node n; n.t = type; for (int i = 0; i < 30000; ++i) { u_json_t *c = nullptr; Node x; x.t = NUM; x.val = std::to_string(i); x.key = type == OBJ ? "k" + x.val : ""; CHECK(u_json_new_int(x.key.c_str(), i, &c) == 0 && u_json_add(j, c) == 0, "add", "add %d", i); n.ch.push_back(x); } if (type == ARR) CHECK(u_json_array_count(j) == 30000, "count", "%u", u_json_array_count(j));
    u_json_it_t it; u_json_it(u_json_child_first(j), &it); Node m; m.t = type; u_json_t *c; for (int i = 0; (c = u_json_it_next(&it)); ++i) { CHECK(i < 30000, "iterate", "too many"); if (i % 3 == 1 || i == 29999) CHECK(u_json_remove(c) == 0, "remove", "remove %d", i); else m.ch.push_back(n.ch[i]); } if (type == ARR) CHECK(u_json_array_count(j) == m.ch.size(), "count", "%u of %zu", u_json_array_count(j), m.ch.size()); size_t i = 0; for (u_json_it(u_json_child_first(j), &it); (c = u_json_it_next(&it)); ++i) { CHECK(i < m.ch.size() && m.ch[i].val == u_json_get_val(c), "iterate", "child %zu is %s", i, u_json_get_val(c)); } CHECK(i == m.ch.size(), "iterate", "%zu of %zu", i, m.ch.size()); u_json_it(u_json_child_last(j), &it); while ((c = u_json_it_prev(&it))) { CHECK(i > 0, "iterate", "back"); --i; CHECK(m.ch[i].val == u_json_get_val(c), "iterate", "backwards child %zu is %s", i, u_json_get_val(c)); } CHECK(i == 0, "iterate", "%zu left", i); for (size_t k : {(size_t) 0, (size_t) 9999, (size_t) 10000, m.ch.size() - 1}) if (type == ARR) { c = u_json_array_get_nth(j, k); CHECK(c && m.ch[k].val == u_json_get_val(c), "nth", "element %zu", k); } if (type == ARR) CHECK(!u_json_array_get_nth(j, m.ch.size()), "nth", "beyond"); Node back; CHECK(strict(encode(j), back) && back.ch.size() == m.ch.size(), "encode", "the edited container has %zu children, expected %zu", back.ch.size(), m.ch.size()); for (size_t k = 0; k < m.ch.size(); ++k) CHECK(back.ch[k].val == m.ch[k].val && back.ch[k].key == m.ch[k].key, "encode", "child %zu", k); u_json_free(j); } }
/* containers of 1..260 children that lose them from either end, the middle or anywhere */
static void p_wide () { for (int type = 0; type < 2; ++type) for (int mode = 0; mode < 5; ++mode) for (int n = 1; n <= 260; n = n < 70 ? n + 1 : n + 19) { u_json_t *j = nullptr; CHECK((type ? u_json_new_object(nullptr, &j) : u_json_new_array(nullptr, &j)) == 0, "new", "new"); std::vector<u_json_t *> c; Rng r((u64) n * 77 + mode); for (int i = 0; i < n; ++i) { u_json_t *x = nullptr; CHECK(u_json_new_int(type ? std::to_string(i).c_str() : nullptr, i, &x) == 0 && u_json_add(j, x) == 0, "add", "child %d", i); c.push_back(x); }
    while (1) { CHECK(u_json_array_count(j) == (type ? 0 : c.size()), "count", "with %zu of %d children left the count is %u", c.size(), n, u_json_array_count(j)); CHECK(u_json_child_first(j) == (c.empty() ? nullptr : c.front()) && u_json_child_last(j) == (c.empty() ? nullptr : c.back()), "ends", "with %zu of %d children left the first or last is another one", c.size(), n); if (!type) for (long k : {0L, (long) c.size() / 2, (long) c.size() - 1, (long) c.size(), (long) c.size() + 1}) if (k >= 0) CHECK(u_json_array_get_nth(j, k) == (k < (long) c.size() ? c[k] : nullptr), "nth", "with %zu of %d children left element %ld is another one", c.size(), n, k);
        if (c.size() % 16 == 0 || c.size() < 6) { u_json_it_t it; u_json_it(u_json_child_first(j), &it); for (auto *x : c) CHECK(u_json_it_next(&it) == x, "iterate", "with %zu of %d children left", c.size(), n); CHECK(!u_json_it_next(&it), "iterate", "on"); u_json_it(u_json_child_last(j), &it); for (size_t k = c.size(); k-- > 0;) CHECK(u_json_it_prev(&it) == c[k], "iterate", "back with %zu of %d children left", c.size(), n); CHECK(!u_json_it_prev(&it), "iterate", "back on"); Node b; CHECK(strict(encode(j), b) && b.ch.size() == c.size(), "encode", "%zu children instead of %zu", b.ch.size(), c.size()); }
        if (c.empty()) break; size_t k = mode == 0 ? 0 : mode == 1 ? c.size() - 1 : mode == 2 ? c.size() / 2 : mode == 3 ? r.below(c.size()) : (c.size() & 1 ? 0 : c.size() - 1); CHECK(u_json_remove(c[k]) == 0, "remove", "child %zu of %zu", k, c.size()); c.erase(c.begin() + k); h::cov("wide-removals"); }
    /* and the emptied container fills up again */ for (int i = 0; i < 3; ++i) { u_json_t *x = nullptr; CHECK(u_json_new_null(type ? "z" : nullptr, &x) == 0 && u_json_add(j, x) == 0, "add", "to an emptied container"); CHECK(u_json_child_last(j) == x && u_json_array_count(j) == (type ? 0u : i + 1u), "refill", "child %d", i); } u_json_free(j); } }
/* an iterator on a node that has no siblings because it is in no container */
static void p_alone () { for (int k = 0; k < 6; ++k) for (int back = 0; back < 2; ++back) { u_json_t *j = nullptr; int rc = k == 0 ? u_json_new_object("o", &j) : k == 1 ? u_json_new_array(nullptr, &j) : k == 2 ? u_json_new_int("i", 3, &j) : k == 3 ? u_json_decode("[1,2]", &j) : k == 4 ? u_json_decode("{\"a\":[1]}", &j) : u_json_new_null("n", &j); CHECK(rc == 0, "new", "kind %d", k); u_json_it_t it; CHECK(u_json_it(j, &it) == 0, "iterator", "none"); u_json_t *x = back ? u_json_it_prev(&it) : u_json_it_next(&it); CHECK(x == j, "alone", "iterating from a node without siblings does not give the node"); x = back ? u_json_it_prev(&it) : u_json_it_next(&it); CHECK(!x && !u_json_it_next(&it) && !u_json_it_prev(&it), "alone", "iterating from a node without siblings goes on"); u_json_free(j); } u_json_it_t it; CHECK(u_json_it(nullptr, &it) == 0 && !u_json_it_next(&it) && !u_json_it_prev(&it), "iterator", "of nothing"); }
const Probe PROBES[] = { {"wide", p_wide}, {"alone", p_alone}, {"remove-each", p_remove_each}, {"arguments", p_args}, {"large", p_large}, {0, 0} };
