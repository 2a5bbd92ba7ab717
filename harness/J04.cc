#include "js.h"
/* indexed lookup vs paths computed from the tree, across index/edit/unindex histories */
static bool ambiguous;
static Node simple (Rng &r, unsigned d, bool c) { Node n = gtree(r, d, c); std::function<void(Node &)> fix = [&] (Node &x) { int i = 0; for (auto &y : x.ch) { if (x.t == OBJ) { y.key = r.text(1 + r.below(5), "abcxyz_-") + std::to_string(i++); if (r.chance(1, 60)) y.key += Str(60 + r.below(60), 'L'); if (ambiguous && !r.chance(1, 5)) y.key = r.one({"a", "b", "a", "", "a.b", "a[0]", "[0]", ".", "b[1]", ".a"}); } if (y.val.size() > 126) y.val = y.t == NUM ? "3" : "v"; fix(y); } }; if (n.val.size() > 126) n.val = n.t == NUM ? "3" : "v"; fix(n); return n; }
struct E { u_json_t *j; const Node *n; Str path; u_json_t *parent; };
static void collect (u_json_t *j, const Node &n, const Str &p, u_json_t *up, std::vector<E> &v)
{   v.push_back({j, &n, p, up}); u_json_it_t it; u_json_it(u_json_child_first(j), &it); size_t i = 0; for (auto &c : n.ch) { u_json_t *x = u_json_it_next(&it); CHECK(x, "child-count", "a child is missing"); collect(x, c, p + (n.t == OBJ ? "." + c.key : "[" + std::to_string(i) + "]"), j, v); ++i; } }
static void lookups (Rng &r, u_json_t *root, const std::vector<E> &v)
{
    std::map<Str, u_json_t *> by; std::map<Str, std::set<u_json_t *>> all; for (auto &e : v) { by.emplace(e.path, e.j); all[e.path].insert(e.j); }
    if (ambiguous) { for (auto &x : by) { u_json_t *g = u_json_cache_get(root, x.first.c_str()); CHECK(all[x.first].count(g), "lookup", "looking up %s (%zu nodes) gives %s", x.first.c_str(), all[x.first].size(), g ? "another node" : "nothing"); x.second = g; if (all[x.first].size() > 1) h::cov("ambiguous-paths"); } }
    for (auto &e : v) { h::Exact p(e.path); u_json_t *g = u_json_cache_get(root, p.p); CHECK(g == by[e.path], "lookup", "looking up %s gives %s", e.path.c_str(), g ? "another node" : "nothing"); const char *a = u_json_cache_get_val(root, p.p), *b = u_json_get_val(g); CHECK((!a && !b) || (a && b && !strcmp(a, b)), "lookup-value", "the value at %s differs", e.path.c_str()); values(e.j, *e.n); h::cov("lookups");
        if (e.n->t == NUM && g == e.j) { long l = 1, m = 1; double d = 1, f = 1; int x = u_json_cache_get_int(root, p.p, &l), y = u_json_get_int(e.j, &m); CHECK(x == y && l == m, "lookup-int", "%s", e.path.c_str()); x = u_json_cache_get_real(root, p.p, &d); y = u_json_get_real(e.j, &f); CHECK(x == y && d == f, "lookup-real", "%s", e.path.c_str()); } char bo = 5; if (g == e.j) CHECK((u_json_cache_get_bool(root, p.p, &bo) == 0) == (e.n->t == TRU || e.n->t == FAL), "lookup-bool", "%s", e.path.c_str());
        if (e.n->t == ARR) { u_json_it_t it; u_json_it(u_json_child_first(e.j), &it); for (size_t i = 0; i < e.n->ch.size() + 1; ++i) { u_json_t *x = u_json_it_next(&it); CHECK(u_json_array_get_nth(e.j, i) == x, "indexed-nth", "element %zu of %s", i, e.path.c_str()); } }
        if (e.parent) { const E *pe = nullptr; for (auto &q : v) if (q.j == e.parent) pe = &q; Str rel = e.path.substr(pe->path.size()); if (!by.count(rel) && pe->parent) CHECK(u_json_cache_get(e.parent, rel.c_str()) == by[e.path], "relative", "%s relative to %s", rel.c_str(), pe->path.c_str()); CHECK(u_json_cache_get(e.parent, e.path.c_str()) == by[e.path], "absolute", "%s from its parent", e.path.c_str()); h::cov("relative-lookups"); } }
    for (int i = 0; i < 12; ++i) { Str p = r.pick(v).path; switch (r.below(6)) { case 0: p += r.one({".", "[0]", ".zz", "[", "x", "[99999]", " "}); break; case 1: p = p.substr(0, r.below(p.size() + 1)); break; case 2: p[r.below(p.size())] ^= 1; break; case 3: p = r.text(r.below(300), ".[]ab01"); break; case 4: p = "." + p; break; default: p = Str(r.range(250, 600), 'x'); } auto x = by.find(p); u_json_t *g = u_json_cache_get(root, p.c_str()); CHECK(g == (x == by.end() ? nullptr : x->second), "absent", "looking up the %s path '%s' gives %s", x == by.end() ? "absent" : "present", h::esc(p).c_str(), g ? "a node" : "nothing"); h::cov("absent-lookups"); }
    for (int i = 0; i < 8; ++i) { const E &e = r.pick(v), &o = r.pick(v); if (!e.parent) continue; Str p = o.path; switch (r.below(6)) { case 0: p = p.substr(r.below(p.size())); break; case 1: if (p.compare(0, e.path.size(), e.path) == 0) p = p.substr(e.path.size()); break; case 2: if (p.compare(0, e.path.size(), e.path) == 0) p = p.substr(e.path.size()); p += r.one({".", "x", "[0]", "]"}); break; case 3: p += Str(r.range(1, 400), 'L'); break; case 4: if (p.compare(0, e.path.size(), e.path) == 0) p = p.substr(e.path.size()); p += Str(r.range(1, 400), 'L'); break; default: p = r.text(r.below(4), ".[]01"); } auto x = by.find(p), y = by.find(e.path + p); u_json_t *want = x != by.end() ? x->second : y != by.end() ? y->second : nullptr, *g = u_json_cache_get(e.j, p.c_str()); CHECK(g == want, "inner-lookup", "looking up '%s' from %s gives %s", h::esc(p).c_str(), e.path.c_str(), g ? "the wrong node" : "nothing"); h::cov("lookups-from-inner-nodes"); }
}
void run_case (Rng &r, u64 n)
{
    ambiguous = r.chance(1, 4); Node x = simple(r, r.chance(1, 10) ? 14 : 1 + r.below(5), true); Str t; Blanks b = {nullptr, ""}; write(x, t, b); u_json_t *j = nullptr; CHECK(u_json_decode(t.c_str(), &j) == 0, "decode-refuses", "%s", h::esc(t).c_str()); h::tr("%s", h::esc(t, 200).c_str()); h::sig(nodes(x)); h::sig(height(x)); h::sig(t.size());
    unsigned rounds = 1 + r.below(h::memcheck ? 2 : 5);
    for (unsigned k = 0; k < rounds; ++k) {
        std::vector<E> v; collect(j, x, ".", nullptr, v); size_t longest = 0; for (auto &e : v) longest = std::max(longest, e.path.size());
        CHECK(u_json_cache_get(j, ".") == nullptr, "no-index", "a lookup without index gives a node"); for (auto &e : v) if (r.chance(1, 4)) CHECK(!u_json_cache_get(e.j, ".") && !u_json_cache_get(e.j, e.path.c_str()), "stale-index", "a lookup from an inner node of a tree without index gives a node");
        if (v.size() > 1) CHECK(u_json_index(v[1 + r.below(v.size() - 1)].j) != 0, "index-inner", "an inner node was indexed");
        int rc = u_json_index(j); h::sig(rc == 0); if (longest < U_JSON_FQN_SZ) CHECK(rc == 0, "index", "no index for a tree of %zu nodes", v.size()); h::cov(rc ? "index-refusals" : "indexings");
        if (rc == 0) { CHECK(longest < U_JSON_FQN_SZ, "long-names", "a tree with a path of %zu characters was indexed", longest); if (r.chance(1, 3)) CHECK(u_json_index(j) == 0, "index-twice", "indexing twice"); lookups(r, j, v);
            /* frozen */ for (int i = 0; i < 4; ++i) { E &e = r.pick(v); u_json_t *y = nullptr; CHECK(u_json_new_null("q", &y) == 0, "new", "new"); CHECK(u_json_add(e.j, y) != 0, "frozen-add", "a child was added to an indexed tree"); u_json_free(y); { u_json_t *b = nullptr; CHECK((i & 1 ? u_json_new_array("b", &b) : u_json_new_object("b", &b)) == 0 && u_json_add(b, e.j) != 0, "frozen-move", "an indexed node was added to another tree"); CHECK(!u_json_child_first(b) && u_json_array_count(b) == 0, "frozen-move", "the other tree has changed"); u_json_free(b); } if (e.j != j) CHECK(u_json_remove(e.j) != 0, "frozen-remove", "a node was removed from an indexed tree"); CHECK(u_json_set_key(e.j, "zz") != 0 && u_json_set_type(e.j, U_JSON_TYPE_NULL) != 0, "frozen-set", "key or type of an indexed node was changed"); }
            /* set through the index */ for (int i = 0; i < 6; ++i) { u_json_t *at = u_json_cache_get(j, r.pick(v).path.c_str()); E *ep = nullptr; for (auto &q : v) if (q.j == at) ep = &q; CHECK(ep, "lookup", "a path is lost"); E &e = *ep; bool cont = e.n->t == OBJ || e.n->t == ARR; static const u_json_type_t ty[] = {U_JSON_TYPE_UNKNOWN, U_JSON_TYPE_STRING, U_JSON_TYPE_NUMBER, U_JSON_TYPE_TRUE, U_JSON_TYPE_FALSE, U_JSON_TYPE_NULL, U_JSON_TYPE_OBJECT, U_JSON_TYPE_ARRAY}; static const T tt[] = {NUL, STR, NUM, TRU, FAL, NUL}; unsigned w = r.below(8); Str val = r.chance(1, 6) ? Str(r.range(126, r.chance(1, 2) ? 129 : 400), '9') : gnum(r); bool null = r.chance(1, 8); T nt = w == 0 ? e.n->t : w < 6 ? tt[w] : OBJ; bool need = nt == STR || nt == NUM; bool ok = !cont && w < 6 && (!need || (!null && val.size() < U_TOKEN_SZ));
                bool edge = need && val.size() == U_TOKEN_SZ - 1 && !null && !cont; int rs = u_json_cache_set_tv(j, e.path.c_str(), ty[w], null ? nullptr : val.c_str()); if (edge) { ok = rs == 0; h::cov("edge-values"); } CHECK((rs == 0) == ok, "set-indexed", "setting %s (type %d) to type %u value '%s' returns %d", e.path.c_str(), e.n->t, w, null ? "(null)" : val.c_str(), rs); if (ok) { Node *m = (Node *) e.n; m->t = nt; m->val = need ? val : ""; h::cov("indexed-sets"); } else h::cov("indexed-set-refusals"); values(e.j, *e.n); }
            CHECK(u_json_cache_set_tv(j, ".nope", U_JSON_TYPE_NULL, "1") != 0, "set-absent", "an absent node was set"); lookups(r, j, v); same(j, x, "the indexed tree");
            if (k + 1 == rounds && r.chance(1, 2)) break; 
            if (v.size() > 1 && r.chance(1, 3)) CHECK(u_json_unindex(v[1 + r.below(v.size() - 1)].j) != 0, "unindex-inner", "the index was dropped from an inner node"); CHECK(u_json_unindex(j) == 0 && u_json_unindex(j) == 0, "unindex", "dropping the index fails"); h::cov("unindexings"); }
        /* edit the tree: append to or remove from a container */
        for (int i = 0; i < 4; ++i) { std::vector<E> w; collect(j, x, ".", nullptr, w); E &e = r.pick(w); Node *m = (Node *) e.n; if (r.chance(1, 2) && (m->t == OBJ || m->t == ARR) && height(x) < 12) { Node c = simple(r, r.below(3), false); if (m->t == OBJ) c.key = "new" + std::to_string(k * 10 + i); u_json_t *y = build(c, &r); CHECK(u_json_add(e.j, y) == 0, "edit-after-unindex", "adding after dropping the index fails"); m->ch.push_back(c); h::cov("edits"); }
            else if (e.parent) { Node *pm = nullptr; for (auto &q : w) if (q.j == e.parent) pm = (Node *) q.n; CHECK(u_json_remove(e.j) == 0, "edit-after-unindex", "removing after dropping the index fails"); pm->ch.erase(pm->ch.begin() + (m - &pm->ch[0])); h::cov("edits"); } }
        same(j, x, "the tree after edits"); }
    u_json_free(j);
}
static void p_reindex () { u_json_t *j = nullptr, *a, *y; CHECK(u_json_decode("{\"a\":[10,11,[20,21]],\"b\":{\"c\":[30]}}", &j) == 0, "decode-refuses", "no"); for (int i = 0; i < 4; ++i) { CHECK(u_json_index(j) == 0, "index", "index"); long l = 0; CHECK(u_json_cache_get_int(j, "..a[1]", &l) == 0 && l == 11, "reindex", "..a[1] gives %ld at round %d", l, i); CHECK(u_json_cache_get_int(j, "..a[2][1]", &l) == 0 && l == 21, "reindex", "..a[2][1] gives %ld at round %d", l, i); CHECK(u_json_cache_get_int(j, "..b.c[0]", &l) == 0 && l == 30, "reindex", "..b.c[0] gives %ld at round %d", l, i); CHECK((a = u_json_cache_get(j, "..a")) != nullptr, "reindex", "..a"); CHECK(u_json_unindex(j) == 0, "unindex", "unindex"); CHECK(u_json_new_int("x", 99, &y) == 0 && u_json_add(a, y) == 0, "edit-after-unindex", "add"); } u_json_free(j); }
static void p_longest ()
{   Str a(100, 'a'), b(100, 'b'), c(U_JSON_FQN_SZ - 1 - 2 - 100 - 1 - 100 - 1, 'c'); u_json_t *j = nullptr; CHECK(u_json_decode(("{\"" + a + "\":{\"" + b + "\":{\"" + c + "\":1}}}").c_str(), &j) == 0, "decode-refuses", "no"); CHECK(u_json_index(j) == 0, "index", "a path of %u characters", U_JSON_FQN_SZ - 1);
    Str top = ".." + a, mid = "." + b, low = "." + c; u_json_t *p = u_json_cache_get(j, top.c_str()), *q = u_json_cache_get(j, (top + mid).c_str()); CHECK(p && q, "lookup", "an inner object"); CHECK(u_json_cache_get(p, (mid + low).c_str()) && u_json_cache_get(q, low.c_str()), "lookup", "the longest name");
    for (unsigned n = 1; n < 300; n = n < 4 ? n + 1 : n * 3) for (char x : {'c', '.', ']'}) CHECK(!u_json_cache_get(p, (mid + low + Str(n, x)).c_str()) && !u_json_cache_get(q, (low + Str(n, x)).c_str()) && !u_json_cache_get(j, (top + mid + low + Str(n, x)).c_str()), "longest", "a name %u characters longer than an existing one is found", n); u_json_free(j); }
static void p_large () { Str t = "{\"o\":{"; const int N = 15000; for (int i = 0; i < N; ++i) t += h::fmt("%s\"k%d\":%d", i ? "," : "", i, i); t += "},\"a\":["; for (int i = 0; i < N; ++i) t += h::fmt("%s%d", i ? "," : "", i); t += "]}"; u_json_t *j = nullptr; CHECK(u_json_decode(t.c_str(), &j) == 0, "decode-refuses", "%d members", N); for (int round = 0; round < 2; ++round) { CHECK(u_json_index(j) == 0, "index", "index"); for (int i = 0; i < N + 5; ++i) { long l = -1, m = -1; int a = u_json_cache_get_int(j, h::fmt("..o.k%d", i).c_str(), &l), b = u_json_cache_get_int(j, h::fmt("..a[%d]", i).c_str(), &m); if (i < N) CHECK(!a && !b && l == i && m == i, "lookup", "member %d is %ld and %ld", i, l, m); else CHECK(a && b, "lookup", "member %d of %d is found", i, N); } for (int i = 0; i < N; i += 7) CHECK(u_json_cache_set_tv(j, h::fmt("..a[%d]", i).c_str(), U_JSON_TYPE_NUMBER, std::to_string(i).c_str()) == 0, "set", "set %d", i); CHECK(u_json_unindex(j) == 0, "unindex", "unindex"); } Node n; CHECK(strict(encode(j), n) && n.ch.size() == 2 && n.ch[0].ch.size() == N && n.ch[1].ch.size() == N, "encode", "the tree has changed"); u_json_free(j); }
const Probe PROBES[] = { {"reindex", p_reindex}, {"longest", p_longest}, {"large", p_large}, {0, 0} };
