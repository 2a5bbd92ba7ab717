#include "h.h"
/* search trees vs an ideal ordered multimap; every node's subtree count checked */
typedef std::pair<int, int> KV;                 /* key, value id (0: no value) */
struct Cfg { u_bst_type_t kt, vt; int opts; bool ckf, cvf, rev, ckcmp; };
static Cfg G; static std::vector<int> freed_vals, freed_keys;
static int pool[4096];
static size_t KS = sizeof(int), VS = 12; static const size_t SIZES[] = {4, 5, 8, 12, 24, 33, 64};
static void opfill (void *p, size_t n, int a) { unsigned char *c = (unsigned char *) p; memcpy(c, &a, 4); for (size_t i = 4; i < n; ++i) c[i] = (unsigned char) (a * 31 + i * 7 + 1); }
static int opval (const void *p, size_t n) { unsigned char w[64]; int a; memcpy(&a, p, 4); opfill(w, n, a); return memcmp(w, p, n) ? -77777 : a; }
static int key_of (const void *k) { return G.kt == U_BST_TYPE_STRING ? atoi((const char *) k) : G.kt == U_BST_TYPE_OPAQUE ? opval(k, KS) : *(const int *) k; }
static int val_of (const void *v) { if (!v) return 0; return G.vt == U_BST_TYPE_STRING ? atoi((const char *) v + 1) : G.vt == U_BST_TYPE_OPAQUE ? opval(v, VS) : (int) (intptr_t) v; }
static int cmp_int (const void *a, const void *b) { int x = key_of(a), y = key_of(b); int c = x < y ? -7 : x > y ? 9 : 0; return G.rev ? -c : c; }
static void kfree (void *p) { freed_keys.push_back(key_of(p)); if (G.kt != U_BST_TYPE_PTR) u_free(p); }
static void vfree (void *p) { freed_vals.push_back(val_of(p)); if (G.vt != U_BST_TYPE_PTR) u_free(p); }
struct Key { char s[16]; void *op = malloc(KS); const void *p; Key (int k) { snprintf(s, 16, "%05d", k); opfill(op, KS, k); p = G.kt == U_BST_TYPE_STRING ? (const void *) s : G.kt == U_BST_TYPE_PTR ? (const void *) &pool[k] : op; } void spoil () { memset(s, 'x', 3); memset(op, 0xfb, KS); } ~Key () { free(op); } };
struct Val { char s[16]; void *op = malloc(VS); const void *p; Val (int v) { snprintf(s, 16, "v%d", v); opfill(op, VS, v); p = !v ? nullptr : G.vt == U_BST_TYPE_STRING ? (const void *) s : G.vt == U_BST_TYPE_PTR ? (const void *) (intptr_t) v : op; } void spoil () { memset(s, 'x', 3); memset(op, 0xfb, VS); } ~Val () { free(op); } };
struct Walk { std::vector<KV> v; std::vector<u_bst_node_t *> n; };
static void collect (u_bst_node_t *n, void *a) { Walk *w = (Walk *) a; w->v.push_back(KV(key_of(u_bst_node_key(n)), val_of(u_bst_node_val(n)))); w->n.push_back(n); }
static bool before (int a, int b) { return G.rev ? a > b : a < b; }
/* subtree counts in visiting order must be those of one binary tree; returns its depth */
static unsigned shape (const std::vector<size_t> &c, size_t a, size_t b)
{   if (a == b) return 0; size_t root = b; for (size_t i = a; i < b; ++i) { CHECK(c[i] >= 1 && c[i] <= b - a, "node-count", "a node says its subtree has %zu elements inside one of %zu", c[i], b - a); if (c[i] == b - a) { CHECK(root == b, "node-count", "two nodes claim the same subtree of %zu", b - a); root = i; } }
    CHECK(root < b, "node-count", "no node counts the subtree of %zu elements", b - a); return 1 + std::max(shape(c, a, root), shape(c, root + 1, b)); }
static unsigned audit (Rng &r, u_bst_t *t, std::multiset<KV> &m, const char *after, bool deep)
{
    CHECK(u_bst_count(t) == (ssize_t) m.size(), "count", "after %s the tree counts %zd elements, expected %zu", after, u_bst_count(t), m.size());
    CHECK((u_bst_empty(t) != 0) == m.empty(), "empty", "after %s empty says %d with %zu elements", after, u_bst_empty(t), m.size());
    if (!deep) return 0;
    Walk w; CHECK(u_bst_foreach(t, collect, &w) == 0, "walk", "walk failed"); h::cov("nodes-walked", w.v.size());
    CHECK(w.v.size() == m.size(), "walk-count", "after %s the walk visits %zu elements, expected %zu", after, w.v.size(), m.size());
    for (size_t i = 1; i < w.v.size(); ++i) CHECK(!before(w.v[i].first, w.v[i - 1].first), "walk-order", "after %s the walk gives %d after %d", after, w.v[i].first, w.v[i - 1].first);
    std::multiset<KV> got(w.v.begin(), w.v.end()); CHECK(got == m, "content", "after %s the tree's pairs are not those pushed and not deleted", after);
    std::vector<size_t> c; for (size_t i = 0; i < w.n.size(); ++i) { u_bst_node_t *n = u_bst_find_nth(t, i); CHECK(n == w.n[i], "nth", "after %s the element of rank %zu of %zu is %d, expected %d", after, i, w.n.size(), n ? key_of(u_bst_node_key(n)) : -1, w.v[i].first); c.push_back(u_bst_node_count(w.n[i])); }
    for (size_t x : {m.size(), m.size() + 1, m.size() + 77, (size_t) -1}) CHECK(u_bst_find_nth(t, x) == nullptr, "nth-beyond", "after %s rank %zu of %zu gives an element", after, x, m.size());
    unsigned d = shape(c, 0, c.size());
    for (unsigned i = 0; i < 12; ++i) { int k = i < 6 && w.v.size() ? r.pick(w.v).first : (int) r.below(3000); Key K(k); u_bst_node_t *n = u_bst_search(t, K.p); auto x = m.lower_bound(KV(k, INT_MIN)); bool have = x != m.end() && x->first == k;
        CHECK((n != nullptr) == have, "search", "after %s searching %d %s", after, k, have ? "misses a present key" : "finds an absent key");
        if (n) { KV f(key_of(u_bst_node_key(n)), val_of(u_bst_node_val(n))); CHECK(f.first == k && m.count(f), "search-pair", "after %s searching %d gives %d/%d", after, k, f.first, f.second); } h::cov(have ? "searches-hit" : "searches-miss"); }
    return d;
}
void run_case (Rng &r, u64 n)
{
    for (int i = 0; i < 4096; ++i) pool[i] = i;
    static const u_bst_type_t TY[] = {U_BST_TYPE_STRING, U_BST_TYPE_OPAQUE, U_BST_TYPE_PTR}; static const int OP[] = {U_BST_OPT_NONE, U_BST_OPT_PUSH_TOP, U_BST_OPT_RANDOMIZED, U_BST_OPT_PUSH_BOTTOM};
    G = Cfg{TY[n % 3], TY[n / 3 % 3], OP[n / 9 % 4], r.chance(1, 3), r.chance(1, 3), r.chance(1, 4), r.chance(1, 2)}; freed_keys.clear(); freed_vals.clear(); KS = SIZES[r.below(7)]; VS = SIZES[r.below(7)];
    u_bst_t *t = nullptr; CHECK(u_bst_new(G.opts, &t) == 0 && t, "create", "create failed"); srand(n * 77 + 5);
    bool defk = G.kt == U_BST_TYPE_STRING && r.chance(1, 2), defv = G.vt == U_BST_TYPE_PTR && r.chance(1, 2);
    if (!defk && r.chance(1, 6)) u_bst_set_keyattr(t, TY[r.below(3)], 5); if (!defv && r.chance(1, 6)) u_bst_set_valattr(t, TY[r.below(3)], 5);
    if (!defk) CHECK(u_bst_set_keyattr(t, G.kt, G.kt == U_BST_TYPE_OPAQUE ? KS : 0) == 0, "attr", "x"); if (!defv) CHECK(u_bst_set_valattr(t, G.vt, G.vt == U_BST_TYPE_OPAQUE ? VS : 0) == 0, "attr", "x");
    if (G.kt != U_BST_TYPE_STRING || G.rev || G.ckcmp) u_bst_set_cmp(t, cmp_int); if (G.ckf) u_bst_set_keyfree(t, kfree); if (G.cvf) u_bst_set_valfree(t, vfree);
    h::tr("keys %d values %d opts %d own-key-free %d own-value-free %d reversed %d", G.kt, G.vt, G.opts, G.ckf, G.cvf, G.rev);
    std::multiset<KV> m; int next = 1; unsigned ops = h::memcheck ? 40 : r.chance(1, 12) ? 600 : 80; int uni = r.chance(1, 3) ? 6 : r.chance(1, 2) ? 40 : 3000; unsigned pushw = 6 + r.below(9); int seq = 0, seqdir = r.below(4);
    h::sig(n % 36); h::sig(G.ckf * 4 + G.cvf * 2 + G.rev);
    for (unsigned o = 0; o < ops; ++o) { unsigned k = r.below(20); const char *what = "push"; bool deep = r.chance(1, ops > 100 ? 40 : 6);
        if (k < pushw) { int key = seqdir == 0 ? seq++ % 4000 : r.below(uni), v = r.chance(1, 8) ? 0 : next++; h::tr("push %d=%d", key, v); Key K(key); Val V(v); CHECK(u_bst_push(t, K.p, V.p) == 0, "push", "push failed"); K.spoil(); V.spoil(); m.insert(KV(key, v)); h::cov("pushes"); }
        else if (k < 18) { what = "delete"; int key = m.size() && r.chance(3, 4) ? std::next(m.begin(), r.below(m.size()))->first : (int) r.below(uni); h::tr("delete %d", key); Key K(key); auto x = m.lower_bound(KV(key, INT_MIN)); bool have = x != m.end() && x->first == key; size_t fk = freed_keys.size(), fv = freed_vals.size();
            int rc = u_bst_delete(t, K.p); CHECK((rc == 0) == have, "delete-verdict", "delete of %d, %s, returned %d", key, have ? "present" : "absent", rc); h::cov(have ? "deletes" : "deletes-of-absent");
            if (have) { Walk w; u_bst_foreach(t, collect, &w); std::multiset<KV> got(w.v.begin(), w.v.end()); std::vector<KV> gone; std::set_difference(m.begin(), m.end(), got.begin(), got.end(), std::back_inserter(gone));
                CHECK(gone.size() == 1 && gone[0].first == key && got.size() + 1 == m.size(), "delete-effect", "deleting %d removed %zu pairs, the tree had %zu and has %zu", key, gone.size(), m.size(), got.size()); m.erase(m.find(gone[0]));
                if (G.ckf) CHECK(freed_keys.size() == fk + 1 && freed_keys.back() == key, "key-release", "deleting %d released %zu keys", key, freed_keys.size() - fk);
                if (G.cvf) CHECK(freed_vals.size() == fv + (gone[0].second != 0) && (!gone[0].second || freed_vals.back() == gone[0].second), "value-release", "deleting %d released %zu values", key, freed_vals.size() - fv); deep |= r.chance(1, 3); }
            else CHECK(freed_keys.size() == fk && freed_vals.size() == fv, "release", "deleting an absent key released something"); }
        else if (k < 19) { what = "balance"; h::tr("balance"); CHECK(u_bst_balance(t) == 0, "balance", "balance failed"); unsigned d = audit(r, t, m, what, true), lg = 0; while ((1u << lg) <= m.size()) ++lg; CHECK(d <= 2 * lg + 2, "balance-depth", "a balanced tree of %zu elements has depth %u", m.size(), d); h::cov("balances"); }
        audit(r, t, m, what, deep); h::sig(k < pushw ? 0 : k); h::sig(h::szclass(m.size())); }
    audit(r, t, m, "all operations", true);
    std::vector<int> ek = freed_keys, ev = freed_vals; u_bst_free(t);
    if (G.ckf) for (auto &x : m) ek.push_back(x.first); if (G.cvf) for (auto &x : m) if (x.second) ev.push_back(x.second);
    std::sort(ek.begin(), ek.end()); std::sort(ev.begin(), ev.end()); std::sort(freed_keys.begin(), freed_keys.end()); std::sort(freed_vals.begin(), freed_vals.end());
    CHECK(ek == freed_keys, "key-release", "freeing the tree released %zu keys in all, expected %zu", freed_keys.size(), ek.size()); CHECK(ev == freed_vals, "value-release", "freeing the tree released %zu values in all, expected %zu", freed_vals.size(), ev.size());
}
static u_bst_t *mk (u_bst_type_t kt, u_bst_type_t vt, int opts) { G = Cfg{kt, vt, opts, 0, 0, 0, 0}; for (int i = 0; i < 4096; ++i) pool[i] = i; u_bst_t *t; u_bst_new(opts, &t); KS = 8; VS = 33; u_bst_set_keyattr(t, kt, KS); u_bst_set_valattr(t, vt, VS); if (kt != U_BST_TYPE_STRING) u_bst_set_cmp(t, cmp_int); return t; }
static void p_delete_all_orders () { Rng r(4); for (int opts : {0, 1, 2}) for (int round = 0; round < 60; ++round) { u_bst_t *t = mk(U_BST_TYPE_STRING, U_BST_TYPE_PTR, opts); std::multiset<KV> m; std::vector<int> ks; for (int i = 0; i < 9; ++i) { int k = r.below(12); ks.push_back(k); Key K(k); Val V(i + 1); u_bst_push(t, K.p, V.p); m.insert(KV(k, i + 1)); }
    while (ks.size()) { int i = r.below(ks.size()); Key K(ks[i]); CHECK(u_bst_delete(t, K.p) == 0, "delete-verdict", "x"); Walk w; u_bst_foreach(t, collect, &w); CHECK(w.v.size() == ks.size() - 1, "delete-effect", "x"); m = std::multiset<KV>(w.v.begin(), w.v.end()); ks.erase(ks.begin() + i); std::multiset<int> a(ks.begin(), ks.end()), b; for (auto &x : m) b.insert(x.first); CHECK(a == b, "content", "keys left differ"); audit(r, t, m, "delete", true); if (r.chance(1, 4)) { u_bst_balance(t); audit(r, t, m, "balance", true); } } u_bst_free(t); } }
static void p_sorted_input () { Rng r(5); for (int opts : {0, 1, 2}) for (int dir = 0; dir < 2; ++dir) { u_bst_t *t = mk(U_BST_TYPE_PTR, U_BST_TYPE_STRING, opts); std::multiset<KV> m; for (int i = 0; i < 2000; ++i) { int k = dir ? 2000 - i : i; Key K(k); Val V(i + 1); u_bst_push(t, K.p, V.p); m.insert(KV(k, i + 1)); } audit(r, t, m, "sorted pushes", true); u_bst_balance(t); CHECK(audit(r, t, m, "balance", true) <= 12, "balance-depth", "x"); for (int i = 0; i < 2000; i += 2) { Key K(i); if (u_bst_delete(t, K.p) == 0) m.erase(m.lower_bound(KV(i, INT_MIN))); } audit(r, t, m, "deleting every other", true); u_bst_free(t); } }
/* rotating the root one way and its successor back leaves the tree as it was, the counts in between being right */
static void p_rotate () { Rng r(7); for (int round = 0; round < 200; ++round) { u_bst_t *t = mk(U_BST_TYPE_STRING, U_BST_TYPE_PTR, round % 3); std::multiset<KV> m; int sz = 1 + r.below(30); for (int i = 0; i < sz; ++i) { int k = r.below(40); Key K(k); Val V(i + 1); u_bst_push(t, K.p, V.p); m.insert(KV(k, i + 1)); } if (r.chance(1, 2)) u_bst_balance(t);
    Walk w; u_bst_foreach(t, collect, &w); size_t rank = 0; while (u_bst_node_count(w.n[rank]) != w.n.size()) ++rank; u_bst_node_t *root = w.n[rank];
    for (int dir = 0; dir < 2; ++dir) { if (dir ? rank == 0 : rank + 1 == w.n.size()) continue; size_t best = 0; u_bst_node_t *kid = nullptr; for (size_t i = dir ? 0 : rank + 1; i < (dir ? rank : w.n.size()); ++i) if ((size_t) u_bst_node_count(w.n[i]) > best) best = u_bst_node_count(w.n[i]), kid = w.n[i];
        size_t kr = 0; while (w.n[kr] != kid) ++kr; u_bst_node_t *x = u_bst_rotate(root, dir ? U_BST_ROT_RIGHT : U_BST_ROT_LEFT); CHECK(x == kid, "rotate", "rotating gives another node than the child"); size_t want = dir ? w.n.size() - kr - 1 : kr;
        CHECK((size_t) u_bst_node_count(x) == w.n.size() && (size_t) u_bst_node_count(root) == want, "rotate-count", "after rotating %s the nodes count %zd and %zd, expected %zu and %zu", dir ? "right" : "left", u_bst_node_count(x), u_bst_node_count(root), w.n.size(), want);
        CHECK(u_bst_rotate(x, dir ? U_BST_ROT_LEFT : U_BST_ROT_RIGHT) == root, "rotate", "rotating back gives another node"); audit(r, t, m, "rotating there and back", true); h::cov("rotations"); } u_bst_free(t); } }
static void p_types () { Rng r(6); for (auto kt : {U_BST_TYPE_STRING, U_BST_TYPE_OPAQUE, U_BST_TYPE_PTR}) for (auto vt : {U_BST_TYPE_STRING, U_BST_TYPE_OPAQUE, U_BST_TYPE_PTR}) { u_bst_t *t = mk(kt, vt, 0); std::multiset<KV> m; for (int i = 0; i < 30; ++i) { int k = i * 7 % 30; Key K(k); Val V(i); u_bst_push(t, K.p, V.p); m.insert(KV(k, i)); } audit(r, t, m, "pushes", true); u_bst_free(t); } u_bst_t *t; u_bst_new(0, &t); CHECK(u_bst_count(t) == 0 && u_bst_empty(t) && !u_bst_find_nth(t, 0) && !u_bst_search(t, "a") && u_bst_delete(t, "a") != 0 && u_bst_balance(t) == 0, "empty-tree", "x"); CHECK(u_bst_set_keyattr(t, U_BST_TYPE_OPAQUE, 0) != 0 && u_bst_set_valattr(t, U_BST_TYPE_OPAQUE, 0) != 0, "attr", "zero-sized opaque accepted"); u_bst_free(t); }
static void p_large () { Rng r(16); for (int opts : {U_BST_OPT_NONE, U_BST_OPT_PUSH_TOP, U_BST_OPT_RANDOMIZED, U_BST_OPT_PUSH_BOTTOM}) { u_bst_t *t = mk(U_BST_TYPE_STRING, U_BST_TYPE_STRING, opts); std::multiset<KV> m; std::vector<int> ks; for (int i = 0; i < 40000; ++i) ks.push_back(i); for (size_t i = ks.size(); i > 1; --i) std::swap(ks[i - 1], ks[r.below(i)]); for (int k : ks) { Key K(k); Val V(k + 1); CHECK(u_bst_push(t, K.p, V.p) == 0, "push", "push"); m.insert(KV(k, k + 1)); } audit(r, t, m, "40000 pushes", true); CHECK(u_bst_balance(t) == 0, "balance", "balance"); CHECK(audit(r, t, m, "balance", true) <= 17, "balance-depth", "x"); for (int i = 0; i < 40000; i += 3) { Key K(ks[i]); CHECK(u_bst_delete(t, K.p) == 0, "delete", "delete of %d", ks[i]); m.erase(KV(ks[i], ks[i] + 1)); } audit(r, t, m, "deleting a third", true); u_bst_free(t); } }
const Probe PROBES[] = { {"deletes-in-every-order", p_delete_all_orders}, {"sorted-input", p_sorted_input}, {"every-type", p_types}, {"rotations", p_rotate}, {"large", p_large}, {0, 0} };
