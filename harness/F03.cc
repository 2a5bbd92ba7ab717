#include "cfg.h"
/* edit and lookup histories on a tree, against the ideal tree */
static const char *const SM[] = {"a", "b", "c", "aa", "A", ""};
static Str fkey (Rng &r) { return r.chance(1, 40) ? gkey(r) : SM[r.chance(1, 50) ? 5 : r.below(5)]; }
static Str fpath (Rng &r) { Str k = fkey(r); while (r.chance(2, 5)) k += "." + fkey(r); if (r.chance(1, 80)) k = r.one({"..", ".a", "a.", "a..b", "."}); return k; }
static Str fval (Rng &r) { switch (r.below(8)) { case 0: return "${" + fpath(r) + "}"; case 1: return r.text(r.below(4), "xy ") + "${" + fkey(r) + "}" + r.text(r.below(3), "z }$") + (r.chance(1, 3) ? "${" + fpath(r) + "}" : ""); case 2: return r.one({"${", "x${a", "${}", "$${a}", "${a}{b}", "}", "${ a }", "${${a}}", "$${a}{b}"}); case 3: return Str(r.below(5), ' ') + std::to_string((long) r.below(100000) - 50000) + r.one({"", "", "x", " 1", ".5"}); case 4: { const char *w[] = {"yes", "no", "1", "0", "enable", "disable", "on", "off", "YES", "nO", "Enable", "DISABLE", "On", "oFF", "true", "false", "y", "n", "yes!", "onn", "01", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775808", "-", "+7", "0x10", "", " ", "\t"}; return w[r.below(32)]; } case 5: return r.chance(1, 10) ? Str(r.range(0, 3000), 'q') : r.text(r.below(6), " \tab"); default: return r.text(1 + r.below(8), "abcd#=\\'\"/"); } }
struct Node { CN *m; u_config_t *c; };
static Node any (Rng &r, CN *m, u_config_t *c) { while (!m->ch.empty() && r.chance(3, 4)) { size_t i = r.below(m->ch.size()); c = u_config_get_child_n(c, nullptr, (int) i); m = m->ch[i]; CHECK(c, "position", "no child %zu of %zu", i, m->up->ch.size()); } return {m, c}; }
static void verify (u_config_t *c, CN *root, const char *op) { expect_tree(c, root, "tree", op); const char *v = u_config_get_value(c); CHECK(root->hasval ? v && root->val == v : !v, "root-value", "value of the root after %s: %s", op, v ? v : "none"); h::cov("trees-compared"); }
static int key_cmp (u_config_t **a, u_config_t **b) { return strcmp(u_config_get_key(*a), u_config_get_key(*b)); }
static int val_cmp (u_config_t **a, u_config_t **b) { const char *x = u_config_get_value(*a), *y = u_config_get_value(*b); return strcmp(y ? y : "", x ? x : ""); }
static int eq_cmp (u_config_t **, u_config_t **) { return 0; }
static std::vector<u_config_t *> seen; static void on_node (u_config_t *c) { seen.push_back(c); }
static void order (u_config_t *c, bool pre, std::vector<u_config_t *> &o) { u_config_t *d; for (int i = 0; (d = u_config_get_child_n(c, nullptr, i)); ++i) { if (pre) o.push_back(d); order(d, pre, o); if (!pre) o.push_back(d); } }
static u_config_t *real_of (u_config_t *rc, CN *root, CN *n) { if (n == root) return rc; u_config_t *p = real_of(rc, root, n->up); size_t i = 0; while (n->up->ch[i] != n) ++i; return u_config_get_child_n(p, nullptr, (int) i); }
static bool want_int (const Str &v, int &o) { size_t i = 0; while (i < v.size() && isspace((unsigned char) v[i])) ++i; bool neg = false; if (i < v.size() && (v[i] == '+' || v[i] == '-')) neg = v[i++] == '-'; if (i >= v.size() || !isdigit((unsigned char) v[i])) return false; __int128 x = 0; for (; i < v.size() && isdigit((unsigned char) v[i]); ++i) { x = x * 10 + (v[i] - '0'); if (x > ((__int128) 1 << 80)) x = (__int128) 1 << 80; } if (neg) x = -x; if (x > INT_MAX || x < INT_MIN) return false; o = (int) x; return true; }
static int want_bool (Str v) { for (char &c : v) c = (char) tolower((unsigned char) c); if (v == "yes" || v == "1" || v == "enable" || v == "on") return 1; if (v == "no" || v == "0" || v == "disable" || v == "off") return 0; return -1; }
static void lookups (Rng &r, CN *m, u_config_t *c, CN *root, u_config_t *rc)
{   for (unsigned k = 1 + r.below(4); k--;) { Str p = fpath(r); int n = r.chance(1, 2) ? 0 : (int) r.below(4); CN *x = m->sub(p, n), *x0 = m->sub(p); u_config_t *g = nullptr; h::Exact e(p);
        int rv = u_config_get_subkey_nth(c, e.p, n, &g); CHECK((rv == 0) == (x != nullptr), "lookup", "'%s' number %d %s", p.c_str(), n, x ? "not found" : "found"); if (x) CHECK(g == real_of(rc, root, x), "lookup", "'%s' number %d is another node", p.c_str(), n);
        g = nullptr; rv = u_config_get_subkey(c, e.p, &g); CHECK((rv == 0) == (x0 != nullptr) && (!x0 || g == real_of(rc, root, x0)), "lookup", "'%s'", p.c_str());
        const char *v = u_config_get_subkey_value(c, e.p); CHECK(x0 && x0->hasval ? v && x0->val == v : !v, "subkey-value", "'%s' is '%s'", p.c_str(), v ? v : "(none)");
        bool has = x0 && x0->hasval; int out = 12345, def = (int) r.below(1000) - 500, wi = 0; rv = u_config_get_subkey_value_i(c, e.p, def, &out); bool ok = !has || want_int(x0->val, wi); CHECK((rv == 0) == ok && (!ok || out == (has ? wi : def)), "get-int", "'%s' valued '%s' gives %d, %d", p.c_str(), v ? v : "(none)", rv, out);
        out = 12345; rv = u_config_get_subkey_value_b(c, e.p, def, &out); int wb = has ? want_bool(x0->val) : 0; CHECK((rv == 0) == (wb >= 0) && (wb < 0 || out == (has ? wb : def)), "get-bool", "'%s' valued '%s' gives %d, %d", p.c_str(), v ? v : "(none)", rv, out);
        h::cov(x ? "lookups-found" : "lookups-absent"); if (has) h::cov("typed-reads");
        Str q = fkey(r); n = (int) r.below(4); x = m->find(q, n); g = u_config_get_child_n(c, q.c_str(), n); CHECK(g == (x ? real_of(rc, root, x) : nullptr), "child-n", "child '%s' number %d", q.c_str(), n); x = m->find(q); g = u_config_get_child(c, q.c_str()); CHECK(g == (x ? real_of(rc, root, x) : nullptr), "child", "child '%s'", q.c_str());
        n = (int) r.below(m->ch.size() + 2); g = u_config_get_child_n(c, nullptr, n); CHECK((g != nullptr) == ((size_t) n < m->ch.size()), "child-n", "child %d of %zu", n, m->ch.size()); } }
struct MemR { Str t; size_t p; }; static char *gets_r (void *a, char *b, size_t sz) { MemR *m = (MemR *) a; if (m->p >= m->t.size()) return nullptr; size_t n = 0; while (n + 1 < sz && m->p < m->t.size()) { b[n] = m->t[m->p++]; if (b[n++] == '\n') break; } b[n] = 0; return b; }
void run_case (Rng &r, u64)
{
    CN root; u_config_t *c; CHECK(u_config_create(&c) == 0, "create", "create"); unsigned ops = r.chance(1, 10) ? 1 + r.below(120) : 1 + r.below(30); bool lots = r.chance(1, 3);
    for (unsigned i = 0; i < ops; ++i) { Node n = any(r, &root, c); unsigned k = r.below(lots ? 9 : 14); const char *nm = "?"; int rv = 0; CN back; back.copy(root); bool unspec = false;
        switch (k) {
        case 0: { nm = "add_child"; Str key = fkey(r); u_config_t *d = nullptr; h::Exact e(key); rv = u_config_add_child(n.c, e.p, &d); h::tr("add_child(%s)", key.c_str()); CHECK(rv == 0 && d && !strcmp(u_config_get_key(d), key.c_str()), "add", "add_child"); n.m->add(key); CHECK(u_config_get_child_n(n.c, nullptr, (int) n.m->ch.size() - 1) == d, "add", "not at the end"); break; }
        case 1: case 2: case 3: case 4: { bool set = k == 1 || k == 3; nm = set ? "set_key" : "add_key"; Str key = fpath(r), v = fval(r); bool nul = r.chance(1, 12); h::Exact e(key), ev(v); bool ok = m_setkey(n.m, key, nul ? nullptr : &v, set, &unspec); h::tr("%s(%s,%s)", nm, key.c_str(), nul ? "NULL" : v.c_str()); if (unspec) { root.clear(); root.copy(back); continue; } rv = set ? u_config_set_key(n.c, e.p, nul ? nullptr : ev.p) : u_config_add_key(n.c, e.p, nul ? nullptr : ev.p); CHECK((rv == 0) == ok, "verdict", "%s '%s' to '%s' returns %d", nm, key.c_str(), v.c_str(), rv); h::cov(ok ? "keys-set" : "keys-refused"); break; }
        case 5: case 6: { nm = "set_value"; Str v = fval(r); h::Exact ev(v); bool nul = r.chance(1, 10), alias = !nul && r.chance(1, 5) && u_config_get_value(n.c); const char *arg = nul ? nullptr : ev.p; if (alias) { const char *own = u_config_get_value(n.c); size_t off = r.below(strlen(own) + 1); arg = own + off; v = arg; h::cov("values-aliasing-themselves"); } bool ok = m_setval(n.m, nul ? nullptr : &v, &unspec, false); h::tr("set_value(%s)", nul ? "NULL" : v.c_str()); if (unspec) { Str z = "plain"; n.m->hasval = true; n.m->val = z; CHECK(u_config_set_value(n.c, "plain") == 0, "set", "set_value"); break; } rv = u_config_set_value(n.c, arg); CHECK((rv == 0) == ok, "verdict", "set_value '%s' returns %d", v.c_str(), rv); h::cov(ok ? "values-set" : "values-refused"); break; }
        case 7: { nm = "lookups"; lookups(r, n.m, n.c, &root, c); break; }
        case 8: { nm = "has_children"; for (CN *x : n.m->ch) (void) x; CHECK(!!u_config_has_children(n.c) == !n.m->ch.empty(), "has-children", "has_children"); break; }
        case 9: { nm = "del_child"; if (n.m->ch.empty()) { CHECK(u_config_del_child(n.c, c) != 0, "del", "deleting a node that is not a child succeeds"); break; } if (r.chance(1, 5)) { u_config_t *notmine = n.m->up ? n.c : (n.m->ch[0]->ch.empty() ? n.c : u_config_get_child_n(u_config_get_child_n(n.c, nullptr, 0), nullptr, 0)); CHECK(u_config_del_child(n.c, notmine) != 0, "del", "deleting a node that is not a child succeeds"); break; } size_t j = r.below(n.m->ch.size()); h::tr("del_child(%zu)", j); rv = u_config_del_child(n.c, u_config_get_child_n(n.c, nullptr, (int) j)); CHECK(rv == 0, "del", "del_child"); m_del(n.m, n.m->ch[j]); h::cov("children-deleted"); break; }
        case 10: { nm = "sort"; unsigned w = r.below(3); auto cmp = w == 0 ? key_cmp : w == 1 ? val_cmp : eq_cmp; std::vector<u_config_t *> was, now; std::map<u_config_t *, CN *> mm; for (size_t j = 0; j < n.m->ch.size(); ++j) { was.push_back(u_config_get_child_n(n.c, nullptr, (int) j)); mm[was.back()] = n.m->ch[j]; } h::tr("sort %u", w); CHECK(u_config_sort_children(n.c, cmp) == 0, "sort", "sort of %zu", was.size()); u_config_t *d; for (int j = 0; (d = u_config_get_child_n(n.c, nullptr, j)); ++j) { now.push_back(d); CHECK(now.size() <= was.size() && mm.count(d), "sort", "another node after sorting"); } CHECK(now.size() == was.size() && std::set<u_config_t *>(now.begin(), now.end()).size() == was.size(), "sort", "%zu of %zu left", now.size(), was.size()); n.m->ch.clear(); for (u_config_t *q : now) n.m->ch.push_back(mm[q]); for (size_t j = 1; j < now.size(); ++j) CHECK(cmp(&now[j - 1], &now[j]) <= 0, "sort", "out of order"); h::cov("sorts"); break; }
        case 11: { nm = "walk"; bool pre = r.chance(1, 2); std::vector<u_config_t *> o; order(n.c, pre, o); seen.clear(); u_config_walk(n.c, pre ? U_CONFIG_WALK_PREORDER : U_CONFIG_WALK_POSTORDER, on_node); CHECK(seen == o, "walk", "%zu visits for %zu nodes", seen.size(), o.size()); CHECK(seen.size() == n.m->count() - 1, "walk", "%zu visits", seen.size()); h::cov("walks"); break; }
        case 12: case 13: { nm = "load"; Str t = fresh_text(r); if (has_directive(t)) break; Parse p; p.over = r.chance(1, 2); Reader q; q.t = t; bool ok = p.body(n.m, q, false, 0); if (p.unspec || root.count() > 300) { root.clear(); root.hasval = back.hasval; root.val.clear(); root.copy(back); break; } MemR m{t, 0}; h::tr("load over=%d %s", p.over, h::esc(t).c_str()); rv = u_config_load_from(n.c, gets_r, &m, p.over); CHECK((rv == 0) == ok, "verdict", "loading more text returns %d: %s", rv, h::esc(t, 1500).c_str()); h::cov("loads-into-a-tree"); break; } }
        verify(c, &root, nm); h::sig(k); h::sig(h::szclass(root.count())); h::sig((u64) (rv != 0)); }
    lookups(r, &root, c, &root, c); u_config_free(c);
}
static void p_scope () { u_config_t *c, *d; CHECK(u_config_create(&c) == 0 && u_config_set_key(c, "v", "root") == 0 && u_config_set_key(c, "s.v", "local") == 0 && u_config_set_key(c, "s.x", "<${v}>") == 0 && u_config_set_key(c, "x", "<${v}>") == 0 && u_config_set_key(c, "y", "${s.v}${nope}") == 0, "set", "set"); CHECK(!strcmp(u_config_get_subkey_value(c, "s.x"), "<local>") && !strcmp(u_config_get_subkey_value(c, "x"), "<root>") && !strcmp(u_config_get_subkey_value(c, "y"), "local"), "scope", "scope"); CHECK(u_config_get_subkey(c, "s.x", &d) == 0 && u_config_del_child(c, d) != 0, "del", "a grandchild was deleted"); u_config_free(c); CHECK(u_config_free(nullptr) == 0, "free", "free(NULL)"); CHECK(!u_config_get_key(nullptr) && !u_config_get_value(nullptr), "null", "NULL"); }
static void p_large () { Rng r(24); u_config_t *c, *d; CHECK(u_config_create(&c) == 0, "create", "create"); const int N = 12000; std::vector<int> ks; for (int i = 0; i < N; ++i) ks.push_back(i); for (size_t i = N; i > 1; --i) std::swap(ks[i - 1], ks[r.below(i)]); for (int i : ks) CHECK(u_config_add_key(c, h::fmt("k%05d", i).c_str(), h::fmt("%d", i).c_str()) == 0, "add", "add %d", i);
    auto same = [&] (const char *after, std::vector<int> v) { static std::vector<u_config_t *> w; seen.clear(); u_config_walk(c, U_CONFIG_WALK_PREORDER, on_node); CHECK(seen.size() == v.size(), "walk", "after %s %zu visits of %zu", after, seen.size(), v.size()); for (size_t i = 0; i < v.size(); ++i) CHECK(h::fmt("k%05d", v[i]) == u_config_get_key(seen[i]) && std::to_string(v[i]) == u_config_get_value(seen[i]), "tree", "after %s child %zu is %s", after, i, u_config_get_key(seen[i])); for (size_t i : {(size_t) 0, (size_t) 9999, (size_t) 10000, v.size() - 1}) CHECK(u_config_get_child_n(c, nullptr, (int) i) == seen[i], "child-n", "after %s child %zu", after, i); CHECK(!u_config_get_child_n(c, nullptr, (int) v.size()), "child-n", "beyond"); };
    same("adding", ks); for (int k = 0; k < 300; ++k) { int i = k ? (int) r.below(N) : N - 1, o = 0; Str key = h::fmt("k%05d", i); CHECK(u_config_get_subkey_value_i(c, key.c_str(), -1, &o) == 0 && o == i, "lookup", "%s is %d", key.c_str(), o); } CHECK(u_config_sort_children(c, key_cmp) == 0, "sort", "sort"); std::vector<int> s = ks; std::sort(s.begin(), s.end()); same("sorting", s); for (int i = 0; i < 200; ++i) { size_t at = i % 2 ? s.size() - 1 : r.below(s.size()); CHECK(u_config_get_subkey(c, h::fmt("k%05d", s[at]).c_str(), &d) == 0 && u_config_del_child(c, d) == 0, "del", "del"); s.erase(s.begin() + at); } same("deleting", s); u_config_free(c);
    CHECK(u_config_create(&c) == 0, "create", "create"); for (int i = 0; i < N; ++i) CHECK(u_config_add_key(c, "x", std::to_string(i).c_str()) == 0, "add", "add"); for (int i : {0, 1, 999, 1000, 9999, 10000, N - 1}) { CHECK(u_config_get_subkey_nth(c, "x", i, &d) == 0 && std::to_string(i) == u_config_get_value(d), "lookup", "x number %d", i); CHECK((d = u_config_get_child_n(c, "x", i)) && std::to_string(i) == u_config_get_value(d), "child-n", "x number %d", i); } CHECK(u_config_get_subkey_nth(c, "x", N, &d) && !u_config_get_child_n(c, "x", N), "lookup", "beyond"); CHECK(u_config_set_key(c, "x", "new") == 0 && !strcmp(u_config_get_subkey_value(c, "x"), "new"), "set", "set"); u_config_free(c); }
const Probe PROBES[] = { {"scope", p_scope}, {"large", p_large}, {0, 0} };
