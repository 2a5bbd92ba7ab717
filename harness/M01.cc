#include "h.h"
/* Every allocation of every operation failing in turn. Two equal worlds: one suffers the failures, the other
 * runs undisturbed and says what the operation should have done. */
typedef std::function<bool (int)> Do;             /* world 0 (disturbed) or 1: verdict */
typedef std::function<Str (int)> Snap;
struct Step {
    Rng &r; const char *mod; Snap snap;
    Step (Rng &r_, const char *m, Snap s) : r(r_), mod(m), snap(s) { h::sig(Str(m)); h::cov(m); }
    /* subset: says whether the state after a failure is one that the failed operation may leave */
    void operator() (const char *what, Do op, std::function<bool (const Str &, const Str &)> subset = nullptr)
    {
        using namespace h::mem; Str was = snap(0); u64 a0 = n_alloc, live1; errno = 0;
        bool want = op(1); u64 n = n_alloc - a0; Str right = snap(1); (void) live1;
        h::tr("%s/%s %llu allocation(s), %s", mod, what, (unsigned long long) n, want ? "succeeds" : "fails"); h::cov("operations"); h::sig(Str(what)); h::sig(h::szclass(n) * 2 + want);
        std::vector<std::pair<long, bool>> plan; u64 most = h::memcheck ? 4 : 40;
        if (n <= most) for (u64 k = 0; k < n; ++k) { plan.push_back({(long) k, true}); plan.push_back({(long) k, false}); }
        else for (u64 k = 0; k < most; ++k) { u64 at = k < 4 ? k : k < 8 ? n - 1 - (k - 4) : r.below(n); plan.push_back({(long) at, r.chance(1, 2)}); }
        bool done = false, ok = false;
        for (auto &p : plan) {
            u64 f0 = n_failed, l0 = live.size(); arm(p.first, p.second); ok = op(0); disarm(); bool hit = n_failed > f0; (void) l0;
            h::cov("runs-with-a-failed-allocation", hit); if (!hit && ok != want) h::fail("verdict", "%s %s gives another verdict when run again (%d instead of %d)", mod, what, ok, want);
            Str now = snap(0); if (ok || !want) { if (now != right && !(ok == want && !want && subset && subset(was, now))) h::fail("silent", "%s: %s %s with its allocation %ld%s failing, and leaves\n%s\ninstead of\n%s", mod, what, ok ? "reports success" : "fails as it should", p.first, p.second ? " and later ones" : "", now.c_str(), right.c_str()); }
            if (ok && !want) h::fail("silent-success", "%s: %s succeeds only when its allocation %ld fails", mod, what, p.first);
            if (ok) { done = true; h::cov("completed-without-it"); h::sig(77); break; }
            if (now != was) { CHECK(subset && subset(was, now), "state", "%s: %s failed (allocation %ld%s) and left\n%s\ninstead of\n%s", mod, what, p.first, p.second ? " and later ones" : "", now.c_str(), was.c_str()); h::cov("documented-subset-left"); was = now; }
            h::cov("failures-reported"); }
        if (!done) { ok = op(0); CHECK(ok == want, "retry", "%s: %s, retried with memory available, gives %d instead of %d", mod, what, ok, want); h::cov("retries"); }
        Str now = snap(0); CHECK(now == right, "retry-state", "%s: after failures and a retry %s leaves\n%s\ninstead of\n%s", mod, what, now.c_str(), right.c_str());
    }
};
static bool may_empty (const Str &, const Str &now) { return now.compare(0, 2, "0:") == 0 || now == "none"; }

/* ---- str, buf --------------------------------------------------------- */
static void m_string (Rng &r)
{
    u_string_t *s[2] = {}, *t = nullptr; Str det[2]; u_string_create("source text", 11, &t);
    Step S(r, "str", [&] (int w) { return (s[w] ? h::fmt("%zu:%s", u_string_len(s[w]), u_string_c(s[w])) : Str("none")) + det[w]; });
    Str a = r.text(r.size({64, 256}, 700), "ab%s c"); S("create", [&] (int w) { return u_string_create(a.c_str(), a.size(), &s[w]) == 0; });
    for (int i = 0; i < 12; ++i) { Str b = r.text(r.size({64, 256, 1024}, 1500), "abc %d"); int k = r.below(9);
        switch (k) {
            case 0: S("append", [&] (int w) { return u_string_append(s[w], b.c_str(), b.size()) == 0; }); break;
            case 1: S("set", [&] (int w) { return u_string_set(s[w], b.c_str(), b.size()) == 0; }, may_empty); break;
            case 2: S("aprintf", [&] (int w) { return u_string_aprintf(s[w], "[%s|%d]", b.c_str(), 42) == 0; }); break;
            case 3: S("sprintf", [&] (int w) { return u_string_sprintf(s[w], "<%s>", b.c_str()) == 0; }, may_empty); break;
            case 4: S("copy", [&] (int w) { return u_string_copy(s[w], t) == 0; }, may_empty); break;
            case 5: S("reserve", [&] (int w) { return u_string_reserve(s[w], b.size() * 3) == 0; }); break;
            case 6: S("trim", [&] (int w) { return u_string_trim(s[w]) == 0; }); break;
            case 7: S("clear", [&] (int w) { return u_string_clear(s[w]) == 0; }); break;
            default: if (r.chance(1, 2)) { S("detach", [&] (int w) { char *p = u_string_detach_cstr(s[w]); if (p) { det[w] += p; u_free(p); } s[w] = nullptr; return true; }); S("create", [&] (int w) { return u_string_create(b.c_str(), b.size(), &s[w]) == 0; }); } } }
    for (auto x : s) u_string_free(x); u_string_free(t);
}
static void m_buf (Rng &r)
{
    u_buf_t *b[2] = {}; Str f = h::scratch() + "/m01.bin"; Str fc = r.bytes(r.size({128, 4096}, 5000)); if (fc.empty()) fc = "x"; h::put_file(f, fc);
    Step S(r, "buf", [&] (int w) { return b[w] ? h::fmt("%zd:", u_buf_len(b[w])) + h::esc(Str((const char *) u_buf_ptr(b[w]) ? (const char *) u_buf_ptr(b[w]) : "", u_buf_len(b[w])), 9000) : Str("none"); });
    S("create", [&] (int w) { return u_buf_create(&b[w]) == 0; });
    for (int i = 0; i < 10; ++i) { Str d = r.bytes(1 + r.size({64, 1024}, 1500)); Str txt = r.text(r.size({64, 300}, 700), "abc");
        switch (r.below(7)) {
            case 0: S("set", [&] (int w) { return u_buf_set(b[w], d.data(), d.size()) == 0; }, may_empty); break;
            case 1: case 2: S("append", [&] (int w) { return u_buf_append(b[w], d.data(), d.size()) == 0; }); break;
            case 3: S("printf", [&] (int w) { return u_buf_printf(b[w], "(%s)", txt.c_str()) == 0; }); break;
            case 4: S("load", [&] (int w) { return u_buf_load(b[w], f.c_str()) == 0; }, may_empty); break;
            case 5: S("reserve", [&] (int w) { return u_buf_reserve(b[w], d.size() * 2) == 0; }); break;
            default: S("clear", [&] (int w) { return u_buf_clear(b[w]) == 0; }); } }
    for (auto x : b) u_buf_free(x); unlink(f.c_str());
}
/* ---- list, array, bst, pq, rb ------------------------------------------ */
static void m_list (Rng &r)
{
    u_list_t *l[2] = {}; static char pool[64];
    Step S(r, "list", [&] (int w) { Str s; if (!l[w]) return Str("none"); void *it; size_t n = 0; for (void *p = u_list_first(l[w], &it); p; p = u_list_next(l[w], &it)) { s += h::fmt("%d ", (int) ((char *) p - pool)); ++n; } return h::fmt("%zu/%zu: ", u_list_count(l[w]), n) + s; });
    S("create", [&] (int w) { return u_list_create(&l[w]) == 0; });
    for (int i = 0; i < 14; ++i) { void *p = pool + r.below(64); size_t n = r.below(u_list_count(l[1]) + 2);
        switch (r.below(5)) { case 0: case 1: S("add", [&] (int w) { return u_list_add(l[w], p) == 0; }); break; case 2: case 3: S("insert", [&] (int w) { return u_list_insert(l[w], p, n) == 0; }); break;
            default: S("delete", [&] (int w) { return u_list_del_n(l[w], n, nullptr) == 0; }); } }
    for (auto x : l) u_list_free(x);
}
template <class T> static void arr (Rng &r, u_array_type_t ty, int (*set) (u_array_t *, size_t, T, T *), int (*get) (u_array_t *, size_t, T *))
{
    u_array_t *a[2] = {}; size_t top = 0; Step S(r, "array", [&] (int w) { Str s; if (!a[w]) return Str("none"); for (size_t i = 0; i < top; ++i) { T v = 0; if (get(a[w], i, &v) == 0) { if (v) s += h::fmt("%zu=%g ", i, (double) v); } else { s += h::fmt("end %zu", i); break; } } return s; });
    size_t n0 = 1 + r.below(20); S("create", [&] (int w) { return u_array_create(ty, n0, &a[w]) == 0; }); top = n0;
    for (int i = 0; i < 10; ++i) { size_t at = r.below(top * 2 + 3); T v = (T) (1 + r.below(90)); size_t was = top; if (at >= top) top = at * 2 + 40; (void) was;
        if (r.chance(1, 4)) S("resize", [&] (int w) { return u_array_resize(a[w], at) == 0; }); else S("set", [&] (int w) { T o = 5; int rc = set(a[w], at, v, &o); return rc == 0; }); }
    for (auto x : a) u_array_free(x);
}
static void m_array (Rng &r) { switch (r.below(4)) { case 0: arr<char>(r, U_ARRAY_TYPE_CHAR, u_array_set_char, u_array_get_char); break; case 1: arr<int>(r, U_ARRAY_TYPE_INT, u_array_set_int, u_array_get_int); break; case 2: arr<double>(r, U_ARRAY_TYPE_DOUBLE, u_array_set_double, u_array_get_double); break; default: arr<long double>(r, U_ARRAY_TYPE_LONG_DOUBLE, u_array_set_long_double, u_array_get_long_double); } }
struct Bw { Str s; size_t n = 0; u_bst_type_t kt, vt; };
static void bst_cb (u_bst_node_t *n, void *a) { Bw *b = (Bw *) a; ++b->n; const void *k = u_bst_node_key(n), *v = u_bst_node_val(n); b->s += b->kt == U_BST_TYPE_STRING ? h::fmt("%s", (const char *) k) : h::fmt("%d", *(const int *) k); if (v) b->s += b->vt == U_BST_TYPE_STRING ? h::fmt("=%s", (const char *) v) : b->vt == U_BST_TYPE_PTR ? "=p" : h::fmt("=%d", *(const int *) v); b->s += ' '; }
static int icmp (const void *a, const void *b) { int x = *(const int *) a, y = *(const int *) b; return x < y ? -1 : x > y; }
static void m_bst (Rng &r)
{
    static const int OP[] = {U_BST_OPT_NONE, U_BST_OPT_PUSH_TOP, U_BST_OPT_RANDOMIZED, U_BST_OPT_PUSH_BOTTOM}; u_bst_t *t[2] = {}; Bw tp; tp.kt = r.chance(1, 2) ? U_BST_TYPE_STRING : U_BST_TYPE_OPAQUE; static const u_bst_type_t VT[] = {U_BST_TYPE_STRING, U_BST_TYPE_OPAQUE, U_BST_TYPE_PTR}; tp.vt = VT[r.below(3)]; int opt = OP[r.below(4)];
    Step S(r, "bst", [&] (int w) { if (!t[w]) return Str("none"); Bw b = tp; u_bst_foreach(t[w], bst_cb, &b); return h::fmt("%zd/%zu: ", u_bst_count(t[w]), b.n) + b.s; });
    S("create", [&] (int w) { return u_bst_new(opt, &t[w]) == 0; });
    for (auto x : t) { u_bst_set_keyattr(x, tp.kt, tp.kt == U_BST_TYPE_OPAQUE ? sizeof(int) : 0); u_bst_set_valattr(x, tp.vt, tp.vt == U_BST_TYPE_OPAQUE ? sizeof(int) : 0); if (tp.kt == U_BST_TYPE_OPAQUE) u_bst_set_cmp(x, icmp); }
    for (int i = 0; i < 16; ++i) { int k = 100 + r.below(12), v = k * 3; char ks[16], vs[16]; snprintf(ks, 16, "%d", k); snprintf(vs, 16, "v%d", v); const void *kp = tp.kt == U_BST_TYPE_STRING ? (const void *) ks : &k, *vp = tp.vt == U_BST_TYPE_STRING ? (const void *) vs : &v;
        switch (r.below(8)) { case 0: S("delete", [&] (int w) { return u_bst_delete(t[w], kp) == 0; }); break; case 1: S("balance", [&] (int w) { return u_bst_balance(t[w]) == 0; }); break; default: S("push", [&] (int w) { return u_bst_push(t[w], kp, tp.vt == U_BST_TYPE_PTR && k % 4 == 0 ? nullptr : vp) == 0; }); } }
    for (auto x : t) u_bst_free(x);
}
static void m_small (Rng &r)
{
    { u_pq_t *q[2] = {}; size_t n = 2 + r.below(30); Step S(r, "pqueue", [&] (int w) { return Str(q[w] ? "made" : "none"); }); S("create", [&] (int w) { return u_pq_create(n, &q[w]) == 0; }); for (auto x : q) { for (size_t i = 0; i < n; ++i) CHECK(u_pq_push(x, i, &n) == 0, "pq", "push"); CHECK(u_pq_full(x), "pq", "not full"); u_pq_free(x); } }
    { u_rb_t *b[2] = {}; size_t n = 1 + r.below(9000); static const int O[] = {U_RB_OPT_NONE, U_RB_OPT_USE_CONTIGUOUS_MEM, U_RB_OPT_IMPL_MALLOC, U_RB_OPT_IMPL_MALLOC | U_RB_OPT_USE_CONTIGUOUS_MEM}; int o = O[r.below(4)]; auto f0 = h::fds(); Step S(r, "rb", [&] (int w) { return b[w] ? h::fmt("%zu", u_rb_size(b[w])) : Str("none"); }); S("create", [&] (int w) { return u_rb_create(n, o, &b[w]) == 0; }); Str d = r.bytes(n); for (auto x : b) { CHECK(u_rb_write(x, d.data(), n) == (ssize_t) n, "rb", "write"); Str g(n, 0); CHECK(u_rb_read(x, &g[0], n) == (ssize_t) n && g == d, "rb", "read"); u_rb_free(x); } h::expect_fds(f0, "ring buffers"); }
    { u_lexer_t *l[2] = {}; Str t = r.text(r.below(200), "ab {}"); Step S(r, "lexer", [&] (int w) { return l[w] ? h::fmt("%s", u_lexer_lookahead(l[w])) : Str("none"); }); S("create", [&] (int w) { return u_lexer_new(t.c_str(), &l[w]) == 0; }); for (auto x : l) u_lexer_free(x); }
}
/* ---- hmap ---------------------------------------------------------------- */
static Str hm_acc; static bool hm_str; static int hm_f (const void *k, const void *v) { hm_acc += h::fmt("%s=%s\n", (const char *) k, (const char *) v); return 0; }
static void m_hmap (Rng &r)
{
    u_hmap_t *m[2] = {}; u_hmap_opts_t *o[2] = {}; u_hmap_type_t type = r.chance(1, 2) ? U_HMAP_TYPE_CHAIN : U_HMAP_TYPE_LINEAR; u_hmap_pcy_type_t pcy = (u_hmap_pcy_type_t) r.below(4); int max = 2 + r.below(6); bool over = r.chance(1, 2), easy = r.chance(1, 2), opq = r.chance(1, 3); int size = 1 + r.below(12);
    auto lines = [] (const Str &s) { std::set<Str> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); v.insert(s.substr(i, e - i)); i = e + 1; } return v; };
    Step S(r, "hmap", [&] (int w) { if (!m[w]) return Str("none"); hm_acc.clear(); u_hmap_foreach_keyval(m[w], hm_f); Str s; for (auto &x : lines(hm_acc)) s += x + "\n"; CHECK(u_hmap_count(m[w]) == (ssize_t) lines(hm_acc).size(), "hmap-count", "the map counts %zd entries and enumerates %zu", u_hmap_count(m[w]), lines(hm_acc).size()); return s; });
    S("options", [&] (int w) { if (o[w]) return true; return u_hmap_opts_new(&o[w]) == 0; });
    for (auto x : o) { u_hmap_opts_set_type(x, type); u_hmap_opts_set_size(x, size); u_hmap_opts_set_policy(x, pcy); if (pcy) u_hmap_opts_set_max(x, max); u_hmap_opts_set_val_type(x, opq ? U_HMAP_OPTS_DATATYPE_OPAQUE : U_HMAP_OPTS_DATATYPE_STRING); if (opq) u_hmap_opts_set_val_sz(x, 16); if (over) u_hmap_opts_unset_option(x, U_HMAP_OPTS_NO_OVERWRITE); if (!easy) u_hmap_opts_set_key_type(x, U_HMAP_OPTS_DATATYPE_STRING); }
    S("new", [&] (int w) { return (easy ? u_hmap_easy_new(o[w], &m[w]) : u_hmap_new(o[w], &m[w])) == 0; });
    /* a failed put into a full map may have discarded the entry it had to make room for */
    auto evicted = [&] (const Str &was, const Str &now) { if (!pcy) return false; auto a = lines(was), b = lines(now); if (a.size() != (size_t) max || b.size() + 1 != a.size()) return false; for (auto &x : b) if (!a.count(x)) return false; h::cov("evicted-by-a-failed-put"); return true; };
    for (int i = 0; i < 26; ++i) { int k = r.below(9); char ks[16], vs[16] = {}; snprintf(ks, 16, "key%d", k); snprintf(vs, 16, "val%d", i);
        switch (r.below(9)) {
            case 0: S("delete", [&] (int w) { return (easy ? u_hmap_easy_del(m[w], ks) : u_hmap_del(m[w], ks, nullptr)) == 0; }); break;
            case 1: case 2: S("get", [&] (int w) { u_hmap_o_t *q = nullptr; return easy ? u_hmap_easy_get(m[w], ks) != nullptr : u_hmap_get(m[w], ks, &q) == 0 && !strncmp((char *) u_hmap_o_get_val(q), "val", 3); }); break;
            default: S("put", [&] (int w) { if (easy) return u_hmap_easy_put(m[w], ks, vs) == 0; u_hmap_o_t *q = u_hmap_o_new(m[w], ks, vs); if (!q) return false; int rc = u_hmap_put(m[w], q, nullptr); if (rc == U_HMAP_ERR_FAIL) { u_free(u_hmap_o_get_key(q)); u_free(u_hmap_o_get_val(q)); u_hmap_o_free(q); } return rc == 0; }, evicted); } }
    if (r.chance(1, 2)) { /* everything moves to another map: whatever fails, each entry is in one of them */
        u_hmap_t *d[2] = {}; auto ent = [&] (u_hmap_t *x, const char *tag) { hm_acc.clear(); u_hmap_foreach_keyval(x, hm_f); CHECK(u_hmap_count(x) == (ssize_t) lines(hm_acc).size(), "hmap-count", "the %s map counts %zd entries and enumerates %zu", tag, u_hmap_count(x), lines(hm_acc).size()); return lines(hm_acc); };
        Step C(r, "hmap", [&] (int w) { if (!d[w]) return Str("none"); auto a = ent(m[w], "source"), b = ent(d[w], "destination"); Str t; for (auto &x : a) t += x + "\n"; t += "=>\n"; for (auto &x : b) t += x + "\n"; return t; });
        C("new", [&] (int w) { return (easy ? u_hmap_easy_new(o[w], &d[w]) : u_hmap_new(o[w], &d[w])) == 0; });
        auto split = [&] (const Str &was, const Str &now) { auto a = lines(was), b = lines(now); size_t n = 0; for (size_t i = 0; i < now.size(); ++i) n += now[i] == '\n'; return a == b && n == b.size(); };
        C("copy", [&] (int w) { return u_hmap_copy(d[w], m[w]) == 0; }, split); h::cov("maps-copied"); for (auto x : d) easy ? u_hmap_easy_free(x) : u_hmap_free(x); }
    for (auto x : o) u_hmap_opts_free(x); for (auto x : m) easy ? u_hmap_easy_free(x) : u_hmap_free(x);
}
/* ---- json ------------------------------------------------------------------- */
static void jdump (u_json_t *j, Str &s) { const char *v = u_json_get_val(j); s += h::fmt("(%s", v ? v : "-"); u_json_it_t it; u_json_t *c; u_json_it(u_json_child_first(j), &it); while ((c = u_json_it_next(&it))) jdump(c, s); s += ')'; }
static Str jtext (Rng &r, int d) { Str s; int k = d ? r.below(6) : 2 + r.below(4); switch (k) { case 0: { s = "{"; int n = r.below(4); for (int i = 0; i < n; ++i) s += h::fmt("%s\"k%d\":", i ? "," : "", i) + jtext(r, d - 1); return s + "}"; } case 1: { s = "["; int n = r.below(4); for (int i = 0; i < n; ++i) s += (i ? "," : "") + jtext(r, d - 1); return s + "]"; } case 2: return std::to_string(r.below(1000)); case 3: return "\"" + r.text(r.below(30), "abc ") + "\""; case 4: return "true"; default: return "null"; } }
static void m_json (Rng &r)
{
    u_json_t *j[2] = {}; Str extra[2]; Str t = "{\"z\":" + jtext(r, 3) + ",\"a\":[1,{\"b\":2}],\"c\":{\"d\":\"x\"}}"; if (r.chance(1, 6)) t.resize(r.below(t.size()));
    { char st[2][U_LEXER_ERR_SZ] = {}; Step S(r, "json", [&] (int) { return Str(); }); S("validate", [&] (int w) { return u_json_validate(t.c_str(), st[w]) == 0; }); }
    Step S(r, "json", [&] (int w) { Str s; if (!j[w]) s = "none"; else jdump(j[w], s); return s + extra[w]; });
    S("decode", [&] (int w) { int rc = u_json_decode(t.c_str(), &j[w]); if (rc) j[w] = nullptr; return rc == 0; });
    if (!j[1]) return;
    auto enc = [&] (int w) { char *s = nullptr; int rc = u_json_encode(j[w], &s); if (rc) return false; extra[w] = s; u_free(s); return true; };
    S("encode", enc); bool idx = false; int nk = 0;
    auto named = [&] (const char *n) { return [&, n] (int w) { u_json_t *q = u_json_cache_get(j[w], n); if (q) { extra[w] = "/"; jdump(q, extra[w]); } return q != nullptr; }; };
    for (int i = 0; i < 8; ++i) switch (r.below(7)) {
        case 0: S("index", [&] (int w) { return u_json_index(j[w]) == 0; }); idx = true; break;
        case 1: S("unindex", [&] (int w) { return u_json_unindex(j[w]) == 0; }); idx = false; break;
        case 2: if (idx) { S("lookup", named("c.d")); S("lookup", named(".c.d")); S("lookup", named("a[1].b")); S("lookup", named("a[7]")); } break;
        case 3: { char kn[2][16]; snprintf(kn[0], 16, "n%d", ++nk); strcpy(kn[1], kn[0]); int kind = r.below(7); S("new+add", [&] (int w) { u_json_t *q = nullptr; int rc; switch (kind) { case 0: rc = u_json_new_object(kn[w], &q); break; case 1: rc = u_json_new_array(kn[w], &q); break; case 2: rc = u_json_new_string(kn[w], "text", &q); break; case 3: rc = u_json_new_number(kn[w], "1.5", &q); break; case 4: rc = u_json_new_int(kn[w], -7, &q); break; case 5: rc = u_json_new_real(kn[w], 2.5, &q); break; default: rc = u_json_new_bool(kn[w], 1, &q); } if (rc) return false; if (u_json_add(j[w], q)) { u_json_free(q); return false; } return true; }); break; }
        case 4: S("checked set", [&] (int w) { u_json_t *q = u_json_child_last(u_json_child_last(j[w])); if (!q) q = u_json_child_first(j[w]); return u_json_set_val_ex(q, "12", 1) == 0; }); break;
        case 5: if (idx) S("set by index", [&] (int w) { return u_json_cache_set_tv(j[w], "c.d", U_JSON_TYPE_STRING, "new") == 0; }); break;
        default: S("encode", enc); }
    for (auto x : j) u_json_free(x);
}
/* ---- config ------------------------------------------------------------------- */
static void cdump (u_config_t *c, Str &s) { for (int i = 0; u_config_t *d = u_config_get_child_n(c, nullptr, i); ++i) { const char *v = u_config_get_value(d); s += h::fmt("%s=%s{", u_config_get_key(d), v ? v : "-"); cdump(d, s); s += "}\n"; } }
static int ccmp (u_config_t **a, u_config_t **b) { const char *x = u_config_get_key(*a), *y = u_config_get_key(*b); return strcmp(x, y); }
static void m_config (Rng &r)
{
    u_config_t *c[2] = {}; Str extra[2]; Step S(r, "config", [&] (int w) { Str s; if (!c[w]) s = "none"; else cdump(c[w], s); return s + extra[w]; });
    Str text; int n = r.below(6); for (int i = 0; i < n; ++i) switch (r.below(6)) { case 0: text += h::fmt("sec%d\n{\n  v %d # c\n  w ${v}\n  sub { \n x y\n}\n}\n", i, (int) r.below(100)); break; case 1: text += h::fmt("a.b.k%d value ${top}\n", i); break; case 2: text += "top " + r.text(r.below(400), "abc") + "\n"; break; case 3: text += "flag yes\n"; break; case 4: if (r.chance(1, 3)) text += "}\n"; break; default: text += "# comment\n\nnum 42\n"; }
    Str p = h::scratch() + "/m01.conf", inc = h::scratch() + "/m01inc.conf"; h::put_file(inc, "included.key 5\nmore 6\n"); if (r.chance(1, 3)) text += "include " + inc + "\n"; if (r.chance(1, 3)) text += "-include " + h::scratch() + "/absent.conf\n"; bool optinc = r.chance(1, 8); h::put_file(p, text + (optinc ? "-include " + inc + "\n" : Str())); auto f0 = h::fds(); bool file = text.find("include") != Str::npos || optinc || r.chance(1, 3);
    /* an optional include that runs out of memory is skipped over, or partly taken */
    if (optinc) { for (int k = 0; k < 30; ++k) { u_config_t *q = nullptr; h::mem::arm(r.below(120), true); int rc = u_config_load_from_file(p.c_str(), &q); h::mem::disarm(); h::cov("optional-includes"); if (rc == 0) { CHECK(q != nullptr, "load", "success and no tree"); u_config_free(q); } h::expect_fds(f0, "a load"); } unlink(p.c_str()); unlink(inc.c_str()); return; }
    S("load", [&] (int w) { Str b = text; int rc = file ? u_config_load_from_file(p.c_str(), &c[w]) : u_config_load_from_buf(&b[0], b.size(), &c[w]); if (rc) c[w] = nullptr; return rc == 0; }); h::expect_fds(f0, "loads");
    unlink(p.c_str()); unlink(inc.c_str());
    if (!c[1]) { S("create", [&] (int w) { return u_config_create(&c[w]) == 0; }); }
    static const char *K[] = {"x", "y", "top", "a.b", "a.b.c", "deep.er.and.deeper", "num", "flag", "q.v"}; static const char *V[] = {"1", "plain text", "${top}", "a ${a.b} z", "${nothing}", "${x}${y}", "   "};
    for (int i = 0; i < 12; ++i) { const char *k = K[r.below(9)], *v = V[r.below(7)];
        switch (r.below(9)) {
            case 0: S("add_key", [&] (int w) { return u_config_add_key(c[w], k, v) == 0; }); break;
            case 1: case 2: S("set_key", [&] (int w) { return u_config_set_key(c[w], k, v) == 0; }); break;
            case 3: S("add_child", [&] (int w) { u_config_t *q = nullptr; return u_config_add_child(c[w], "kid", &q) == 0 && q; }); break;
            case 4: S("set_value", [&] (int w) { u_config_t *q = u_config_get_child_n(c[w], nullptr, 0); return q && u_config_set_value(q, v) == 0; }); break;
            case 5: S("get_subkey", [&] (int w) { u_config_t *q = nullptr; int rc = u_config_get_subkey(c[w], k, &q); if (rc == 0) { const char *x = u_config_get_value(q); extra[w] = h::fmt(".%s", x ? x : "-"); } return rc == 0; }); S("get_value", [&] (int w) { const char *x = u_config_get_subkey_value(c[w], k); if (x) extra[w] = x; return x != nullptr; }); break;
            case 6: { int out[2] = {77, 77}; S("get_int", [&] (int w) { out[w] = 77; int rc = u_config_get_subkey_value_i(c[w], k, -3, &out[w]); if (rc == 0) extra[w] = std::to_string(out[w]); return rc == 0; }); S("get_bool", [&] (int w) { out[w] = 77; int rc = u_config_get_subkey_value_b(c[w], k, -3, &out[w]); if (rc == 0) extra[w] = std::to_string(out[w]); return rc == 0; }); break; }
            case 7: S("sort", [&] (int w) { return u_config_sort_children(c[w], ccmp) == 0; }); break;
            default: S("save", [&] (int w) { char b[4096]; memset(b, 0, sizeof b); int rc = u_config_save_to_buf(c[w], b, sizeof b); if (rc == 0) extra[w] = b; return rc == 0; }); } }
    for (auto x : c) u_config_free(x); h::expect_fds(f0, "the case");
}
/* ---- uri, net, misc, pwd, test, env ------------------------------------------------- */
static void m_uri (Rng &r)
{
    u_uri_t *u[2] = {}; Str extra[2]; Step S(r, "uri", [&] (int w) { return u[w] ? h::fmt("%s|%s|%s|%s|%s|%s|%s", u_uri_get_scheme(u[w]), u_uri_get_userinfo(u[w]), u_uri_get_host(u[w]), u_uri_get_port(u[w]), u_uri_get_path(u[w]), u_uri_get_query(u[w]), u_uri_get_fragment(u[w])) + extra[w] : Str("none"); });
    static const char *T[] = {"http://user:pw@host.example:80/a/b?q#f", "mailto:a@b", "tcp4://[::1]:*", "x:/p", "bad uri", "ftp://h"}; const char *t = T[r.below(6)];
    if (r.chance(1, 4)) S("new", [&] (int w) { return u_uri_new(U_URI_OPT_NONE, &u[w]) == 0; }); else S("crumble", [&] (int w) { return u_uri_crumble(t, U_URI_OPT_NONE, &u[w]) == 0; });
    if (!u[1]) return;
    S("set", [&] (int w) { return u_uri_set_scheme(u[w], "sch") == 0 && u_uri_set_host(u[w], "h2") == 0 && u_uri_set_path(u[w], "/x") == 0; });
    S("knead", [&] (int w) { char b[U_URI_STRMAX]; int rc = u_uri_knead(u[w], b); if (rc == 0) extra[w] = b; return rc == 0; });
    for (auto x : u) u_uri_free(x);
}
static void m_net (Rng &r)
{
    static const char *T[] = {"tcp4://127.0.0.1:0", "tcp6://[::1]:0", "udp4://127.0.0.1:0", "tcp://127.0.0.1:0", "tcp4://*:0", "udp6://*:0", "unix:///nonexistent/dir/sock", "tcp4://127.0.0.1:99999", "bogus://x"}; const char *t = T[r.below(9)]; auto f0 = h::fds();
    Step S(r, "net", [&] (int) { h::expect_fds(f0, "a network operation"); return Str(); }); u_net_mode_t mode = U_NET_SSOCK;
    S("uri2addr", [&] (int) { u_net_addr_t *a = nullptr; int rc = u_net_uri2addr(t, mode, &a); if (rc == 0) { CHECK(a != nullptr, "net", "success and no address"); u_net_addr_free(a); } return rc == 0; });
    S("sd", [&] (int) { int sd = u_net_sd(t, mode, 0); if (sd >= 0) close(sd); return sd >= 0; });
}
static void m_misc (Rng &r)
{
    Str out[2]; Step S(r, "misc", [&] (int w) { return out[w]; }); Str t = r.text(r.below(120), "ab,; c"); Str f = h::scratch() + "/m01.txt"; h::put_file(f, t);
    S("strdup", [&] (int w) { char *p = u_strdup(t.c_str()); if (!p) return false; out[w] += p; u_free(p); return true; });
    S("strndup", [&] (int w) { char *p = u_strndup(t.c_str(), t.size() / 2); if (!p) return false; out[w] += p; u_free(p); return true; });
    if (t.size()) S("memdup", [&] (int w) { char *p = (char *) u_memdup(t.data(), t.size()); if (!p) return false; out[w] += Str(p, t.size()); u_free(p); return true; });
    S("strtok", [&] (int w) { char **tv; size_t n; if (u_strtok(t.c_str(), ",; ", &tv, &n)) return false; for (size_t i = 0; i < n; ++i) out[w] += Str("|") + tv[i]; u_strtok_cleanup(tv, n); return true; });
    auto f0 = h::fds(); S("load_file", [&] (int w) { char *b = nullptr; size_t n = 0; if (u_load_file(f.c_str(), 0, &b, &n)) return false; out[w] += Str(b, n); u_free(b); return true; }); h::expect_fds(f0, "loading"); unlink(f.c_str());
}
static void m_pwd (Rng &r)
{
    u_pwd_t *p[2] = {}; Str out[2], f = h::scratch() + "/m01.pwd"; int n = r.below(8); Str t; for (int i = 0; i < n; ++i) t += h::fmt("user%d:secret%d%s\n", i, i, i % 2 ? ":opaque" : ""); h::put_file(f, t); int mem = r.below(2); bool hash = r.chance(1, 2); auto f0 = h::fds();
    struct H { static int fn (const char *s, size_t k, char o[]) { Str x; for (size_t i = 0; i < 8; ++i) x += (char) ('a' + (k + (unsigned char) s[k ? i % k : 0]) % 26); strcpy(o, x.c_str()); return 0; } };
    Step S(r, "pwd", [&] (int w) { return p[w] ? "open" + out[w] : Str("none"); });
    S("init", [&] (int w) { return u_pwd_init_file(f.c_str(), hash ? H::fn : nullptr, hash ? 8 : 0, mem, &p[w]) == 0; });
    for (int i = 0; i < 6; ++i) { char u[16], s[16]; int k = r.below(n + 1); snprintf(u, 16, "user%d", k); snprintf(s, 16, "secret%d", (int) (r.chance(3, 4) ? k : k + 1));
        S("retr", [&] (int w) { u_pwd_rec_t *q = nullptr; if (u_pwd_retr(p[w], u, &q)) return false; out[w] = h::fmt("%s:%s:%s", u_pwd_rec_get_user(q), u_pwd_rec_get_password(q), u_pwd_rec_get_opaque(q) ? u_pwd_rec_get_opaque(q) : "-"); u_pwd_rec_free(p[w], q); return true; });
        S("auth", [&] (int w) { return u_pwd_auth_user(p[w], u, s) == 0; });
        if (r.chance(1, 6) && mem) { t += "extra:pw\n"; h::put_file(f, t); struct timespec ts[2] = {{0, UTIME_NOW}, {0, UTIME_NOW}}; utimensat(AT_FDCWD, f.c_str(), ts, 0); } }
    for (auto x : p) u_pwd_term(x); unlink(f.c_str()); h::expect_fds(f0, "password files");
}
static int tcase (u_test_case_t *) { return U_TEST_SUCCESS; }
static void m_test (Rng &r)
{
    u_test_t *t[2] = {}; u_test_suite_t *s[2] = {}, *s2[2] = {}; u_test_case_t *c[2] = {}; Step S(r, "test", [&] (int) { return Str(); });
    S("new", [&] (int w) { return u_test_new("t", &t[w]) == 0; }); S("suite", [&] (int w) { return u_test_suite_new("s", &s[w]) == 0; }); S("suite", [&] (int w) { return u_test_suite_new("s2", &s2[w]) == 0; }); for (int w = 0; w < 2; ++w) { u_test_suite_add(s[w], t[w]); u_test_suite_add(s2[w], t[w]); }
    for (int i = 0; i < 3; ++i) { char id[8]; snprintf(id, 8, "c%d", i); S("case", [&] (int w) { return u_test_case_register(id, tcase, s[w]) == 0; }); } S("case_new", [&] (int w) { return u_test_case_new("extra", tcase, &c[w]) == 0; });
    S("case_dep", [&] (int w) { return u_test_case_dep_register("c0", c[w]) == 0; }); for (int w = 0; w < 2; ++w) u_test_case_add(c[w], s[w]);
    S("depends", [&] (int w) { return u_test_case_depends_on("c2", "c1", s[w]) == 0; }); S("depends", [&] (int w) { return u_test_suite_depends_on("s2", "s", t[w]) == 0; }); S("suite_dep", [&] (int w) { return u_test_suite_dep_register("s", s2[w]) == 0; }); S("depends-unknown", [&] (int w) { return u_test_case_depends_on("zz", "c1", s[w]) == 0; });
    Str rep = h::scratch() + "/rep"; const char *av[] = {"t", "-s", "-f", "txt", "-o", rep.c_str(), nullptr}; (void) av;
    for (auto x : t) u_test_free(x);
}
static void m_env (Rng &r)
{
    Str f = h::scratch() + "/m01.sh"; h::put_file(f, "export M01_A=" + std::to_string(r.below(100)) + "\nexport M01_B='two words'\nexport OTHER_C=1\n"); auto f0 = h::fds();
    auto val = [] { Str s; for (const char *k : {"M01_A", "M01_B", "OTHER_C"}) { const char *v = u_env_var(k); s += v ? v : "-"; s += ' '; } return s; };
    unsetenv("M01_A"); unsetenv("M01_B"); u64 a0 = h::mem::n_alloc; CHECK(u_env_init("M01_", f.c_str()) == 0, "env", "load failed"); u64 n = h::mem::n_alloc - a0; Str right = val(); h::cov("env");
    for (int i = 0; i < (h::memcheck ? 2 : 8); ++i) { unsetenv("M01_A"); unsetenv("M01_B"); u64 k = i < 4 ? r.below(n < 12 ? n : 12) : r.below(n), nf = h::mem::n_failed; h::mem::arm(k, r.chance(1, 2)); int rc = u_env_init("M01_", f.c_str()); h::mem::disarm(); CHECK(rc != 0 || val() == right || h::mem::n_failed == nf, "env-silent", "success with %s instead of %s", val().c_str(), right.c_str()); if (rc == 0) CHECK(val() == right, "env-silent", "success with other values"); h::cov(rc ? "failures-reported" : "completed-without-it"); h::cov("runs-with-a-failed-allocation");
        for (const char *nm : {"M01_A", "M01_B"}) { const char *v = u_env_var(nm); CHECK(!v || right.find(v) != Str::npos, "env-value", "%s got the value '%s'", nm, v); } h::expect_fds(f0, "an environment load"); h::sig(n); h::sig(rc); }
    CHECK(u_env_init("M01_", f.c_str()) == 0 && val() == right, "env-retry", "the retried load gives other values"); unsetenv("M01_A"); unsetenv("M01_B"); unlink(f.c_str());
}
static void (*const MODS[]) (Rng &) = {m_string, m_buf, m_list, m_array, m_bst, m_small, m_hmap, m_json, m_config, m_uri, m_net, m_misc, m_pwd, m_test, m_hmap, m_json, m_config, m_config};
static const bool lowfd = h::low_fd = true;
void run_case (Rng &r, u64 n)
{
    size_t N = sizeof MODS / sizeof *MODS; if (n % 60 == 59) m_env(r); else MODS[n % N](r);
}
const Probe PROBES[] = {{nullptr, nullptr}};
