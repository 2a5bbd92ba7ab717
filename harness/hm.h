#include "h.h"
/* hash maps vs an ideal map; every configuration of the module. HM_MODE: 6 content, 7 ownership, 8 policies */
enum { KSZ = 24 };
struct Cfg { u_hmap_type_t type; bool easy, owns, overwrite, strong; u_hmap_options_datatype_t kt, vt; int hash; u_hmap_pcy_type_t pcy; int max, size; bool dsize, f_free, f_k, f_v; size_t vsz; };
static Cfg G;
static std::vector<Str> KT;                       /* key id -> text (also the image of opaque keys) */
static std::unordered_map<Str, int> KI;
struct Tok { int id; int extra; };
static std::vector<int> rel_k, rel_v;             /* releases reported by the caller's functions */
static int kid (const void *k) { if (!k) h::fail("null-key", "a null key came out of the map"); if (G.kt == U_HMAP_OPTS_DATATYPE_POINTER) return ((const Tok *) k)->id; auto x = KI.find(Str((const char *) k)); if (x == KI.end()) h::fail("key-content", "a key came back as '%s'", h::esc(Str((const char *) k, strnlen((const char *) k, 40))).c_str()); return x->second; }
static int vid (const void *v) { if (!v) return -1; switch (G.vt) { case U_HMAP_OPTS_DATATYPE_POINTER: return ((const Tok *) v)->id; case U_HMAP_OPTS_DATATYPE_STRING: return atoi((const char *) v + 1);
    default: { Tok t; memcpy(&t, v, std::min(sizeof t, G.vsz)); if (G.vsz > sizeof t) for (size_t i = sizeof t; i < G.vsz; ++i) if (((const u8 *) v)[i] != (u8) (t.id + i)) h::fail("value-content", "byte %zu of opaque value %d is wrong", i, t.id); return t.id; } } }
struct Val { Str s; const void *p; explicit Val (int id) { switch (G.vt) { case U_HMAP_OPTS_DATATYPE_POINTER: { Tok *t = (Tok *) u_malloc(sizeof(Tok)); t->id = id; t->extra = ~id; p = t; return; } case U_HMAP_OPTS_DATATYPE_STRING: s = "v" + std::to_string(id) + Str(id % 37, 'x'); p = s.c_str(); return;
    default: { s.assign(G.vsz, 0); Tok t = {id, ~id}; memcpy(&s[0], &t, std::min(sizeof t, G.vsz)); for (size_t i = sizeof t; i < G.vsz; ++i) s[i] = (char) (id + i); p = s.data(); } } } };
static size_t mix (u64 x) { x *= 0x9e3779b97f4a7c15ULL; return x ^ (x >> 31); }
static size_t raw (const void *k) { return mix(kid(k)); }
static size_t hf_const (const void *, size_t) { return 7; }
static size_t hf_three (const void *k, size_t) { return kid(k) % 3; }
static size_t hf_full (const void *k, size_t) { return raw(k); }
static size_t hf_s_mod (const void *k, size_t b) { return raw(k) % b; }
static size_t hf_s_zero (const void *, size_t) { return 0; }
static size_t hf_s_last (const void *k, size_t b) { return b - 1 - kid(k) % 2; }
static size_t hf_s_near (const void *k, size_t b) { return (size_t) kid(k) % b; }
static int kcmp (const void *a, const void *b) { int x = kid(a), y = kid(b); return x < y ? -3 : x > y ? 2 : 0; }
static int pcmp (void *a, void *b) { int x = vid(a) % 19, y = vid(b) % 19; return x < y ? -5 : x > y ? 4 : 0; }
static void kfree (const void *k) { rel_k.push_back(kid(k)); u_free((void *) k); }
static void vfree (void *v) { rel_v.push_back(vid(v)); u_free(v); }
static void ofree (u_hmap_o_t *o) { void *k = u_hmap_o_get_key(o), *v = u_hmap_o_get_val(o); rel_k.push_back(kid(k)); rel_v.push_back(vid(v)); u_free(k); u_free(v); }
static std::vector<std::pair<int, int>> seen; static size_t stop_after;
static int f_val (const void *v) { seen.push_back({-1, vid(v)}); return seen.size() == stop_after ? U_HMAP_ERR_FAIL : 0; }
static int f_arg (const void *v, const void *a) { if (a != &seen) h::fail("foreach-arg", "the iteration passes another argument than the given one"); return f_val(v); }
static int f_kv (const void *k, const void *v) { seen.push_back({kid(k), vid(v)}); return seen.size() == stop_after ? U_HMAP_ERR_FAIL : 0; }
struct Ent { int v; u_hmap_o_t *obj; u64 ins, use, cnt; const void *kp, *vp; };
struct HM {
    u_hmap_t *m = nullptr; std::map<int, Ent> ref; u64 clock = 0; int nextv = 1; Rng &r;
    std::vector<int> exp_k, exp_v;                /* releases that must have happened */
    std::set<u_hmap_o_t *> out;                   /* objects that the caller owns outside of the map */
    bool tracks_k () { return G.owns && (G.f_free || (G.kt == U_HMAP_OPTS_DATATYPE_POINTER && G.f_k)); }
    bool tracks_v () { return G.owns && (G.f_free || (G.vt == U_HMAP_OPTS_DATATYPE_POINTER && G.f_v)); }
    /* a pair whose pointers stay with the caller is released by the harness */
    void user_release (int, const Ent &e) { if (!G.owns) { u_free((void *) e.kp); u_free((void *) e.vp); return; } if (G.f_free) return; if (G.kt == U_HMAP_OPTS_DATATYPE_POINTER && !G.f_k) u_free((void *) e.kp); if (G.vt == U_HMAP_OPTS_DATATYPE_POINTER && !G.f_v) u_free((void *) e.vp); }
    void expect_rel (int k, const Ent &e) { if (tracks_k()) exp_k.push_back(k); if (tracks_v()) exp_v.push_back(e.v); }
    void rel_check (const char *op) {
        std::sort(rel_k.begin(), rel_k.end()); std::sort(rel_v.begin(), rel_v.end()); std::sort(exp_k.begin(), exp_k.end()); std::sort(exp_v.begin(), exp_v.end());
        CHECK(rel_k == exp_k, "key-release", "%s released %zu key(s) (first %d), expected %zu (first %d)", op, rel_k.size(), rel_k.empty() ? -1 : rel_k[0], exp_k.size(), exp_k.empty() ? -1 : exp_k[0]);
        CHECK(rel_v == exp_v, "value-release", "%s released %zu value(s) (first %d), expected %zu (first %d)", op, rel_v.size(), rel_v.empty() ? -1 : rel_v[0], exp_v.size(), exp_v.empty() ? -1 : exp_v[0]);
        h::cov("releases-observed", rel_k.size() + rel_v.size()); rel_k.clear(); rel_v.clear(); exp_k.clear(); exp_v.clear(); }
    explicit HM (Rng &r_) : r(r_) { cmp = G.kt != U_HMAP_OPTS_DATATYPE_STRING || r.chance(1, 5); m = mk(); }
    bool cmp;
    u_hmap_t *mk () {
        u_hmap_t *m = nullptr; u_hmap_opts_t *o = nullptr; CHECK(u_hmap_opts_new(&o) == 0 && o, "opts", "no options");
        bool ok = true; auto s = [&] (int rc) { ok = ok && rc == 0; };
        s(u_hmap_opts_set_type(o, G.type)); if (!G.dsize) s(u_hmap_opts_set_size(o, G.size)); s(u_hmap_opts_set_policy(o, G.pcy)); if (G.pcy) s(u_hmap_opts_set_max(o, G.max)); if (G.pcy == U_HMAP_PCY_CUSTOM) s(u_hmap_opts_set_policy_cmp(o, pcmp));
        s(u_hmap_opts_set_val_type(o, G.vt)); if (G.vt == U_HMAP_OPTS_DATATYPE_OPAQUE && G.vsz != sizeof(void *)) s(u_hmap_opts_set_val_sz(o, G.vsz));
        if (G.overwrite || r.chance(1, 6)) s(u_hmap_opts_unset_option(o, U_HMAP_OPTS_NO_OVERWRITE)); if (!G.overwrite && r.chance(5, 6)) s(u_hmap_opts_set_option(o, U_HMAP_OPTS_NO_OVERWRITE)); else if (!G.overwrite) s(u_hmap_opts_unset_option(o, U_HMAP_OPTS_NO_OVERWRITE)), s(u_hmap_opts_set_option(o, U_HMAP_OPTS_NO_OVERWRITE));
        if (!G.easy) { s(u_hmap_opts_set_key_type(o, G.kt)); if (G.kt == U_HMAP_OPTS_DATATYPE_OPAQUE) s(u_hmap_opts_set_key_sz(o, KSZ)); if (!G.owns || r.chance(1, 3)) s(u_hmap_opts_unset_option(o, U_HMAP_OPTS_OWNSDATA)); if (G.owns && r.chance(1, 2)) s(u_hmap_opts_unset_option(o, U_HMAP_OPTS_OWNSDATA)); if (G.owns) s(u_hmap_opts_set_option(o, U_HMAP_OPTS_OWNSDATA)); if (G.f_free) s(u_hmap_opts_set_freefunc(o, ofree)); else { if (G.f_k) s(u_hmap_opts_set_key_freefunc(o, kfree)); if (G.f_v) s(u_hmap_opts_set_val_freefunc(o, vfree)); } }
        else s(u_hmap_opts_set_val_freefunc(o, G.f_v ? vfree : nullptr));
        static size_t (*const HF[]) (const void *, size_t) = {nullptr, hf_const, hf_three, hf_full, hf_s_mod, hf_s_zero, hf_s_last, hf_s_near};
        if (HF[G.hash]) s(u_hmap_opts_set_hashfunc(o, HF[G.hash])); if (G.strong) s(u_hmap_opts_set_option(o, U_HMAP_OPTS_HASH_STRONG)); else if (r.chance(1, 6)) s(u_hmap_opts_set_option(o, U_HMAP_OPTS_HASH_STRONG)), s(u_hmap_opts_unset_option(o, U_HMAP_OPTS_HASH_STRONG)); if (cmp) s(u_hmap_opts_set_compfunc(o, kcmp));
        CHECK(ok, "opts-set", "a valid option was refused");
        if (r.chance(1, 5)) { /* through copied options; the original is filled with something else first */
            u_hmap_opts_t *c = nullptr; CHECK(u_hmap_opts_new(&c) == 0 && c, "opts", "no options"); if (r.chance(1, 2)) { u_hmap_opts_set_size(c, 3); u_hmap_opts_set_option(c, U_HMAP_OPTS_NO_OVERWRITE); u_hmap_opts_set_val_type(c, U_HMAP_OPTS_DATATYPE_OPAQUE); u_hmap_opts_set_val_sz(c, 5); }
            CHECK(u_hmap_opts_copy(c, o) == 0, "opts-copy", "options are not copied"); if (r.chance(1, 2)) { u_hmap_opts_init(o); u_hmap_opts_set_size(o, 2); u_hmap_opts_set_val_sz(o, 3); u_hmap_opts_set_hashfunc(o, hf_const); } u_hmap_opts_free(o); o = c; h::cov("options-copied"); }
        CHECK((G.easy ? u_hmap_easy_new(o, &m) : u_hmap_new(o, &m)) == 0 && m, "new", "no map for valid options"); if (r.chance(1, 8)) u_hmap_opts_init(o); u_hmap_opts_free(o); rel_k.clear(); rel_v.clear(); return m; }
    /* everything moves into another map of the same kind, which may hold something already; the emptied one is used again */
    void move () {
        bool conflict = G.pcy == U_HMAP_PCY_NONE && (G.owns || !G.overwrite) && r.chance(1, 3); u_hmap_t *from = m, *n = mk(); CHECK(u_hmap_count(n) == 0, "count", "a new map is not empty"); std::map<int, Ent> src; src.swap(ref); m = n; h::tr("copy %zu entries to another map%s", src.size(), conflict ? " that holds some of the keys" : "");
        for (unsigned i = 0, k = r.below(6); i < k && (int) KT.size(); ++i) { int key = r.below((int) KT.size()); if (src.count(key) && !conflict) continue; if (G.pcy && (int) (src.size() + ref.size()) >= G.max) break; put(key); }
        std::set<int> both; for (auto &x : ref) if (src.count(x.first)) both.insert(x.first); rel_check("filling a map"); int rc = u_hmap_copy(n, from); u64 now = ++clock;
        if (both.empty() || G.overwrite) { CHECK(rc == 0, "copy", "copying a map of %zu entries into one of %zu fails", src.size(), ref.size()); for (auto &x : src) { auto y = ref.find(x.first); if (y != ref.end()) { expect_rel(x.first, y->second); user_release(x.first, y->second); } Ent e = x.second; if (G.pcy == U_HMAP_PCY_LFU) e.cnt = 0; e.ins = e.use = now; ref[x.first] = e; } src.clear(); h::cov("maps-copied"); h::sig(11); }
        else { CHECK(rc != 0, "copy-exists", "copying %zu present keys without overwriting succeeds", both.size()); auto c = content(); m = from; auto f = content(); m = n; bool gone = false;
            for (auto &x : std::map<int, Ent>(src)) { bool in = c.count(x.first), out = f.count(x.first), b = both.count(x.first); if (b) { CHECK(in && c[x.first] == ref[x.first].v, "copy-exists", "a present key lost its value"); if (!out) { CHECK(G.owns && !gone, "copy-lost", "a failed copy dropped key %d", x.first); gone = true; expect_rel(x.first, x.second); user_release(x.first, x.second); src.erase(x.first); } } else { CHECK(in != out, in ? "copy-twice" : "copy-lost", "after a failed copy key %d is in %s map", x.first, in ? "each" : "neither"); if (in) { ref[x.first] = x.second; src.erase(x.first); } } if (out) CHECK(f[x.first] == x.second.v, "value", "a failed copy altered key %d", x.first); } h::cov("failed-copies"); h::sig(12); }
        rel_check("copying a map"); audit("copying into a map"); std::swap(src, ref); m = from; audit("being copied"); if (r.chance(1, 2)) { for (unsigned i = 0, k = 1 + r.below(5); i < k; ++i) { int key = r.below((int) KT.size()); unsigned w = r.below(3); if (w == 0) put(key); else if (w == 1) get(key); else del(key); } audit("use after being copied"); h::cov("copied-maps-used"); } end(); std::swap(src, ref); m = n; audit("freeing the copied map"); u_hmap_dbg(m); u_hmap_pcy_dbg(m); }
    struct Key { const void *p; explicit Key (int k) { if (G.kt == U_HMAP_OPTS_DATATYPE_POINTER) { Tok *t = (Tok *) u_malloc(sizeof(Tok)); t->id = k; p = t; } else { char *b = (char *) u_malloc(G.kt == U_HMAP_OPTS_DATATYPE_OPAQUE ? KSZ : KT[k].size() + 1); if (G.kt == U_HMAP_OPTS_DATATYPE_OPAQUE) memset(b, 0, KSZ); memcpy(b, KT[k].c_str(), KT[k].size() + 1); p = b; } } };
    const void *vptr (const Val &v) { return !G.owns && G.vt != U_HMAP_OPTS_DATATYPE_POINTER ? h::xm(v.p, v.s.size() + 1) : v.p; }
    std::map<int, int> content () {
        std::map<int, int> c; seen.clear(); stop_after = 0; CHECK(u_hmap_foreach_keyval(m, f_kv) == 0, "foreach", "enumeration failed");
        for (auto &x : seen) CHECK(c.insert(x).second, "foreach-twice", "key %d is enumerated twice", x.first); return c; }
    void count (const char *op) { ssize_t n = u_hmap_count(m); CHECK(n == (ssize_t) ref.size(), "count", "after %s the map counts %zd entries, expected %zu", op, n, ref.size()); if (G.pcy) CHECK(n <= G.max, "over-max", "%zd entries with a maximum of %d", n, G.max); }
    void audit (const char *op) {
        count(op); auto c = content(); CHECK(c.size() == ref.size(), "foreach-count", "after %s %zu entries are enumerated, expected %zu", op, c.size(), ref.size());
        for (auto &x : ref) { auto y = c.find(x.first); CHECK(y != c.end(), "lost", "after %s key %d is gone", op, x.first); CHECK(y->second == x.second.v, "value", "after %s key %d holds value %d, expected %d", op, x.first, y->second, x.second.v); }
        h::cov("entries-enumerated", c.size());
        if (r.chance(1, 4)) { std::vector<int> a, b; for (auto &x : ref) a.push_back(x.second.v); seen.clear(); CHECK((r.chance(1, 2) ? u_hmap_foreach(m, f_val) : u_hmap_foreach_arg(m, f_arg, &seen)) == 0, "foreach", "enumeration failed"); for (auto &x : seen) b.push_back(x.second); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "foreach-values", "after %s the values enumerated are not those stored", op);
            if (ref.size() > 1) { stop_after = 1 + r.below(ref.size()); seen.clear(); int rc = r.chance(1, 2) ? u_hmap_foreach(m, f_val) : r.chance(1, 2) ? u_hmap_foreach_arg(m, f_arg, &seen) : u_hmap_foreach_keyval(m, f_kv); CHECK(rc != 0 && seen.size() == stop_after, "foreach-stop", "a failing callback did not stop the enumeration: %d after %zu of %zu", rc, seen.size(), stop_after); } } }
    bool may_evict (int k) {                     /* is k an entry that the policy may designate? */
        const Ent &e = ref[k]; for (auto &x : ref) { const Ent &o = x.second; switch (G.pcy) { case U_HMAP_PCY_FIFO: if (o.ins < e.ins) return false; break; case U_HMAP_PCY_LRU: if (o.use < e.use) return false; break; case U_HMAP_PCY_LFU: if (o.cnt < e.cnt) return false; break; default: if (o.v % 19 < e.v % 19) return false; } } return true; }
    void take (u_hmap_o_t *o, int k, const Ent &e, const char *how) { CHECK(o == e.obj, "object", "%s returns another object than the one put for key %d", how, k); CHECK(kid(u_hmap_o_get_key(o)) == k && vid(u_hmap_o_get_val(o)) == e.v, "object-content", "%s returns key %d value %d, expected %d/%d", how, kid(u_hmap_o_get_key(o)), vid(u_hmap_o_get_val(o)), k, e.v); user_release(k, e); u_hmap_o_free(o); }
    void put (int k) {
        int id = nextv++; Val v(id); auto x = ref.find(k); bool full = G.pcy && x == ref.end() && (int) ref.size() >= G.max;
        h::tr("put %d=%d", k, id); u_hmap_o_t *old = (u_hmap_o_t *) 1, *obj = nullptr; int rc; Ent e = {id, nullptr, ++clock, clock, 0, nullptr, nullptr}; bool want = !G.easy && r.chance(2, 3); if (!G.owns) want = true;
        if (G.easy) { Exact2 kk(KT[k]); e.vp = v.p; rc = u_hmap_easy_put(m, kk.p, v.p); }
        else { Key K(k); e.kp = K.p; e.vp = vptr(v); obj = u_hmap_o_new(m, K.p, e.vp); CHECK(obj != nullptr, "o_new", "no object"); if (G.owns && G.kt != U_HMAP_OPTS_DATATYPE_POINTER) u_free((void *) K.p); e.obj = obj; rc = u_hmap_put(m, obj, want ? &old : nullptr); }
        if (x != ref.end() && !G.overwrite) {
            CHECK(rc == U_HMAP_ERR_EXISTS, "put-exists", "putting the existing key %d without overwriting returns %d", k, rc); h::cov("refused-puts"); h::sig(1);
            if (G.owns) expect_rel(k, e), user_release(k, e); else { CHECK(!want || old == x->second.obj, "put-exists-old", "a refused put does not give the present object"); user_release(k, e); u_hmap_o_free(obj); } }
        else { CHECK(rc == 0, "put", "putting key %d into %zu entries returns %d", k, ref.size(), rc);
            if (x != ref.end()) { h::cov("overwrites"); h::sig(2); if (G.owns) expect_rel(k, x->second), user_release(k, x->second); else take(old, k, x->second, "overwriting"); x->second = e; }
            else if (!full) { h::cov("inserts"); h::sig(3); if (want) CHECK(old == nullptr, "old-set", "a plain insertion reports an old object"); ref[k] = e; }
            else { h::cov(G.pcy == U_HMAP_PCY_FIFO ? "evictions-fifo" : G.pcy == U_HMAP_PCY_LRU ? "evictions-lru" : G.pcy == U_HMAP_PCY_LFU ? "evictions-lfu" : "evictions-custom"); h::sig(4);
                auto c = content(); CHECK(c.count(k), "new-entry-lost", "the just inserted key %d is not retained", k); int gone = -1, n = 0; for (auto &y : ref) if (!c.count(y.first)) gone = y.first, ++n; CHECK(n == 1, "evict-number", "%d entries discarded to make room for one", n);
                CHECK(may_evict(gone), "evict-choice", "policy %d discarded key %d (inserted %llu, used %llu, count %llu, value %d), another entry comes first", (int) G.pcy, gone, (unsigned long long) ref[gone].ins, (unsigned long long) ref[gone].use, (unsigned long long) ref[gone].cnt, ref[gone].v);
                Ent g = ref[gone]; ref.erase(gone); if (G.owns) expect_rel(gone, g), user_release(gone, g); else take(old, gone, g, "evicting"); ref[k] = e; } }
        rel_check("put"); count("put"); }
    struct Exact2 { char *p; explicit Exact2 (const Str &s) { p = (char *) malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); } ~Exact2 () { memset(p, 'Z', strlen(p)); free(p); } };
    struct LK { Key k; explicit LK (int i) : k(i) {} ~LK () { u_free((void *) k.p); } };
    void get (int k) {
        auto x = ref.find(k); bool have = x != ref.end(); h::cov(have ? "gets-hit" : "gets-miss"); h::sig(have ? 5 : 6); LK K(k);
        if (G.easy && r.chance(1, 2)) { void *v = u_hmap_easy_get(m, KT[k].c_str()); CHECK(have == (v != nullptr), "get", "key %d is reported %s", k, v ? "present" : "absent"); if (have) { CHECK(vid(v) == x->second.v, "get-value", "key %d gives value %d, expected %d", k, vid(v), x->second.v); if (G.vt == U_HMAP_OPTS_DATATYPE_POINTER) CHECK(v == x->second.vp, "get-pointer", "key %d gives another pointer", k); } }
        else { u_hmap_o_t *o = (u_hmap_o_t *) 1; int rc = u_hmap_get(m, K.k.p, &o); CHECK((rc == 0) == have, "get", "key %d is reported %s", k, rc ? "absent" : "present"); if (!have) CHECK(o == nullptr, "get-null", "a failed get leaves an object"); else { CHECK(kid(u_hmap_o_get_key(o)) == k && vid(u_hmap_o_get_val(o)) == x->second.v, "get-value", "key %d gives %d/%d, expected value %d", k, kid(u_hmap_o_get_key(o)), vid(u_hmap_o_get_val(o)), x->second.v); if (x->second.obj && !G.owns) CHECK(o == x->second.obj, "get-object", "key %d gives another object", k); } }
        if (have) { x->second.use = ++clock; x->second.cnt++; } rel_check("get"); }
    void del (int k) {
        auto x = ref.find(k); bool have = x != ref.end(); h::tr("del %d", k); h::cov(have ? "dels-hit" : "dels-miss"); h::sig(have ? 7 : 8); LK K(k); u_hmap_o_t *o = (u_hmap_o_t *) 1; bool want = !G.owns || r.chance(1, 2);
        int rc = G.easy ? u_hmap_easy_del(m, KT[k].c_str()) : u_hmap_del(m, K.k.p, want ? &o : nullptr); CHECK((rc == 0) == have, "del", "deleting the %s key %d returns %d", have ? "present" : "absent", k, rc);
        if (have) { Ent e = x->second; ref.erase(x); if (G.owns) { expect_rel(k, e); user_release(k, e); if (!G.easy && want) CHECK(o == nullptr, "del-object", "an owned object was handed out on deletion"); } else take(o, k, e, "deleting"); }
        rel_check("del"); count("del"); }
    void forget_all () { for (auto &x : ref) { if (G.owns) expect_rel(x.first, x.second), user_release(x.first, x.second); else { CHECK(kid(u_hmap_o_get_key(x.second.obj)) == x.first, "object-content", "object altered"); user_release(x.first, x.second); u_hmap_o_free(x.second.obj); } } ref.clear(); }
    void clear () { h::tr("clear"); h::cov("clears"); h::sig(9); if (G.easy) u_hmap_easy_clear(m); else u_hmap_clear(m); forget_all(); rel_check("clear"); count("clear"); }
    void end () { if (G.easy) u_hmap_easy_free(m); else u_hmap_free(m); m = nullptr; forget_all(); rel_check("free"); }
};
static void configure (Rng &r, u64 n, int mode)
{
    Cfg c; memset(&c, 0, sizeof c); c.type = n & 1 ? U_HMAP_TYPE_LINEAR : U_HMAP_TYPE_CHAIN; c.easy = (n >> 1) % 3 == 0; c.owns = c.easy || r.chance(3, 5); c.overwrite = r.chance(1, 2); 
    c.kt = c.easy ? U_HMAP_OPTS_DATATYPE_STRING : (u_hmap_options_datatype_t) r.below(3); c.vt = (u_hmap_options_datatype_t) r.below(3); static const size_t vs[] = {4, 8, 8, 9, 40, 300}; c.vsz = c.vt == U_HMAP_OPTS_DATATYPE_OPAQUE ? vs[r.below(6)] : 8;
    c.hash = r.below(8); if (c.hash == 0 && c.kt != U_HMAP_OPTS_DATATYPE_STRING) c.hash = 3; c.strong = c.hash >= 4 || (c.hash == 0 && r.chance(1, 4)); 
    c.pcy = mode == 8 || (mode == 7 && r.chance(1, 2)) ? (u_hmap_pcy_type_t) (1 + (n >> 3) % 4) : U_HMAP_PCY_NONE; static const int mx[] = {1, 2, 3, 5, 8, 13, 40, 100}; c.max = mx[r.below(8)]; static const int sz[] = {1, 2, 13, 14, 19, 20, 59, 200}; c.size = sz[r.below(8)]; c.dsize = r.chance(1, 12);
    c.f_free = !c.easy && r.chance(1, 3); c.f_k = r.chance(2, 3); c.f_v = r.chance(1, 2) ? c.f_k : r.chance(2, 3); if (c.easy && c.vt != U_HMAP_OPTS_DATATYPE_POINTER && c.f_v && r.chance(1, 2)) c.f_v = false;
    if (c.f_free && !c.owns) c.f_free = false;
    G = c; KT.clear(); KI.clear();
}
static void keys (Rng &r, int span)
{   Str base = r.chance(1, 3) ? "" : r.text(r.below(6), "ab/\xc3\xff"); for (int i = 0; i < span; ++i) { Str s = base; int k = i; do { s += (char) ('a' + k % 7); k /= 7; } while (k); if (r.chance(1, 40) && !KI.count("") && G.kt == U_HMAP_OPTS_DATATYPE_STRING) s = ""; if (!s.empty() && G.kt == U_HMAP_OPTS_DATATYPE_STRING && r.chance(1, 30)) s += Str(300, 'q'); KT.push_back(s); if (!KI.insert({s, i}).second) h::fail("harness", "duplicate key text"); } }
static void history (Rng &r, u64 n, int mode)
{
    configure(r, n, mode); unsigned ops; int span;
    if (G.pcy) { span = G.max + 1 + r.below(G.max * 2 + 4); ops = h::memcheck ? 60 : 150 + r.below(200); if (G.max >= 40) ops += 200; }
    else { span = r.chance(1, 25) && !h::memcheck && (G.hash == 0 || G.hash == 3 || G.hash == 4) ? 3000 : r.chance(1, 2) ? 12 : 150; ops = h::memcheck ? 80 : span > 1000 ? 5000 : 100 + r.below(400); }
    keys(r, span); HM M(r); h::tr("type %d easy %d owns %d overwrite %d keys %d values %d hash %d policy %d max %d size %d", G.type, G.easy, G.owns, G.overwrite, G.kt, G.vt, G.hash, G.pcy, G.max, G.dsize ? 512 : G.size);
    h::sig(G.type * 2 + G.easy); h::sig(G.owns * 16 + G.overwrite * 8 + G.f_free * 4 + G.f_k * 2 + G.f_v); h::sig(G.kt * 3 + G.vt); h::sig(G.hash * 5 + G.pcy); h::sig(G.max * 300 + G.size);
    int style = r.below(4);                       /* phases: grow, mixed, shrink */
    for (unsigned o = 0; o < ops; ++o) { unsigned k = r.below(20); int key = r.chance(1, 3) ? r.below(1 + span / 3) : r.below(span); if (span > 1000 && o < 2500) k = 0, key = o % span;
        if (style == 1 && o * 2 < ops && k > 12) k = 3; if (style == 2 && o * 2 > ops && k < 6) k = 13;
        if (k < 8) M.put(key); else if (k < 13) M.get(key); else if (k < 17) M.del(key); else if (k < 19 || o % 30) { if (span < 1000 || o % 100 == 0) M.audit("a history"); } else if (r.chance(1, 2)) M.clear(); else M.move(); }
    M.audit("the history"); for (int i = 0; i < (span < 400 ? span : 400); ++i) M.get(i); M.end();
}
