#include "h.h"
/* Calls on missing objects, with missing arguments or with arguments out of range are refused and change nothing. */
static int calls; static int cb1 (const void *) { ++calls; return 0; } static int cb2 (const void *, const void *) { ++calls; return 0; }
static void bcb (u_bst_node_t *n, void *a) { ++calls; *(Str *) a += (const char *) u_bst_node_key(n); *(Str *) a += "="; *(Str *) a += (const char *) u_bst_node_val(n); *(Str *) a += ";"; }
static std::map<Str, Str> *kv; static int kvcb (const void *k, const void *v) { (*kv)[(const char *) k] = (const char *) v; return 0; }
static void jwalk (u_json_t *, size_t, void *) { ++calls; }
static int popen_cb (const char *, void **h) { *h = nullptr; return 0; } static char *pload_cb (char *, int, void *) { return nullptr; } static int phash (const char *, size_t, char o[]) { memcpy(o, "12345678", 8); return 0; }
static int tfun (u_test_case_t *) { ++calls; return 0; }
static int dopen (const char *, void **h) { ++calls; *h = nullptr; return 0; } static int dclose (void *) { ++calls; return 0; } static char *dgets (void *, char *, size_t) { ++calls; return nullptr; }
static int trep (FILE *, u_test_t *, u_test_rep_tag_t) { ++calls; return 0; } static int crep (FILE *, u_test_case_t *) { ++calls; return 0; } static int srep (FILE *, u_test_suite_t *, u_test_rep_tag_t) { ++calls; return 0; }
static size_t hashf (const void *, size_t n) { return n ? 0 : 0; }
static void nokfree (const void *) { ++calls; } static int pcmp (void *, void *) { return 0; }
static void nofree (void *) { ++calls; }
/* a junk value for result arguments: a refusal leaves them alone, or clears them */
template <class T> static T *junk () { static long room[64]; return (T *) room; }
template <class T> static bool left (T *p) { return p == junk<T>() || p == nullptr; }

struct World {
    u_string_t *s = nullptr; u_buf_t *b = nullptr; u_list_t *l = nullptr; u_array_t *a = nullptr, *ap = nullptr; u_bst_t *t = nullptr; u_pq_t *q = nullptr; std::multiset<double> pq; size_t cap; u_rb_t *rb = nullptr, *rc = nullptr; Str rbs, rcs; u_hmap_t *m = nullptr, *me = nullptr; u_hmap_opts_t *o = nullptr; u_json_t *j = nullptr, *jx = nullptr; u_lexer_t *x = nullptr; u_uri_t *u = nullptr; u_pwd_t *p = nullptr; u_test_t *T = nullptr; u_test_suite_t *S = nullptr; u_test_case_t *C = nullptr; u_net_addr_t *n = nullptr; u_config_t *c = nullptr; Str dir, file, text; size_t asz; bool own;
};
static void cd (u_config_t *c, Str &s) { for (int i = 0; u_config_t *d = u_config_get_child_n(c, nullptr, i); ++i) { const char *v = u_config_get_value(d); s += h::fmt("%s=%s{", u_config_get_key(d), v ? v : "-"); cd(d, s); s += '}'; } }
static Str json (u_json_t *j) { char *e = nullptr; if (u_json_encode(j, &e)) return "unencodable"; Str s = e; u_free(e); return s; }
static u_json_t *at (World &w, const char *key) { u_json_it_t it; CHECK(u_json_it(u_json_child_first(w.j), &it) == 0, "setup", "iterator"); for (int i = 0; u_json_t *j = u_json_it_next(&it); ++i) if (Str("asnto")[i] == *key) return j; CHECK(0, "setup", "no %s", key); return nullptr; }
static void build (World &w, Rng &r)
{
    w.text = r.text(1 + r.below(60), "abc :,xyz"); CHECK(u_string_create(w.text.data(), w.text.size(), &w.s) == 0, "setup", "string"); CHECK(u_buf_create(&w.b) == 0 && u_buf_set(w.b, w.text.data(), w.text.size()) == 0, "setup", "buffer"); CHECK(u_list_create(&w.l) == 0, "setup", "list"); for (unsigned i = r.below(5); i; --i) u_list_add(w.l, &w.cap + i);
    w.asz = 1 + r.below(9); CHECK(u_array_create(U_ARRAY_TYPE_INT, w.asz, &w.a) == 0 && u_array_create(U_ARRAY_TYPE_PTR, w.asz, &w.ap) == 0, "setup", "array"); for (size_t i = 0; i < w.asz; ++i) { int rc; u_array_set_int(w.a, i, r.next(), nullptr); u_array_set_ptr(w.ap, i, (void *) (r.next() | 1), &rc); }
    CHECK(u_bst_new(U_BST_OPT_NONE, &w.t) == 0 && u_bst_set_valattr(w.t, U_BST_TYPE_STRING, 0) == 0, "setup", "tree"); for (unsigned i = r.below(6); i; --i) u_bst_push(w.t, h::fmt("k%llu", (unsigned long long) r.below(50)).c_str(), "val");
    w.cap = 2 + r.below(6); CHECK(u_pq_create(w.cap, &w.q) == 0, "setup", "queue"); for (unsigned i = r.below(w.cap + 1); i; --i) { double k = r.below(9); CHECK(u_pq_push(w.q, k, w.q) == 0, "setup", "push"); w.pq.insert(k); }
    CHECK(u_rb_create(50 + r.below(100), U_RB_OPT_IMPL_MALLOC, &w.rb) == 0 && u_rb_create(100, U_RB_OPT_USE_CONTIGUOUS_MEM, &w.rc) == 0, "setup", "ring"); w.rbs = r.bytes(r.below(40)); w.rcs = r.bytes(r.below(90)); if (w.rbs.size()) u_rb_write(w.rb, w.rbs.data(), w.rbs.size()); if (w.rcs.size()) u_rb_write(w.rc, w.rcs.data(), w.rcs.size());
    w.own = r.chance(1, 2); CHECK(u_hmap_opts_new(&w.o) == 0 && u_hmap_opts_set_val_type(w.o, U_HMAP_OPTS_DATATYPE_STRING) == 0, "setup", "options"); if (r.chance(1, 2)) u_hmap_opts_set_type(w.o, U_HMAP_TYPE_LINEAR); if (r.chance(1, 2)) u_hmap_opts_set_size(w.o, 1 + r.below(40)); if (r.chance(1, 2)) { u_hmap_opts_set_policy(w.o, (u_hmap_pcy_type_t) (U_HMAP_PCY_NONE + r.below(3))); u_hmap_opts_set_max(w.o, 50 + r.below(9)); } if (r.chance(1, 3)) u_hmap_opts_set_option(w.o, U_HMAP_OPTS_NO_OVERWRITE); if (r.chance(1, 3)) u_hmap_opts_set_option(w.o, U_HMAP_OPTS_HASH_STRONG); CHECK(u_hmap_new(w.o, &w.m) == 0 && u_hmap_easy_new(w.o, &w.me) == 0, "setup", "map"); for (unsigned i = r.below(6); i; --i) { Str k = h::fmt("k%llu", (unsigned long long) r.below(9)); u_hmap_easy_put(w.me, k.c_str(), "val"); u_hmap_o_t *ob = u_hmap_o_new(w.m, k.c_str(), "val2"); CHECK(ob, "setup", "object"); int rc = u_hmap_put(w.m, ob, nullptr); (void) rc; }
    static const char *const J = "{\"a\":[1,2,{\"b\":null}],\"s\":\"12\",\"n\":-1.5,\"t\":true,\"o\":{}}"; CHECK(u_json_decode(J, &w.j) == 0 && u_json_decode(J, &w.jx) == 0 && u_json_index(w.jx) == 0, "setup", "json"); CHECK(u_lexer_new(w.text.c_str(), &w.x) == 0, "setup", "lexer"); for (unsigned i = r.below(w.text.size()); i; --i) { char c; u_lexer_next(w.x, &c); } u_lexer_seterr(w.x, "E%d", (int) r.below(9));
    CHECK(u_uri_crumble("http://u:p@h.example:80/a/b?q#f", U_URI_OPT_NONE, &w.u) == 0, "setup", "uri"); w.dir = h::scratch() + "/w"; mkdir(w.dir.c_str(), 0700); w.file = w.dir + "/file"; h::put_file(w.file, "u1:s1\nu2:s2:op\n"); CHECK(u_pwd_init_file(w.file.c_str(), nullptr, 0, r.below(2), &w.p) == 0, "setup", "passwords");
    CHECK(u_test_new("t", &w.T) == 0 && u_test_suite_new("s", &w.S) == 0 && u_test_suite_add(w.S, w.T) == 0 && u_test_case_new("c", tfun, &w.C) == 0 && u_test_case_add(w.C, w.S) == 0, "setup", "test"); CHECK(u_net_uri2addr("tcp4://127.0.0.1:80", U_NET_SSOCK, &w.n) == 0, "setup", "address"); Str ct = "a 1\nb\n{\nc 2\n}\n"; CHECK(u_config_load_from_buf(&ct[0], ct.size(), &w.c) == 0, "setup", "configuration");
}
static Str log_text; static int take (void *, int, const char *m) { log_text += m; log_text += '\n'; return 0; }
static Str options (u_hmap_opts_t *o) { log_text.clear(); u_log_set_hook(take, nullptr, nullptr, nullptr); u_hmap_opts_dbg(o); u_log_set_hook(h::null_hook, nullptr, nullptr, nullptr); return log_text; }
static Str look (World &w)
{
    Str s = h::fmt("string %zu '%s'; buffer %zd '", u_string_len(w.s), u_string_c(w.s), u_buf_len(w.b)) + Str((char *) u_buf_ptr(w.b), u_buf_len(w.b)) + h::fmt("' of %zd; list", u_buf_size(w.b)); void *it; for (void *p = u_list_first(w.l, &it); p; p = u_list_next(w.l, &it)) s += h::fmt(" %p", p); s += h::fmt(" (%zu); array", u_list_count(w.l));
    for (size_t i = 0; i < w.asz; ++i) { int v = 0, rc = 1; CHECK(u_array_get_int(w.a, i, &v) == 0, "array", "element %zu is gone", i); void *p = u_array_get_ptr(w.ap, i, &rc); CHECK(rc == 0, "array", "pointer %zu is gone", i); s += h::fmt(" %d %p", v, p); } { int v; s += u_array_get_int(w.a, w.asz, &v) ? "" : " and more"; int rc = 0; u_array_get_ptr(w.ap, w.asz, &rc); s += rc ? "" : " and more"; }
    s += h::fmt("; tree %zd ", u_bst_count(w.t)); u_bst_foreach(w.t, bcb, &s); double k = -1; void *top = u_pq_empty(w.q) ? nullptr : u_pq_peekmax(w.q, &k); s += h::fmt("; queue %d %d %g %d", u_pq_empty(w.q), u_pq_full(w.q), k, top == w.q); s += h::fmt("; rings %zu %zu %zu %zu; maps %zd %zd", u_rb_ready(w.rb), u_rb_avail(w.rb), u_rb_ready(w.rc), u_rb_avail(w.rc), u_hmap_count(w.m), u_hmap_count(w.me));
    std::map<Str, Str> a; kv = &a; u_hmap_foreach_keyval(w.m, kvcb); for (auto &e : a) s += " " + e.first + ":" + e.second; a.clear(); u_hmap_foreach_keyval(w.me, kvcb); for (auto &e : a) s += " " + e.first + ":" + e.second; s += "; json " + json(w.j) + " " + json(w.jx); for (const char *n : {"..a[0]", "..a[2].b", "..s", "..n", "..t"}) { u_json_t *o = u_json_cache_get(w.jx, n); CHECK(o, "index", "%s is not in it", n); const char *v = u_json_cache_get_val(w.jx, n); s += Str(" ") + (v ? v : "-"); }
    s += "; options " + options(w.o); 
#ifdef LIB_DEBUG
    CHECK(log_text.size() > 100, "options", "no description");
#endif
     s += h::fmt("; lexer %zu '%c' %s; uri ", u_lexer_pos(w.x), u_lexer_peek(w.x), u_lexer_geterr(w.x)); char ub[U_URI_STRMAX]; CHECK(u_uri_knead(w.u, ub) == 0, "uri", "cannot be put together"); s += ub; for (const char *n : {"u1", "u2", "u3"}) s += h::fmt(" %d", u_pwd_auth_user(w.p, n, (Str("s") + n[1]).c_str()) == 0); s += h::fmt(" %d; address %d; configuration ", u_pwd_in_memory(w.p), u_net_addr_can_accept(w.n)); cd(w.c, s); Str f; CHECK(h::get_file(w.file, f), "file", "it is gone"); s += "; file " + f; DIR *d = opendir(w.dir.c_str()); int nf = 0; while (readdir(d)) ++nf; closedir(d); return s + h::fmt("; %d names", nf);
}
static void finish (World &w)
{   u_string_free(w.s); u_buf_free(w.b); u_list_free(w.l); u_array_free(w.a); u_array_free(w.ap); u_bst_free(w.t);
    while (!w.pq.empty()) { double k = -1; auto top = std::prev(w.pq.end()); void *v = u_pq_delmax(w.q, &k); CHECK(v == w.q && k == *top, "queue", "the best item is %g, not %g", k, *top); w.pq.erase(top); } CHECK(u_pq_empty(w.q), "queue", "it holds more"); u_pq_free(w.q);
    auto drain = [] (u_rb_t *rb, const Str &want) { Str got(want.size() + 1, 0); ssize_t n = u_rb_read(rb, &got[0], got.size()); CHECK(n == (ssize_t) want.size() && got.compare(0, n, want) == 0, "ring", "%zd bytes come out of %zu, or other ones", n, want.size()); u_rb_free(rb); }; drain(w.rb, w.rbs); drain(w.rc, w.rcs);
    u_hmap_free(w.m); u_hmap_easy_free(w.me); u_hmap_opts_free(w.o); u_json_free(w.j); u_json_free(w.jx); u_lexer_free(w.x); u_uri_free(w.u); u_pwd_term(w.p); u_test_free(w.T); u_net_addr_free(w.n); u_config_free(w.c); unlink(w.file.c_str()); rmdir(w.dir.c_str()); }

struct Ref { const char *name; bool (*fn) (World &, Rng &); };
#define R(what, ...) {what, [] (World &w, Rng &r) -> bool { (void) w; (void) r; __VA_ARGS__ }}
#define FAILS(what, call) R(what, return (call) != 0;)
#define NEG(what, call) R(what, return (call) < 0;)
#define NIL(what, call) R(what, return (call) == nullptr;)
#define QUIET(what, call) R(what, call; return true;)
static const Ref REFS[] = {
    /* strings */
    FAILS("u_string_create without a result", u_string_create("x", 1, nullptr)), FAILS("u_string_set on nothing", u_string_set(nullptr, "x", 1)), FAILS("u_string_append on nothing", u_string_append(nullptr, "x", 1)), FAILS("u_string_append of nothing", u_string_append(w.s, nullptr, r.below(9))), FAILS("u_string_copy on nothing", u_string_copy(nullptr, w.s)), FAILS("u_string_copy of nothing", u_string_copy(w.s, nullptr)), FAILS("u_string_clear on nothing", u_string_clear(nullptr)), FAILS("u_string_reserve on nothing", u_string_reserve(nullptr, r.below(100))), FAILS("u_string_trim on nothing", u_string_trim(nullptr)), FAILS("u_string_sprintf on nothing", u_string_sprintf(nullptr, "%d", 1)), FAILS("u_string_aprintf on nothing", u_string_aprintf(nullptr, "%d", 1)), FAILS("u_string_do_printf on nothing", u_string_do_printf(nullptr, r.below(2), "%d", 1)), FAILS("u_string_set_length on nothing", u_string_set_length(nullptr, 0)), FAILS("u_string_set_length beyond the end", u_string_set_length(w.s, u_string_len(w.s) + 1 + (r.chance(1, 2) ? r.below(9) : r.next() >> 1))), R("u_string_len of nothing", return u_string_len(nullptr) == 0;), NIL("u_string_c of nothing", u_string_c(nullptr)), NIL("u_string_detach_cstr of nothing", u_string_detach_cstr(nullptr)), R("u_string_free of nothing", return u_string_free(nullptr) == 0;),
    R("u_string_aprintf without a format", const char *volatile f = nullptr; return u_string_aprintf(w.s, f) != 0;), R("u_string_sprintf without a format", const char *volatile f = nullptr; return u_string_sprintf(w.s, f) != 0;),
    /* buffers */
    FAILS("u_buf_create without a result", u_buf_create(nullptr)), FAILS("u_buf_reserve on nothing", u_buf_reserve(nullptr, r.below(99))), FAILS("u_buf_append on nothing", u_buf_append(nullptr, "x", 1)), FAILS("u_buf_append of nothing", u_buf_append(w.b, nullptr, 1 + r.below(9))), FAILS("u_buf_append of no bytes", u_buf_append(w.b, "x", 0)), FAILS("u_buf_set on nothing", u_buf_set(nullptr, "x", 1)), FAILS("u_buf_set of nothing", u_buf_set(w.b, nullptr, 1 + r.below(9))), FAILS("u_buf_set of no bytes", u_buf_set(w.b, "x", 0)), FAILS("u_buf_load on nothing", u_buf_load(nullptr, w.file.c_str())), FAILS("u_buf_load without a name", u_buf_load(w.b, nullptr)), FAILS("u_buf_load of a missing file", u_buf_load(w.b, (w.dir + "/none").c_str())), FAILS("u_buf_save of nothing", u_buf_save(nullptr, w.file.c_str())), FAILS("u_buf_save without a name", u_buf_save(w.b, nullptr)), FAILS("u_buf_detach of nothing", u_buf_detach(nullptr)), NEG("u_buf_size of nothing", u_buf_size(nullptr)), NEG("u_buf_len of nothing", u_buf_len(nullptr)), NIL("u_buf_ptr of nothing", u_buf_ptr(nullptr)), FAILS("u_buf_clear on nothing", u_buf_clear(nullptr)), FAILS("u_buf_shrink on nothing", u_buf_shrink(nullptr, 0)), FAILS("u_buf_shrink beyond the end", u_buf_shrink(w.b, u_buf_len(w.b) + 1 + r.below(9))), FAILS("u_buf_free of nothing", u_buf_free(nullptr)), FAILS("u_buf_printf on nothing", u_buf_printf(nullptr, "%d", 1)), R("u_buf_printf without a format", const char *volatile f = nullptr; return u_buf_printf(w.b, f) != 0;),
    /* lists */
    QUIET("u_list_free of nothing", u_list_free(nullptr)), NIL("u_list_get_n of nothing", u_list_get_n(nullptr, 0)), NIL("u_list_get_n beyond the end", u_list_get_n(w.l, u_list_count(w.l) + r.below(3))), FAILS("u_list_insert in nothing", u_list_insert(nullptr, &w, 0)), FAILS("u_list_insert beyond the end", u_list_insert(w.l, &w, u_list_count(w.l) + 1 + (r.chance(1, 2) ? r.below(3) : r.next() >> 1))), NIL("u_list_first of nothing", u_list_first(nullptr, nullptr)), R("u_list_next of nothing", void *it = nullptr; return !u_list_next(nullptr, &it);), NIL("u_list_next without a position", u_list_next(w.l, nullptr)), R("u_list_del_n from nothing", void *p = junk<void>(); return u_list_del_n(nullptr, 0, &p) && left(p);), R("u_list_del_n beyond the end", void *p = junk<void>(); return u_list_del_n(w.l, u_list_count(w.l) + r.below(3), &p) && left(p);), FAILS("u_list_del of an absent item", u_list_del(w.l, junk<void>())), FAILS("u_list_clear on nothing", u_list_clear(nullptr)),
    /* arrays */
    FAILS("u_array_create without a result", u_array_create(U_ARRAY_TYPE_INT, 3, nullptr)), R("u_array_create of an unknown type", u_array_t *a = junk<u_array_t>(); return u_array_create((u_array_type_t) (r.chance(1, 2) ? 0 : 200), 3, &a) && left(a);), QUIET("u_array_free of nothing", u_array_free(nullptr)), FAILS("u_array_resize of nothing", u_array_resize(nullptr, 3)), FAILS("u_array_resize beyond all memory", u_array_resize(w.a, (size_t) -1 - r.below(3))), FAILS("u_array_set_int on nothing", u_array_set_int(nullptr, 0, 1, nullptr)), FAILS("u_array_get_int of nothing", (u_array_get_int(nullptr, 0, (int *) junk<int>()))), FAILS("u_array_get_int without a result", u_array_get_int(w.a, 0, nullptr)), R("u_array_get_int beyond the end", int v = 77; return u_array_get_int(w.a, w.asz + r.below(3), &v) && v == 77;), R("u_array_set_char on another type", char v = 1; return u_array_set_char(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz + 30), 0, r.chance(1, 3) ? nullptr : &v) && v == 1;), R("u_array_get_char of another type", char v = 1; return u_array_get_char(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz), &v) && v == 1;), R("u_array_set_u_char on another type", unsigned char v = 1; return u_array_set_u_char(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz + 30), 0, r.chance(1, 3) ? nullptr : &v) && v == 1;), R("u_array_get_u_char of another type", unsigned char v = 1; return u_array_get_u_char(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz), &v) && v == 1;), R("u_array_set_short on another type", short v = 1; return u_array_set_short(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz + 30), 0, r.chance(1, 3) ? nullptr : &v) && v == 1;), R("u_array_get_short of another type", short v = 1; return u_array_get_short(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz), &v) && v == 1;), R("u_array_set_u_short on another type", unsigned short v = 1; return u_array_set_u_short(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz + 30), 0, r.chance(1, 3) ? nullptr : &v) && v == 1;), R("u_array_get_u_short of another type", unsigned short v = 1; return u_array_get_u_short(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz), &v) && v == 1;), R("u_array_set_u_int on another type", unsigned int v = 1; return u_array_set_u_int(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz + 30), 0, r.chance(1, 3) ? nullptr : &v) && v == 1;), R("u_array_get_u_int of another type", unsigned int v = 1; return u_array_get_u_int(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz), &v) && v == 1;), R("u_array_set_long on another type", long v = 1; return u_array_set_long(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz + 30), 0, r.chance(1, 3) ? nullptr : &v) && v == 1;), R("u_array_get_long of another type", long v = 1; return u_array_get_long(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz), &v) && v == 1;), R("u_array_set_u_long on another type", unsigned long v = 1; return u_array_set_u_long(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz + 30), 0, r.chance(1, 3) ? nullptr : &v) && v == 1;), R("u_array_get_u_long of another type", unsigned long v = 1; return u_array_get_u_long(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz), &v) && v == 1;), R("u_array_set_float on another type", float v = 1; return u_array_set_float(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz + 30), 0, r.chance(1, 3) ? nullptr : &v) && v == 1;), R("u_array_get_float of another type", float v = 1; return u_array_get_float(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz), &v) && v == 1;), R("u_array_set_double on another type", double v = 1; return u_array_set_double(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz + 30), 0, r.chance(1, 3) ? nullptr : &v) && v == 1;), R("u_array_get_double of another type", double v = 1; return u_array_get_double(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz), &v) && v == 1;), R("u_array_set_bool on another type", bool v = 1; return u_array_set_bool(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz + 30), 0, r.chance(1, 3) ? nullptr : &v) && v == 1;), R("u_array_get_bool of another type", bool v = 1; return u_array_get_bool(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz), &v) && v == 1;), R("u_array_set_long_long on another type", long long v = 1; return u_array_set_long_long(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz + 30), 0, r.chance(1, 3) ? nullptr : &v) && v == 1;), R("u_array_get_long_long of another type", long long v = 1; return u_array_get_long_long(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz), &v) && v == 1;), R("u_array_set_u_long_long on another type", unsigned long long v = 1; return u_array_set_u_long_long(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz + 30), 0, r.chance(1, 3) ? nullptr : &v) && v == 1;), R("u_array_get_u_long_long of another type", unsigned long long v = 1; return u_array_get_u_long_long(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz), &v) && v == 1;), R("u_array_set_intmax on another type", intmax_t v = 1; return u_array_set_intmax(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz + 30), 0, r.chance(1, 3) ? nullptr : &v) && v == 1;), R("u_array_get_intmax of another type", intmax_t v = 1; return u_array_get_intmax(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz), &v) && v == 1;), R("u_array_set_u_intmax on another type", uintmax_t v = 1; return u_array_set_u_intmax(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz + 30), 0, r.chance(1, 3) ? nullptr : &v) && v == 1;), R("u_array_get_u_intmax of another type", uintmax_t v = 1; return u_array_get_u_intmax(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz), &v) && v == 1;), R("u_array_set_long_double on another type", long double v = 1; return u_array_set_long_double(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz + 30), 0, r.chance(1, 3) ? nullptr : &v) && v == 1;), R("u_array_get_long_double of another type", long double v = 1; return u_array_get_long_double(r.chance(1, 2) ? w.a : w.ap, r.below(w.asz), &v) && v == 1;), R("u_array_set_int on pointers", return u_array_set_int(w.ap, r.below(w.asz + 30), 1, nullptr) != 0;), R("u_array_set_ptr on nothing", int rc = 0; u_array_set_ptr(nullptr, 0, &w, &rc); return rc != 0;), R("u_array_set_ptr on another type", int rc = 0; u_array_set_ptr(w.a, r.below(w.asz + 30), &w, &rc); return rc != 0;), R("u_array_get_ptr of nothing", int rc = 0; void *p = u_array_get_ptr(nullptr, 0, &rc); return rc && !p;), R("u_array_get_ptr of another type", int rc = 0; void *p = u_array_get_ptr(w.a, r.below(w.asz), &rc); return rc && !p;), R("u_array_get_ptr beyond the end", int rc = 0; void *p = u_array_get_ptr(w.ap, w.asz + r.below(3), &rc); return rc && !p;), R("u_array_get_ptr of nothing, unasked", return !u_array_get_ptr(nullptr, 0, nullptr);),
    /* search trees */
    FAILS("u_bst_new without a result", u_bst_new(U_BST_OPT_NONE, nullptr)), QUIET("u_bst_free of nothing", u_bst_free(nullptr)), FAILS("u_bst_push on nothing", u_bst_push(nullptr, "k", "v")), FAILS("u_bst_push without a key", u_bst_push(w.t, nullptr, "v")), FAILS("u_bst_delete from nothing", u_bst_delete(nullptr, "k")), FAILS("u_bst_delete without a key", u_bst_delete(w.t, nullptr)), FAILS("u_bst_delete of an absent key", u_bst_delete(w.t, "absent")), NIL("u_bst_search in nothing", u_bst_search(nullptr, "k")), NIL("u_bst_search without a key", u_bst_search(w.t, nullptr)), NIL("u_bst_find_nth of nothing", u_bst_find_nth(nullptr, 0)), NEG("u_bst_count of nothing", u_bst_count(nullptr)), R("u_bst_foreach on nothing", calls = 0; Str s; return u_bst_foreach(nullptr, bcb, &s) && !calls;), FAILS("u_bst_foreach without a function", u_bst_foreach(w.t, nullptr, nullptr)), FAILS("u_bst_balance of nothing", u_bst_balance(nullptr)), NIL("u_bst_rotate of nothing", u_bst_rotate(nullptr, r.chance(1, 2) ? U_BST_ROT_LEFT : U_BST_ROT_RIGHT)), FAILS("u_bst_set_keyattr on nothing", u_bst_set_keyattr(nullptr, U_BST_TYPE_STRING, 0)), FAILS("u_bst_set_keyattr of no size", u_bst_set_keyattr(w.t, U_BST_TYPE_OPAQUE, 0)), FAILS("u_bst_set_valattr on nothing", u_bst_set_valattr(nullptr, U_BST_TYPE_STRING, 0)), FAILS("u_bst_set_valattr of no size", u_bst_set_valattr(w.t, U_BST_TYPE_OPAQUE, 0)), FAILS("u_bst_set_cmp on nothing", u_bst_set_cmp(nullptr, cb2)), FAILS("u_bst_set_cmp without a function", u_bst_set_cmp(w.t, nullptr)), FAILS("u_bst_set_keyfree on nothing", u_bst_set_keyfree(nullptr, nofree)), FAILS("u_bst_set_keyfree without a function", u_bst_set_keyfree(w.t, nullptr)), FAILS("u_bst_set_valfree on nothing", u_bst_set_valfree(nullptr, nofree)), FAILS("u_bst_set_valfree without a function", u_bst_set_valfree(w.t, nullptr)), NIL("u_bst_node_key of nothing", u_bst_node_key(nullptr)), NIL("u_bst_node_val of nothing", u_bst_node_val(nullptr)), NEG("u_bst_node_count of nothing", u_bst_node_count(nullptr)), R("u_bst_empty of nothing", return u_bst_empty(nullptr) != 0;),
    /* priority queues */
    FAILS("u_pq_create without a result", u_pq_create(5, nullptr)), R("u_pq_create of less than two items", u_pq_t *q = junk<u_pq_t>(); return u_pq_create(r.below(2), &q) && left(q);), R("u_pq_create beyond all memory", u_pq_t *q = junk<u_pq_t>(); return u_pq_create((size_t) -1 - r.below(3), &q) && left(q);), QUIET("u_pq_free of nothing", u_pq_free(nullptr)), FAILS("u_pq_push on nothing", u_pq_push(nullptr, 1, &w)), R("u_pq_push on a full queue", return !u_pq_full(w.q) || u_pq_push(w.q, r.below(20), &w) != 0;), R("u_pq_delmax of nothing", double k; return !u_pq_delmax(nullptr, &k);), R("u_pq_delmax of an empty queue", double k; return !u_pq_empty(w.q) || !u_pq_delmax(w.q, &k);),
    /* ring buffers */
    FAILS("u_rb_create without a result", u_rb_create(10, r.chance(1, 2) ? U_RB_OPT_NONE : U_RB_OPT_IMPL_MALLOC, nullptr)), R("u_rb_create of no size", u_rb_t *b = junk<u_rb_t>(); return u_rb_create(0, U_RB_OPT_IMPL_MALLOC, &b) && left(b);), QUIET("u_rb_free of nothing", u_rb_free(nullptr)), NEG("u_rb_write on nothing", u_rb_write(nullptr, "x", 1)), NEG("u_rb_write of nothing", u_rb_write(r.chance(1, 2) ? w.rb : w.rc, nullptr, 1)), NEG("u_rb_read of nothing", u_rb_read(nullptr, junk<char>(), 1)), NEG("u_rb_read without a place", u_rb_read(r.chance(1, 2) ? w.rb : w.rc, nullptr, 1)), R("u_rb_write of more than the size", u_rb_t *b = r.chance(1, 2) ? w.rb : w.rc; Str s(u_rb_size(b) + 1 + r.below(3), 'x'); return u_rb_write(b, s.data(), s.size()) < 0;), R("u_rb_read of more than the size", u_rb_t *b = r.chance(1, 2) ? w.rb : w.rc; Str s(u_rb_size(b) + 1 + r.below(3), 'x'); return u_rb_read(b, &s[0], s.size()) < 0 && s == Str(s.size(), 'x');), R("u_rb_fast_read of nothing", size_t n = 1; return !u_rb_fast_read(nullptr, &n);), NIL("u_rb_fast_read without a size", u_rb_fast_read(w.rc, nullptr)), R("u_rb_fast_read of more than the size", size_t n = u_rb_size(w.rc) + 1 + r.below(3); return !u_rb_fast_read(w.rc, &n);), R("u_rb_fast_read of scattered bytes", size_t n = 1; return !u_rb_fast_read(w.rb, &n);), FAILS("u_rb_clear of nothing", u_rb_clear(nullptr)),
    /* maps and their options */
    FAILS("u_hmap_new without a result", u_hmap_new(w.o, nullptr)), FAILS("u_hmap_easy_new without a result", u_hmap_easy_new(w.o, nullptr)), R("u_hmap_easy_new without options", u_hmap_t *m = junk<u_hmap_t>(); return u_hmap_easy_new(nullptr, &m) && left(m);), QUIET("u_hmap_free of nothing", u_hmap_free(nullptr)), QUIET("u_hmap_easy_free of nothing", u_hmap_easy_free(nullptr)), QUIET("u_hmap_clear of nothing", u_hmap_clear(nullptr)), QUIET("u_hmap_easy_clear of nothing", u_hmap_easy_clear(nullptr)), FAILS("u_hmap_easy_put on nothing", u_hmap_easy_put(nullptr, "k", "v")), FAILS("u_hmap_easy_put without a key", u_hmap_easy_put(w.me, nullptr, "v")), FAILS("u_hmap_easy_put without a value", u_hmap_easy_put(w.me, "k1", nullptr)), NIL("u_hmap_easy_get of nothing", u_hmap_easy_get(nullptr, "k")), NIL("u_hmap_easy_get without a key", u_hmap_easy_get(w.me, nullptr)), NIL("u_hmap_easy_get of an absent key", u_hmap_easy_get(w.me, "absent")), FAILS("u_hmap_easy_del from nothing", u_hmap_easy_del(nullptr, "k")), FAILS("u_hmap_easy_del without a key", u_hmap_easy_del(w.me, nullptr)), FAILS("u_hmap_easy_del of an absent key", u_hmap_easy_del(w.me, "absent")), FAILS("u_hmap_put without an object", u_hmap_put(w.m, nullptr, nullptr)), R("u_hmap_put on nothing", u_hmap_o_t *o = u_hmap_o_new(w.m, "fresh", "v"); CHECK(o, "setup", "object"); bool f = u_hmap_put(nullptr, o, nullptr) != 0; CHECK(!strcmp((char *) u_hmap_o_get_key(o), "fresh"), "object", "it changed"); CHECK(f, "accepted", "u_hmap_put on nothing succeeds"); CHECK(u_hmap_put(w.m, o, nullptr) == 0, "object", "the refused object cannot be put"); return u_hmap_del(w.m, "fresh", nullptr) == 0;), R("u_hmap_get of nothing", u_hmap_o_t *o = junk<u_hmap_o_t>(); return u_hmap_get(nullptr, "k", &o) && left(o);), R("u_hmap_get without a key", u_hmap_o_t *o = junk<u_hmap_o_t>(); return u_hmap_get(w.m, nullptr, &o) && left(o);), FAILS("u_hmap_get without a result", u_hmap_get(w.m, "k1", nullptr)), FAILS("u_hmap_del from nothing", u_hmap_del(nullptr, "k", nullptr)), FAILS("u_hmap_del without a key", u_hmap_del(w.m, nullptr, nullptr)), FAILS("u_hmap_copy to nothing", u_hmap_copy(nullptr, w.m)), FAILS("u_hmap_copy from nothing", u_hmap_copy(w.m, nullptr)), NIL("u_hmap_o_new in nothing", u_hmap_o_new(nullptr, "k", "v")), NIL("u_hmap_o_new without a key", u_hmap_o_new(w.m, nullptr, "v")), NIL("u_hmap_o_new without a value", u_hmap_o_new(w.m, "k", nullptr)), QUIET("u_hmap_o_free of nothing", u_hmap_o_free(nullptr)), NEG("u_hmap_count of nothing", u_hmap_count(nullptr)), R("u_hmap_foreach on nothing", calls = 0; return u_hmap_foreach(nullptr, cb1) && !calls;), FAILS("u_hmap_foreach without a function", u_hmap_foreach(w.m, nullptr)), R("u_hmap_foreach_arg on nothing", calls = 0; return u_hmap_foreach_arg(nullptr, cb2, nullptr) && !calls;), FAILS("u_hmap_foreach_arg without a function", u_hmap_foreach_arg(w.m, nullptr, nullptr)), R("u_hmap_foreach_keyval on nothing", calls = 0; return u_hmap_foreach_keyval(nullptr, cb2) && !calls;), FAILS("u_hmap_foreach_keyval without a function", u_hmap_foreach_keyval(w.m, nullptr)), FAILS("u_hmap_opts_new without a result", u_hmap_opts_new(nullptr)), QUIET("u_hmap_opts_free of nothing", u_hmap_opts_free(nullptr)), QUIET("u_hmap_opts_init of nothing", u_hmap_opts_init(nullptr)), FAILS("u_hmap_opts_copy to nothing", u_hmap_opts_copy(nullptr, w.o)), FAILS("u_hmap_opts_copy from nothing", u_hmap_opts_copy(w.o, nullptr)), QUIET("u_hmap_dbg of nothing", u_hmap_dbg(nullptr)), QUIET("u_hmap_pcy_dbg of nothing", u_hmap_pcy_dbg(nullptr)), QUIET("u_hmap_opts_dbg of nothing", u_hmap_opts_dbg(nullptr)),
#define OPT(fn, arg) FAILS(#fn " on nothing", fn(nullptr, arg))
    OPT(u_hmap_opts_set_size, 3), OPT(u_hmap_opts_set_max, 3), OPT(u_hmap_opts_set_type, U_HMAP_TYPE_CHAIN), OPT(u_hmap_opts_set_policy, U_HMAP_PCY_LRU), OPT(u_hmap_opts_set_option, U_HMAP_OPTS_NO_OVERWRITE), OPT(u_hmap_opts_unset_option, U_HMAP_OPTS_NO_OVERWRITE), OPT(u_hmap_opts_set_hashfunc, hashf), OPT(u_hmap_opts_set_compfunc, cb2), OPT(u_hmap_opts_set_freefunc, nullptr), OPT(u_hmap_opts_set_strfunc, nullptr), OPT(u_hmap_opts_set_key_type, U_HMAP_OPTS_DATATYPE_STRING), OPT(u_hmap_opts_set_key_sz, 3), OPT(u_hmap_opts_set_key_freefunc, nokfree), OPT(u_hmap_opts_set_val_type, U_HMAP_OPTS_DATATYPE_STRING), OPT(u_hmap_opts_set_val_sz, 3), OPT(u_hmap_opts_set_val_freefunc, nofree), OPT(u_hmap_opts_set_policy_cmp, nullptr),
    FAILS("u_hmap_opts_set_size of nothing or less", u_hmap_opts_set_size(w.o, -(int) r.below(3))), FAILS("u_hmap_opts_set_max of nothing or less", u_hmap_opts_set_max(w.o, -(int) r.below(3))), FAILS("u_hmap_opts_set_type of an unknown type", u_hmap_opts_set_type(w.o, (u_hmap_type_t) (U_HMAP_TYPE_LAST + 1 + r.below(3)))), FAILS("u_hmap_opts_set_policy of an unknown policy", u_hmap_opts_set_policy(w.o, (u_hmap_pcy_type_t) (U_HMAP_PCY_LAST + 1 + r.below(3)))), FAILS("u_hmap_opts_set_key_type of an unknown type", u_hmap_opts_set_key_type(w.o, (u_hmap_options_datatype_t) (U_HMAP_OPTS_DATATYPE_LAST + 1 + r.below(3)))), FAILS("u_hmap_opts_set_val_type of an unknown type", u_hmap_opts_set_val_type(w.o, (u_hmap_options_datatype_t) (U_HMAP_OPTS_DATATYPE_LAST + 1 + r.below(3)))), FAILS("u_hmap_opts_set_option of an unknown option", u_hmap_opts_set_option(w.o, r.chance(1, 2) ? 0 : 0x40)), FAILS("u_hmap_opts_unset_option of an unknown option", u_hmap_opts_unset_option(w.o, r.chance(1, 2) ? 0 : 0x40)), FAILS("u_hmap_opts_set_hashfunc without a function", u_hmap_opts_set_hashfunc(w.o, nullptr)), FAILS("u_hmap_opts_set_compfunc without a function", u_hmap_opts_set_compfunc(w.o, nullptr)), FAILS("u_hmap_opts_set_key_sz on text keys", u_hmap_opts_set_key_sz(w.o, 3)), FAILS("u_hmap_opts_set_val_sz on text values", u_hmap_opts_set_val_sz(w.o, 3)), FAILS("u_hmap_opts_set_policy_cmp with another policy", u_hmap_opts_set_policy_cmp(w.o, pcmp)),
    R("u_hmap_easy_new of pointers nobody releases", u_hmap_opts_t *o = nullptr; CHECK(u_hmap_opts_new(&o) == 0, "setup", "options"); u_hmap_t *m = junk<u_hmap_t>(); bool f = u_hmap_easy_new(o, &m) && left(m); u_hmap_opts_free(o); return f;), R("u_hmap_new of an own policy without a comparison", u_hmap_opts_t *o = nullptr; CHECK(u_hmap_opts_new(&o) == 0 && u_hmap_opts_set_policy(o, U_HMAP_PCY_CUSTOM) == 0, "setup", "options"); u_hmap_t *m = junk<u_hmap_t>(); bool f = u_hmap_new(o, &m) && left(m); u_hmap_opts_free(o); return f;),
    /* JSON */
    FAILS("u_json_new without a result", u_json_new(nullptr)), FAILS("u_json_new_object without a result", u_json_new_object("k", nullptr)), FAILS("u_json_new_array without a result", u_json_new_array("k", nullptr)), FAILS("u_json_new_string without a result", u_json_new_string("k", "v", nullptr)), FAILS("u_json_new_number without a result", u_json_new_number("k", "1", nullptr)), FAILS("u_json_new_int without a result", u_json_new_int("k", 1, nullptr)), FAILS("u_json_new_real without a result", u_json_new_real("k", 1, nullptr)), FAILS("u_json_new_null without a result", u_json_new_null("k", nullptr)), FAILS("u_json_new_bool without a result", u_json_new_bool("k", 1, nullptr)), R("u_json_new_real of no number", u_json_t *j = junk<u_json_t>(); return u_json_new_real("k", r.chance(1, 3) ? NAN : r.chance(1, 2) ? INFINITY : -INFINITY, &j) && left(j);), R("u_json_new_number of no number", u_json_t *j = junk<u_json_t>(); return u_json_new_number("k", r.one({"x", "-", "1.", "01", "1e", "--1", " "}), &j) && left(j);), R("u_json_new_string of an endless text", u_json_t *j = junk<u_json_t>(); return u_json_new_string("k", Str(2 * U_TOKEN_SZ, 'x').c_str(), &j) && left(j);), R("u_json_new_object under an endless key", u_json_t *j = junk<u_json_t>(); return u_json_new_object(Str(2 * U_TOKEN_SZ, 'x').c_str(), &j) && left(j);), QUIET("u_json_free of nothing", u_json_free(nullptr)), FAILS("u_json_set_type on nothing", u_json_set_type(nullptr, U_JSON_TYPE_NULL)), FAILS("u_json_set_type of a cached object", u_json_set_type(w.jx, U_JSON_TYPE_NULL)), FAILS("u_json_set_key on nothing", u_json_set_key(nullptr, "k")), FAILS("u_json_set_key of a cached object", u_json_set_key(w.jx, "k")), FAILS("u_json_set_val on nothing", u_json_set_val(nullptr, "v")), FAILS("u_json_set_val of nothing", u_json_set_val(u_json_child_last(u_json_child_first(w.j)), nullptr)), FAILS("u_json_set_val of an endless text", u_json_set_val(at(w, r.chance(1, 2) ? "s" : "n"), Str(U_TOKEN_SZ + r.below(2) * r.below(300), '7').c_str())), FAILS("u_json_set_val_ex of an endless text", u_json_set_val_ex(at(w, r.chance(1, 2) ? "s" : "n"), Str(U_TOKEN_SZ + r.below(2) * r.below(300), '7').c_str(), 1)), FAILS("u_json_set_val_ex of no number", u_json_set_val_ex(at(w, "n"), r.one({"x", "-", "1.", "01", "1e", "--1", " ", "12x", "1 2", "", "0x1", "1e+"}), 1)), FAILS("u_json_set_val_ex of no text", u_json_set_val_ex(at(w, "s"), r.one({"a\"b", "\"", "tab\there", "\\", "\\x", "\\u12", "nl\n"}), 1)), FAILS("u_json_set_key of an endless key", u_json_set_key(at(w, r.one({"a", "s", "n", "t", "o"})), Str(U_TOKEN_SZ + r.below(2) * r.below(300), 'k').c_str())), FAILS("u_json_cache_set_tv of an endless text", u_json_cache_set_tv(w.jx, r.one({"..s", "..n", "..t", "..a[1]"}), r.chance(1, 2) ? U_JSON_TYPE_STRING : U_JSON_TYPE_NUMBER, Str(U_TOKEN_SZ + r.below(2) * r.below(300), '7').c_str())), FAILS("u_json_cache_set_tv without a value", u_json_cache_set_tv(w.jx, r.one({"..s", "..n", "..t", "..a[1]"}), r.chance(1, 2) ? U_JSON_TYPE_STRING : U_JSON_TYPE_NUMBER, nullptr)), FAILS("u_json_cache_set_tv of the same type without a value", u_json_cache_set_tv(w.jx, r.one({"..s", "..n", "..a[1]"}), U_JSON_TYPE_UNKNOWN, nullptr)), FAILS("u_json_set_val_ex on nothing", u_json_set_val_ex(nullptr, "v", r.below(2))), R("u_json_add on nothing", u_json_t *n = nullptr; CHECK(u_json_new_null("fresh", &n) == 0, "setup", "json"); bool f = u_json_add(nullptr, n) != 0; u_json_free(n); return f;), FAILS("u_json_add of nothing", u_json_add(w.j, nullptr)), R("u_json_add on a leaf", u_json_t *n = nullptr; CHECK(u_json_new_null("fresh", &n) == 0, "setup", "json"); bool f = u_json_add(u_json_child_first(u_json_child_first(w.j)), n) != 0; u_json_free(n); return f;), R("u_json_add on a cached object", u_json_t *n = nullptr; CHECK(u_json_new_null("fresh", &n) == 0, "setup", "json"); bool f = u_json_add(w.jx, n) != 0; u_json_free(n); return f;), FAILS("u_json_remove of nothing", u_json_remove(nullptr)), FAILS("u_json_remove of a cached object", u_json_remove(w.jx)), R("u_json_encode of nothing", char *s = junk<char>(); return u_json_encode(nullptr, &s) && left(s);), FAILS("u_json_encode without a result", u_json_encode(w.j, nullptr)), R("u_json_decode of nothing", u_json_t *j = junk<u_json_t>(); return u_json_decode(nullptr, &j) && left(j);), R("u_json_validate of nothing", char st[U_LEXER_ERR_SZ]; return u_json_validate(nullptr, st) != 0;), FAILS("u_json_index of nothing", u_json_index(nullptr)), FAILS("u_json_index of a part", u_json_index(u_json_child_first(w.j))), FAILS("u_json_unindex of nothing", u_json_unindex(nullptr)), FAILS("u_json_unindex of a part", u_json_unindex(u_json_child_first(w.jx))), NIL("u_json_cache_get of nothing", u_json_cache_get(nullptr, "a")), NIL("u_json_cache_get without a cache", u_json_cache_get(w.j, "a")), NIL("u_json_cache_get without a name", u_json_cache_get(w.jx, nullptr)), NIL("u_json_cache_get of an absent name", u_json_cache_get(w.jx, r.one({"absent", ".absent", "..absent", "...s", "..a[3]", "..a[2].c"}))), NIL("u_json_cache_get_val of nothing", u_json_cache_get_val(nullptr, "a")), NIL("u_json_cache_get_val of an absent name", u_json_cache_get_val(w.jx, r.one({"absent", ".absent", "s", ".a[3]", ".a[2].c"}))), R("u_json_cache_get_int of an absent name", long v = 7; return u_json_cache_get_int(w.jx, r.one({"absent", ".absent", "s", ".a[3]", ".a[2].c"}), &v) && v == 7;), R("u_json_cache_get_real of an absent name", double v = 7; return u_json_cache_get_real(w.jx, r.one({"absent", ".absent", "s", ".a[3]", ".a[2].c"}), &v) && v == 7;), R("u_json_cache_get_bool of an absent name", char v = 7; return u_json_cache_get_bool(w.jx, r.one({"absent", ".absent", "s", ".a[3]", ".a[2].c"}), &v) && v == 7;), R("u_json_cache_get_int of a text", long v = 7; return u_json_cache_get_int(w.jx, "..s", &v) && v == 7;), R("u_json_cache_get_bool of a number", char v = 7; return u_json_cache_get_bool(w.jx, "..n", &v) && v == 7;), FAILS("u_json_cache_set_tv of an absent name", u_json_cache_set_tv(w.jx, r.one({"absent", ".absent", "s", ".a[3]", ".a[2].c"}), U_JSON_TYPE_STRING, "v")), FAILS("u_json_cache_set_tv of nothing", u_json_cache_set_tv(nullptr, "a", U_JSON_TYPE_STRING, "v")), FAILS("u_json_cache_set_tv of a container", u_json_cache_set_tv(w.jx, r.one({"..a", "..o", "..a[2]", "."}), U_JSON_TYPE_STRING, "v")), FAILS("u_json_cache_set_tv to a container", u_json_cache_set_tv(w.jx, "..s", r.chance(1, 2) ? U_JSON_TYPE_OBJECT : U_JSON_TYPE_ARRAY, "v")), NIL("u_json_get_val of nothing", u_json_get_val(nullptr)), R("u_json_get_int of nothing", long v = 7; return u_json_get_int(nullptr, &v) && v == 7;), R("u_json_get_int of a text", long v = 7; return u_json_get_int(at(w, "s"), &v) && v == 7;), R("u_json_get_real of a text", double v = 7; return u_json_get_real(at(w, "s"), &v) && v == 7;), R("u_json_get_bool of a text", char v = 7; return u_json_get_bool(at(w, "s"), &v) && v == 7;), R("u_json_cache_get_real of a text", double v = 7; return u_json_cache_get_real(w.jx, "..s", &v) && v == 7;), FAILS("u_json_get_int without a result", u_json_get_int(u_json_child_first(u_json_child_first(w.j)), nullptr)), R("u_json_get_real of nothing", double v = 7; return u_json_get_real(nullptr, &v) && v == 7;), FAILS("u_json_get_real without a result", u_json_get_real(u_json_child_first(u_json_child_first(w.j)), nullptr)), R("u_json_get_bool of nothing", char v = 7; return u_json_get_bool(nullptr, &v) && v == 7;), FAILS("u_json_get_bool without a result", u_json_get_bool(u_json_cache_get(w.jx, "..t"), nullptr)), R("u_json_array_count of no array", return u_json_array_count(r.chance(1, 2) ? nullptr : w.j) == 0;), NIL("u_json_array_get_nth of no array", u_json_array_get_nth(r.chance(1, 2) ? nullptr : w.j, 0)), NIL("u_json_array_get_nth beyond the end", u_json_array_get_nth(u_json_child_first(w.j), 3 + (r.chance(1, 2) ? r.below(3) : r.next() >> 33))), NIL("u_json_child_first of nothing", u_json_child_first(nullptr)), NIL("u_json_child_first of a leaf", u_json_child_first(u_json_child_first(u_json_child_first(w.j)))), NIL("u_json_child_last of nothing", u_json_child_last(nullptr)), NIL("u_json_child_last of a leaf", u_json_child_last(u_json_child_first(u_json_child_first(w.j)))), FAILS("u_json_it without a place", u_json_it(w.j, nullptr)), NIL("u_json_it_next of nothing", u_json_it_next(nullptr)), NIL("u_json_it_prev of nothing", u_json_it_prev(nullptr)), R("u_json_walk of nothing", calls = 0; u_json_walk(nullptr, r.chance(1, 2) ? U_JSON_WALK_PREORDER : U_JSON_WALK_POSTORDER, 0, jwalk, nullptr); return !calls;), R("u_json_walk in an unknown order", calls = 0; u_json_walk(w.j, 7, 0, jwalk, nullptr); return !calls;), QUIET("u_json_print of nothing", u_json_print(nullptr)),
    /* lexers */
    R("u_lexer_new of nothing", u_lexer_t *x = junk<u_lexer_t>(); return u_lexer_new(nullptr, &x) && left(x);), FAILS("u_lexer_new without a result", u_lexer_new("x", nullptr)), QUIET("u_lexer_free of nothing", u_lexer_free(nullptr)), NIL("u_lexer_geterr of nothing", u_lexer_geterr(nullptr)), FAILS("u_lexer_seterr on nothing", u_lexer_seterr(nullptr, "x")), R("u_lexer_seterr without a format", const char *volatile f = nullptr; return u_lexer_seterr(w.x, f) != 0;), FAILS("u_lexer_eat_ws of nothing", u_lexer_eat_ws(nullptr)), NIL("u_lexer_get_match without a place", u_lexer_get_match(w.x, nullptr)),
    /* URIs */
    FAILS("u_uri_knead of nothing", u_uri_knead(nullptr, junk<char>())), FAILS("u_uri_knead without a place", u_uri_knead(w.u, nullptr)), QUIET("u_uri_free of nothing", u_uri_free(nullptr)), NEG("u_uri_is_absolute of nothing", u_uri_is_absolute(nullptr)),
#define PART(p) NIL("u_uri_get_" #p " of nothing", u_uri_get_##p(nullptr)), FAILS("u_uri_set_" #p " on nothing", u_uri_set_##p(nullptr, "v")), FAILS("u_uri_set_" #p " of nothing", u_uri_set_##p(w.u, nullptr))
    PART(scheme), PART(userinfo), PART(user), PART(pwd), PART(host), PART(port), PART(authority), PART(path), PART(query), PART(fragment), FAILS("u_uri_set_host of an endless text", u_uri_set_host(w.u, Str(2 * U_URI_STRMAX, 'x').c_str())), FAILS("u_uri_set_path of an endless text", u_uri_set_path(w.u, Str(2 * U_URI_STRMAX, 'x').c_str())), FAILS("u_uri_set_scheme of an endless text", u_uri_set_scheme(w.u, Str(2 * U_URI_STRMAX, 'x').c_str())), R("u_uri_crumble of an endless text", u_uri_t *u = junk<u_uri_t>(); return u_uri_crumble(("http://" + Str(2 * U_URI_STRMAX, 'x')).c_str(), U_URI_OPT_NONE, &u) && left(u);),
    /* passwords */
#define PI(...) R("u_pwd_init without a needed argument", u_pwd_t *p = junk<u_pwd_t>(); return u_pwd_init(__VA_ARGS__) && left(p);)
    PI(nullptr, popen_cb, pload_cb, nullptr, nullptr, nullptr, 0, 1, &p), PI("x", nullptr, pload_cb, nullptr, nullptr, nullptr, 0, 1, &p), PI("x", popen_cb, nullptr, nullptr, nullptr, nullptr, 0, 1, &p), PI("x", popen_cb, pload_cb, nullptr, nullptr, phash, 0, r.below(2), &p), PI("x", popen_cb, pload_cb, nullptr, nullptr, nullptr, 0, 1, nullptr), PI(Str(2 * U_FILENAME_MAX + 9000, 'x').c_str(), popen_cb, pload_cb, nullptr, nullptr, nullptr, 0, 1, &p), R("u_pwd_init_file without a name", u_pwd_t *p = junk<u_pwd_t>(); return u_pwd_init_file(nullptr, nullptr, 0, r.below(2), &p) && left(p);), FAILS("u_pwd_init_file without a result", u_pwd_init_file(w.file.c_str(), nullptr, 0, r.below(2), nullptr)), QUIET("u_pwd_term of nothing", u_pwd_term(nullptr)), R("u_pwd_retr of nothing", u_pwd_rec_t *q = junk<u_pwd_rec_t>(); return u_pwd_retr(nullptr, "u1", &q) && left(q);), R("u_pwd_retr without a user", u_pwd_rec_t *q = junk<u_pwd_rec_t>(); return u_pwd_retr(w.p, nullptr, &q) && left(q);), FAILS("u_pwd_retr without a result", u_pwd_retr(w.p, "u1", nullptr)), FAILS("u_pwd_auth_user of nothing", u_pwd_auth_user(nullptr, "u1", "s1")), FAILS("u_pwd_auth_user without a user", u_pwd_auth_user(w.p, nullptr, "s1")), FAILS("u_pwd_auth_user without a secret", u_pwd_auth_user(w.p, "u1", nullptr)), R("u_pwd_rec_free of nothing", u_pwd_rec_free(w.p, nullptr); u_pwd_rec_t *q = nullptr; CHECK(u_pwd_retr(w.p, "u1", &q) == 0, "retr", "u1 is gone"); u_pwd_rec_free(nullptr, q); bool ok = !strcmp(u_pwd_rec_get_user(q), "u1"); u_pwd_rec_free(w.p, q); return ok;), NIL("u_pwd_rec_get_user of nothing", u_pwd_rec_get_user(nullptr)), NIL("u_pwd_rec_get_password of nothing", u_pwd_rec_get_password(nullptr)), NIL("u_pwd_rec_get_opaque of nothing", u_pwd_rec_get_opaque(nullptr)),
    /* tests */
    FAILS("u_test_new without a result", u_test_new("t", nullptr)), R("u_test_new under an endless name", u_test_t *t = junk<u_test_t>(); return u_test_new(Str(U_TEST_ID_MAX + r.below(300), 'x').c_str(), &t) && left(t);), QUIET("u_test_free of nothing", u_test_free(nullptr)), FAILS("u_test_suite_new without a result", u_test_suite_new("s", nullptr)), R("u_test_suite_new without a name", u_test_suite_t *s = junk<u_test_suite_t>(); return u_test_suite_new(nullptr, &s) && left(s);), R("u_test_suite_new under an endless name", u_test_suite_t *s = junk<u_test_suite_t>(); return u_test_suite_new(Str(U_TEST_ID_MAX + r.below(300), 'x').c_str(), &s) && left(s);), QUIET("u_test_suite_free of nothing", u_test_suite_free(nullptr)), FAILS("u_test_case_new without a result", u_test_case_new("c", tfun, nullptr)), R("u_test_case_new without a name", u_test_case_t *s = junk<u_test_case_t>(); return u_test_case_new(nullptr, tfun, &s) && left(s);), R("u_test_case_new under an endless name", u_test_case_t *s = junk<u_test_case_t>(); return u_test_case_new(Str(U_TEST_ID_MAX + r.below(300), 'x').c_str(), tfun, &s) && left(s);), QUIET("u_test_case_free of nothing", u_test_case_free(nullptr)), FAILS("u_test_suite_add of nothing", u_test_suite_add(nullptr, w.T)), FAILS("u_test_suite_add to nothing", u_test_suite_add(w.S, nullptr)), FAILS("u_test_case_add of nothing", u_test_case_add(nullptr, w.S)), FAILS("u_test_case_add to nothing", u_test_case_add(w.C, nullptr)), FAILS("u_test_case_register without a name", u_test_case_register(nullptr, tfun, w.S)), FAILS("u_test_case_register in nothing", u_test_case_register("x", tfun, nullptr)), FAILS("u_test_case_register under an endless name", u_test_case_register(Str(U_TEST_ID_MAX + r.below(300), 'x').c_str(), tfun, w.S)), FAILS("u_test_suite_dep_register without a name", u_test_suite_dep_register(nullptr, w.S)), FAILS("u_test_case_dep_register without a name", u_test_case_dep_register(nullptr, w.C)), FAILS("u_test_suite_dep_register under an endless name", u_test_suite_dep_register(Str(U_TEST_ID_MAX + r.below(300), 'x').c_str(), w.S)), FAILS("u_test_case_depends_on of an absent case", u_test_case_depends_on("absent", "c", w.S)), FAILS("u_test_case_depends_on of nothing", u_test_case_depends_on(nullptr, "c", w.S)), FAILS("u_test_case_depends_on on nothing", u_test_case_depends_on("c", nullptr, w.S)), FAILS("u_test_suite_depends_on of an absent suite", u_test_suite_depends_on("absent", "s", w.T)), FAILS("u_test_suite_depends_on on nothing", u_test_suite_depends_on("s", nullptr, w.T)), FAILS("u_test_set_outfn on nothing", u_test_set_outfn(nullptr, "x")), FAILS("u_test_set_outfn of nothing", u_test_set_outfn(w.T, nullptr)), R("u_test_set_outfn of an endless name", u_test_t *t = nullptr; Str rep = w.dir + "/rep"; char n[] = "t"; char *av[] = {n, nullptr}; CHECK(u_test_new("t", &t) == 0 && u_test_set_outfn(t, rep.c_str()) == 0, "setup", "test"); bool f = u_test_set_outfn(t, Str(r.chance(1, 2) ? 4096 : 20000, 'x').c_str()) != 0; optind = 1; CHECK(u_test_run(1, av, t) == 0, "setup", "run"); u_test_free(t); CHECK(unlink(rep.c_str()) == 0, "report", "no report at the place set before"); return f;), FAILS("u_test_set_u_test_rep on nothing", u_test_set_u_test_rep(nullptr, trep)), FAILS("u_test_set_u_test_rep of nothing", u_test_set_u_test_rep(w.T, nullptr)), FAILS("u_test_set_u_test_case_rep on nothing", u_test_set_u_test_case_rep(nullptr, crep)), FAILS("u_test_set_u_test_case_rep of nothing", u_test_set_u_test_case_rep(w.T, nullptr)), FAILS("u_test_set_u_test_suite_rep on nothing", u_test_set_u_test_suite_rep(nullptr, srep)), FAILS("u_test_set_u_test_suite_rep of nothing", u_test_set_u_test_suite_rep(w.T, nullptr)), FAILS("u_test_run of nothing", u_test_run(0, nullptr, nullptr)), NEG("u_test_case_printf on nothing", u_test_case_printf(nullptr, "x")),
    /* network */
    R("u_net_uri2addr of nothing", u_net_addr_t *a = junk<u_net_addr_t>(); return u_net_uri2addr(nullptr, U_NET_CSOCK, &a) && left(a);), FAILS("u_net_uri2addr without a result", u_net_uri2addr("tcp4://127.0.0.1:80", U_NET_CSOCK, nullptr)), R("u_net_uri2addr in an unknown mode", u_net_addr_t *a = junk<u_net_addr_t>(); return u_net_uri2addr("tcp4://127.0.0.1:80", (u_net_mode_t) 7, &a) && left(a);), NEG("u_net_sd_by_addr of nothing", u_net_sd_by_addr(nullptr)), NEG("u_net_sd_by_addr_ex of nothing", u_net_sd_by_addr_ex(nullptr, nullptr)), NEG("u_net_sd of nothing", u_net_sd(nullptr, U_NET_SSOCK, 0)), NEG("u_net_sd_ex of nothing", u_net_sd_ex(nullptr, U_NET_SSOCK, 0, nullptr)), NEG("u_net_sd in an unknown mode", u_net_sd("tcp4://127.0.0.1:0", (u_net_mode_t) 7, 0)), R("u_net_addr_can_accept of nothing", return u_net_addr_can_accept(nullptr) == 0;), QUIET("u_net_addr_set_opts on nothing", u_net_addr_set_opts(nullptr, 1)), QUIET("u_net_addr_add_opts on nothing", u_net_addr_add_opts(nullptr, 1)), QUIET("u_net_addr_free of nothing", u_net_addr_free(nullptr)), NEG("u_connect_ex of no socket", u_connect_ex(-1 - (int) r.below(5), junk<struct sockaddr>(), 16, nullptr)), NEG("u_connect_ex to nothing", u_connect_ex(2, nullptr, 16, nullptr)), NEG("u_connect_ex to an address of no size", u_connect_ex(2, junk<struct sockaddr>(), 0, nullptr)), NEG("u_connect of no socket", u_connect(-1, junk<struct sockaddr>(), 16)), FAILS("u_net_nagle_off of no socket", u_net_nagle_off(-1 - (int) r.below(5))), FAILS("u_net_set_nonblocking of no socket", u_net_set_nonblocking(-1)), FAILS("u_net_unset_nonblocking of no socket", u_net_unset_nonblocking(-1)), NEG("u_listen on no socket", u_listen(-1, 1)), NEG("u_bind of no socket", u_bind(-1, junk<struct sockaddr>(), 16)), NEG("u_accept on no socket", u_accept(-1, nullptr, nullptr)),
    R("u_sa_ntop of nothing", char b[64] = "left"; const char *p = u_sa_ntop(nullptr, b, sizeof b); return p && p != b && *p && !strcmp(b, "left");), R("u_sa_ntop of an unknown family", struct sockaddr a; memset(&a, 0, sizeof a); a.sa_family = AF_INET + 200; char b[64] = "left"; const char *p = u_sa_ntop(&a, b, sizeof b); return p && p != b && *p && !strcmp(b, "left");), R("u_sa_ntop without a place", struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; const char *p = u_sa_ntop((struct sockaddr *) &a, nullptr, 10); return p && *p;), R("u_sa_ntop without room", struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; char b[8] = "left"; const char *p = u_sa_ntop((struct sockaddr *) &a, b, 0); return p && p != b && *p && !strcmp(b, "left");), R("u_inet_ntop of an unknown family", char b[64] = "left"; errno = 0; return !u_inet_ntop(AF_UNIX, "abcd", b, sizeof b) && errno == EAFNOSUPPORT;),
    /* configurations */
    R("u_config_load_from_file without a name", u_config_t *c = junk<u_config_t>(); return u_config_load_from_file(nullptr, &c) && left(c);), FAILS("u_config_load_from_file without a result", u_config_load_from_file(w.file.c_str(), nullptr)), R("u_config_load_from_drv without a name", u_config_driver_t d = {dopen, dclose, dgets, nullptr}; u_config_t *c = junk<u_config_t>(); calls = 0; return u_config_load_from_drv(nullptr, &d, 0, &c) && left(c) && !calls;), R("u_config_load_from_drv without a driver", u_config_t *c = junk<u_config_t>(); return u_config_load_from_drv("x", nullptr, 0, &c) && left(c);), R("u_config_load_from_drv without a result", u_config_driver_t d = {dopen, dclose, dgets, nullptr}; calls = 0; return u_config_load_from_drv("x", &d, 0, nullptr) && !calls;), R("u_config_load_from_drv with a driver that cannot read", u_config_driver_t d = {dopen, dclose, nullptr, nullptr}; u_config_t *c = junk<u_config_t>(); calls = 0; return u_config_load_from_drv("x", &d, 0, &c) && left(c) && !calls;), NIL("u_config_get_key of nothing", u_config_get_key(nullptr)), NIL("u_config_get_value of nothing", u_config_get_value(nullptr)), FAILS("u_config_set_value on nothing", u_config_set_value(nullptr, "v")), R("u_config_free of nothing", return u_config_free(nullptr) == 0;),
    /* files, numbers and texts */
    FAILS("u_copy from nothing", u_copy(nullptr, (w.dir + "/new").c_str())), FAILS("u_copy to nothing", u_copy(w.file.c_str(), nullptr)), FAILS("u_copy of a file onto itself", u_copy(w.file.c_str(), (w.dir + "/./file").c_str())), FAILS("u_copy of a missing file", u_copy((w.dir + "/none").c_str(), (w.dir + "/new").c_str())), FAILS("u_move from nothing", u_move(nullptr, (w.dir + "/new").c_str())), FAILS("u_move to nothing", u_move(w.file.c_str(), nullptr)), FAILS("u_remove of nothing", u_remove(nullptr)), FAILS("u_savepid without a name", u_savepid(nullptr)), R("u_load_file without a name", char *p = junk<char>(); size_t n = 7; return u_load_file(nullptr, 0, &p, &n) && left(p);), R("u_load_file without a result", size_t n = 7; return u_load_file(w.file.c_str(), 0, nullptr, &n) != 0;), R("u_load_file without a size", char *p = junk<char>(); return u_load_file(w.file.c_str(), 0, &p, nullptr) && left(p);), R("u_load_file of too large a file", char *p = junk<char>(); size_t n = 7; return u_load_file(w.file.c_str(), 1 + r.below(14), &p, &n) && left(p);), FAILS("u_env_init without a prefix", u_env_init(nullptr, w.file.c_str())), FAILS("u_env_init without a file", u_env_init("x", nullptr)), FAILS("u_env_init of a directory", u_env_init("x", w.dir.c_str())),
#define NUM(fn, T, bad) R(#fn " of nothing", T v = 7; return fn(nullptr, &v) && v == 7;), FAILS(#fn " without a result", fn("1", nullptr)), R(#fn " of no number", T v = 7; return fn(r.one({"", "x", " ", "-", "+"}), &v) && v == 7;), R(#fn " of too large a number", T v = 7; return fn(bad, &v) && v == 7;)
    NUM(u_atoi, int, r.one({"99999999999", "-99999999999", "2147483648", "-2147483649"})), NUM(u_atol, long, r.one({"99999999999999999999", "-99999999999999999999", "9223372036854775808"})), NUM(u_atoumax, uintmax_t, r.one({"99999999999999999999", "18446744073709551616"})), NUM(u_atof, double, r.one({"1e999", "-1e999"})),
    R("u_strtok of nothing", char **tv = junk<char *>(); size_t n = 7; return u_strtok(nullptr, ",", &tv, &n) && left(tv);), R("u_strtok without delimiters", char **tv = junk<char *>(); size_t n = 7; return u_strtok("a", nullptr, &tv, &n) && left(tv);), R("u_strtok without a result", size_t n = 7; return u_strtok("a", ",", nullptr, &n) != 0;), R("u_strtok without a count", char **tv = junk<char *>(); return u_strtok("a", ",", &tv, nullptr) && left(tv);), R("u_tokenize of nothing", char *tv[3]; return u_tokenize(nullptr, ",", tv, 3) != 0;), R("u_tokenize without delimiters", char b[] = "a,b"; char *tv[3]; return u_tokenize(b, nullptr, tv, 3) && !strcmp(b, "a,b");), R("u_tokenize without a result", char b[] = "a,b"; return u_tokenize(b, ",", nullptr, 3) && !strcmp(b, "a,b");), R("u_tokenize without room", char b[] = "a,b"; char *tv[1]; return u_tokenize(b, ",", tv, 0) && !strcmp(b, "a,b");), NIL("u_strndup of more than there is", u_strndup("abc", 4 + r.below(99))), QUIET("u_trim of nothing", u_trim(nullptr)), QUIET("u_strtok_cleanup of nothing", u_strtok_cleanup(nullptr, 0)), QUIET("u_free of nothing", u_free(nullptr)),
#define B64(what, ...) R(what, char e[64]; uint8_t d[64]; size_t n = sizeof d; (void) e; (void) d; (void) n; return (__VA_ARGS__) != 0;)
    B64("u_b64_encode of nothing", u_b64_encode(nullptr, 3, e, sizeof e)), B64("u_b64_encode of no bytes", u_b64_encode(d, 0, e, sizeof e)), B64("u_b64_encode without a place", u_b64_encode((const uint8_t *) "abc", 3, nullptr, 10)), B64("u_b64_encode without room", u_b64_encode((const uint8_t *) "abc", 3, e, r.below(4))), B64("u_b64_decode of nothing", u_b64_decode(nullptr, 4, d, &n)), B64("u_b64_decode of no bytes", u_b64_decode("YWJj", 0, d, &n)), B64("u_b64_decode of a broken quadruplet", u_b64_decode("YWJjYWJj", 4 + 1 + r.below(3), d, &n)), B64("u_b64_decode without a place", u_b64_decode("YWJj", 4, nullptr, &n)), B64("u_b64_decode without a size", u_b64_decode("YWJj", 4, d, nullptr)),
};
static const size_t NREFS = sizeof REFS / sizeof *REFS;
static void refuse (World &w, Rng &r, const Ref &f, Str &before)
{   size_t live = h::mem::live.size(); h::tr("%s", f.name); bool ok = f.fn(w, r); CHECK(ok, "accepted", "%s is not refused as it should be, or it changes what it was given", f.name); CHECK(h::mem::live.size() == live, "refused-memory", "%s leaves %zu live blocks where there were %zu", f.name, h::mem::live.size(), live); h::cov("refused-calls");
    Str after = look(w); if (after != before) { size_t d = 0; while (d < after.size() && d < before.size() && after[d] == before[d]) ++d; h::fail("refused-changed", "%s is refused and changes something all the same: '%s' becomes '%s'", f.name, h::esc(before.substr(d > 30 ? d - 30 : 0, 120)).c_str(), h::esc(after.substr(d > 30 ? d - 30 : 0, 120)).c_str()); } }
/* a call that is fine, so that refusals meet all sorts of objects */
static void good (World &w, Rng &r)
{   switch (r.below(8)) { case 0: u_string_append(w.s, "more", 4); break; case 1: u_buf_append(w.b, "more", 4); break; case 2: u_list_add(w.l, &w); break; case 3: u_bst_push(w.t, r.one({"x", "y", "a"}), "v"); break; case 4: u_hmap_easy_put(w.me, r.one({"k1", "x", "y"}), "v"); break; case 5: { double k = r.below(30); if (!u_pq_full(w.q)) { CHECK(u_pq_push(w.q, k, w.q) == 0, "push", "refused"); w.pq.insert(k); } else { auto t = std::prev(w.pq.end()); double g; u_pq_delmax(w.q, &g); CHECK(g == *t, "queue", "wrong best item"); w.pq.erase(t); } break; } case 6: { if (u_rb_avail(w.rb) >= 3) { CHECK(u_rb_write(w.rb, "abc", 3) == 3, "ring", "write"); w.rbs += "abc"; } break; } default: u_config_set_key(w.c, r.one({"a", "n", "b.c"}), "v"); } }
void run_case (Rng &r, u64 n)
{   World w; build(w, r); auto fds = h::fds(); Str before = look(w); unsigned k = 12; for (unsigned i = 0; i < k; ++i) { size_t at = i < 4 ? (n * 4 + i) % NREFS : r.below(NREFS); h::sig(at); refuse(w, r, REFS[at], before); if (r.chance(1, 4)) { good(w, r); before = look(w); } } h::expect_fds(fds, "refused calls"); finish(w); }
static void p_all () { Rng r(99); World w; build(w, r); Str before = look(w); for (auto &f : REFS) refuse(w, r, f, before); h::cov("kinds-of-refusal", NREFS); finish(w); }
const Probe PROBES[] = {{"all", p_all}, {nullptr, nullptr}};
