#include "h.h"
/* Mixed use of every module over several installed allocators: what they are asked for, what comes back to
 * them, and whether anything goes past them (the C library's own allocator is wrapped at link time). */
extern "C" { void *__real_malloc (size_t); void *__real_calloc (size_t, size_t); void *__real_realloc (void *, size_t); void __real_free (void *); char *__real_strdup (const char *); char *__real_strndup (const char *, size_t); int __real_vasprintf (char **, const char *, va_list); ssize_t __real_getdelim (char **, size_t *, int, FILE *); }
static bool watch = false; static u64 n_bypass_ok = 0;
static void bypass (const char *f) { if (watch) { watch = false; h::fail("bypass", "the library called %s of the C library instead of the installed allocator", f); } ++n_bypass_ok; }
extern "C" {
void *__wrap_malloc (size_t n) { bypass("malloc"); return __real_malloc(n); }
void *__wrap_calloc (size_t n, size_t s) { bypass("calloc"); return __real_calloc(n, s); }
void *__wrap_realloc (void *p, size_t n) { bypass("realloc"); return __real_realloc(p, n); }
void *__wrap_reallocarray (void *p, size_t n, size_t s) { bypass("reallocarray"); return __real_realloc(p, n * s); }
void __wrap_free (void *p) { if (p) bypass("free"); __real_free(p); }
char *__wrap_strdup (const char *s) { bypass("strdup"); return __real_strdup(s); }
char *__wrap___strdup (const char *s) { bypass("strdup"); return __real_strdup(s); }
char *__wrap_strndup (const char *s, size_t n) { bypass("strndup"); return __real_strndup(s, n); }
char *__wrap___strndup (const char *s, size_t n) { bypass("strndup"); return __real_strndup(s, n); }
int __wrap_vasprintf (char **p, const char *f, va_list a) { bypass("vasprintf"); return __real_vasprintf(p, f, a); }
int __wrap_asprintf (char **p, const char *f, ...) { bypass("asprintf"); va_list a; va_start(a, f); int r = __real_vasprintf(p, f, a); va_end(a); return r; }
int __wrap___vasprintf_chk (char **p, int, const char *f, va_list a) { bypass("vasprintf"); return __real_vasprintf(p, f, a); }
int __wrap___asprintf_chk (char **p, int, const char *f, ...) { bypass("asprintf"); va_list a; va_start(a, f); int r = __real_vasprintf(p, f, a); va_end(a); return r; }
ssize_t __wrap_getdelim (char **p, size_t *n, int d, FILE *f) { bypass("getdelim"); return __real_getdelim(p, n, d, f); }
ssize_t __wrap_getline (char **p, size_t *n, FILE *f) { bypass("getline"); return __real_getdelim(p, n, '\n', f); }
ssize_t __wrap___getdelim (char **p, size_t *n, int d, FILE *f) { bypass("getdelim"); return __real_getdelim(p, n, d, f); }
}
/* ---- an allocator of its own kind: blocks lie behind a header, so that no other allocator can take them --- */
enum Kind { LIBC, TAGGED, TAGGED_NULL0, INPLACE, KINDS };
static const char *const KN[] = {"libc", "tagged", "tagged, nothing for zero bytes", "tagged, growing in place"};
struct Hd { u64 magic; size_t n; void *self; u64 seq; };
static std::unordered_map<void *, size_t> live; static Kind kind; static u64 seq, calls[4], zero_req; static size_t lastc[2];
static void *put (size_t n, bool zero, size_t room) { if (n > (size_t) 1 << 40) return nullptr; if (n == 0) { ++zero_req; if (kind == TAGGED_NULL0) return nullptr; } char *b = (char *) __real_malloc(sizeof(Hd) + n + room); if (!b) return nullptr; Hd *q = (Hd *) b; q->magic = 0x1db0c0de5afe0000ULL ^ (u64) b; q->n = n; q->self = b; q->seq = ++seq; memset(b + sizeof(Hd), zero ? 0 : 0xa5, n); live[b + sizeof(Hd)] = n; return b + sizeof(Hd); }
static Hd *head (void *p, const char *op) { auto x = live.find(p); if (x == live.end()) h::fail("foreign", "%s of %p, which the installed allocator did not hand out or has taken back", op, p); Hd *q = (Hd *) ((char *) p - sizeof(Hd)); CHECK(q->magic == (0x1db0c0de5afe0000ULL ^ (u64) q) && q->self == q && q->n == x->second, "underrun", "the bytes before a block of %zu were overwritten", x->second); return q; }
static void *t_malloc (size_t n) { ++calls[0]; return put(n, false, 0); }
static void *t_calloc (size_t n, size_t s) { ++calls[1]; lastc[0] = n; lastc[1] = s; if (s && n > (size_t) -1 / s) return nullptr; return put(n * s, true, 0); }
static void t_free (void *p) { ++calls[3]; if (!p) return; Hd *q = head(p, "free"); memset(p, 0xdd, q->n); live.erase(p); q->magic = 0; __real_free(q); }
static void *t_realloc (void *p, size_t n) { ++calls[2]; if (!p) return put(n, false, 0); Hd *q = head(p, "realloc"); if (kind == INPLACE && n <= q->n && n) { q->n = n; live[p] = n; return p; } void *r = put(n, false, 0); if (!r) return nullptr; memcpy(r, p, q->n < n ? q->n : n); t_free(p); --calls[3]; return r; }
static u64 lc_m, lc_f; static void *l_malloc (size_t n) { void *p = __real_malloc(n); lc_m += !!p; return p; } static void l_free (void *p) { ++lc_f; __real_free(p); } static void *l_calloc (size_t n, size_t s) { void *p = __real_calloc(n, s); lc_m += !!p; return p; } static void *l_realloc (void *p, size_t n) { void *q = __real_realloc(p, n); if (!p) lc_m += !!q; return q; }
static void use (Kind k) { kind = k; watch = true; if (k == LIBC) { u_memory_set_malloc(l_malloc); u_memory_set_calloc(l_calloc); u_memory_set_realloc(l_realloc); u_memory_set_free(l_free); } else { u_memory_set_free(t_free); u_memory_set_calloc(t_calloc); u_memory_set_realloc(t_realloc); u_memory_set_malloc(t_malloc); } lc_m = lc_f = 0; }
static void mine (const void *p, size_t atleast, const char *what) { if (kind == LIBC || !p) return; auto x = live.find((void *) p); CHECK(x != live.end(), "handed-out", "%s is not a block of the installed allocator", what); CHECK(x->second >= atleast, "handed-out-size", "%s lies in a block of %zu bytes", what, x->second); h::cov("handed-out-blocks"); }
static void balanced (const char *w) { if (kind == LIBC) CHECK(lc_m == lc_f, "balance", "%llu blocks taken and %llu given back after %s", (unsigned long long) lc_m, (unsigned long long) lc_f, w); if (!live.empty()) { size_t n = 0; u64 s = ~0ull; size_t z = 0; for (auto &x : live) { ++n; Hd *q = (Hd *) ((char *) x.first - sizeof(Hd)); if (q->seq < s) s = q->seq, z = q->n; } h::fail("balance", "%zu block(s) never given back after %s, the oldest has %zu bytes", n, w, z); } h::cov("balances-checked"); }

/* ---- the mixture -------------------------------------------------------------------------------------------- */
struct Obj { const char *kind; std::function<void (Rng &, Str &)> op; std::function<void ()> end; };
static Str tx (Rng &r, size_t m) { return r.text(r.below(m), "abc XYZ,;:1"); }
static void vfree (void *p) { u_free(p); }
static void bcb (u_bst_node_t *n, void *a) { *(Str *) a += (const char *) u_bst_node_key(n); const void *v = u_bst_node_val(n); if (v) *(Str *) a += (const char *) v; }
static int kvcb (const void *k, const void *v) { h::sig(Str((const char *) k)); return v ? 0 : -1; }
static void cd (u_config_t *c, Str &s) { for (int i = 0; u_config_t *d = u_config_get_child_n(c, nullptr, i); ++i) { const char *v = u_config_get_value(d); s += h::fmt("%s=%s{", u_config_get_key(d), v ? v : "-"); cd(d, s); s += '}'; } }
static int ccmp (u_config_t **a, u_config_t **b) { return strcmp(u_config_get_key(*a), u_config_get_key(*b)); }
static int tcase (u_test_case_t *) { return 0; }
static Str jt (Rng &r, int d) { Str s; switch (d ? r.below(6) : 2 + r.below(4)) { case 0: { s = "{"; int n = r.below(4); for (int i = 0; i < n; ++i) s += h::fmt("%s\"k%d\":", i ? "," : "", i) + jt(r, d - 1); return s + "}"; } case 1: { s = "["; int n = r.below(5); for (int i = 0; i < n; ++i) s += (i ? "," : "") + jt(r, d - 1); return s + "]"; } case 2: return std::to_string(r.below(1000)); case 3: return "\"" + r.text(r.below(30), "abc ") + "\""; case 4: return "true"; default: return "null"; } }
static bool make (Rng &r, Obj &o, Str &t)
{
    switch (r.below(17)) {
        case 0: { u_string_t *s = nullptr; Str a = tx(r, 300); if (u_string_create(a.data(), a.size(), &s)) return false; mine(s, 1, "a string object"); auto *P = new u_string_t *(s); o.kind = "str";
            o.op = [P] (Rng &r, Str &t) { u_string_t *s = *P; Str b = tx(r, 500); switch (r.below(7)) { case 0: u_string_append(s, b.data(), b.size()); break; case 1: u_string_set(s, b.data(), b.size()); break; case 2: u_string_aprintf(s, "%s|%zu", b.c_str(), b.size()); break; case 3: u_string_trim(s); break; case 4: u_string_reserve(s, b.size() * 4); break; case 5: u_string_clear(s); break;
                default: { char *p = u_string_detach_cstr(s); if (p) { mine(p, strlen(p) + 1, "a detached text"); t += p; u_free(p); } u_string_create(nullptr, 0, P); s = *P; } } t += u_string_c(s); };
            o.end = [P] { u_string_free(*P); delete P; }; return true; }
        case 1: { u_buf_t *b = nullptr; if (u_buf_create(&b)) return false; mine(b, 1, "a buffer object"); auto *P = new u_buf_t *(b); o.kind = "buf";
            o.op = [P] (Rng &r, Str &t) { u_buf_t *b = *P; Str d = tx(r, 900); switch (r.below(8)) { case 0: u_buf_set(b, d.data(), d.size()); break; case 1: u_buf_append(b, d.data(), d.size()); break; case 2: u_buf_printf(b, "<%s>", d.c_str()); break; case 3: u_buf_reserve(b, d.size() * 3); break; case 4: u_buf_shrink(b, u_buf_len(b) / 2); break; case 5: u_buf_clear(b); break; case 6: { Str f = h::scratch() + "/m02.bin"; watch = false; h::put_file(f, d + "x"); watch = true; u_buf_load(b, f.c_str()); unlink(f.c_str()); break; }
                default: { void *p = u_buf_ptr(b); size_t n = u_buf_len(b); mine(p, n, "a detached buffer"); t += Str(p ? (char *) p : "", p ? n : 0); u_buf_detach(b); u_free(p); } } if (u_buf_ptr(b)) { mine(u_buf_ptr(b), u_buf_len(b), "buffer data"); t += Str((char *) u_buf_ptr(b), u_buf_len(b)); } };
            o.end = [P] { u_buf_free(*P); delete P; }; return true; }
        case 2: { u_list_t *l = nullptr; if (u_list_create(&l)) return false; mine(l, 1, "a list"); o.kind = "list"; auto drop = [l] { void *it; for (void *p = u_list_first(l, &it); p; p = u_list_next(l, &it)) u_free(p); };
            o.op = [l, drop] (Rng &r, Str &t) { size_t n = u_list_count(l); switch (r.below(6)) { case 0: case 1: { char *p = u_strdup(tx(r, 40).c_str()); mine(p, 1, "a copied text"); if (r.chance(1, 2)) u_list_add(l, p); else u_list_insert(l, p, r.below(n + 1)); break; } case 2: { void *p = nullptr; if (n && u_list_del_n(l, r.below(n), &p) == 0) u_free(p); break; } case 3: if (n) { void *p = u_list_get_n(l, r.below(n)); u_list_del(l, p); u_free(p); } break; case 4: if (r.chance(1, 5)) { drop(); u_list_clear(l); } break; default: {} } void *it; for (void *p = u_list_first(l, &it); p; p = u_list_next(l, &it)) t += (char *) p; };
            o.end = [l, drop] { drop(); u_list_free(l); }; return true; }
        case 3: { u_array_t *a = nullptr; if (u_array_create(U_ARRAY_TYPE_PTR, 1 + r.below(9), &a)) return false; mine(a, 1, "an array"); o.kind = "array"; auto *top = new size_t(0);
            o.op = [a, top] (Rng &r, Str &t) { int rc; size_t i = r.below(*top + 5); void *old = u_array_set_ptr(a, i, u_strndup("some text", r.below(9)), &rc); u_free(old); if (i >= *top) *top = i + 1; for (size_t k = 0; k < *top; ++k) { char *p = (char *) u_array_get_ptr(a, k, &rc); t += p ? p : "-"; } };
            o.end = [a, top] { int rc; for (size_t k = 0; k < *top; ++k) u_free(u_array_get_ptr(a, k, &rc)); u_array_free(a); delete top; }; return true; }
        case 4: { u_bst_t *b = nullptr; if (u_bst_new(r.chance(1, 2) ? U_BST_OPT_NONE : U_BST_OPT_PUSH_TOP, &b)) return false; mine(b, 1, "a tree"); bool pv = r.chance(1, 2); if (pv) u_bst_set_valfree(b, vfree); else u_bst_set_valattr(b, U_BST_TYPE_STRING, 0); o.kind = "bst";
            o.op = [b, pv] (Rng &r, Str &t) { Str k = std::to_string(r.below(15)); switch (r.below(5)) { case 0: u_bst_delete(b, k.c_str()); break; case 1: u_bst_balance(b); break; default: if (pv) { void *p = u_memdup("value", 6); mine(p, 6, "a memory copy"); u_bst_push(b, k.c_str(), p); } else u_bst_push(b, k.c_str(), "text"); } u_bst_foreach(b, bcb, &t); };
            o.end = [b] { u_bst_free(b); }; return true; }
        case 5: { u_pq_t *q = nullptr; if (u_pq_create(2 + r.below(9), &q)) return false; mine(q, 1, "a queue"); o.kind = "pq"; o.op = [q] (Rng &r, Str &t) { if (r.chance(1, 2)) { char *p = u_strdup("item"); if (u_pq_push(q, r.below(100), p)) u_free(p); } else if (!u_pq_empty(q)) { double k; void *p = u_pq_delmax(q, &k); t += h::fmt("%g%s", k, (char *) p); u_free(p); } };
            o.end = [q] { while (!u_pq_empty(q)) { double k; u_free(u_pq_delmax(q, &k)); } u_pq_free(q); }; return true; }
        case 6: { u_rb_t *b = nullptr; static const int O[] = {U_RB_OPT_NONE, U_RB_OPT_USE_CONTIGUOUS_MEM, U_RB_OPT_IMPL_MALLOC, U_RB_OPT_IMPL_MALLOC | U_RB_OPT_USE_CONTIGUOUS_MEM}; if (u_rb_create(1 + r.below(3000), O[r.below(4)], &b)) return false; mine(b, 1, "a ring buffer"); o.kind = "rb"; o.op = [b] (Rng &r, Str &t) { Str d = tx(r, 400); if (r.chance(1, 2)) { if (d.size() <= u_rb_avail(b)) t += std::to_string(u_rb_write(b, d.data(), d.size())); } else { char c[400]; ssize_t n = u_rb_read(b, c, d.size() ? d.size() : 1); if (n > 0) t += Str(c, n); } }; o.end = [b] { u_rb_free(b); }; return true; }
        case 7: case 8: { u_hmap_opts_t *op = nullptr; u_hmap_t *m = nullptr; if (u_hmap_opts_new(&op)) return false; mine(op, 1, "map options"); unsigned vt = r.below(3); u_hmap_opts_set_type(op, r.chance(1, 2) ? U_HMAP_TYPE_CHAIN : U_HMAP_TYPE_LINEAR); u_hmap_opts_set_size(op, 1 + r.below(9)); u_hmap_pcy_type_t pc = (u_hmap_pcy_type_t) r.below(4); u_hmap_opts_set_policy(op, pc); if (pc) u_hmap_opts_set_max(op, 1 + r.below(5)); if (vt == 1) u_hmap_opts_set_val_type(op, U_HMAP_OPTS_DATATYPE_STRING); else if (vt == 2) { u_hmap_opts_set_val_type(op, U_HMAP_OPTS_DATATYPE_OPAQUE); u_hmap_opts_set_val_sz(op, 12); } else u_hmap_opts_set_val_freefunc(op, vfree); if (r.chance(1, 2)) u_hmap_opts_unset_option(op, U_HMAP_OPTS_NO_OVERWRITE); int rc = u_hmap_easy_new(op, &m); u_hmap_opts_free(op); if (rc) return false; mine(m, 1, "a map"); o.kind = "hmap";
            o.op = [m, vt] (Rng &r, Str &t) { Str k = "key" + std::to_string(r.below(10)); switch (r.below(8)) { case 0: t += std::to_string(u_hmap_easy_del(m, k.c_str())); break; case 1: case 2: { char *p = (char *) u_hmap_easy_get(m, k.c_str()); if (p) mine(p, 12, "a map value"); t += p ? p : "-"; break; } case 3: u_hmap_foreach_keyval(m, kvcb); break; case 4: if (r.chance(1, 6)) u_hmap_easy_clear(m); break; default: { char v[12] = "some value0"; v[10] += r.below(9); t += std::to_string(u_hmap_easy_put(m, k.c_str(), vt ? v : (char *) u_strdup(v))); } } t += std::to_string(u_hmap_count(m)); };
            o.end = [m] { u_hmap_easy_free(m); }; return true; }
        case 9: case 10: { u_json_t *j = nullptr; Str s = "{\"z\":" + jt(r, 3) + ",\"c\":{\"d\":\"x\"}}"; if (r.chance(1, 8)) s.resize(r.below(s.size())); if (u_json_decode(s.c_str(), &j)) { t += "bad json"; return false; } mine(j, 1, "a JSON tree"); o.kind = "json";
            o.op = [j] (Rng &r, Str &t) { switch (r.below(7)) { case 0: { char *e = nullptr; if (u_json_encode(j, &e) == 0) { mine(e, strlen(e) + 1, "an encoded text"); t += e; u_free(e); } break; } case 1: u_json_index(j); { u_json_t *q = u_json_cache_get(j, "c.d"); const char *v = q ? u_json_get_val(q) : nullptr; t += v ? v : "-"; } break; case 2: u_json_unindex(j); break; case 3: { u_json_t *q = nullptr; if (u_json_new_int(h::fmt("n%llu", (unsigned long long) r.below(1000000)).c_str(), 5, &q) == 0 && u_json_add(j, q)) u_json_free(q); break; } case 4: { u_json_t *l = u_json_child_last(j); if (l && l != u_json_child_first(j)) { u_json_remove(l); } break; } case 5: { char st[U_LEXER_ERR_SZ]; t += std::to_string(u_json_validate(jt(r, 2).c_str(), st)); break; } default: { u_json_it_t it; u_json_it(u_json_child_first(j), &it); while (u_json_t *q = u_json_it_next(&it)) { const char *v = u_json_get_val(q); t += v ? v : "+"; } } } };
            o.end = [j] { u_json_free(j); }; return true; }
        case 11: case 12: { u_config_t *c = nullptr; Str s; int n = r.below(6); for (int i = 0; i < n; ++i) s += i % 2 ? h::fmt("sec%d\n{\nv %d # c\nw ${v}\n}\n", i, i) : "a.b" + std::to_string(i) + " " + tx(r, 60) + "\n"; if (r.chance(1, 8)) s += "}\n"; if (r.chance(1, 2)) { if (u_config_load_from_buf(&s[0], s.size(), &c)) { t += "bad config"; return false; } } else { Str f = h::scratch() + "/m02.conf", g = h::scratch() + "/m02i.conf"; watch = false; h::put_file(f, s + (r.chance(1, 2) ? "include " : "-include ") + g + "\n"); unlink(g.c_str()); if (r.chance(1, 2)) h::put_file(g, "inc 1\nmore.keys 2\n"); watch = true; int rc = u_config_load_from_file(f.c_str(), &c); if (rc) { t += "bad config file"; return false; } } mine(c, 1, "a configuration"); o.kind = "config";
            o.op = [c] (Rng &r, Str &t) { static const char *K[] = {"x", "a.b", "deep.er.key", "sec1.v", "y"}; const char *k = K[r.below(5)]; switch (r.below(8)) { case 0: u_config_add_key(c, k, "${x} plain"); break; case 1: u_config_set_key(c, k, tx(r, 90).c_str()); break; case 2: u_config_set_key(c, k, "${unclosed"); break; case 3: { u_config_t *d = u_config_get_child(c, "x"); if (d) u_config_del_child(c, d); break; } case 4: u_config_sort_children(c, ccmp); break; case 5: { static char b[60000]; if (u_config_save_to_buf(c, b, r.chance(1, 4) ? 40 : sizeof b) == 0) t += b; break; } case 6: { const char *v = u_config_get_subkey_value(c, k); t += v ? v : "-"; int i = 0; t += std::to_string(u_config_get_subkey_value_i(c, k, 3, &i)) + std::to_string(i); break; } default: cd(c, t); } };
            o.end = [c] { u_config_free(c); }; return true; }
        case 13: { static const char *T[] = {"http://u:p@h.example:80/a/b?q#f", "mailto:a@b", "bad uri", "tcp4://[::1]:*", "x:"}; u_uri_t *u = nullptr; if (u_uri_crumble(T[r.below(5)], U_URI_OPT_NONE, &u)) { t += "bad uri"; return false; } mine(u, 1, "a URI"); o.kind = "uri"; o.op = [u] (Rng &r, Str &t) { if (r.chance(1, 2)) u_uri_set_path(u, "/x/y"); char b[U_URI_STRMAX]; if (u_uri_knead(u, b) == 0) t += b; }; o.end = [u] { u_uri_free(u); }; return true; }
        case 14: { static const char *T[] = {"tcp4://127.0.0.1:80", "tcp6://[::1]:80", "udp4://*:5", "unix:///tmp/x", "tcp4://127.0.0.1:99999", "tcp://127.0.0.1:1", "nope://x"}; u_net_addr_t *a = nullptr; if (u_net_uri2addr(T[r.below(7)], r.chance(1, 2) ? U_NET_SSOCK : U_NET_CSOCK, &a)) { t += "bad address"; return false; } mine(a, 1, "an address"); o.kind = "net"; o.op = [a] (Rng &, Str &t) { t += std::to_string(u_net_addr_can_accept(a)); }; o.end = [a] { u_net_addr_free(a); }; return true; }
        case 15: { Str f = h::scratch() + "/m02.pwd"; watch = false; h::put_file(f, "u1:s1\nu2:s2:op\n# no\n:bad\nu3:s3:x:y\n"); watch = true; u_pwd_t *p = nullptr; int rc = u_pwd_init_file(f.c_str(), nullptr, 0, r.below(2), &p); if (rc) return false; mine(p, 1, "a password handle"); o.kind = "pwd"; auto *held = new std::vector<u_pwd_rec_t *>;
            o.op = [p, held] (Rng &r, Str &t) { Str u = "u" + std::to_string(r.below(5)); u_pwd_rec_t *q = nullptr; switch (r.below(3)) { case 0: t += std::to_string(u_pwd_auth_user(p, u.c_str(), ("s" + u.substr(1)).c_str())); break; case 1: if (u_pwd_retr(p, u.c_str(), &q) == 0) { t += u_pwd_rec_get_password(q); held->push_back(q); } break; default: if (!held->empty()) { u_pwd_rec_free(p, held->back()); held->pop_back(); } } };
            o.end = [p, held] { for (auto q : *held) u_pwd_rec_free(p, q); delete held; u_pwd_term(p); }; return true; }
        default: { u_test_t *T = nullptr; if (u_test_new("t", &T)) return false; mine(T, 1, "a test"); o.kind = "test"; u_test_suite_t *s = nullptr; u_test_suite_new("s", &s); u_test_suite_add(s, T); auto *n = new int(0); o.op = [s, n] (Rng &r, Str &t) { Str id = "c" + std::to_string((*n)++); t += std::to_string(u_test_case_register(id.c_str(), tcase, s)); if (*n > 1) t += std::to_string(u_test_case_depends_on(id.c_str(), h::fmt("c%d", (int) r.below(*n)).c_str(), s)); }; o.end = [T, n] { u_test_free(T); delete n; }; return true; }
    }
}
static void loose (Rng &r, Str &t)
{
    Str s = tx(r, 100); switch (r.below(6)) {
        case 0: { char **tv; size_t n; if (u_strtok(s.c_str(), ",;", &tv, &n) == 0) { mine(tv, 1, "a token vector"); for (size_t i = 0; i < n; ++i) t += tv[i]; u_strtok_cleanup(tv, n); } break; }
        case 1: { Str f = h::scratch() + "/m02.txt"; watch = false; h::put_file(f, s); watch = true; char *b = nullptr; size_t n; if (u_load_file(f.c_str(), r.chance(1, 3) ? 50 : 0, &b, &n) == 0) { mine(b, n, "file contents"); t += Str(b, n); u_free(b); } unlink(f.c_str()); break; }
        case 2: { size_t n = r.below(300), k = 1 + r.below(40); unsigned char *p = (unsigned char *) u_calloc(n, k); if (kind != TAGGED_NULL0 || n) { CHECK(p, "calloc", "no memory for %zu x %zu", n, k); mine(p, n * k, "a counted block"); for (size_t i = 0; i < n * k; ++i) CHECK(p[i] == 0, "calloc-zero", "byte %zu of %zu x %zu is not zero", i, n, k); h::cov("zeroed-blocks"); } u_free(p); break; }
        case 3: { size_t n = 1 + r.below(3000); unsigned char *p = (unsigned char *) u_zalloc(n); CHECK(p, "zalloc", "no memory for %zu", n); mine(p, n, "a zeroed block"); for (size_t i = 0; i < n; ++i) CHECK(p[i] == 0, "zalloc-zero", "byte %zu of %zu is not zero", i, n); memset(p, 7, n); size_t m = 1 + r.below(5000); p = (unsigned char *) u_realloc(p, m); CHECK(p, "realloc", "no memory for %zu", m); mine(p, m, "a resized block"); for (size_t i = 0; i < n && i < m; ++i) CHECK(p[i] == 7, "realloc-content", "byte %zu lost", i); u_free(p); break; }
        case 4: { u64 c = calls[3] + lc_f; u_free(nullptr); CHECK(calls[3] + lc_f - c <= 1, "free-null", "freeing nothing frees something"); h::cov("freed-nothing"); static const size_t big[][2] = {{(size_t) -1, 2}, {(size_t) 1 << 63, 2}, {((size_t) 1 << 33), ((size_t) 1 << 31) + 1}, {3, (size_t) -1 / 3 + 1}, {(size_t) -1 / 8 + 2, 8}, {(size_t) 1 << 32, (size_t) 1 << 32}}; auto &b = big[r.below(6)]; void *p = u_calloc(b[0], b[1]); CHECK(p == nullptr, "calloc-overflow", "%zu x %zu bytes were granted", b[0], b[1]); h::cov("overflows-refused"); break; }
        default: { void *p = u_realloc(nullptr, 10); mine(p, 10, "a block from realloc"); memset(p, 1, 10); char *q = u_strndup("abcdef", 3); mine(q, 4, "a copied text"); t += q; u_free(p); u_free(q); } }
}
static Str soup (u64 seed, Kind k)
{
    Rng r(seed); Str t; std::vector<Obj> v; use(k); unsigned ops = h::memcheck ? 25 : 60 + r.below(120);
    for (unsigned i = 0; i < ops; ++i) { unsigned w = r.below(12); if (v.size() < 12 && (w < 2 || v.empty())) { Obj o; Str x; if (make(r, o, x)) { h::cov(o.kind); if (k == TAGGED) h::sig(Str(o.kind)); v.push_back(o); } else t += "refused"; t += x; }
        else if (w < 9) { Str x; size_t q = r.below(v.size()); v[q].op(r, x); t += h::fmt("\n%u %s: ", i, v[q].kind) + x; h::cov("operations"); } else if (w < 11) { Str x; loose(r, x); t += x; } else { size_t q = r.below(v.size()); v[q].end(); v.erase(v.begin() + q); } }
    if (k == TAGGED) h::sig(v.size()); while (!v.empty()) { size_t q = r.below(v.size()); v[q].end(); v.erase(v.begin() + q); } balanced("a mixed history"); watch = false; return t;
}
void run_case (Rng &r, u64)
{
    u64 s = r.next(); std::vector<Kind> order = {LIBC, TAGGED, TAGGED_NULL0, INPLACE}; for (size_t i = 3; i; --i) std::swap(order[i], order[r.below(i + 1)]); Str first; memset(calls, 0, sizeof calls);
    for (Kind k : order) { Str t = soup(s, k); h::cov(KN[k]); if (k == order[0]) first = t; else if (t != first) { size_t d = 0; while (d < t.size() && d < first.size() && t[d] == first[d]) ++d; h::fail("allocator-dependent", "with the %s allocator the same operations give '%s' where the %s allocator gave '%s'", KN[k], h::esc(t.substr(d > 40 ? d - 40 : 0, 160)).c_str(), KN[order[0]], h::esc(first.substr(d > 40 ? d - 40 : 0, 160)).c_str()); } }
    h::tr("%zu bytes of results, the same under %s, %s, %s and %s; %llu malloc, %llu calloc, %llu realloc, %llu free", first.size(), KN[order[0]], KN[order[1]], KN[order[2]], KN[order[3]], (unsigned long long) calls[0], (unsigned long long) calls[1], (unsigned long long) calls[2], (unsigned long long) calls[3]);
    h::cov("malloc-calls", calls[0]); h::cov("calloc-calls", calls[1]); h::cov("realloc-calls", calls[2]); h::cov("free-calls", calls[3]); h::cov("zero-size-requests", zero_req); zero_req = 0; h::sig(h::szclass(first.size())); h::mem::install();
}
/* the default allocator, before anything is installed: run first thing, in a process of its own */
static void p_default ()
{   void *p = __real_malloc(3); __real_free(p); u_memory_set_malloc(malloc); u_memory_set_calloc(calloc); u_memory_set_realloc(realloc); u_memory_set_free(free); u64 b = n_bypass_ok; char *s = u_strdup("abc"); CHECK(n_bypass_ok == b + 1, "wrap", "the link-time wrapper does not see the C library's allocator"); u_free(s); CHECK(n_bypass_ok == b + 2, "wrap", "free unseen"); u_free(nullptr); CHECK(n_bypass_ok == b + 2, "free-null", "nothing was freed"); CHECK(u_calloc((size_t) -1 / 2, 3) == nullptr, "calloc-overflow", "granted"); h::mem::install(); }
/* one block at a time crossing every pair of entry points */
static void p_pairs ()
{   for (int k = TAGGED; k < KINDS; ++k) { use((Kind) k); std::vector<void *> v; for (int i = 0; i < 40; ++i) { v.push_back(u_malloc(1 + i)); v.push_back(u_zalloc(1 + i)); v.push_back(u_calloc(i + 1, 3)); v.push_back(u_memdup("0123456789012345678901234567890123456789", 1 + i)); v.push_back(u_strndup("0123456789", i % 11)); } for (auto &p : v) { CHECK(p, "no-block", "no block"); mine(p, 1, "a block"); } for (size_t i = 0; i < v.size(); i += 2) { v[i] = u_realloc(v[i], 100 + i); mine(v[i], 100 + i, "a block"); } for (auto p : v) u_free(p); balanced("pairs"); watch = false; } h::mem::install(); }
const Probe PROBES[] = {{"default-allocator", p_default}, {"pairs", p_pairs}, {nullptr, nullptr}};
