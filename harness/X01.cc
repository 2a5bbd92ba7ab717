#include "h.h"
#include <atomic>
#include <thread>
#include <mutex>
/* Separate objects never influence one another: the same scripts run alone, alternately, and each in a thread of its own. */
static thread_local int who; static int kinddraw; static thread_local int *nth; static Str tag () { return h::fmt("t%d-%d", who % 100, ++*nth); }
/* ---- another object's step in the middle of a call: at allocations, C library calls and callbacks of this thread ----- */
static thread_local std::function<void ()> *between; static u64 n_between, n_points;
static void pre () { if (!between) return; ++n_points; auto *b = between; int e = errno; (*b)(); errno = e; }
static void *pm (size_t n) { pre(); return malloc(n); } static void *pc (size_t n, size_t s) { pre(); return calloc(n, s); } static void *pr (void *p, size_t n) { pre(); return realloc(p, n); } static void pf (void *p) { pre(); free(p); }
extern "C" {
int __real_strcmp (const char *, const char *); int __wrap_strcmp (const char *a, const char *b) { pre(); return __real_strcmp(a, b); }
int __real_strcasecmp (const char *, const char *); int __wrap_strcasecmp (const char *a, const char *b) { pre(); return __real_strcasecmp(a, b); }
int __real_strncmp (const char *, const char *, size_t); int __wrap_strncmp (const char *a, const char *b, size_t n) { pre(); return __real_strncmp(a, b, n); }
char *__real_strchr (const char *, int); char *__wrap_strchr (const char *a, int c) { pre(); return __real_strchr(a, c); }
size_t __real_strlen (const char *); size_t __wrap_strlen (const char *a) { pre(); return __real_strlen(a); }
ssize_t __real_read (int, void *, size_t); ssize_t __wrap_read (int f, void *b, size_t n) { pre(); ssize_t r = __real_read(f, b, n); pre(); return r; }
ssize_t __real_write (int, const void *, size_t); ssize_t __wrap_write (int f, const void *b, size_t n) { pre(); return __real_write(f, b, n); }
char *__real_fgets (char *, int, FILE *); char *__wrap_fgets (char *b, int n, FILE *f) { pre(); char *r = __real_fgets(b, n, f); pre(); return r; }
int __real_vsnprintf (char *, size_t, const char *, va_list); int __wrap_vsnprintf (char *b, size_t n, const char *f, va_list a) { pre(); int r = __real_vsnprintf(b, n, f, a); pre(); return r; }
int __wrap_snprintf (char *b, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = __wrap_vsnprintf(b, n, f, a); va_end(a); return r; }
long __real_strtol (const char *, char **, int); long __wrap_strtol (const char *s, char **e, int b) { pre(); return __real_strtol(s, e, b); }
int __real_open (const char *, int, ...); int __wrap_open (const char *p, int f, mode_t m) { pre(); return __real_open(p, f, m); }
}
/* ---- the mixture -------------------------------------------------------------------------------------------- */
struct Obj { const char *kind; std::function<void (Rng &, Str &)> op; std::function<void ()> end; };
static Str tx (Rng &r, size_t m) { return r.text(r.below(m), "abc XYZ,;:1"); }
static void vfree (void *p) { u_free(p); }
static void bcb (u_bst_node_t *n, void *a) { pre(); *(Str *) a += (const char *) u_bst_node_key(n); const void *v = u_bst_node_val(n); if (v) *(Str *) a += (const char *) v; }
static thread_local Str *kvt;
static int kvcb (const void *k, const void *v) { pre(); *kvt += (const char *) k; return v ? 0 : -1; }
static void cd (u_config_t *c, Str &s) { for (int i = 0; u_config_t *d = u_config_get_child_n(c, nullptr, i); ++i) { const char *v = u_config_get_value(d); s += h::fmt("%s=%s{", u_config_get_key(d), v ? v : "-"); cd(d, s); s += '}'; } }
static int phash (const char *in, size_t n, char out[]) { pre(); unsigned x = 7; for (size_t i = 0; i < n; ++i) { x = x * 31 + (unsigned char) in[i]; } pre(); for (int i = 0; i < 8; ++i) out[i] = "0123456789abcdef"[x >> 4 * i & 15]; pre(); return 0; }
static Str phex (const Str &s) { char o[9] = {0}; phash(s.data(), s.size(), o); return o; }
/* configuration texts from memory through a driver of the caller's */
typedef std::map<Str, Str> CM; static thread_local CM *cmap; struct CH { Str t; size_t at; };
static int dopen (const char *n, void **h) { pre(); auto i = cmap->find(n); if (i == cmap->end()) return ~0; *h = new CH{i->second, 0}; return 0; }
static int dclose (void *h) { pre(); delete (CH *) h; return 0; }
static char *dgets (void *h, char *b, size_t n) { pre(); CH *c = (CH *) h; if (c->at >= c->t.size()) return nullptr; size_t i = 0; while (i + 1 < n && c->at < c->t.size()) { char x = c->t[c->at++]; b[i++] = x; if (x == '\n') break; } b[i] = 0; return b; }
static int dres (const char *n, char *b, size_t z) { pre(); u_strlcpy(b, (Str("/v/") + n).c_str(), z); pre(); return 0; }
static u_config_driver_t drv = {dopen, dclose, dgets, dres};
static int ccmp (u_config_t **a, u_config_t **b) { pre(); return strcmp(u_config_get_key(*a), u_config_get_key(*b)); }
static int tcase (u_test_case_t *) { return 0; }
static Str jt (Rng &r, int d) { Str s; switch (d ? r.below(6) : 2 + r.below(4)) { case 0: { s = "{"; int n = r.below(4); for (int i = 0; i < n; ++i) s += h::fmt("%s\"k%d\":", i ? "," : "", i) + jt(r, d - 1); return s + "}"; } case 1: { s = "["; int n = r.below(5); for (int i = 0; i < n; ++i) s += (i ? "," : "") + jt(r, d - 1); return s + "]"; } case 2: return std::to_string(r.below(1000)); case 3: return "\"" + r.text(r.below(30), "abc ") + "\""; case 4: return "true"; default: return "null"; } }
static bool make (Rng &r, Obj &o, Str &t)
{
    switch (kinddraw ? (r.next(), kinddraw - 1) : r.below(28)) {
        case 0: { u_string_t *s = nullptr; Str a = tx(r, 300); if (u_string_create(a.data(), a.size(), &s)) return false; auto *P = new u_string_t *(s); o.kind = "str";
            o.op = [P] (Rng &r, Str &t) { u_string_t *s = *P; Str b = tx(r, 500); switch (r.below(7)) { case 0: u_string_append(s, b.data(), b.size()); break; case 1: u_string_set(s, b.data(), b.size()); break; case 2: u_string_aprintf(s, "%s|%zu", b.c_str(), b.size()); break; case 3: u_string_trim(s); break; case 4: u_string_reserve(s, b.size() * 4); break; case 5: u_string_clear(s); break;
                default: { char *p = u_string_detach_cstr(s); if (p) { t += p; u_free(p); } u_string_create(nullptr, 0, P); s = *P; } } t += u_string_c(s); };
            o.end = [P] { u_string_free(*P); delete P; }; return true; }
        case 1: { u_buf_t *b = nullptr; if (u_buf_create(&b)) return false; auto *P = new u_buf_t *(b); o.kind = "buf";
            o.op = [P] (Rng &r, Str &t) { u_buf_t *b = *P; Str d = tx(r, 900); switch (r.below(8)) { case 0: u_buf_set(b, d.data(), d.size()); break; case 1: u_buf_append(b, d.data(), d.size()); break; case 2: u_buf_printf(b, "<%s>", d.c_str()); break; case 3: u_buf_reserve(b, d.size() * 3); break; case 4: u_buf_shrink(b, u_buf_len(b) / 2); break; case 5: u_buf_clear(b); break; case 6: { Str f = h::scratch() + "/" + tag() + ".bin"; h::put_file(f, d + "x"); u_buf_load(b, f.c_str()); unlink(f.c_str()); break; }
                default: { void *p = u_buf_ptr(b); size_t n = u_buf_len(b); t += Str(p ? (char *) p : "", p ? n : 0); u_buf_detach(b); u_free(p); } } if (u_buf_ptr(b)) { t += Str((char *) u_buf_ptr(b), u_buf_len(b)); } };
            o.end = [P] { u_buf_free(*P); delete P; }; return true; }
        case 2: { u_list_t *l = nullptr; if (u_list_create(&l)) return false; o.kind = "list"; auto drop = [l] { void *it; for (void *p = u_list_first(l, &it); p; p = u_list_next(l, &it)) u_free(p); };
            o.op = [l, drop] (Rng &r, Str &t) { size_t n = u_list_count(l); switch (r.below(6)) { case 0: case 1: { char *p = u_strdup(tx(r, 40).c_str()); if (r.chance(1, 2)) u_list_add(l, p); else u_list_insert(l, p, r.below(n + 1)); break; } case 2: { void *p = nullptr; if (n && u_list_del_n(l, r.below(n), &p) == 0) u_free(p); break; } case 3: if (n) { void *p = u_list_get_n(l, r.below(n)); u_list_del(l, p); u_free(p); } break; case 4: if (r.chance(1, 5)) { drop(); u_list_clear(l); } break; default: {} } void *it; for (void *p = u_list_first(l, &it); p; p = u_list_next(l, &it)) t += (char *) p; };
            o.end = [l, drop] { drop(); u_list_free(l); }; return true; }
        case 3: { u_array_t *a = nullptr; if (u_array_create(U_ARRAY_TYPE_PTR, 1 + r.below(9), &a)) return false; o.kind = "array"; auto *top = new size_t(0);
            o.op = [a, top] (Rng &r, Str &t) { int rc; size_t i = r.below(*top + 5); void *old = u_array_set_ptr(a, i, u_strndup("some text", r.below(9)), &rc); u_free(old); if (i >= *top) *top = i + 1; for (size_t k = 0; k < *top; ++k) { char *p = (char *) u_array_get_ptr(a, k, &rc); t += p ? p : "-"; } };
            o.end = [a, top] { int rc; for (size_t k = 0; k < *top; ++k) u_free(u_array_get_ptr(a, k, &rc)); u_array_free(a); delete top; }; return true; }
        case 4: { u_bst_t *b = nullptr; if (u_bst_new(r.chance(1, 2) ? U_BST_OPT_NONE : U_BST_OPT_PUSH_TOP, &b)) return false; bool pv = r.chance(1, 2); if (pv) u_bst_set_valfree(b, vfree); else u_bst_set_valattr(b, U_BST_TYPE_STRING, 0); o.kind = "bst";
            o.op = [b, pv] (Rng &r, Str &t) { Str k = std::to_string(r.below(15)); switch (r.below(5)) { case 0: u_bst_delete(b, k.c_str()); break; case 1: u_bst_balance(b); break; default: if (pv) { void *p = u_memdup("value", 6); u_bst_push(b, k.c_str(), p); } else u_bst_push(b, k.c_str(), "text"); } u_bst_foreach(b, bcb, &t); };
            o.end = [b] { u_bst_free(b); }; return true; }
        case 5: { u_pq_t *q = nullptr; if (u_pq_create(2 + r.below(9), &q)) return false; o.kind = "pq"; o.op = [q] (Rng &r, Str &t) { if (r.chance(1, 2)) { char *p = u_strdup("item"); if (u_pq_push(q, r.below(100), p)) u_free(p); } else if (!u_pq_empty(q)) { double k; void *p = u_pq_delmax(q, &k); t += h::fmt("%g%s", k, (char *) p); u_free(p); } };
            o.end = [q] { while (!u_pq_empty(q)) { double k; u_free(u_pq_delmax(q, &k)); } u_pq_free(q); }; return true; }
        case 6: { u_rb_t *b = nullptr; static const int O[] = {U_RB_OPT_NONE, U_RB_OPT_USE_CONTIGUOUS_MEM, U_RB_OPT_IMPL_MALLOC, U_RB_OPT_IMPL_MALLOC | U_RB_OPT_USE_CONTIGUOUS_MEM}; if (u_rb_create(1 + r.below(3000), O[r.below(4)], &b)) return false; o.kind = "rb"; o.op = [b] (Rng &r, Str &t) { Str d = tx(r, 400); if (r.chance(1, 2)) { if (d.size() <= u_rb_avail(b)) t += std::to_string(u_rb_write(b, d.data(), d.size())); } else { char c[400]; ssize_t n = u_rb_read(b, c, d.size() ? d.size() : 1); if (n > 0) t += Str(c, n); } }; o.end = [b] { u_rb_free(b); }; return true; }
        case 7: case 8: { u_hmap_opts_t *op = nullptr; u_hmap_t *m = nullptr; if (u_hmap_opts_new(&op)) return false; unsigned vt = r.below(3); u_hmap_opts_set_type(op, r.chance(1, 2) ? U_HMAP_TYPE_CHAIN : U_HMAP_TYPE_LINEAR); u_hmap_opts_set_size(op, 1 + r.below(9)); u_hmap_pcy_type_t pc = (u_hmap_pcy_type_t) r.below(4); u_hmap_opts_set_policy(op, pc); if (pc) u_hmap_opts_set_max(op, 1 + r.below(5)); if (vt == 1) u_hmap_opts_set_val_type(op, U_HMAP_OPTS_DATATYPE_STRING); else if (vt == 2) { u_hmap_opts_set_val_type(op, U_HMAP_OPTS_DATATYPE_OPAQUE); u_hmap_opts_set_val_sz(op, 12); } else u_hmap_opts_set_val_freefunc(op, vfree); if (r.chance(1, 2)) u_hmap_opts_unset_option(op, U_HMAP_OPTS_NO_OVERWRITE); int rc = u_hmap_easy_new(op, &m); u_hmap_opts_free(op); if (rc) return false; o.kind = "hmap";
            o.op = [m, vt] (Rng &r, Str &t) { Str k = "key" + std::to_string(r.below(10)); switch (r.below(8)) { case 0: t += std::to_string(u_hmap_easy_del(m, k.c_str())); break; case 1: case 2: { char *p = (char *) u_hmap_easy_get(m, k.c_str()); if (p) t += p ? p : "-"; break; } case 3: kvt = &t, u_hmap_foreach_keyval(m, kvcb); break; case 4: if (r.chance(1, 6)) u_hmap_easy_clear(m); break; default: { char v[12] = "some value0"; v[10] += r.below(9); t += std::to_string(u_hmap_easy_put(m, k.c_str(), vt ? v : (char *) u_strdup(v))); } } t += std::to_string(u_hmap_count(m)); };
            o.end = [m] { u_hmap_easy_free(m); }; return true; }
        case 9: case 10: { u_json_t *j = nullptr; Str s = "{\"z\":" + jt(r, 3) + ",\"c\":{\"d\":\"x\"}}"; if (r.chance(1, 8)) s.resize(r.below(s.size())); if (u_json_decode(s.c_str(), &j)) { t += "bad json"; return false; } o.kind = "json";
            o.op = [j] (Rng &r, Str &t) { switch (r.below(7)) { case 0: { char *e = nullptr; if (u_json_encode(j, &e) == 0) { t += e; u_free(e); } break; } case 1: u_json_index(j); for (int k = 0; k < 3; ++k) { u_json_t *at = r.chance(1, 2) ? j : u_json_child_first(j); u_json_t *q = u_json_cache_get(at ? at : j, r.one({"c.d", "z", "z.k0", "z.k1", ".z", "c", "nothing", "z[0]", "z[1]", ".k0", ".k1", "[0]", "[1]"})); const char *v = q ? u_json_get_val(q) : nullptr; t += v ? v : "-"; } break; case 2: u_json_unindex(j); break; case 3: { u_json_t *q = nullptr; if (u_json_new_int(h::fmt("n%llu", (unsigned long long) r.below(1000000)).c_str(), 5, &q) == 0 && u_json_add(j, q)) u_json_free(q); break; } case 4: { u_json_t *l = u_json_child_last(j); if (l && l != u_json_child_first(j)) { u_json_remove(l); } break; } case 5: { char st[U_LEXER_ERR_SZ]; t += std::to_string(u_json_validate(jt(r, 2).c_str(), st)); break; } default: { u_json_it_t it; u_json_it(u_json_child_first(j), &it); while (u_json_t *q = u_json_it_next(&it)) { const char *v = u_json_get_val(q); t += v ? v : "+"; } } } };
            o.end = [j] { u_json_free(j); }; return true; }
        case 11: case 12: { u_config_t *c = nullptr; Str s; int n = r.below(6); for (int i = 0; i < n; ++i) s += i % 2 ? h::fmt("sec%d\n{\nv %d # c\nw ${v}\n}\n", i, i) : "a.b" + std::to_string(i) + " " + tx(r, 60) + "\n"; if (r.chance(1, 8)) s += "}\n"; if (r.chance(1, 2)) { if (u_config_load_from_buf(&s[0], s.size(), &c)) { t += "bad config"; return false; } } else { Str f = h::scratch() + "/" + tag() + ".conf", g = h::scratch() + "/" + tag() + "i.conf"; h::put_file(f, s + (r.chance(1, 2) ? "include " : "-include ") + g + "\n"); unlink(g.c_str()); if (r.chance(1, 2)) h::put_file(g, "inc 1\nmore.keys 2\n"); int rc = u_config_load_from_file(f.c_str(), &c); if (rc) { t += "bad config file"; return false; } } o.kind = "config";
            o.op = [c] (Rng &r, Str &t) { static const char *K[] = {"x", "a.b", "deep.er.key", "sec1.v", "y"}; const char *k = K[r.below(5)]; switch (r.below(8)) { case 0: u_config_add_key(c, k, "${x} plain"); break; case 1: u_config_set_key(c, k, tx(r, 90).c_str()); break; case 2: u_config_set_key(c, k, "${unclosed"); break; case 3: { u_config_t *d = u_config_get_child(c, "x"); if (d) u_config_del_child(c, d); break; } case 4: u_config_sort_children(c, ccmp); break; case 5: { std::vector<char> bv(60000); char *b = &bv[0]; if (u_config_save_to_buf(c, b, r.chance(1, 4) ? 40   : bv.size()) == 0) t += b; break; } case 6: { const char *v = u_config_get_subkey_value(c, k); t += v ? v : "-"; int i = 0; t += std::to_string(u_config_get_subkey_value_i(c, k, 3, &i)) + std::to_string(i); break; } default: cd(c, t); } };
            o.end = [c] { u_config_free(c); }; return true; }
        case 13: { static const char *T[] = {"http://u:p@h.example:80/a/b?q#f", "mailto:a@b", "bad uri", "tcp4://[::1]:*", "x:"}; u_uri_t *u = nullptr; if (u_uri_crumble(T[r.below(5)], U_URI_OPT_NONE, &u)) { t += "bad uri"; return false; } o.kind = "uri"; o.op = [u] (Rng &r, Str &t) { if (r.chance(1, 2)) u_uri_set_path(u, "/x/y"); char b[U_URI_STRMAX]; if (u_uri_knead(u, b) == 0) t += b; }; o.end = [u] { u_uri_free(u); }; return true; }
        case 14: { static const char *T[] = {"tcp4://127.0.0.1:80", "tcp6://[::1]:80", "udp4://*:5", "unix:///tmp/x", "tcp4://127.0.0.1:99999", "tcp://127.0.0.1:1", "nope://x"}; u_net_addr_t *a = nullptr; if (u_net_uri2addr(T[r.below(7)], r.chance(1, 2) ? U_NET_SSOCK : U_NET_CSOCK, &a)) { t += "bad address"; return false; } o.kind = "net"; o.op = [a] (Rng &, Str &t) { t += std::to_string(u_net_addr_can_accept(a)); }; o.end = [a] { u_net_addr_free(a); }; return true; }
        case 15: { Str f = h::scratch() + "/" + tag() + ".pwd"; h::put_file(f, "u1:s1\nu2:s2:op\n# no\n:bad\nu3:s3:x:y\n"); u_pwd_t *p = nullptr; int rc = u_pwd_init_file(f.c_str(), nullptr, 0, r.below(2), &p); if (rc) return false; o.kind = "pwd"; auto *held = new std::vector<u_pwd_rec_t *>;
            o.op = [p, held] (Rng &r, Str &t) { Str u = "u" + std::to_string(r.below(5)); u_pwd_rec_t *q = nullptr; switch (r.below(3)) { case 0: t += std::to_string(u_pwd_auth_user(p, u.c_str(), ("s" + u.substr(1)).c_str())); break; case 1: if (u_pwd_retr(p, u.c_str(), &q) == 0) { t += u_pwd_rec_get_password(q); held->push_back(q); } break; default: if (!held->empty()) { u_pwd_rec_free(p, held->back()); held->pop_back(); } } };
            o.end = [p, held] { for (auto q : *held) u_pwd_rec_free(p, q); delete held; u_pwd_term(p); }; return true; }
        case 16: { u_test_t *T = nullptr; if (u_test_new("t", &T)) return false; o.kind = "test"; u_test_suite_t *s = nullptr; u_test_suite_new("s", &s); u_test_suite_add(s, T); auto *n = new int(0); o.op = [s, n] (Rng &r, Str &t) { Str id = "c" + std::to_string((*n)++); t += std::to_string(u_test_case_register(id.c_str(), tcase, s)); if (*n > 1) t += std::to_string(u_test_case_depends_on(id.c_str(), h::fmt("c%d", (int) r.below(*n)).c_str(), s)); }; o.end = [T, n] { u_test_free(T); delete n; }; return true; }
        case 17: case 18: { Str s = tx(r, 300); u_lexer_t *l = nullptr; if (u_lexer_new(s.c_str(), &l)) return false; o.kind = "lexer";
            o.op = [l] (Rng &r, Str &t) { for (int i = 0; i < 6; ++i) { char c = '?', m[U_TOKEN_SZ]; switch (r.below(8)) { case 0: u_lexer_record_lmatch(l); break; case 1: u_lexer_record_rmatch(l); break; case 2: { char *p = u_lexer_get_match(l, m); t += p ? p : "-"; break; } case 3: t += std::to_string(u_lexer_skip(l, &c)); break; case 4: t += std::to_string(u_lexer_expect_char(l, "ab,"[r.below(3)])) + u_lexer_geterr(l); break; case 5: u_lexer_seterr(l, "E%d", (int) r.below(99)); break; default: t += std::to_string(u_lexer_next(l, &c)); } t += c; t += std::to_string(u_lexer_pos(l)) + u_lexer_peek(l); } t += u_lexer_geterr(l); };
            o.end = [l] { u_lexer_free(l); }; return true; }
        case 19: case 20: { o.kind = "texts"; o.op = [] (Rng &r, Str &t) { Str s = tx(r, 120); switch (r.below(9)) {
                case 0: { char **tv; size_t n; if (u_strtok(s.c_str(), ",; ", &tv, &n) == 0) { for (size_t i = 0; i < n; ++i) t += Str(tv[i]) + "|"; u_strtok_cleanup(tv, n); } break; }
                case 1: { Str b(s); char *v[9]; if (u_tokenize(&b[0], ",; ", v, 9) == 0) for (int i = 0; i < 9 && v[i]; ++i) t += Str(v[i]) + "|"; break; }
                case 2: { Str b(s + "  "); u_trim(&b[0]); t += b.c_str(); break; }
                case 3: { int i = 0; long l = 0; double d = 0; uintmax_t u = 0; Str n = std::to_string((long long) r.next()).substr(0, 1 + r.below(20)); int a = u_atoi(n.c_str(), &i), b = u_atol(n.c_str(), &l), c = u_atof(n.c_str(), &d), e = u_atoumax(n.c_str(), &u); t += h::fmt("%s %d%d%d%d %d %ld %g", n.c_str(), a, b, c, e, a ? 0 : i, b ? 0 : l, c ? 0 : d); break; }
                case 4: { char b[64]; t += std::to_string(u_path_snprintf(b, sizeof b, '/', "/%s//x/%d", s.c_str(), (int) s.size())) + b; break; }
                case 5: { std::vector<char> e(s.size() * 2 + 8); if (s.size() && u_b64_encode((const uint8_t *) s.data(), s.size(), &e[0], e.size()) == 0) { t += &e[0]; std::vector<uint8_t> d(s.size() + 4); size_t n = d.size(); if (u_b64_decode(&e[0], strlen(&e[0]), &d[0], &n) == 0) t += Str((char *) &d[0], n); } break; }
                case 6: { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = r.below(65536); a.sin_addr.s_addr = r.next(); char b[96]; const char *p = u_sa_ntop((struct sockaddr *) &a, b, sizeof b); t += p ? p : "-"; break; }
                case 7: { struct sockaddr_in6 a; memset(&a, 0, sizeof a); a.sin6_family = AF_INET6; a.sin6_port = r.below(65536); for (auto &q : a.sin6_addr.s6_addr) q = r.chance(1, 2) ? 0 : r.below(256); char b[96]; const char *p = u_sa_ntop((struct sockaddr *) &a, b, sizeof b); t += p ? p : "-"; break; }
                default: { char b[64]; u_strlcpy(b, s.c_str(), sizeof b); t += b; t += std::to_string(u_strlcat(b, "tail", sizeof b)) + b; t += std::to_string(u_isblank_str(s.c_str())) + std::to_string(u_data_is_bin(&s[0], s.size())); } } }; o.end = [] {}; return true; }
        case 21: { o.kind = "files"; o.op = [] (Rng &r, Str &t) { Str a = h::scratch() + "/" + tag(), b = a + "b", s = tx(r, 9000); h::put_file(a, s); if (r.chance(1, 2)) { t += std::to_string(u_copy(a.c_str(), b.c_str())); } else { t += std::to_string(u_move(a.c_str(), b.c_str())); h::put_file(a, ""); } char *p = nullptr; size_t n = 0; if (u_load_file(b.c_str(), 0, &p, &n) == 0) { t += Str(p, n) == s ? "same" : "DIFFERENT"; u_free(p); } unlink(a.c_str()); unlink(b.c_str()); }; o.end = [] {}; return true; }
        case 22: { int *p = new int[2]; if (pipe(p)) return false; o.kind = "pipe"; o.op = [p] (Rng &r, Str &t) { Str s = tx(r, 900) + "!"; ssize_t n = 0; int eof = 0; t += std::to_string(u_io((iof_t) write, p[1], (char *) s.data(), s.size(), &n, &eof)); std::vector<char> b(s.size()); t += std::to_string(u_io((iof_t) read, p[0], &b[0], b.size(), &n, &eof)) + Str(&b[0], n) + std::to_string(eof); }; o.end = [p] { close(p[0]); close(p[1]); delete [] p; }; return true; }
        case 23: { auto *P = new std::vector<u_json_t *>; u_json_t *j = nullptr; if (u_json_new_object(nullptr, &j)) return false; P->push_back(j); o.kind = "json-built"; o.op = [P] (Rng &r, Str &t) { u_json_t *q = nullptr, *d = (*P)[r.below(P->size())]; Str k = "k" + std::to_string(P->size()) + std::to_string(r.below(100)); int rc; bool cont = false; switch (r.below(5)) { case 0: rc = u_json_new_object(k.c_str(), &q); cont = true; break; case 1: rc = u_json_new_array(k.c_str(), &q); cont = true; break; case 2: rc = u_json_new_real(k.c_str(), (double) r.below(1000) / 8, &q); break; case 3: rc = u_json_new_string(k.c_str(), "some", &q); break; default: rc = u_json_new_bool(k.c_str(), 1, &q); } if (rc == 0) { if (u_json_add(d, q)) u_json_free(q); else if (cont && P->size() < 20) P->push_back(q); } char *e = nullptr; if (u_json_encode((*P)[0], &e) == 0) { t += e; u_free(e); } }; o.end = [P] { u_json_free((*P)[0]); delete P; }; return true; }
        case 24: { Str f = h::scratch() + "/" + tag() + ".pwdh", s; for (int i = 1; i < 5; ++i) s += h::fmt("u%d:", i) + phex(h::fmt("s%d", i)) + "\n"; h::put_file(f, s); u_pwd_t *p = nullptr; if (u_pwd_init_file(f.c_str(), phash, 8, r.below(2), &p)) return false; o.kind = "pwd-hashed";
            o.op = [p] (Rng &r, Str &t) { for (int i = 0; i < 3; ++i) { int u = r.below(5), w = r.chance(1, 2) ? u : r.below(5); t += std::to_string(u_pwd_auth_user(p, h::fmt("u%d", u).c_str(), h::fmt("s%d", w).c_str())); } };
            o.end = [p] { u_pwd_term(p); }; return true; }
        case 25: { auto *M = new CM; Str me = tag(); for (int i = 0; i < 4; ++i) { Str t; int n = r.below(5); for (int k = 0; k < n; ++k) t += r.chance(1, 3) ? h::fmt("s%d\n{\nk %s ${key%d}\n}\n", k, me.c_str(), k) : h::fmt("key%d ", k) + me + tx(r, 60) + "\n"; if (i < 3) { t += "include " + me + std::to_string(i + 1) + "\nlast" + std::to_string(i) + " x\n"; } if (r.chance(1, 12)) t += "}\n"; (*M)["/v/" + me + std::to_string(i)] = t; } o.kind = "config-driver";
            o.op = [M, me] (Rng &r, Str &t) { CM *old = cmap; cmap = M; u_config_t *c = nullptr; int rc = u_config_load_from_drv(("/v/" + me + std::to_string(r.below(4))).c_str(), &drv, r.below(2), &c); cmap = old; t += std::to_string(rc); if (rc == 0) { cd(c, t); u_config_free(c); } };
            o.end = [M] { delete M; }; return true; }
        case 26: { o.kind = "json-texts"; o.op = [] (Rng &r, Str &t) { Str s = "{\"a\":" + jt(r, 3) + "}"; if (r.chance(1, 4)) s.erase(r.below(s.size()), 1); char st[U_LEXER_ERR_SZ]; st[0] = 0; int v = u_json_validate(s.c_str(), st); t += std::to_string(v) + (v ? st : ""); u_json_t *j = nullptr; if (u_json_decode(s.c_str(), &j) == 0) { char *e = nullptr; if (u_json_encode(j, &e) == 0) { t += e; u_free(e); } u_json_free(j); } else t += "bad"; };
            o.end = [] {}; return true; }
        default: { u_uri_t *u = nullptr; if (u_uri_new(U_URI_OPT_NONE, &u)) return false; u_uri_set_scheme(u, "http"); u_uri_set_host(u, "h"); o.kind = "uri-built"; o.op = [u] (Rng &r, Str &t) { Str x = r.text(1 + r.below(200), "abcdef"); switch (r.below(5)) { case 0: u_uri_set_host(u, x.c_str()); break; case 1: u_uri_set_path(u, ("/" + x).c_str()); break; case 2: u_uri_set_query(u, x.c_str()); break; case 3: u_uri_set_fragment(u, x.c_str()); break; default: u_uri_set_port(u, "77"); } std::vector<char> b(U_URI_STRMAX); if (u_uri_knead(u, &b[0]) == 0) { t += &b[0]; u_uri_t *v = nullptr; if (u_uri_crumble(&b[0], U_URI_OPT_NONE, &v) == 0) { t += u_uri_get_host(v); t += u_uri_get_path(v); u_uri_free(v); } } }; o.end = [u] { u_uri_free(u); }; return true; }
    }
}

struct Script { u64 seed; unsigned ops; Rng r; Obj o; Str t; bool ok = false, done = false; unsigned i = 0; int id, files = 0;
    Script (u64 s, unsigned n, int k) : seed(s), ops(n), r(s), id(k) {}
    /* one step of the script: make the object, work on it, or end it */
    void step () { who = id; nth = &files; Str x; if (!ok) { Obj n; x = ""; ok = make(r, n, x); t += x; if (ok) o = n; else { t += "(refused)"; if (++i > ops) done = true; } return; }
        if (i++ >= ops) { o.end(); done = true; return; } if (r.chance(1, 12)) { o.end(); ok = false; t += "(ended)"; return; } o.op(r, x); t += h::fmt("\n%u %s: ", i, o.kind) + x; }
    void all () { while (!done) step(); } };
static void same (const Script &a, const Script &b, const char *how) { h::cov(how); if (a.t == b.t) return; size_t d = 0; while (d < a.t.size() && d < b.t.size() && a.t[d] == b.t[d]) ++d; size_t l = a.t.rfind('\n', d); Str line = a.t.substr(l == Str::npos ? 0 : l + 1, 12);
    h::fail("interference", "working on other objects %s changes the results of one: step '%s' gave '%s' alone and now '%s'", how, h::esc(line).c_str(), h::esc(a.t.substr(d > 30 ? d - 30 : 0, 120)).c_str(), h::esc(b.t.substr(d > 30 ? d - 30 : 0, 120)).c_str()); }
void run_case (Rng &r, u64)
{
    u_memory_set_malloc(malloc); u_memory_set_calloc(calloc); u_memory_set_realloc(realloc); u_memory_set_free(free); h::scratch();
    int n = 2 + r.below(5); std::vector<u64> seeds; std::vector<unsigned> ops; bool twins = r.chance(1, 2);
    for (int i = 0; i < n; ++i) { seeds.push_back(r.next()); ops.push_back(h::memcheck ? 8 : 10 + r.below(50)); }
    /* often two objects of the same kind with different histories */
    std::vector<std::unique_ptr<Script>> alone, mixed, par; auto fresh = [&] (std::vector<std::unique_ptr<Script>> &v, int base) { for (int i = 0; i < n; ++i) { v.emplace_back(new Script(seeds[i], ops[i], base + i)); } };
    kinddraw = twins ? 1 + (int) r.below(28) : 0; fresh(alone, 0); fresh(mixed, 100); fresh(par, 200);
    for (auto &s : alone) { s->all(); h::cov("steps", s->i); if (s->o.kind) { h::sig(Str(s->o.kind)); h::cov(s->o.kind); } h::sig(h::szclass(s->t.size())); }
    size_t left = n; while (left) { auto &s = mixed[r.below(n)]; unsigned k = 1 + r.below(3); while (k-- && !s->done) { s->step(); if (s->done) --left; } }
    for (int i = 0; i < n; ++i) same(*alone[i], *mixed[i], "alternately");
    /* in the middle of each other's calls */
    std::vector<std::unique_ptr<Script>> nest; fresh(nest, 300); { Rng y(r.next()); unsigned odds = 2 + y.below(30), steps = 0; u64 cap = 400000, pts = 0; std::vector<char> busy(n); std::function<void ()> in; int depth = 0;
        auto run = [&] (int i) { busy[i] = 1; int w = who; int *f = nth; Str *kv = kvt; CM *cm = cmap; nest[i]->step(); who = w; nth = f; kvt = kv; cmap = cm; busy[i] = 0; };
        in = [&] { if (depth >= 2 || ++pts > cap || !y.chance(1, odds)) return; int i = y.below(n); if (busy[i] || nest[i]->done) return; ++depth; ++n_between; run(i); --depth; };
        u_memory_set_malloc(pm); u_memory_set_calloc(pc); u_memory_set_realloc(pr); u_memory_set_free(pf); between = &in;
        for (;;) { std::vector<int> todo; for (int i = 0; i < n; ++i) if (!nest[i]->done) todo.push_back(i); if (todo.empty()) break; run(todo[y.below(todo.size())]); ++steps; }
        between = nullptr; h::cov("steps inside another object's call", n_between); n_between = 0; h::cov("points where another object could step in", n_points); n_points = 0;
        u_memory_set_malloc(malloc); u_memory_set_calloc(calloc); u_memory_set_realloc(realloc); u_memory_set_free(free); }
    for (int i = 0; i < n; ++i) same(*alone[i], *nest[i], "in the middle of its calls");
    std::atomic<int> ready(0); std::vector<std::thread> th; u64 yl = r.next();
    for (int i = 0; i < n; ++i) th.emplace_back([&, i] { Script &s = *par[i]; Rng y(yl + i); ++ready; while (ready < n) {} while (!s.done) { s.step(); if (y.chance(1, 6)) std::this_thread::yield(); } });
    for (auto &x : th) x.join(); for (int i = 0; i < n; ++i) same(*alone[i], *par[i], "in other threads");
    h::tr("%d scripts%s, %zu bytes of results, the same alone, alternately and in %d threads", n, twins ? " on objects of one kind" : "", alone[0]->t.size(), n); h::mem::install();
}
const Probe PROBES[] = {{nullptr, nullptr}};
