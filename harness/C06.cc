#include "hm.h"
void run_case (Rng &r, u64 n) { history(r, n, 6); }
/* every hash quality and table type through several growths */
static void p_growth () { Rng r(3); for (int t = 0; t < 2; ++t) for (int hash = 0; hash < 8; ++hash) { u64 n = t; configure(r, n, 6); G.hash = hash; G.strong = hash >= 4; G.easy = false; G.kt = U_HMAP_OPTS_DATATYPE_STRING; G.dsize = false; G.size = 1; G.f_free = false; G.owns = true; keys(r, 700); HM M(r); for (int i = 0; i < 700; ++i) M.put(i); M.audit("growth"); for (int i = 0; i < 700; i += 2) M.del(i); M.audit("deletions"); for (int i = 0; i < 700; ++i) M.get(i); for (int i = 0; i < 700; i += 3) M.put(i); M.audit("refill"); M.clear(); for (int i = 0; i < 50; ++i) M.put(i); M.audit("reuse"); M.end(); } }
static void p_strerror () { const char *s[3]; u_hmap_ret_t c[] = {U_HMAP_ERR_NONE, U_HMAP_ERR_FAIL, U_HMAP_ERR_EXISTS}; for (int i = 0; i < 3; ++i) { s[i] = u_hmap_strerror(c[i]); CHECK(s[i] && *s[i], "strerror", "no text for result %d", c[i]); for (int j = 0; j < i; ++j) CHECK(strcmp(s[i], s[j]), "strerror", "two results have the same text"); } CHECK(!u_hmap_strerror((u_hmap_ret_t) 99), "strerror", "a result that does not exist has a text"); }
static void p_args () { u_hmap_t *m = nullptr; u_hmap_opts_t *o = nullptr; CHECK(u_hmap_easy_new(nullptr, &m) != 0, "args", "easy map without options"); CHECK(u_hmap_opts_new(&o) == 0, "opts", "no options"); CHECK(u_hmap_easy_new(o, &m) != 0, "args", "easy map of pointers without a release function accepted"); CHECK(u_hmap_opts_set_size(o, 0) && u_hmap_opts_set_size(o, -3) && u_hmap_opts_set_max(o, 0) && u_hmap_opts_set_max(o, -1) && u_hmap_opts_set_type(o, (u_hmap_type_t) 9) && u_hmap_opts_set_policy(o, (u_hmap_pcy_type_t) 9) && u_hmap_opts_set_val_type(o, (u_hmap_options_datatype_t) 7) && u_hmap_opts_set_key_type(o, (u_hmap_options_datatype_t) 7), "args", "an invalid option was taken"); u_hmap_opts_free(o); CHECK(u_hmap_new(nullptr, &m) == 0, "new", "no default map"); u_hmap_o_t *x; CHECK(u_hmap_get(m, "nope", &x) != 0 && u_hmap_del(m, "nope", nullptr) != 0 && u_hmap_count(m) == 0, "empty", "an empty map has something"); u_hmap_free(m); }
static void p_large () { for (auto type : {U_HMAP_TYPE_CHAIN, U_HMAP_TYPE_LINEAR}) { u_hmap_opts_t *o; u_hmap_t *m = nullptr; CHECK(u_hmap_opts_new(&o) == 0 && u_hmap_opts_set_type(o, type) == 0 && u_hmap_opts_set_val_type(o, U_HMAP_OPTS_DATATYPE_STRING) == 0 && u_hmap_easy_new(o, &m) == 0, "new", "no map"); u_hmap_opts_free(o); const int N = type == U_HMAP_TYPE_CHAIN ? 70000 : 12000; char k[16], v[16]; auto K = [&] (int i) { snprintf(k, 16, "k%d", i); snprintf(v, 16, "v%d", i * 7); return k; };
    for (int i = 0; i < N; ++i) { K(i); CHECK(u_hmap_easy_put(m, k, v) == 0, "put", "putting entry %d", i); if ((i & (i + 1)) == 0) CHECK(u_hmap_count(m) == i + 1, "count", "%zd of %d", u_hmap_count(m), i + 1); } auto all = [&] (std::function<bool (int)> in, const char *after) { int n = 0; for (int i = 0; i < N + 500; ++i) { K(i); if (type != U_HMAP_TYPE_CHAIN && !in(i) && i % 40) continue; const char *g = (const char *) u_hmap_easy_get(m, k); if (in(i)) { ++n; CHECK(g && !strcmp(g, v), "value", "after %s key %d of %d holds %s", after, i, N, g ? g : "nothing"); } else CHECK(!g, "found-absent", "after %s key %d is found", after, i); } CHECK(u_hmap_count(m) == n, "count", "after %s %zd of %d", after, u_hmap_count(m), n); static int visits; visits = 0; u_hmap_foreach(m, [] (const void *) { ++visits; return 0; }); CHECK(visits == n, "foreach-count", "after %s %d of %d entries are enumerated", after, visits, n); };
    all([&] (int i) { return i < N; }, "the puts"); for (int i = 0; i < N; i += 3) CHECK(u_hmap_easy_del(m, K(i)) == 0, "del", "deleting %d", i); all([&] (int i) { return i < N && i % 3; }, "deletions"); for (int i = 0; i < N; i += 6) { K(i); CHECK(u_hmap_easy_put(m, k, v) == 0, "put", "putting %d back", i); } all([&] (int i) { return i < N && (i % 3 || i % 6 == 0); }, "putting back"); u_hmap_easy_clear(m); all([] (int) { return false; }, "clear"); K(3); CHECK(u_hmap_easy_put(m, k, v) == 0, "put", "after clear"); all([] (int i) { return i == 3; }, "reuse"); u_hmap_easy_free(m); } }
const Probe PROBES[] = { {"growth", p_growth}, {"arguments", p_args}, {"result-texts", p_strerror}, {"large", p_large}, {0, 0} };
