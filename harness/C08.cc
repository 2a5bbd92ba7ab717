#include "hm.h"
void run_case (Rng &r, u64 n) { history(r, n, 8); }
/* each policy, both tables: fill, touch in a known order, overflow one by one */
static void p_policies () { Rng r(4); for (int t = 0; t < 2; ++t) for (int p = 1; p <= 4; ++p) for (int hash = 0; hash < 8; ++hash) { configure(r, t, 8); G.pcy = (u_hmap_pcy_type_t) p; G.hash = hash; G.strong = hash >= 4; G.kt = U_HMAP_OPTS_DATATYPE_STRING; G.max = 7; G.size = 1; G.dsize = false; keys(r, 60); HM M(r); for (int i = 0; i < 7; ++i) M.put(i); for (int i : {3, 3, 1, 5, 1, 0, 6, 6, 6}) M.get(i); for (int i = 7; i < 30; ++i) { M.put(i); if (i % 3 == 0) M.get(i - 1), M.get(i); } M.del(29); M.put(31); M.put(32); M.clear(); for (int i = 40; i < 60; ++i) M.put(i); M.audit("policy"); M.end(); } }
static void p_large () { for (auto type : {U_HMAP_TYPE_CHAIN, U_HMAP_TYPE_LINEAR}) for (auto pcy : {U_HMAP_PCY_FIFO, U_HMAP_PCY_LRU}) { u_hmap_opts_t *o; u_hmap_t *m = nullptr; const int M = 12000; CHECK(u_hmap_opts_new(&o) == 0 && u_hmap_opts_set_type(o, type) == 0 && u_hmap_opts_set_policy(o, pcy) == 0 && u_hmap_opts_set_max(o, M) == 0 && u_hmap_opts_set_val_type(o, U_HMAP_OPTS_DATATYPE_STRING) == 0 && u_hmap_easy_new(o, &m) == 0, "new", "no map"); u_hmap_opts_free(o); char k[16]; auto K = [&] (int i) { snprintf(k, 16, "k%d", i); return k; };
    for (int i = 0; i < M; ++i) CHECK(u_hmap_easy_put(m, K(i), k) == 0, "put", "put %d", i); CHECK(u_hmap_count(m) == M, "count", "%zd of %d", u_hmap_count(m), M); for (int i = 0; i < M / 2; ++i) CHECK(u_hmap_easy_get(m, K(i)), "lost", "key %d is gone before the map is full", i); for (int i = M; i < M + M / 2; ++i) { CHECK(u_hmap_easy_put(m, K(i), k) == 0, "put", "put %d", i); CHECK(u_hmap_count(m) == M, "count", "%zd of %d", u_hmap_count(m), M); }
    for (int i = 0; i < M + M / 2; ++i) { bool in = i >= M || (pcy == U_HMAP_PCY_FIFO ? i >= M / 2 : i < M / 2); const char *g = (const char *) u_hmap_easy_get(m, K(i)); CHECK(!!g == in && (!g || !strcmp(g, k)), "eviction", "policy %d of %d: key %d is %s", pcy, M, i, g ? "kept" : "gone"); } u_hmap_easy_free(m); } }
const Probe PROBES[] = { {"policies", p_policies}, {"large", p_large}, {0, 0} };
