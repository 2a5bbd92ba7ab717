#include "hm.h"
void run_case (Rng &r, u64 n) { history(r, n, 7); }
static void p_release () { Rng r(9); for (u64 n = 0; n < 48; ++n) for (int own = 0; own < 2; ++own) { configure(r, n, n % 3 == 0 ? 8 : 6); if (!G.easy) { G.owns = own; if (!own) G.f_free = false; } G.overwrite = n & 4; keys(r, 30); HM M(r); for (int j = 0; j < 3; ++j) { for (int i = 0; i < 20; ++i) M.put(i); for (int i = 0; i < 20; ++i) M.put(i); for (int i = 5; i < 25; ++i) M.del(i); for (int i = 0; i < 30; ++i) M.put(i); if (j == 1) M.clear(); } M.end(); } }
static std::vector<char> large_rel; static void large_free (void *p) { size_t i = (size_t) p; CHECK(i < large_rel.size(), "value-release", "an unknown value is released"); CHECK(!large_rel[i], "value-release", "value %zu is released twice", i); large_rel[i] = 1; }
static void p_large () { for (auto type : {U_HMAP_TYPE_CHAIN, U_HMAP_TYPE_LINEAR}) { u_hmap_opts_t *o; u_hmap_t *m = nullptr; CHECK(u_hmap_opts_new(&o) == 0 && u_hmap_opts_set_type(o, type) == 0 && u_hmap_opts_set_val_type(o, U_HMAP_OPTS_DATATYPE_POINTER) == 0 && u_hmap_opts_set_val_freefunc(o, large_free) == 0 && u_hmap_opts_unset_option(o, U_HMAP_OPTS_NO_OVERWRITE) == 0 && u_hmap_easy_new(o, &m) == 0, "new", "no map"); u_hmap_opts_free(o); const size_t N = 40000; large_rel.assign(3 * N + 1, 0); char k[16]; auto K = [&] (size_t i) { snprintf(k, 16, "k%zu", i); return k; }; auto chk = [&] (std::function<bool (size_t)> gone, const char *after) { for (size_t i = 1; i <= 3 * N; ++i) CHECK(large_rel[i] == (gone(i) ? 1 : 0), "value-release", "after %s value %zu is %s", after, i, large_rel[i] ? "released" : "not released"); };
    for (size_t i = 0; i < N; ++i) CHECK(u_hmap_easy_put(m, K(i), (void *) (i + 1)) == 0, "put", "put"); chk([] (size_t) { return false; }, "the puts"); for (size_t i = 0; i < N; i += 2) CHECK(u_hmap_easy_put(m, K(i), (void *) (N + i + 1)) == 0, "put", "overwrite"); chk([&] (size_t i) { return i <= N && i % 2; }, "overwriting half"); for (size_t i = 0; i < N; i += 5) CHECK(u_hmap_easy_del(m, K(i)) == 0, "del", "del"); chk([&] (size_t i) { if (i > 2 * N) return false; size_t k = i > N ? i - N - 1 : i - 1; return i <= N ? k % 2 == 0 || k % 5 == 0 : k % 2 == 0 && k % 5 == 0; }, "deleting a fifth"); u_hmap_easy_free(m); chk([&] (size_t i) { return i <= N || (i <= 2 * N && (i - N - 1) % 2 == 0); }, "freeing the map"); } }
const Probe PROBES[] = { {"release", p_release}, {"large", p_large}, {0, 0} };
