#include "h.h"
/* priority queues vs an ideal bag */
void run_case (Rng &r, u64 n)
{
    size_t cap = r.chance(1, 3) ? 2 + r.below(3) : r.chance(1, 4) ? 2 + r.below(300) : 2 + r.below(20); u_pq_t *q = nullptr; CHECK(u_pq_create(cap, &q) == 0 && q, "create", "create of %zu failed", cap);
    std::multimap<double, intptr_t> m; std::map<intptr_t, double> prio; intptr_t id = 1; unsigned style = r.below(5); unsigned ops = h::memcheck ? 60 : cap > 50 ? 900 : 120; unsigned bias = 4 + r.below(9); double seq = 0; h::sig(h::szclass(cap)); h::sig(style);
    auto key = [&] () -> double { switch (style) { case 0: return r.below(4); case 1: return seq++; case 2: return -(seq++); case 3: { static const double sp[] = {0.0, -0.0, 1e308, -1e308, 5e-324, -5e-324, INFINITY, -INFINITY, 1.0, 1.0 + 2.3e-16, -1}; return sp[r.below(11)]; } default: return (double) (int64_t) r.next() / 1e3; } };
    auto check_max = [&] (intptr_t v, double k, const char *what) { auto x = prio.find(v); CHECK(x != prio.end(), "unknown-item", "%s returned item %ld, which is not in the queue", what, (long) v); CHECK(x->second == k, "priority", "%s returned item %ld with priority %g, it was pushed with %g", what, (long) v, k, x->second); CHECK(k == m.rbegin()->first, "not-greatest", "%s returned priority %g while %g is present", what, k, m.rbegin()->first); };
    for (unsigned o = 0; o < ops; ++o) { unsigned k = r.below(16);
        if (k < bias) { double p = key(); h::tr("push %g", p); int rc = u_pq_push(q, p, (void *) id); if (m.size() == cap) { CHECK(rc != 0, "push-full", "a push on a full queue of %zu was accepted", cap); h::cov("pushes-refused"); } else { CHECK(rc == 0, "push", "a push on %zu of %zu failed", m.size(), cap); m.insert({p, id}); prio[id] = p; ++id; h::cov("pushes"); } h::sig(m.size() == cap); }
        else if (k < 14) { h::tr("delmax"); double kk = 12345.5; bool want = r.chance(4, 5); intptr_t v = (intptr_t) u_pq_delmax(q, want ? &kk : nullptr);
            if (m.empty()) { CHECK(v == 0 && kk == 12345.5, "del-empty", "a removal from an empty queue returned something"); h::cov("removals-refused"); }
            else { if (!want) { CHECK(prio.count(v), "unknown-item", "removal returned item %ld, not in the queue", (long) v); kk = prio[v]; } check_max(v, kk, "removal"); auto e = m.equal_range(prio[v]); for (auto i = e.first; i != e.second; ++i) if (i->second == v) { m.erase(i); break; } prio.erase(v); h::cov("removals"); } h::sig(m.empty() + 2); }
        else if (!m.empty()) { double kk = 0; intptr_t v = (intptr_t) u_pq_peekmax(q, &kk); check_max(v, kk, "peek"); CHECK((intptr_t) u_pq_peekmax(q, nullptr) == v, "peek-repeat", "two peeks differ"); h::cov("peeks"); }
        CHECK((u_pq_empty(q) != 0) == m.empty(), "empty", "empty says %d with %zu items", u_pq_empty(q), m.size()); CHECK((u_pq_full(q) != 0) == (m.size() == cap), "full", "full says %d with %zu of %zu items", u_pq_full(q), m.size(), cap); }
    while (!m.empty()) { double kk; intptr_t v = (intptr_t) u_pq_delmax(q, &kk); check_max(v, kk, "draining"); auto e = m.equal_range(prio[v]); for (auto i = e.first; i != e.second; ++i) if (i->second == v) { m.erase(i); break; } prio.erase(v); }
    CHECK(u_pq_empty(q) && u_pq_delmax(q, nullptr) == nullptr, "empty", "the drained queue is not empty"); u_pq_free(q);
}
static void p_perms () { /* all push orders of up to 7 distinct and of repeated priorities */
    for (int kind = 0; kind < 2; ++kind) for (size_t n = 2; n <= 7; ++n) { std::vector<int> p; for (size_t i = 0; i < n; ++i) p.push_back(kind ? i / 2 : i); do { u_pq_t *q; u_pq_create(n, &q); std::multiset<std::pair<int, intptr_t>> in, out; for (size_t i = 0; i < n; ++i) { CHECK(u_pq_push(q, p[i], (void *) (intptr_t) (i + 1)) == 0, "push", "x"); in.insert({p[i], (intptr_t) i + 1}); } CHECK(u_pq_push(q, 99, (void *) 99) != 0, "push-full", "x"); double last = 1e9; for (size_t i = 0; i < n; ++i) { double k; intptr_t v = (intptr_t) u_pq_delmax(q, &k); CHECK(k <= last, "not-greatest", "order broken"); last = k; out.insert({(int) k, v}); } CHECK(in == out, "unknown-item", "items lost or repeated"); u_pq_free(q); } while (std::next_permutation(p.begin(), p.end())); } }
static void p_create () { u_pq_t *q = nullptr; CHECK(u_pq_create((size_t) -1, &q) != 0 && !q, "huge-create", "x"); CHECK(u_pq_create((size_t) -1 / 8, &q) != 0 && !q, "huge-create", "x"); CHECK(u_pq_create((size_t) 1 << 60, &q) != 0 && !q, "huge-create", "x"); }
static void p_large () { Rng r(17); for (size_t cap : {1025, 4097, 32769, 65536, 65537, 150000}) for (int style = 0; style < 3; ++style) { u_pq_t *q = nullptr; CHECK(u_pq_create(cap, &q) == 0, "create", "create of %zu", cap); std::vector<double> pr(1, 0); for (size_t i = 0; i < cap; ++i) { double p = style == 0 ? (double) r.below(1u << 30) : style == 1 ? (double) i : (double) r.below(50); pr.push_back(p); CHECK(u_pq_push(q, p, (void *) (intptr_t) (i + 1)) == 0, "push", "push %zu of %zu", i, cap); } CHECK(u_pq_full(q) && u_pq_push(q, 1, (void *) 1) != 0, "push-full", "a push on a full queue of %zu", cap); double last = INFINITY, k; std::vector<char> seen(cap + 1); for (size_t i = 0; i < cap; ++i) { intptr_t v = (intptr_t) u_pq_delmax(q, &k); CHECK(v > 0 && v <= (intptr_t) cap && !seen[v], "unknown-item", "removal %zu of %zu gives item %ld", i, cap, (long) v); seen[v] = 1; CHECK(k == pr[v], "priority", "item %ld has %g, pushed with %g", (long) v, k, pr[v]); CHECK(k <= last, "not-greatest", "removal %zu of %zu gives %g after %g", i, cap, k, last); last = k; } CHECK(u_pq_empty(q) && !u_pq_delmax(q, nullptr), "empty", "the drained queue is not empty"); u_pq_free(q); } }
const Probe PROBES[] = { {"push-orders", p_perms}, {"huge-create", p_create}, {"large", p_large}, {0, 0} };
