#include "h.h"
/* lists vs an ideal sequence */
typedef std::vector<void *> Seq;
static void audit (u_list_t *l, const Seq &m, const char *after, bool deep)
{
    CHECK(u_list_count(l) == m.size(), "count", "after %s the list counts %zu items, expected %zu", after, u_list_count(l), m.size());
    if (!deep) return;
    for (size_t i = 0; i < m.size(); ++i) CHECK(u_list_get_n(l, i) == m[i], "position", "after %s item %zu of %zu is %p, expected %p", after, i, m.size(), u_list_get_n(l, i), m[i]);
    CHECK(u_list_get_n(l, m.size()) == nullptr && u_list_get_n(l, m.size() + 1) == nullptr && u_list_get_n(l, (size_t) -1) == nullptr, "beyond", "after %s a position beyond the end returns an item", after);
    size_t i = 0; void *it, *p;
    /* iteration stops at a NULL item by design */
    size_t stop = 0; while (stop < m.size() && m[stop]) ++stop;
    u_list_foreach (l, p, it) { CHECK(i < stop && m[i] == p, "iteration", "after %s iteration step %zu gives %p", after, i, p); ++i; }
    CHECK(i == stop, "iteration-count", "after %s iteration visited %zu items of %zu", after, i, stop);
    size_t c = 0, k = 0; u_list_iforeach (l, p, it, c) { CHECK(c == k && m[k] == p, "iforeach", "after %s step %zu has counter %zu", after, k, c); ++k; }
    CHECK(k == stop && c == stop, "iforeach-count", "after %s counted iteration ended at %zu/%zu", after, k, c);
    CHECK(u_list_first(l, nullptr) == (m.empty() ? nullptr : m[0]), "first", "after %s the first item differs", after);
}
void run_case (Rng &r, u64 n)
{
    static char pool[64]; u_list_t *l = nullptr; Seq m;
    CHECK(u_list_create(&l) == 0 && l, "create", "create failed"); audit(l, m, "create", true);
    unsigned ops = h::memcheck ? 30 : r.chance(1, 10) ? 200 : 40; unsigned uni = r.chance(1, 2) ? 5 : 60; bool nulls = r.chance(1, 6);
    for (unsigned o = 0; o < ops; ++o) {
        unsigned k = r.below(20); void *v = nulls && r.chance(1, 6) ? nullptr : pool + r.below(uni); const char *what = "?"; int rc;
        if (k < 5) { what = "add"; h::tr("add %ld", v ? (char *) v - pool : -1L); CHECK(u_list_add(l, v) == 0, "add", "add failed"); m.push_back(v); }
        else if (k < 10) { size_t at = r.chance(1, 3) ? r.below(3) : r.chance(1, 6) ? m.size() + r.below(3) : r.below(m.size() + 1); what = "insert"; h::tr("insert %ld at %zu", v ? (char *) v - pool : -1L, at); rc = u_list_insert(l, v, at);
            if (at <= m.size()) { CHECK(rc == 0, "insert", "insert at %zu of %zu failed", at, m.size()); m.insert(m.begin() + at, v); } else CHECK(rc != 0, "insert-beyond", "insert at %zu of %zu succeeded", at, m.size()); }
        else if (k < 13) { what = "delete by value"; h::tr("del %ld", v ? (char *) v - pool : -1L); rc = u_list_del(l, v); auto i = std::find(m.begin(), m.end(), v);
            CHECK((rc == 0) == (i != m.end()), "del-verdict", "delete of an item %s returned %d", i != m.end() ? "present" : "absent", rc); if (i != m.end()) m.erase(i); else h::cov("deletes-of-absent"); }
        else if (k < 16) { size_t at = r.chance(1, 4) ? m.size() + r.below(2) : r.below(m.size() + 1); what = "delete at"; h::tr("del_n %zu", at); void *out = pool + 63; bool want = r.chance(3, 4); rc = u_list_del_n(l, at, want ? &out : nullptr);
            if (at < m.size()) { CHECK(rc == 0, "del-at", "delete at %zu of %zu failed", at, m.size()); if (want) CHECK(out == m[at], "del-at-item", "delete at %zu handed out another item", at); m.erase(m.begin() + at); }
            else { CHECK(rc != 0, "del-at-beyond", "delete at %zu of %zu succeeded", at, m.size()); CHECK(out == pool + 63, "del-at-touched", "failed delete wrote the result"); } }
        else if (k < 17) { what = "clear"; if (r.chance(1, 2)) { h::tr("clear"); CHECK(u_list_clear(l) == 0, "clear", "clear failed"); m.clear(); } }
        else { what = "deleting while iterating"; void *it, *p; u64 mask = r.next(); h::tr("iterate-delete %llx", (unsigned long long) mask); size_t stop = 0; while (stop < m.size() && m[stop]) ++stop;
            Seq w; size_t i = 0; bool byval = true; { std::set<void *> s(m.begin(), m.end()); byval = s.size() == m.size(); }
            if (byval) { u_list_foreach (l, p, it) { CHECK(i < stop && p == m[i], "iteration", "iteration with deletions step %zu is wrong", i); if (mask >> (i % 64) & 1) CHECK(u_list_del(l, p) == 0, "iter-del", "deleting the visited item failed"); else w.push_back(p); ++i; }
                CHECK(i == stop, "iteration-count", "iteration with deletions visited %zu of %zu", i, stop); for (; i < m.size(); ++i) w.push_back(m[i]); m = w; h::cov("iterations-with-deletion"); } }
        audit(l, m, what, r.chance(1, 3) || o + 1 == ops); h::cov("operations"); h::sig(k); h::sig(std::min<size_t>(m.size(), 4));
    }
    u_list_free(l); h::cov("histories");
}
static void p_refill () { u_list_t *l; char a[40]; Seq m; u_list_create(&l); for (int round = 0; round < 5; ++round) { for (int i = 0; i < 40; ++i) { u_list_add(l, a + i); m.push_back(a + i); } audit(l, m, "filling", true); u_list_clear(l); m.clear(); audit(l, m, "clear", true); u_list_insert(l, a, 0); m.push_back(a); audit(l, m, "insert after clear", true); u_list_clear(l); u_list_clear(l); m.clear(); } u_list_free(l); }
static void p_empty () { u_list_t *l; void *it = (void *) 1, *o = (void *) 5; u_list_create(&l); CHECK(u_list_first(l, &it) == nullptr && it == nullptr && u_list_next(l, &it) == nullptr, "empty-iteration", "an empty list yields items"); CHECK(u_list_del(l, &it) != 0 && u_list_del_n(l, 0, &o) != 0 && o == (void *) 5, "empty-delete", "delete from an empty list succeeded"); CHECK(u_list_insert(l, l, 1) != 0 && u_list_count(l) == 0, "empty-insert", "x"); CHECK(u_list_clear(l) == 0, "empty-clear", "x"); u_list_free(l); u_list_free(nullptr); }
static void p_large () { Rng r(15); static char pool[70000]; u_list_t *l; Seq m; u_list_create(&l); for (int i = 0; i < 70000; ++i) { CHECK(u_list_add(l, pool + i) == 0, "add", "add"); m.push_back(pool + i); if ((i & (i + 1)) == 0 || i % 10000 == 0) CHECK(u_list_count(l) == m.size(), "count", "%zu", u_list_count(l)); }
    auto walk = [&] (const char *after) { CHECK(u_list_count(l) == m.size(), "count", "after %s %zu items are counted, expected %zu", after, u_list_count(l), m.size()); size_t i = 0, c = 0; void *p, *it; u_list_foreach (l, p, it) { CHECK(i < m.size() && m[i] == p, "iteration", "after %s step %zu", after, i); ++i; } CHECK(i == m.size(), "iteration-count", "after %s %zu of %zu visited", after, i, m.size()); u_list_iforeach (l, p, it, c) {} CHECK(c == m.size(), "iforeach-count", "after %s the counter ends at %zu of %zu", after, c, m.size()); for (int k = 0; k < 40; ++k) { size_t at = k ? r.below(m.size()) : m.size() - 1; CHECK(u_list_get_n(l, at) == m[at], "position", "after %s item %zu of %zu", after, at, m.size()); } CHECK(!u_list_get_n(l, m.size()), "beyond", "after %s", after); };
    walk("70000 additions"); for (int k = 0; k < 120; ++k) { size_t at = r.chance(1, 3) ? m.size() - r.below(3) : r.below(m.size() + 1); if (k % 2) { if (at >= m.size()) at = m.size() - 1; void *o = nullptr; CHECK(u_list_del_n(l, at, &o) == 0 && o == m[at], "del-at-item", "delete at %zu of %zu", at, m.size()); m.erase(m.begin() + at); } else { void *v = pool + r.below(70000); CHECK(u_list_insert(l, v, at) == 0, "insert", "insert at %zu of %zu", at, m.size()); m.insert(m.begin() + at, v); } if (k % 3 == 0) { void *v = m[r.below(m.size())]; CHECK(u_list_del(l, v) == 0, "del-verdict", "delete of a present item"); m.erase(std::find(m.begin(), m.end(), v)); } CHECK(u_list_count(l) == m.size(), "count", "%zu", u_list_count(l)); } walk("random edits"); CHECK(u_list_clear(l) == 0 && u_list_count(l) == 0 && !u_list_get_n(l, 0), "clear", "clear"); u_list_add(l, pool); CHECK(u_list_get_n(l, 0) == pool, "position", "after clear"); u_list_free(l); }
const Probe PROBES[] = { {"refill-after-clear", p_refill}, {"empty", p_empty}, {"large", p_large}, {0, 0} };
