#include "h.h"
/* the intrusive queue macros (Q01.d) against ideal sequences; an item may be in one queue of each kind at the same time */
struct item;
extern "C" { struct item *q_item (int); struct item *q_item_null (int); void *q_head (int, int); void q_do (int, int, void *, struct item *, struct item *); int q_empty (int, void *); int q_walk (int, int, void *, int *, int); int q_walk_safe (int, int, void *, int *, int, int (*) (struct item *)); int q_id (const struct item *); }
enum { HEAD, TAIL, AFTER, BEFORE, REMOVE, REPLACE }; static const char *OP[] = {"insert-head", "insert-tail", "insert-after", "insert-before", "remove", "replace"}, *KIND[] = {"list", "tail queue", "circle queue"};
static std::map<int, item *> live; static std::map<int, int> where[3]; /* item -> queue number, per kind */ static std::set<int> victims; static int w_kind;
static bool elsewhere (int id, int kind) { for (int k = 0; k < 3; ++k) if (k != kind && where[k].count(id)) return true; return false; }
static int take (item *i) { int id = q_id(i); if (!victims.count(id)) return 0; return elsewhere(id, w_kind) ? 1 : 2; }
static void verify (int kind, void *head, const std::vector<int> &m)
{   CHECK(!!q_empty(kind, head) == m.empty(), "queue-empty", "%s of %zu items says empty=%d", KIND[kind], m.size(), q_empty(kind, head));
    for (int mode = 0; mode < 4; ++mode) { int ids[64]; int n = q_walk(kind, mode, head, ids, 63); if (n < 0) continue; CHECK(n == (int) m.size(), "queue-walk", "%s of %zu items: walk %d sees %d", KIND[kind], m.size(), mode, n); for (int i = 0; i < n; ++i) CHECK(ids[i] == (mode < 2 ? m[i] : m[n - 1 - i]), "queue-walk", "%s: walk %d sees item %d at place %d, expected %d", KIND[kind], mode, ids[i], i, mode < 2 ? m[i] : m[n - 1 - i]); h::cov("walks"); } }
void run_case (Rng &r, u64 n)
{   live.clear(); for (auto &w : where) w.clear(); void *head[3][2]; std::vector<int> m[3][2]; for (int k = 0; k < 3; ++k) for (int q = 0; q < 2; ++q) { head[k][q] = q_head(k, r.below(2)); verify(k, head[k][q], m[k][q]); } int next = 1; unsigned pool = 3 + r.below(12); int only = n % 4 < 3 ? (int) (n % 4) : -1; h::sig(only + 1);
    unsigned ops = r.chance(1, 8) ? 150 : 5 + r.below(40);
    for (unsigned o = 0; o < ops; ++o) { int k = only >= 0 ? only : (int) r.below(3), q = r.below(2); auto &v = m[k][q]; int op = r.below(6); if (k == 0 && op == TAIL) op = HEAD; if (k != 0 && op == REPLACE) op = r.below(2); if (v.empty() && (op == AFTER || op == BEFORE || op == REMOVE || op == REPLACE)) op = HEAD;
        if (r.chance(1, 12) && !v.empty()) { bool back = k == 1 && r.chance(1, 2); victims.clear(); w_kind = k; for (int id : v) if (r.chance(1, 2)) victims.insert(id); int ids[64]; std::vector<int> was = v; int c = q_walk_safe(k, back, head[k][q], ids, 63, take); if (c >= 0) { h::tr("%s %d: take %zu of %zu out while walking%s", KIND[k], q, victims.size(), was.size(), back ? " backwards" : ""); h::sig(90 + back); h::cov("removing-walks"); CHECK(c == (int) was.size(), "queue-safe-walk", "%s of %zu items: walk with removal sees %d", KIND[k], was.size(), c); for (int i = 0; i < c; ++i) CHECK(ids[i] == (back ? was[c - 1 - i] : was[i]), "queue-safe-walk", "%s: walk with removal sees item %d at place %d", KIND[k], ids[i], i);
                v.clear(); for (int id : was) if (!victims.count(id)) v.push_back(id); else { where[k].erase(id); if (!elsewhere(id, k)) live.erase(id); } verify(k, head[k][q], v); continue; } }
        size_t at = v.empty() ? 0 : r.below(v.size()); if (r.chance(1, 3)) at = r.chance(1, 2) || v.empty() ? 0 : v.size() - 1; h::sig(k * 8 + op); h::sig(v.size()); h::sig(at == 0 ? 0 : at + 1 == v.size() ? 1 : 2); h::cov(OP[op]);
        if (op == REMOVE) { int id = v[at]; item *i = live[id]; h::tr("%s %d: remove item %d at %zu of %zu", KIND[k], q, id, at, v.size()); q_do(k, op, head[k][q], i, nullptr); v.erase(v.begin() + at); where[k].erase(id); if (!elsewhere(id, k) && r.chance(2, 3)) { free(i); live.erase(id); } }
        else { int id = 0; if (r.chance(1, 2)) for (auto &l : live) if (!where[k].count(l.first)) { id = l.first; break; } if (!id) { if (live.size() >= pool) continue; id = next++; live[id] = r.chance(1, 4) ? q_item_null(id) : q_item(id); CHECK(live[id] != nullptr, "queue-null", "the empty entry is not empty"); }
            h::tr("%s %d: %s item %d at %zu of %zu", KIND[k], q, OP[op], id, at, v.size()); item *i = live[id], *b = v.empty() ? nullptr : live[v[at]]; q_do(k, op, head[k][q], i, b); where[k][id] = q;
            switch (op) { case HEAD: v.insert(v.begin(), id); break; case TAIL: v.push_back(id); break; case AFTER: v.insert(v.begin() + at + 1, id); break; case BEFORE: v.insert(v.begin() + at, id); break; case REPLACE: { int old = v[at]; v[at] = id; where[k].erase(old); if (!elsewhere(old, k)) { free(b); live.erase(old); } } } }
        for (int j = 0; j < 2; ++j) verify(k, head[k][j], m[k][j]); }
    for (int k = 0; k < 3; ++k) for (int q = 0; q < 2; ++q) verify(k, head[k][q], m[k][q]);
    for (auto &l : live) free(l.second); for (auto &a : head) for (auto &b : a) free(b); }
const Probe PROBES[] = {{nullptr, nullptr}};
