#include "pw.h"
#include "sys.h"
/* snapshots: what is served after changes, failed reloads and failed allocations */
static const std::vector<Str> names () { return {"a", "b", "c", "dd", "e"}; }
static Str gtext (Rng &r, unsigned ver) { Str t; for (auto &u : names()) if (r.chance(2, 3)) { t += u + ":" + u + std::to_string(ver); if (r.chance(1, 2)) t += ":op" + std::to_string(ver); t += "\n"; if (r.chance(1, 6)) t += "# remark\n\nbroken\n"; } for (unsigned i = r.below(30); i; --i) t += h::fmt("x%u:y%u\n", i, ver); return t; }
static const Rec *find (const std::vector<Rec> &v, const Str &u) { const Rec *q = nullptr; for (auto &x : v) if (x.user == u) q = &x; return q; }
struct Held { u_pwd_rec_t *q; Rec w; };
struct W { u_pwd_t *p = nullptr; std::vector<Rec> served; bool loaded = false; std::vector<Held> held; Rng &r; explicit W (Rng &r_) : r(r_) {}

    void lookup (const std::vector<Rec> &want, bool any, bool faulty, const char *when)
    {
        std::vector<Str> ns = names(); Str u = ns[r.below(ns.size())]; const Rec *w = any ? find(want, u) : nullptr;
        if (r.chance(1, 2)) { Str pw = w && r.chance(2, 3) ? w->pass : u + std::to_string(r.below(6)); int rc = u_pwd_auth_user(p, u.c_str(), pw.c_str()); bool ok = w && w->pass == pw; if (!faulty) CHECK((rc == 0) == ok, "served", "%s, '%s' with '%s' gives %d (the content to be served has '%s')", when, u.c_str(), pw.c_str(), rc, w ? w->pass.c_str() : "no such user"); else CHECK(rc != 0 || ok, "served", "%s, '%s' with '%s' gets in", when, u.c_str(), pw.c_str()); }
        else { u_pwd_rec_t *q = nullptr; int rc = u_pwd_retr(p, u.c_str(), &q); if (!faulty) CHECK((rc == 0) == (w != nullptr), "served", "%s, the record of '%s' is %s", when, u.c_str(), rc ? "missing" : "there"); if (rc == 0) { CHECK(w && same_rec(q, *w), "served-record", "%s, the record of '%s' is %s:%s", when, u.c_str(), u_pwd_rec_get_user(q), u_pwd_rec_get_password(q)); held.push_back({q, *w}); } }
        h::cov("lookups"); release(false); }
    void release (bool all) { while (held.size() && (all || held.size() > 5 || r.chance(1, 3))) { size_t i = r.below(held.size()); CHECK(same_rec(held[i].q, held[i].w), "held-record", "a record held by the caller (of '%s') has changed", held[i].w.user.c_str()); u_pwd_rec_free(p, held[i].q); held.erase(held.begin() + i); h::cov("records-released"); } }
};
static void scripted (Rng &r)
{
    Src src; S = &src; W w(r); unsigned ver = 1; src.text = gtext(r, ver); src.stamp = 1000; bool notif = r.chance(4, 5); src.has_close = r.chance(5, 6); src.keep_nl = r.chance(4, 5);
    CHECK(u_pwd_init("the-source", s_open, s_load, src.has_close ? s_close : nullptr, notif ? s_notify : nullptr, nullptr, r.chance(1, 3) ? 20 : 0, 1, &w.p) == 0, "init", "init fails"); CHECK(src.opens == 0, "opened-early", "opened at once");
    bool pending = true; /* the source differs from the snapshot (or there is none) */
    unsigned ops = h::memcheck ? 15 : 20 + r.below(50);
    for (unsigned i = 0; i < ops; ++i) {
        unsigned k = r.below(10); h::sig(k);
        if (k == 0) { ++ver; src.text = gtext(r, ver); if (notif) { src.stamp = r.chance(1, 5) ? 100000 - (time_t) ver * 3 : 100000 + (time_t) ver * 2; pending = true; } else if (!w.loaded) pending = true; h::tr("change to %u", ver); h::cov("changes"); if (notif && !w.loaded) pending = true; if (!notif) pending = !w.loaded; }
        else if (k == 1 && notif && w.loaded && !pending) { Str old = src.text; src.text = gtext(r, 99); for (int j = 0; j < 3; ++j) w.lookup(w.served, true, false, "while no change is reported"); src.text = old; h::cov("unreported-changes"); }
        else if (k == 2) { src.open_fails = true; w.lookup(w.served, w.loaded, false, "while the source cannot be opened"); src.open_fails = false; h::tr("open fails"); h::cov("failed-reloads", pending); }
        else if (k == 3) { std::vector<Rec> now = read_pw(src.text); unsigned nop = src.opens; h::mem::arm((long) r.below(40), r.chance(1, 3)); bool was = pending;
            std::vector<Str> ns = names(); Str u = ns[r.below(ns.size())]; u_pwd_rec_t *q = nullptr; u64 nf = h::mem::n_failed; int rc = u_pwd_retr(w.p, u.c_str(), &q); h::mem::disarm(); bool hit = h::mem::n_failed != nf; const Rec *a = find(now, u), *b = w.loaded ? find(w.served, u) : nullptr; const Rec *m = nullptr;
            if (rc == 0) { m = was && a && same_rec(q, *a) ? a : b && same_rec(q, *b) ? b : nullptr; CHECK(m, "served-record", "out of memory, the record of '%s' is one of neither content", u.c_str()); w.held.push_back({q, *m}); }
            h::tr("oom hit=%d rc=%d", hit, rc); h::cov("lookups-out-of-memory", hit);
            if (!hit) { CHECK((rc == 0) == ((was ? a : b) != nullptr), "served", "lookup of '%s' gives %d", u.c_str(), rc); if (was) { w.served = now; w.loaded = true; pending = false; } }
            else if (was) { /* whether the reload was completed shows in the source being asked for again */ unsigned o2 = src.opens; (void) nop; (void) o2; std::vector<Rec> before = w.served; bool hb = w.loaded; src.open_fails = true; /* serve what there is now */
                bool isnew = true, isold = true; for (auto &x : ns) { u_pwd_rec_t *g = nullptr; int c = u_pwd_retr(w.p, x.c_str(), &g); const Rec *na = find(now, x), *ob = hb ? find(before, x) : nullptr; if (!((c == 0) == (na != nullptr) && (c || same_rec(g, *na)))) isnew = false; if (!((c == 0) == (ob != nullptr) && (c || same_rec(g, *ob)))) isold = false; if (c == 0) u_pwd_rec_free(w.p, g); } src.open_fails = false;
                CHECK(isnew || isold, "served-mixed", "after a reload that ran out of memory neither the old nor the new content is served"); if (!isold) { w.served = now; w.loaded = true; pending = false; } h::cov("reloads-out-of-memory"); } }
        else { std::vector<Rec> now = read_pw(src.text); if (pending) { w.lookup(now, true, false, "after a reported change"); w.served = now; w.loaded = true; pending = false; h::cov("reloads"); } else { unsigned o = src.opens; w.lookup(w.served, true, false, "between changes"); CHECK(src.opens == o || !notif, "needless-reload", "the source is opened though no change was reported"); } } }
    w.release(true); if (r.chance(1, 4) && w.p) u_pwd_in_memory(w.p); u_pwd_term(w.p); if (src.has_close) CHECK(src.opens == src.closes, "source-left-open", "the source was opened %u times and closed %u times", src.opens, src.closes);
}
/* the file specialisation, with the change time and failures supplied at the system call boundary */
static time_t CT = 1000; static int read_fail = -1, open_fail = 0, stat_fail = 0; static unsigned reads = 0; static int pwfd = -1; static const char *pwpath;
static bool hook (int nr, long *a, long *ret)
{
    if (nr == SYS_newfstatat && a[1] && !strcmp((const char *) a[1], pwpath)) { if (stat_fail) { *ret = -EACCES; return true; } *ret = h::sys::raw(nr, a[0], a[1], a[2], a[3]); if (*ret == 0) ((struct stat *) a[2])->st_ctime = CT; return true; }
    if (nr == SYS_openat && a[1] && !strcmp((const char *) a[1], pwpath)) { if (open_fail) { *ret = -EMFILE; return true; } *ret = h::sys::raw(nr, a[0], a[1], a[2], a[3]); pwfd = *ret; reads = 0; return true; }
    if (nr == SYS_read && a[0] == pwfd && pwfd >= 0) { if (read_fail >= 0 && (int) reads++ >= read_fail) { *ret = -EIO; return true; } if (a[2] > 200) a[2] = 200; *ret = h::sys::raw(nr, a[0], a[1], a[2]); return true; }
    return false;
}
static void on_file (Rng &r)
{
    static Str path; if (path.empty()) { path = h::scratch() + "/pw"; pwpath = path.c_str(); h::sys::install({SYS_newfstatat, SYS_openat, SYS_read, SYS_close}); }
    W w(r); auto fds = h::fds(); unsigned ver = 1; CT = 1000 + r.below(1000); Str cur = gtext(r, ver); h::put_file(path, cur); CHECK(u_pwd_init_file(path.c_str(), nullptr, r.chance(1, 3) ? 20 : 0, 1, &w.p) == 0, "init", "init fails"); bool pending = true; read_fail = -1; open_fail = stat_fail = 0; pwfd = -1;
    h::sys::start(hook); unsigned ops = 10 + r.below(25);
    for (unsigned i = 0; i < ops; ++i) { unsigned k = r.below(9); h::sig(100 + k);
        if (k == 0) { h::sys::on = false; cur = gtext(r, ++ver); h::put_file(path, cur); h::sys::on = true; CT = r.chance(1, 4) ? 100000 - (time_t) ver * 3 : 100000 + (time_t) ver * 2; pending = true; h::cov("changes"); }
        else if (k == 1) { open_fail = 1; w.lookup(w.served, w.loaded, false, "while the file cannot be opened"); open_fail = 0; if (pending) h::cov("failed-reloads"); }
        else if (k == 2) { std::vector<Rec> now = read_pw(cur); if (pending) { unsigned chunks = (cur.size() + 199) / 200; read_fail = r.below(chunks + 1); w.lookup(w.served, w.loaded, false, "after a read error during the reload"); read_fail = -1; h::cov("failed-reloads"); } (void) now; }
        else if (k == 3 && w.loaded) { stat_fail = 1; w.lookup(w.served, true, false, "while the file cannot be examined"); stat_fail = 0; }
        else { std::vector<Rec> now = read_pw(cur); if (pending) { w.lookup(now, true, false, "after a change"); w.served = now; w.loaded = true; pending = false; h::cov("reloads"); } else w.lookup(w.served, true, false, "between changes"); } }
    h::sys::stop(); w.release(true); u_pwd_term(w.p); h::expect_fds(fds, "closing the snapshot");
}
static const bool lowfd = h::low_fd = true;
void run_case (Rng &r, u64 n) { if (n % 3 == 2 && !h::memcheck) on_file(r); else scripted(r); }
static void p_large () { Src src; S = &src; const int N = 20000; auto text = [&] (int ver) { Str t; for (int i = 0; i < N; ++i) if ((i + ver) % 3) t += "u" + std::to_string(i) + ":" + std::to_string(i * ver) + "\n"; return t; }; src.text = text(1); src.stamp = 1000; src.has_close = true; u_pwd_t *p = nullptr; CHECK(u_pwd_init("the-source", s_open, s_load, s_close, s_notify, nullptr, 0, 1, &p) == 0, "init", "init"); for (int ver = 1; ver < 5; ++ver) { if (ver > 1) { src.text = text(ver); src.stamp += 10; } for (int i = 0; i < N; i += i < 9990 || i > 10010 ? 37 : 1) { Str u = "u" + std::to_string(i); bool in = (i + ver) % 3; CHECK((u_pwd_auth_user(p, u.c_str(), std::to_string(i * ver).c_str()) == 0) == in, "served", "version %d: '%s' is %s", ver, u.c_str(), in ? "refused" : "let in"); if (in && i) CHECK(u_pwd_auth_user(p, u.c_str(), std::to_string(i * (ver + 1)).c_str()) != 0, "served", "version %d: '%s' gets in with a password of another version", ver, u.c_str()); } CHECK(src.opens == (unsigned) ver && src.closes == src.opens, "source-left-open", "%u opens for %d versions", src.opens, ver); } u_pwd_term(p); }
const Probe PROBES[] = { {"large", p_large}, {0, 0} };
