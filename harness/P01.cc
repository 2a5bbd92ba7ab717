#include "pw.h"
/* who is let in, over every way of reading the password file */
static void query (u_pwd_t *p, const std::vector<Rec> &recs, bool mem, bool hash, const Str &u, const Str &pw, const std::vector<Rec> &maybe, bool exact_dups)
{
    std::vector<const Rec *> m; bool edge = false; for (auto &x : recs) if (x.user == u) m.push_back(&x); for (auto &x : maybe) if (x.user == u) edge = true;
    h::Exact eu(u), ep(pw); Str sec = hash ? toy_hash(pw) : pw;
    int rc = u_pwd_auth_user(p, eu.p, ep.p); bool any = false; for (auto *x : m) if (x->pass == sec) any = true;
    if (rc == 0 && !edge) CHECK(any, m.empty() ? "let-in-unknown" : "let-in-wrong", "'%s' gets in with '%s' (%zu records of that name)", h::esc(u).c_str(), h::esc(pw).c_str(), m.size());
    if (m.size() == 1 && !edge) { CHECK((rc == 0) == any, "kept-out", "'%s' with '%s' is refused though on file", h::esc(u).c_str(), h::esc(pw).c_str()); h::cov(any ? "let-in" : "kept-out"); }
    if (m.empty()) h::cov("unknown-user-refused");
    if (m.size() > 1 && !edge && exact_dups) { h::cov("duplicate-names"); if (m.size() > 0) { bool all = true; for (auto *x : m) if (x->pass != sec) all = false; if (all) CHECK(rc == 0, "kept-out-dup", "'%s' with '%s' is refused though on file several times", h::esc(u).c_str(), h::esc(pw).c_str()); } }
    u_pwd_rec_t *q = nullptr; rc = u_pwd_retr(p, eu.p, &q);
    if (!edge) { CHECK((rc == 0) == !m.empty(), "retrieve", "retrieving '%s' returns %d with %zu records of that name", h::esc(u).c_str(), rc, m.size()); if (rc == 0) { bool one = false; for (auto *x : m) if (same_rec(q, *x)) one = true; CHECK(q && one, "record", "the record of '%s' is not the one on file", h::esc(u).c_str()); h::cov("records-compared"); } }
    if (rc == 0 && q) u_pwd_rec_free(p, q); (void) mem;
}
static const bool lowfd = h::low_fd = true;
void run_case (Rng &r, u64 n)
{
    bool hash = r.chance(1, 3), dups = r.chance(1, 8); HL = hash ? 1 + r.below(40) : 8; size_t HL0 = r.chance(1, 3) ? 1 + r.below(40) : 0;
    Gen g = gpw(r, [&] (const Str &p) { return hash ? toy_hash(p) : p; }, dups);
    if (r.chance(1, 10)) g.text = r.bytes(r.size({255, 256, 512}, 900)); if (r.chance(1, 10)) { for (unsigned k = 1 + r.below(8); k && g.text.size(); --k) g.text[r.below(g.text.size())] = r.chance(1, 2) ? r.ch(":\n#") : (char) r.below(256); }
    std::vector<Rec> maybe, recs = read_pw(g.text, &maybe); h::tr("hash=%d file '%s'", hash, h::esc(g.text, 200).c_str());
    auto fds = h::fds(); Str path = h::scratch() + "/passwd"; h::put_file(path, g.text); Src src; S = &src;
    bool fg = g.text.find('\0') == Str::npos; src.text = g.text;
    std::vector<std::pair<Str, Str>> qs; for (size_t i = 0; i < g.users.size() && i < 60; ++i) { size_t k = g.users.size() > 60 ? r.below(g.users.size()) : i; qs.push_back({g.users[k], g.passes[k]}); }
    unsigned m = qs.size(); for (unsigned i = 0; i < m && i < 20; ++i) { auto x = qs[r.below(m)]; switch (r.below(9)) { case 0: x.second += "x"; break; case 1: if (x.second.size()) x.second.pop_back(); break; case 2: x.second = ""; break; case 3: x.second = qs[r.below(m)].second; break; case 4: x.first += ":"; break; case 5: if (x.first.size()) x.first.pop_back(); break; case 6: x.first += "x"; break; case 7: x.second += Str(300, 'x'); break; default: x.first += ":" + x.second; x.second = qs[r.below(m)].second; } qs.push_back(x); }
    for (auto &x : recs) if (qs.size() < 120) { qs.push_back({x.user, x.pass}); qs.push_back({x.user, x.opaque}); qs.push_back({x.user + ":" + x.pass, x.opaque}); qs.push_back({x.pass, x.opaque}); }
    qs.push_back({"", ""}); qs.push_back({"#", ""}); qs.push_back({Str(300, 'u'), "p"}); for (auto &x : qs) { for (Str *s : {&x.first, &x.second}) for (char &c : *s) if (!c) c = 'z'; }
    u_pwd_t *p[4] = {0, 0, 0, 0}; h::Exact ep(path);
    CHECK(u_pwd_init_file(ep.p, hash ? cb_hash : nullptr, hash ? HL : HL0, 0, &p[0]) == 0, "init", "file mode"); CHECK(u_pwd_init_file(ep.p, hash ? cb_hash : nullptr, hash ? HL : HL0, 1, &p[1]) == 0, "init", "in-memory mode");
    if (fg) { bool nt = r.chance(1, 2); CHECK(u_pwd_init("the-source", s_open, s_load, s_close, nt ? s_notify : nullptr, hash ? cb_hash : nullptr, hash ? HL : HL0, 0, &p[2]) == 0, "init", "callbacks"); CHECK(u_pwd_init("the-source", s_open, s_load, s_close, nt ? s_notify : nullptr, hash ? cb_hash : nullptr, hash ? HL : HL0, 7, &p[3]) == 0, "init", "callbacks in memory"); }
    CHECK(!u_pwd_in_memory(p[0]) && u_pwd_in_memory(p[1]), "in-memory", "wrong mode reported");
    for (size_t i = qs.size(); i > 1; --i) std::swap(qs[i - 1], qs[r.below(i)]);
    for (auto &x : qs) for (int k = 0; k < 4; ++k) if (p[k]) { if (h::memcheck && r.chance(2, 3)) continue; query(p[k], recs, k & 1, hash, x.first, x.second, maybe, true); }
    for (int k = 0; k < 4; ++k) if (p[k]) u_pwd_term(p[k]);
    CHECK(src.opens == src.closes, "source-left-open", "the source was opened %u times and closed %u times", src.opens, src.closes); h::expect_fds(fds, "closing the password files");
    h::sig(hash | dups << 1 | fg << 2); h::sig(recs.size()); h::sig(h::szclass(g.text.size())); (void) n;
}
/* every line length around the limit: either all of the record or none of it */
static void p_line_lengths () { for (size_t len = LNMAX - 8; len < LNMAX * 2 + 8; ++len) for (int nl = 0; nl < 2; ++nl) for (int mem = 0; mem < 2; ++mem) { Str l = "u:p:"; l += Str(len - l.size(), 'x'); if (len > LNMAX - 1) l.replace(LNMAX - 1, Str::npos, Str("evil:pw").substr(0, len - LNMAX + 1)); if (l.size() < len) l += Str(len - l.size(), 'y'); Str t = "a:b\n" + l + (nl ? "\nz:w\n" : ""); Str path = h::scratch() + "/pl"; h::put_file(path, t); u_pwd_t *p = nullptr; CHECK(u_pwd_init_file(path.c_str(), nullptr, 0, mem, &p) == 0, "init", "init"); std::vector<Rec> maybe, recs = read_pw(t, &maybe);
    for (const char *u : {"a", "u", "z", "evil", "evi", "x", "xevil"}) for (const char *pw : {"b", "p", "w", "pw", "y"}) query(p, recs, mem, false, u, pw, maybe, true); u_pwd_term(p); } }
static void p_missing () { for (int mem = 0; mem < 2; ++mem) { u_pwd_t *p = nullptr; CHECK(u_pwd_init_file((h::scratch() + "/not-there").c_str(), nullptr, 0, mem, &p) == 0, "init", "init"); for (int i = 0; i < 3; ++i) { CHECK(u_pwd_auth_user(p, "a", "b") != 0, "let-in-unknown", "let in without a password file"); u_pwd_rec_t *q = nullptr; CHECK(u_pwd_retr(p, "a", &q) != 0, "retrieve", "a record without a password file"); } u_pwd_term(p); CHECK(u_pwd_init_file(h::scratch().c_str(), nullptr, 0, mem, &p) == 0, "init", "init"); CHECK(u_pwd_auth_user(p, "a", "b") != 0, "let-in-unknown", "let in by a directory"); u_pwd_term(p); } Str path(U_FILENAME_MAX + 10, 'x'); u_pwd_t *p = nullptr; CHECK(u_pwd_init_file(path.c_str(), nullptr, 0, 0, &p) != 0, "init", "an over-long name is taken"); }
static void p_large () { Rng r(25); const int N = 30000; Str t; std::vector<Rec> recs, maybe; for (int i = 0; i < N; ++i) { Rec x; x.user = "user" + std::to_string(i); x.pass = "pw" + std::to_string(i * 3); if (i % 11 == 0) { x.opaque = "hint" + std::to_string(i); x.has_op = true; } if (i % 97 == 0) t += "# a comment\n"; t += x.user + ":" + x.pass + (x.has_op ? ":" + x.opaque : "") + "\n"; recs.push_back(x); } Str path = h::scratch() + "/large"; h::put_file(path, t); for (int mem = 0; mem < 2; ++mem) { u_pwd_t *p = nullptr; CHECK(u_pwd_init_file(path.c_str(), nullptr, 0, mem, &p) == 0, "init", "init"); for (int k = 0; k < (mem ? 400 : 40); ++k) { int i = k == 0 ? N - 1 : k == 1 ? 0 : k == 2 ? 10000 : r.below(N); std::vector<Rec> one(1, recs[i]); query(p, one, mem, false, recs[i].user, recs[i].pass, maybe, true); query(p, one, mem, false, recs[i].user, recs[i].pass + "x", maybe, true); query(p, one, mem, false, recs[i].user, recs[(i + 1) % N].pass, maybe, true); } std::vector<Rec> none; query(p, none, mem, false, "user30000", "pw90000", maybe, true); query(p, none, mem, false, "user", "pw", maybe, true); u_pwd_term(p); } }
const Probe PROBES[] = { {"line-lengths", p_line_lengths}, {"missing", p_missing}, {"large", p_large}, {0, 0} };
