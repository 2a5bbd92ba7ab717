#include "h.h"
/* ideal configuration tree and an independent reader of the documented syntax */
struct CN { Str key; bool hasval = false; Str val; std::vector<CN *> ch; CN *up = nullptr; u_config_t *c = nullptr;
    CN () {} CN (const CN &) = delete; ~CN () { for (CN *x : ch) delete x; }
    CN *add (const Str &k) { CN *n = new CN; n->key = k; n->up = this; ch.push_back(n); return n; }
    CN *find (const Str &k, int n = 0) { for (CN *x : ch) if (x->key == k && n-- == 0) return x; return nullptr; }
    CN *sub (const Str &p, int n = 0) { size_t d = p.find('.'); if (d == Str::npos) return find(p, n); CN *x = find(p.substr(0, d)); return x ? x->sub(p.substr(d + 1), n) : nullptr; }
    CN *root () { CN *x = this; while (x->up) x = x->up; return x; }
    size_t count () { size_t n = 1; for (CN *x : ch) n += x->count(); return n; }
    void copy (const CN &o) { key = o.key; hasval = o.hasval; val = o.val; for (CN *x : o.ch) add("")->copy(*x); }
    void clear () { for (CN *x : ch) delete x; ch.clear(); hasval = false; val.clear(); } };
static Str dump (const CN *n, int l = 0) { Str s; if (n->up) s += Str(l, ' ') + h::esc(n->key, 80) + (n->hasval ? "='" + h::esc(n->val, 80) + "'" : "") + "\n"; for (CN *x : n->ch) { s += dump(x, l + 1); if (s.size() > 3000) break; } return s; }
static Str trimb (const Str &s) { size_t a = 0, b = s.size(); while (a < b && (s[a] == ' ' || s[a] == '\t')) ++a; while (b > a && (s[b - 1] == ' ' || s[b - 1] == '\t')) --b; return s.substr(a, b - a); }
/* the text after substituting variables in the scope of node n; false when malformed; *unspec when the documentation does not say */
static bool subst (CN *n, const Str &v, Str &out, bool *unspec, bool fresh)
{   out.clear(); size_t i = 0; for (;;) { size_t p = v.find("${", i); if (p == Str::npos) { out += v.substr(i); break; } out += v.substr(i, p - i); size_t e = v.find('}', p + 2); if (e == Str::npos) return false; Str name = v.substr(p + 2, e - p - 2); i = e + 1;
        CN *loc = n->up ? n->up : n, *x = loc->sub(name); if (!x) { x = n->root()->sub(name); for (CN *q = loc->up; q && q->up; q = q->up) if (q->sub(name)) *unspec = true; } if (x == n && fresh) *unspec = true; if (x && x->hasval) out += x->val; if (out.size() > 10000000) { *unspec = true; return true; } }
    out = trimb(out); return true; }
static bool m_setval (CN *n, const Str *v, bool *unspec, bool fresh) { if (!v) { n->hasval = false; n->val.clear(); return true; } Str o; if (!subst(n, *v, o, unspec, fresh)) return false; n->hasval = true; n->val = o; return true; }
static void m_del (CN *p, CN *n) { auto i = std::find(p->ch.begin(), p->ch.end(), n); p->ch.erase(i); delete n; }
static bool m_setkey (CN *n, const Str &k, const Str *v, bool over, bool *unspec)
{   size_t d = k.find('.'); if (d == Str::npos) { CN *x = over ? n->find(k) : nullptr; bool fresh = !x; if (fresh) { bool had = n->find(k) != nullptr; x = n->add(k); fresh = !had; } if (m_setval(x, v, unspec, fresh)) return true; if (x == n->ch.back() && !(over && !fresh)) m_del(n, x); return false; }
    CN *x = n->find(k.substr(0, d)); bool added = !x; if (!x) x = n->add(k.substr(0, d)); if (m_setkey(x, k.substr(d + 1), v, over, unspec)) return true; if (added) m_del(n, x); return false; }
struct Reader { Str t; size_t p = 0; bool line (Str &l) { if (p >= t.size()) return false; size_t e = t.find('\n', p); if (e == Str::npos) e = t.size(); l = t.substr(p, e - p); p = e + 1; return true; } };
typedef std::function<bool (const Str &, Str &)> Open;   /* contents of a file for include */
struct Parse { bool over = false, unspec = false, fatal = false; Open open; std::vector<Str> chain; unsigned deepest = 0, files = 0; std::function<bool (Str &)> resolv; bool optional_used = false;
    bool blank (const Str &s) { for (char c : s) if (c != ' ' && c != '\t') return false; return true; }
    bool body (CN *n, Reader &r, bool sect, unsigned lev)
    {   Str l, last; bool have = false; if (lev > deepest) deepest = lev; if (lev > 2000) { unspec = true; return false; }
        while (r.line(l)) {
            Str s; for (size_t i = 0; i < l.size(); ++i) { if (l[i] == '#') { if (i && l[i - 1] == '\\') { s.back() = '#'; continue; } break; } s += l[i]; }
            s = trimb(s); while (!s.empty() && (s.back() == '\r' || s.back() == '\n')) s.pop_back(); if (s.empty()) continue; size_t b = 0; while (b < s.size() && (s[b] == ' ' || s[b] == '\t')) ++b; s = s.substr(b); if (s.empty()) { unspec = true; continue; }
            if (s[0] == '{') { if (!have || !blank(s.substr(1))) return false; if (last.find('.') != Str::npos) unspec = true; CN *x = over ? n->find(last) : nullptr; if (!x) x = n->add(last); if (!body(x, r, true, lev + 1)) return false; have = false; continue; }
            if (s[0] == '}') { if (!sect || !blank(s.substr(1))) return false; return true; }
            size_t e = 0; while (e < s.size() && s[e] != ' ' && s[e] != '\t') ++e; Str k = s.substr(0, e), v = trimb(s.substr(e));
            if (k == "include" || k == "-include") { if (v.empty()) return false; bool opt = k[0] == '-'; if (!open) { if (!m_setkey(n, k, &v, false, &unspec)) return false; if (opt) { have = false; continue; } return false; }
                if (!m_setkey(n, k, &v, false, &unspec)) return false; Str path = n->ch.back()->val, text; bool ok = true; if (opt) optional_used = true; if (resolv && !resolv(path)) { if (opt) { have = false; continue; } return false; } if (std::find(chain.begin(), chain.end(), path) != chain.end()) { fatal = true; return false; }
                if (++files > 3000) { unspec = true; return false; } if (!open(path, text)) ok = false; else { Reader q; q.t = text; chain.push_back(path); ok = body(n, q, false, lev + 1); chain.pop_back(); if (fatal) return false; if (!ok && opt) unspec = true; } if (!ok && !opt) return false; have = false; continue; }
            if (v.empty()) { last = k; have = true; continue; }
            if (std::count(k.begin(), k.end(), '.') > 500) unspec = true;
            if (!m_setkey(n, k, &v, over, &unspec)) return false; have = false; }
        return !sect; } };
/* compare a real tree with an ideal one */
static bool same_tree (u_config_t *c, const CN *n)
{   h::cov("nodes-compared"); if (n->up) { const char *k = u_config_get_key(c), *v = u_config_get_value(c); if (!k || n->key != k) return false; if (n->hasval ? !v || n->val != v : v != nullptr) return false; }
    if (!!u_config_has_children(c) != !n->ch.empty()) return false; int i = 0; for (CN *x : n->ch) { u_config_t *d = u_config_get_child_n(c, nullptr, i++); if (!d || !same_tree(d, x)) return false; } return u_config_get_child_n(c, nullptr, i) == nullptr; }
static void rdump (u_config_t *c, Str &s, int l) { for (int i = 0; u_config_t *d = u_config_get_child_n(c, nullptr, i); ++i) { const char *v = u_config_get_value(d); s += Str(l, ' ') + h::esc(u_config_get_key(d), 80) + (v ? "='" + h::esc(v, 80) + "'" : "") + "\n"; if (s.size() > 3000) return; rdump(d, s, l + 1); } }
static void expect_tree (u_config_t *c, const CN *n, const char *key, const char *what, const Str &text = "")
{   if (same_tree(c, n)) return; Str s; rdump(c, s, 0); h::fail(key, "%s is\n%s\ninstead of\n%s\nfrom: %s", what, s.c_str(), dump(n, -1).c_str(), h::esc(text, 800).c_str()); }
static const char *const KEYS[] = {"a", "b", "name", "port", "x1", "A", "long_key-name", "${", "k}", "inc", "includes", "a=", "\"q\"", "\xc3\xa9"};
static Str gkey (Rng &r) { return r.chance(1, 12) ? KEYS[r.below(14)] : KEYS[r.below(7)]; }
static Str dotted (Rng &r) { Str k = gkey(r); while (r.chance(1, 5)) k += "." + gkey(r); if (r.chance(1, 60)) k += r.one({".", "..a", ".a."}); return k; }
static Str gval (Rng &r) { if (r.chance(1, 40)) return Str(r.range(990, 1060), r.ch("vw")); switch (r.below(9)) { case 0: return std::to_string((long) r.below(5000) - 1000); case 1: return r.one({"yes", "no", "1", "0", "enable", "Disable", "ON", "off", "maybe", "12x", "99999999999", "-2147483648", "2147483648"}); case 2: return "${" + dotted(r) + "}"; case 3: return r.text(1 + r.below(5), "ab ") + "${" + gkey(r) + "}" + r.text(r.below(4), "cd"); case 4: return "${" + gkey(r) + "}${" + dotted(r) + "}"; case 5: return r.one({"two words", "tab\there", "{", "}", "a { b", "x=y", "\"quoted  text\"", "back\\slash", "$", "$x", "{}", "}{", "it's", "100%s", "%n"}); default: return r.text(1 + r.below(12), "abcXYZ019_-./:"); } }
static Str hash (Rng &r, const Str &v) { Str o; for (char c : v) { if (c == '#') o += '\\'; o += c; } (void) r; return o; }
static Str ws (Rng &r, bool some) { Str s; if (some) s += r.ch(" \t"); while (r.chance(1, 5)) s += r.ch(" \t"); return s; }
static Str nl (Rng &r, int style) { return style == 2 ? r.one({"\n", "\r\n"}) : style == 1 ? "\r\n" : "\n"; }
static void gtext (Rng &r, Str &t, unsigned depth, int style, unsigned lines)
{   for (unsigned i = 0; i < lines; ++i) { Str e = nl(r, style); if (r.chance(1, 8)) { t += ws(r, false) + e; continue; } if (r.chance(1, 10)) { t += ws(r, false) + "#" + r.text(r.below(10), "ab# {}\\") + e; continue; } Str tail = r.chance(1, 8) ? ws(r, true) + "# " + r.text(r.below(8), "ab#{}") : ws(r, false);
        if (depth && r.chance(1, 5)) { t += ws(r, false) + gkey(r) + tail + e; if (r.chance(1, 5)) t += ws(r, false) + (r.chance(1, 2) ? "# c" : "") + nl(r, style); t += ws(r, false) + "{" + ws(r, false) + e; gtext(r, t, depth - 1, style, r.below(5)); t += ws(r, false) + "}" + ws(r, false) + nl(r, style); continue; }
        Str v = gval(r); if (r.chance(1, 12)) v += r.one({"#", "#x", "a#b#c", "##"}); t += ws(r, false) + dotted(r) + ws(r, true) + hash(r, v) + (r.chance(1, 10) ? r.one({"\\##c", "\\#\\##", "\\#\\#", "\\##", "x\\#y#\\#", "\\\\##z"}) : Str()) + tail + e; } }
static Str fresh_text (Rng &r) { Str t; gtext(r, t, r.below(5), r.below(3), r.below(10)); if (r.chance(1, 4) && !t.empty() && t.back() == '\n') { t.pop_back(); if (r.chance(1, 2) && !t.empty() && t.back() == '\r') t.pop_back(); } return t; }
static void mutate (Rng &r, Str &t) { for (unsigned i = 1 + r.below(3); i-- && !t.empty();) { size_t p = r.below(t.size()); switch (r.below(7)) { case 0: t.erase(p, 1 + r.below(4)); break; case 1: t.insert(p, r.one({"{", "}", "\n{\n", "\n}\n", "#", "\\#", "${", "${a", "}", "\n", "\r", " ", "\\", "\t", "."})); break; case 2: t[p] = (char) (1 + r.below(255)); break; case 3: t.resize(p); break; case 4: t.insert(p, t.substr(r.below(t.size()), r.below(20))); break; case 5: t.insert(p, Str(r.range(900, 2200), r.ch("z \t\r#"))); break; default: t[p] = r.ch("{}#\\ \n\r\t$."); } } }
static bool has_directive (const Str &t) { return t.find("include") != Str::npos; }
