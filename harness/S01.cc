#include "h.h"
/* growable strings vs std::string */
static const char *SET = "abcXYZ09 \t.%-_\xc3\xa9\x01\x7f";
struct Obj { u_string_t *s; Str m; bool live; };
static void verify (Obj &o, const char *op)
{
    const char *c = u_string_c(o.s);
    CHECK(c != nullptr, "null-text", "text is NULL after %s", op);
    CHECK(u_string_len(o.s) == o.m.size(), "length", "length %zu, expected %zu after %s", u_string_len(o.s), o.m.size(), op);
    CHECK(memcmp(c, o.m.c_str(), o.m.size() + 1) == 0, "text", "text [%s] expected [%s] after %s", h::esc(c).c_str(), h::esc(o.m).c_str(), op);
    h::cov("states-compared");
}
static Str rtext (Rng &r)
{
    size_t n = r.size({63, 64, 65, 127, 128, 191, 192, 193, 447, 448, 449, 961, 1024, 4032}, h::memcheck ? 600 : 5000);
    Str t = r.text(n, SET);
    if (r.chance(1, 4)) t = Str(r.below(4), ' ') + t + Str(r.below(4), r.chance(1, 2) ? ' ' : '\t');
    return t;
}
static Str trimmed (const Str &s)
{   size_t a = 0, b = s.size(); auto bl = [] (char c) { return c == ' ' || c == '\t'; };
    while (a < b && bl(s[a])) ++a; while (b > a && bl(s[b - 1])) --b; return s.substr(a, b - a); }
static Obj make (Rng &r)
{
    Obj o; o.s = nullptr; o.live = true;
    if (r.chance(1, 3)) { CHECK(u_string_create(nullptr, 0, &o.s) == 0, "create", "create failed"); h::tr("create()"); }
    else { Str t = rtext(r); h::Exact e(t); size_t k = r.chance(1, 4) ? r.below(t.size() + 1) : t.size();
        CHECK(u_string_create(e.p, k, &o.s) == 0, "create", "create failed"); o.m = t.substr(0, k); h::tr("create(%zu)", k); }
    verify(o, "create");
    return o;
}
void run_case (Rng &r, u64)
{
    std::vector<Obj> v; v.push_back(make(r)); v.push_back(make(r));
    unsigned nops = r.range(1, h::thorough ? 60 : 30);
    for (unsigned i = 0; i < nops; ++i) {
        Obj &o = v[r.below(2)], &p = v[r.below(2)];
        unsigned op = r.below(13); int rc = 0; const char *name = "?";
        switch (op) {
            case 0: case 1: { Str t = rtext(r); size_t k = r.chance(1, 4) ? r.below(t.size() + 1) : t.size(); h::Exact e(t); name = "append"; rc = u_string_append(o.s, e.p, k); o.m += t.substr(0, k); h::tr("append(%zu)", k); break; }
            case 2: { Str t = rtext(r); h::Exact e(t); name = "set"; rc = u_string_set(o.s, e.p, t.size()); o.m = t; h::tr("set(%zu)", t.size()); break; }
            case 3: { Str t = rtext(r); name = "sprintf"; int d = (int) r.next(); rc = u_string_sprintf(o.s, "%s|%d", t.c_str(), d); o.m = t + "|" + std::to_string(d); h::tr("sprintf(%zu)", t.size()); break; }
            case 4: { Str t = rtext(r); name = "aprintf"; rc = u_string_aprintf(o.s, "%s", t.c_str()); o.m += t; h::tr("aprintf(%zu)", t.size()); break; }
            case 5: { Str t = rtext(r); bool cl = r.chance(1, 2); int w = r.below(300); name = "do_printf"; rc = u_string_do_printf(o.s, cl, "%*d%.*s", w, 7, 5, t.c_str()); char b[600]; snprintf(b, 600, "%*d%.*s", w, 7, 5, t.c_str()); if (cl) o.m = b; else o.m += b; h::tr("do_printf(%d,w=%d)", cl, w); break; }
            case 6: { name = "clear"; rc = u_string_clear(o.s); o.m.clear(); h::tr("clear"); break; }
            case 7: { name = "trim"; rc = u_string_trim(o.s); o.m = trimmed(o.m); h::tr("trim"); break; }
            case 8: { name = "reserve"; if (r.chance(1, 6)) { static const size_t big[] = {(size_t) -1, (size_t) -2, (size_t) -1 / 2, (size_t) 1 << 62}; size_t k = big[r.below(4)]; name = "reserve too much"; h::tr("reserve(%zu)", k); CHECK(u_string_reserve(o.s, k) != 0, "huge-reserve", "reserving %zu bytes succeeds", k); h::cov("impossible-sizes"); break; } size_t k = r.size({64, 128, 192, o.m.size(), o.m.size() + 1}, 6000); rc = u_string_reserve(o.s, k); h::tr("reserve(%zu)", k); break; }
            case 9: { name = "set_length"; size_t k = r.chance(1, 5) ? o.m.size() + 1 + r.below(100) : r.below(o.m.size() + 1); int e = u_string_set_length(o.s, k);
                if (k <= o.m.size()) { rc = e; o.m.resize(k); } else CHECK(e != 0, "set-length-beyond", "set_length(%zu) beyond length %zu accepted", k, o.m.size()); h::tr("set_length(%zu)", k); break; }
            case 10: { if (&o == &p) break; name = "copy"; rc = u_string_copy(o.s, p.s); o.m = p.m; h::tr("copy"); break; }
            case 11: { name = "detach"; h::tr("detach"); char *c = u_string_detach_cstr(o.s);
                if (c == nullptr) CHECK(o.m.empty(), "detach", "detach of a non-empty string gave NULL");
                else { CHECK(o.m == c, "detach", "detached [%s] expected [%s]", h::esc(c).c_str(), h::esc(o.m).c_str()); u_free(c); }
                o = make(r); break; }
            case 12: { name = "bad-printf"; /* a conversion that must fail (no multibyte form in the C locale) */
                bool cl = r.chance(1, 2); h::tr("printf(bad wide char,%d)", cl);
                int e = u_string_do_printf(o.s, cl, "ab%lcde", (wint_t) 0x10ffff);
                CHECK(e != 0, "printf-error", "a formatting error was reported as success");
                h::cov("formatting-errors"); if (cl) o.m.clear(); break; }
        }
        CHECK(rc == 0, "op-failed", "%s failed", name);
        verify(o, name); verify(p, name);
        h::sig(op); h::sig(h::szclass(o.m.size()));
    }
    for (auto &o : v) u_string_free(o.s);
}
static void p_reserve_fresh () { for (size_t k = 1; k < 300; k += 7) { u_string_t *s; u_string_create(nullptr, 0, &s); CHECK(u_string_reserve(s, k) == 0, "reserve", "failed"); Obj o{s, "", true}; verify(o, "reserve on a new string"); u_string_free(s); } }
static void p_printf_error () { u_string_t *s; u_string_create("xyz", 3, &s); CHECK(u_string_aprintf(s, "ab%lc", (wint_t) 0x10ffff) != 0, "printf-error", "reported as success"); Obj o{s, "xyz", true}; verify(o, "failed append");
    CHECK(u_string_sprintf(s, "ab%lc", (wint_t) 0x10ffff) != 0, "printf-error", "reported as success"); u_string_free(s); }
static void p_every_size () { /* every append size from every fill, stepwise */
    for (size_t a = 0; a < 200; a += 3) for (size_t b = 0; b < 200; b += 1) { u_string_t *s; Str x(a, 'a'), y(b, 'b'); u_string_create(x.data(), a, &s); u_string_append(s, y.data(), b); Obj o{s, x + y, true}; verify(o, "append"); u_string_free(s); }
    for (size_t b = 0; b < 3000; ++b) { u_string_t *s; Str y(b, 'b'); u_string_create(nullptr, 0, &s); CHECK(u_string_aprintf(s, "%s", y.c_str()) == 0, "op-failed", "aprintf"); Obj o{s, y, true}; verify(o, "aprintf"); u_string_free(s); } }
static void p_null_args () { u_string_t *s; u_string_create("q", 1, &s); Obj o{s, "q", true};
    CHECK(u_string_append(s, nullptr, 3) != 0, "null-arg", "append NULL accepted"); verify(o, "append NULL"); CHECK(u_string_append(s, "", 0) == 0, "op-failed", "empty append"); verify(o, "append empty"); u_string_free(s);
    CHECK(u_string_free(nullptr) == 0, "null-arg", "free(NULL)"); CHECK(u_string_append(nullptr, "a", 1) != 0, "null-arg", "append to NULL"); }
/* far beyond the sizes of the random histories */
static void p_large () { Rng r(11); for (size_t n : {32767, 32768, 65535, 65536, 70000, 300000}) { Str t = r.text(n, SET), u = r.text(n / 2, "xy z"); Obj o{nullptr, t, true}; { h::Exact e(t); CHECK(u_string_create(e.p, n, &o.s) == 0, "create", "create of %zu", n); } verify(o, "a large create");
    { h::Exact e(u); CHECK(u_string_append(o.s, e.p, u.size()) == 0, "append", "append of %zu", u.size()); o.m += u; verify(o, "a large append"); CHECK(u_string_aprintf(o.s, "<%s|%d|%s>", e.p, 7, t.c_str()) == 0, "printf", "append of %zu", n); o.m += "<" + u + "|7|" + t + ">"; verify(o, "a large formatted append"); CHECK(u_string_sprintf(o.s, "%s%s", t.c_str(), e.p) == 0, "printf", "print of %zu", n); o.m = t + u; verify(o, "a large print"); }
    Obj c{nullptr, "", true}; CHECK(u_string_create(nullptr, 0, &c.s) == 0 && u_string_copy(c.s, o.s) == 0, "copy", "copy"); c.m = o.m; verify(c, "a large copy"); CHECK(u_string_cat(c.s, t.c_str()) == 0, "append", "cat"); c.m += t; verify(c, "a large cat"); CHECK(u_string_set(c.s, u.c_str(), u.size()) == 0, "set", "set"); c.m = u; verify(c, "a large set"); CHECK(u_string_trim(c.s) == 0, "trim", "trim"); c.m = trimmed(c.m); verify(c, "trim"); for (size_t i = 0; i < 3000; ++i) { CHECK(u_string_append(o.s, "0123456789abcdefghijklmnopq", 27) == 0, "append", "append"); o.m += "0123456789abcdefghijklmnopq"; if (i % 500 == 0) verify(o, "many appends"); } verify(o, "many appends"); u_string_free(c.s); u_string_free(o.s); } }
const Probe PROBES[] = { {"reserve-on-new", p_reserve_fresh}, {"printf-error", p_printf_error}, {"every-size", p_every_size}, {"null-args", p_null_args}, {"large", p_large}, {0, 0} };
