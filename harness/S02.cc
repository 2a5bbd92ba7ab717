#include "h.h"
/* growable byte buffers vs std::string */
struct Obj { u_buf_t *b; Str m; };
static void verify (Obj &o, const char *op)
{
    CHECK(u_buf_len(o.b) == (ssize_t) o.m.size(), "length", "length %zd, expected %zu after %s", u_buf_len(o.b), o.m.size(), op);
    CHECK(u_buf_size(o.b) >= u_buf_len(o.b), "capacity", "capacity %zd below length %zd after %s", u_buf_size(o.b), u_buf_len(o.b), op);
    if (o.m.size()) { CHECK(u_buf_ptr(o.b) != nullptr, "null-data", "no data after %s", op);
        CHECK(memcmp(u_buf_ptr(o.b), o.m.data(), o.m.size()) == 0, "bytes", "bytes differ after %s: [%s] expected [%s]", op, h::esc(Str((char *) u_buf_ptr(o.b), o.m.size()), 120).c_str(), h::esc(o.m, 120).c_str()); }
    h::cov("states-compared");
}
static void terminated (Obj &o, const char *op)
{ CHECK(((char *) u_buf_ptr(o.b))[o.m.size()] == 0, "terminator", "text form is not terminated after %s", op); }
static size_t rsz (Rng &r) { return r.size({126, 127, 128, 129, 255, 256, 1023, 1024, 4096}, h::memcheck ? 600 : 9000); }
void run_case (Rng &r, u64)
{
    Obj o; CHECK(u_buf_create(&o.b) == 0, "create", "create failed"); verify(o, "create");
    unsigned nops = r.range(1, h::thorough ? 60 : 30);
    for (unsigned i = 0; i < nops; ++i) {
        unsigned op = r.below(10); int rc = 0; const char *name = "?"; bool term = false;
        switch (op) {
            case 0: case 1: { Str t = r.bytes(1 + rsz(r)); h::Exact e(t, false); name = "append"; rc = u_buf_append(o.b, e.p, t.size()); o.m += t; term = true; h::tr("append(%zu)", t.size()); break; }
            case 2: { Str t = r.bytes(1 + rsz(r)); h::Exact e(t, false); name = "set"; rc = u_buf_set(o.b, e.p, t.size()); o.m = t; term = true; h::tr("set(%zu)", t.size()); break; }
            case 3: { name = "reserve"; if (r.chance(1, 6)) { static const size_t big[] = {(size_t) -1, (size_t) -2, (size_t) -1 / 2, (size_t) 1 << 62}; size_t k = big[r.below(4)]; name = "reserve too much"; h::tr("reserve(%zu)", k); CHECK(u_buf_reserve(o.b, k) != 0, "huge-reserve", "reserving %zu bytes succeeds", k); h::cov("impossible-sizes"); break; } size_t k = r.chance(1, 3) ? o.m.size() + r.below(3) : rsz(r); rc = u_buf_reserve(o.b, k); CHECK(u_buf_size(o.b) >= (ssize_t) k, "reserve", "reserve(%zu) left capacity %zd", k, u_buf_size(o.b)); h::tr("reserve(%zu)", k); break; }
            case 4: { name = "clear"; rc = u_buf_clear(o.b); o.m.clear(); h::tr("clear"); break; }
            case 5: { name = "shrink"; size_t k = r.chance(1, 4) ? o.m.size() + 1 + r.below(9) : r.below(o.m.size() + 1); int e = u_buf_shrink(o.b, k); h::tr("shrink(%zu)", k);
                if (k <= o.m.size()) { rc = e; o.m.resize(k); } else CHECK(e != 0, "shrink-beyond", "shrink(%zu) beyond length %zu accepted", k, o.m.size()); break; }
            case 6: case 7: { Str t = r.text(rsz(r), "abc %9"); int d = (int) r.below(1000); name = "printf"; bool num = r.chance(1, 2);
                if (num) { rc = u_buf_printf(o.b, "%s-%d", t.c_str(), d); o.m += t + "-" + std::to_string(d); } else { rc = u_buf_printf(o.b, "%s", t.c_str()); o.m += t; }
                term = true; h::tr("printf(%zu)", t.size()); break; }
            case 8: { name = "detach"; h::tr("detach"); void *p = u_buf_ptr(o.b); rc = u_buf_detach(o.b);
                if (o.m.size()) CHECK(!memcmp(p, o.m.data(), o.m.size()), "detach", "detached bytes differ");
                u_free(p); CHECK(u_buf_ptr(o.b) == nullptr && u_buf_len(o.b) == 0 && u_buf_size(o.b) == 0, "detach", "buffer not empty after detach"); o.m.clear(); break; }
            case 9: { name = "bad-printf"; h::tr("printf(bad)"); CHECK(u_buf_printf(o.b, "ab%lcde", (wint_t) 0x10ffff) != 0, "printf-error", "a formatting error was reported as success"); h::cov("formatting-errors"); break; }
        }
        CHECK(rc == 0, "op-failed", "%s failed", name);
        verify(o, name); if (term && u_buf_ptr(o.b)) terminated(o, name);
        h::sig(op); h::sig(h::szclass(o.m.size())); h::sig(u_buf_size(o.b) == (ssize_t) o.m.size());
    }
    u_buf_free(o.b);
}
static void p_printf_sizes () { for (size_t pre = 0; pre < 400; pre += 57) for (size_t n = 0; n < 700; ++n) { Obj o; u_buf_create(&o.b); if (pre) { o.m = Str(pre, 'p'); u_buf_append(o.b, o.m.data(), pre); } Str t(n, 'x'); CHECK(u_buf_printf(o.b, "%s", t.c_str()) == 0, "op-failed", "printf of %zu chars failed (after %zu)", n, pre); o.m += t; verify(o, "printf"); u_buf_free(o.b); } }
static void p_printf_error () { Obj o; u_buf_create(&o.b); CHECK(u_buf_printf(o.b, "%lc", (wint_t) 0x10ffff) != 0, "printf-error", "success"); verify(o, "failed printf"); u_buf_append(o.b, "abc", 3); o.m = "abc"; CHECK(u_buf_printf(o.b, "zz%lc", (wint_t) 0x10ffff) != 0, "printf-error", "success"); verify(o, "failed printf"); u_buf_free(o.b); }
static void p_zero_args () { Obj o; u_buf_create(&o.b); u_buf_append(o.b, "abc", 3); o.m = "abc";
    (void) u_buf_append(o.b, "z", 0); verify(o, "append of nothing"); (void) u_buf_append(o.b, nullptr, 4); verify(o, "append NULL"); (void) u_buf_set(o.b, nullptr, 4); verify(o, "set NULL"); u_buf_free(o.b);
    CHECK(u_buf_len(nullptr) == -1 && u_buf_size(nullptr) == -1 && u_buf_ptr(nullptr) == nullptr, "null-arg", "NULL buffer not refused"); }
/* far beyond the sizes of the random histories */
static void p_large () { Rng r(12); for (size_t n : {32767, 32768, 65535, 65536, 70000, 300000}) { Obj o; CHECK(u_buf_create(&o.b) == 0, "create", "create"); Str t = r.bytes(n), u = r.text(n / 2, "abc def"); CHECK(u_buf_append(o.b, t.data(), n) == 0, "op-failed", "append of %zu", n); o.m = t; verify(o, "a large append"); CHECK(u_buf_printf(o.b, "%s", u.c_str()) == 0, "op-failed", "print of %zu", u.size()); o.m += u; verify(o, "a large print"); CHECK(u_buf_append(o.b, u.data(), u.size()) == 0, "op-failed", "append"); o.m += u; verify(o, "a large append"); CHECK(u_buf_set(o.b, u.data(), u.size()) == 0, "op-failed", "set"); o.m = u; verify(o, "a large set"); CHECK(u_buf_reserve(o.b, n * 3) == 0, "op-failed", "reserve"); verify(o, "a large reserve"); CHECK(u_buf_size(o.b) >= (ssize_t) n * 3, "capacity", "%zd", u_buf_size(o.b)); for (size_t i = 0; i < 3000; ++i) { CHECK(u_buf_append(o.b, t.data() + i, 27) == 0, "op-failed", "append"); o.m += t.substr(i, 27); if (i % 500 == 0) verify(o, "many appends"); } verify(o, "many appends");
    Str f = h::scratch() + "/large"; h::put_file(f, t); CHECK(u_buf_load(o.b, f.c_str()) == 0, "op-failed", "load of %zu", n); o.m = t; verify(o, "a large load"); u_buf_clear(o.b); o.m.clear(); verify(o, "clear"); u_buf_free(o.b); } }
const Probe PROBES[] = { {"printf-sizes", p_printf_sizes}, {"printf-error", p_printf_error}, {"zero-args", p_zero_args}, {"large", p_large}, {0, 0} };
