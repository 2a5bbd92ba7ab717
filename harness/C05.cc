#include "h.h"
/* ring buffers vs an ideal byte queue */
static void audit (u_rb_t *b, size_t sz, const std::deque<char> &m, const char *after)
{ CHECK(u_rb_size(b) == sz, "size", "after %s the size changed to %zu", after, u_rb_size(b)); CHECK(u_rb_ready(b) == m.size(), "ready", "after %s %zu bytes are ready, expected %zu", after, u_rb_ready(b), m.size()); CHECK(u_rb_avail(b) == sz - m.size(), "avail", "after %s %zu bytes are free, expected %zu", after, u_rb_avail(b), sz - m.size()); }
static void history (Rng &r, size_t hint, int opts, unsigned ops)
{
    u_rb_t *b = nullptr; h::tr("create %zu opts %d", hint, opts); CHECK(u_rb_create(hint, opts, &b) == 0 && b, "create", "create of %zu with options %d failed", hint, opts); size_t sz = u_rb_size(b); CHECK(sz >= hint && sz, "size", "a buffer for %zu has size %zu", hint, sz);
    std::deque<char> m; unsigned char ctr = r.next(); unsigned bias = 3 + r.below(10); audit(b, sz, m, "create"); h::sig(opts); h::sig(h::szclass(hint));
    for (unsigned o = 0; o < ops; ++o) { unsigned k = r.below(16); size_t n = r.chance(1, 3) ? r.below(sz + 1) : r.chance(1, 3) ? r.below(8) : r.chance(1, 2) ? (k < bias ? sz - m.size() : m.size()) + r.below(3) - 1 : sz - r.below(std::min<size_t>(sz, 3)); if (n == (size_t) -1) n = 0; if (r.chance(1, 40)) n = sz + 1 + r.below(20);
        if (k < bias) { Str s; for (size_t i = 0; i < n; ++i) s += (char) (ctr++ * 167 + (i >> 8)); h::Exact e(s, false); h::tr("write %zu", n); ssize_t rc = u_rb_write(b, e.p, n);
            if (n > sz) { CHECK(rc < 0, "write-count", "write of %zu to a buffer of %zu returned %zd", n, sz, rc); h::cov("refused-requests"); }
            else { size_t w = std::min(n, sz - m.size()); CHECK(rc == (ssize_t) w, "write-count", "write of %zu with %zu free returned %zd", n, sz - m.size(), rc); for (size_t i = 0; i < w; ++i) m.push_back(s[i]); h::sig(w < n); } h::cov("writes"); h::cov("bytes-written", n <= sz ? std::min(n, sz) : 0); audit(b, sz, m, "write"); }
        else if (k < 15) { bool fast = (opts & U_RB_OPT_USE_CONTIGUOUS_MEM) && r.chance(1, 2); size_t w = std::min(n, m.size());
            if (fast) { size_t g = n; h::tr("fast read %zu", n); char *p = (char *) u_rb_fast_read(b, &g); if (n > sz) { CHECK(p == nullptr && g == n, "fast-beyond", "a direct read of %zu from a buffer of %zu gave something", n, sz); continue; } CHECK(g == w, "fast-count", "direct read of %zu with %zu ready gave %zu", n, m.size(), g); CHECK((p != nullptr) == (w > 0), "fast-null", "direct read of %zu bytes returned %p", w, p); for (size_t i = 0; i < w; ++i) { CHECK(p[i] == m.front(), "fast-bytes", "direct read byte %zu of %zu differs", i, w); m.pop_front(); } h::cov("direct-reads"); audit(b, sz, m, "direct read"); }
            else { h::Exact e(n); h::tr("read %zu", n); ssize_t rc = u_rb_read(b, e.p, n); if (n > sz) { CHECK(rc < 0, "read-count", "read of %zu from a buffer of %zu returned %zd", n, sz, rc); w = 0; h::cov("refused-requests"); } else CHECK(rc == (ssize_t) w, "read-count", "read of %zu with %zu ready returned %zd", n, m.size(), rc); for (size_t i = 0; i < w; ++i) { CHECK(e.p[i] == m.front(), "read-bytes", "read byte %zu of %zu differs", i, w); m.pop_front(); } for (size_t i = w; i < n; ++i) CHECK(e.p[i] == 0x5c, "read-past", "read stored more than it returned"); h::cov("reads"); audit(b, sz, m, "read"); } h::sig(4 + fast); h::sig(w < n); h::cov("bytes-read", w); }
        else if (r.chance(1, 3)) { h::tr("clear"); CHECK(u_rb_clear(b) == 0, "clear", "clear failed"); m.clear(); audit(b, sz, m, "clear"); h::cov("clears"); } }
    u_rb_free(b);
}
void run_case (Rng &r, u64 n)
{
    auto f = h::fds(); int opts = n % 4; unsigned ops = h::memcheck ? 40 : 150;
    if (opts & U_RB_OPT_IMPL_MALLOC) history(r, r.chance(1, 4) ? 1 + r.below(3) : r.chance(1, 8) ? 1 + r.below(5000) : 1 + r.below(64), opts, ops); else if (n / 4 % 4 == 0) { long pg = sysconf(_SC_PAGESIZE); history(r, r.chance(1, 6) ? r.below(3 * pg) : r.chance(1, 3) ? pg * (1 + r.below(2)) - 1 + r.below(3) : r.below(200), opts, h::memcheck ? 10 : 60); } else history(r, 1 + r.below(16), opts | U_RB_OPT_IMPL_MALLOC, ops);
    h::expect_fds(f, "ring buffer use");
}
static void p_small () { /* every size up to 9, every offset, every write/read split, both malloc flavours */
    for (int opts : {2, 3}) for (size_t sz = 1; sz <= 9; ++sz) for (size_t off = 0; off <= 2 * sz; ++off) for (size_t w = 0; w <= sz; ++w) for (size_t q = 0; q <= sz; ++q) { u_rb_t *b; u_rb_create(sz, opts, &b); h::Exact t(16); for (size_t i = 0; i < off; ++i) { char c = 'z'; u_rb_write(b, &c, 1); u_rb_read(b, t.p, 1); } h::Exact in(Str("abcdefghi").substr(0, w), false), o(q); CHECK(u_rb_write(b, in.p, w) == (ssize_t) w, "write-count", "x"); ssize_t g = u_rb_read(b, o.p, q); CHECK(g == (ssize_t) std::min(w, q) && !memcmp(o.p, in.p, g), "read-bytes", "size %zu offset %zu write %zu read %zu", sz, off, w, q); h::Exact in2(Str("ABCDEFGHI").substr(0, sz), false), o2(sz); size_t fr = sz - (w - g); CHECK(u_rb_write(b, in2.p, sz) == (ssize_t) fr, "write-count", "y"); Str e = Str(in.p + g, w - g) + Str(in2.p, fr); g = u_rb_read(b, o2.p, sz); CHECK(g == (ssize_t) sz && e == Str(o2.p, sz), "read-bytes", "full buffer: size %zu offset %zu write %zu read %zu", sz, off, w, q); CHECK(u_rb_ready(b) == 0, "ready", "x"); u_rb_free(b); } }
static void p_fast_refused () { u_rb_t *b; u_rb_create(10, U_RB_OPT_IMPL_MALLOC, &b); size_t n = 4; u_rb_write(b, "abcd", 4); CHECK(u_rb_fast_read(b, &n) == nullptr && n == 4, "fast-wrapped", "direct read without contiguous memory gave something"); char o[4]; CHECK(u_rb_read(b, o, 4) == 4 && !memcmp(o, "abcd", 4), "read-bytes", "x"); u_rb_free(b); }
static void p_huge () { auto f = h::fds(); for (int opts = 0; opts < 4; ++opts) for (size_t n : {(size_t) -1, (size_t) -1 / 2, (size_t) -1 / 2 + 1, (size_t) -1 / 2 + 5, (size_t) 1 << 63, ((size_t) 1 << 62) + 1, (size_t) -4096, (size_t) -4095}) { u_rb_t *b = nullptr; int rc = u_rb_create(n, opts, &b); CHECK(rc != 0 && b == nullptr, "huge-create", "a buffer of %zu bytes (options %d) was created, size %zu", n, opts, b ? u_rb_size(b) : 0); } h::expect_fds(f, "refused creation"); u_rb_free(nullptr); }
const Probe PROBES[] = { {"small-exhaustive", p_small}, {"direct-read-refused", p_fast_refused}, {"huge-create", p_huge}, {0, 0} };
