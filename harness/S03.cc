#include "h.h"
/* Base64: independent codec as oracle, exact-size heap blocks, every output size around the need */
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static Str enc (const Str &s)
{   Str o; unsigned v = 0; int bits = 0;
    for (unsigned char c : s) { v = (v << 8 | c) & 0xffffff; bits += 8; while (bits >= 6) { bits -= 6; o += A64[(v >> bits) & 63]; } }
    if (bits) o += A64[(v << (6 - bits)) & 63];
    while (o.size() % 4) o += '=';
    return o; }
/* well-formed: alphabet only, multiple of four, padding only as the last one or two characters */
static bool wellformed (const Str &t)
{   if (t.empty() || t.size() % 4) return false;
    size_t n = t.size(); if (t[n - 1] == '=') { --n; if (t[n - 1] == '=') --n; }
    for (size_t i = 0; i < n; ++i) if (t[i] == 0 || !strchr(A64, t[i])) return false;
    return true; }
static Str dec (const Str &t)
{   Str o; unsigned v = 0; int bits = 0; for (char c : t) { if (c == '=') break; v = (v << 6 | (unsigned) (strchr(A64, c) - A64)) & 0xffffff; bits += 6; if (bits >= 8) { bits -= 8; o += (char) (v >> bits); } } return o; }
static void t_enc (const Str &s, size_t room)
{
    Str want = enc(s); h::Exact in(s, false), out(room);
    int rc = u_b64_encode((const uint8_t *) in.p, s.size(), out.p, room);
    if (room >= want.size() + 1) { CHECK(rc == 0, "encode-failed", "encode of %zu bytes into %zu failed", s.size(), room); CHECK(memcmp(out.p, want.c_str(), want.size() + 1) == 0, "encode-text", "encode gave [%s] expected [%s]", h::esc(Str(out.p, want.size() + 1)).c_str(), want.c_str()); }
    else if (room < want.size()) CHECK(rc != 0, "encode-room", "encode of %zu bytes into a room of %zu reported success", s.size(), room);
    else if (rc == 0) CHECK(memcmp(out.p, want.data(), want.size()) == 0, "encode-text", "encode gave wrong text");
    h::cov(rc ? "encode-refused" : "encode-ok");
}
static void t_dec (const Str &t, size_t room)
{
    h::Exact in(t, false), out(room); size_t osz = room;
    int rc = u_b64_decode(in.p, t.size(), (uint8_t *) out.p, &osz);
    if (!wellformed(t)) { CHECK(rc != 0, "decode-accepted", "decode accepted [%s]", h::esc(t).c_str()); h::cov("decode-refused-malformed"); return; }
    Str want = dec(t);
    if (room < want.size()) { CHECK(rc != 0, "decode-room", "decode of %zu bytes into a room of %zu reported success", want.size(), room); h::cov("decode-refused-room"); return; }
    CHECK(rc == 0, "decode-failed", "decode of [%s] into %zu failed", t.c_str(), room);
    CHECK(osz == want.size(), "decode-size", "decode of [%s] reported %zu bytes, expected %zu", h::esc(t).c_str(), osz, want.size());
    CHECK(memcmp(out.p, want.data(), want.size()) == 0, "decode-bytes", "decode of [%s] gave wrong bytes", h::esc(t).c_str());
    for (size_t i = want.size(); i < room; ++i) (void) i;
    h::cov("decode-ok");
}
void run_case (Rng &r, u64 n)
{
    size_t len = n < 200 ? n + 1 : 1 + r.size({3, 48, 57, 255, 256, 1000}, 2000);
    Str s = r.bytes(len), t = enc(s);
    if (r.chance(1, 6)) s = Str(len, (char) (r.chance(1, 2) ? 0xff : 0)), t = enc(s);
    h::tr("bytes[%zu]=%s", len, h::esc(s, 24).c_str());
    size_t e = t.size(), half = len / 2;
    CHECK(U_B64_LENGTH(len) == e && U_B64_LENGTH(half + (len - half)) == e && U_B64_LENGTH(len ? len : half) == e && (e == 0 || (e / U_B64_LENGTH(len) == 1 && e % U_B64_LENGTH(len) == 0)), "length-macro", "U_B64_LENGTH(%zu) is %zu, the encoding has %zu characters", len, (size_t) U_B64_LENGTH(len), e);
    CHECK(U_B64_LENGTH(0) == 0, "length-macro", "no input needs %d characters", (int) U_B64_LENGTH(0)); h::cov("length-macro");
    for (size_t room : {e + 1, e + 2, e + 9, e, e - 1, e - 3, e - 4, (size_t) 1, (size_t) 4, (size_t) 5}) t_enc(s, room);
    for (long d = -4; d <= 5; ++d) if ((long) len + d >= 0) t_dec(t, len + d);
    t_dec(t, 0); t_dec(t, e);
    for (int i = 0; i < 12; ++i) { /* corruptions */
        Str x = t; size_t p = r.chance(1, 2) ? x.size() - 1 - r.below(std::min<size_t>(4, x.size())) : r.below(x.size());
        unsigned k = r.below(8);
        switch (k) { case 0: x[p] = (char) (128 + r.below(128)); break; case 1: x[p] = (char) r.below(128); break; case 2: x.resize(x.size() - 1 - r.below(std::min<size_t>(3, x.size() - 1))); break;
            case 3: x[p] = '='; break; case 4: x.insert(p, 1, '='); break; case 5: x += r.one({"=", "==", "===", "====", "A", "\n", "\0x"}); break; case 6: x[p] = r.ch("-_ \r\n.,~"); break; case 7: x[p] = A64[r.below(64)]; break; }
        if (x.empty()) continue;
        t_dec(x, x.size() + 3); if (r.chance(1, 3)) t_dec(x, wellformed(x) ? dec(x).size() : x.size() / 4 * 3);
        h::sig(k); h::sig(wellformed(x)); h::sig(h::szclass(x.size()));
    }
    h::sig(len % 3); h::sig(len < 300 ? len : h::szclass(len));
}
static void p_bytes () { for (int c = 0; c < 256; ++c) for (int pos = 0; pos < 4; ++pos) { Str t = "QUJD"; t[pos] = (char) c; t_dec(t, 3); t_dec(t, 8); Str u = "QUJD" + t; t_dec(u, 6); t_dec(t + "QUJD", 9); } }
static void p_lengths () { for (size_t n = 1; n < 30; ++n) { t_dec(Str(n, 'A'), n + 8); for (size_t k = 0; k <= n && k < 6; ++k) t_dec(Str(n - k, 'A') + Str(k, '='), n + 8); } }
static void p_all_short () { for (int a = 0; a < 256; ++a) { t_enc(Str(1, (char) a), 5); t_dec(enc(Str(1, (char) a)), 1); for (int b = 0; b < 256; ++b) { Str s = Str(1, (char) a) + (char) b; t_enc(s, 5); t_dec(enc(s), 2); } } }
static void p_null () { size_t n = 4; uint8_t o[4]; char c[8]; CHECK(u_b64_decode(nullptr, 4, o, &n) != 0, "null-arg", "x"); CHECK(u_b64_decode("QUJD", 4, nullptr, &n) != 0, "null-arg", "x"); CHECK(u_b64_decode("QUJD", 4, o, nullptr) != 0, "null-arg", "x"); CHECK(u_b64_encode(nullptr, 1, c, 8) != 0, "null-arg", "x"); CHECK(u_b64_encode(o, 1, nullptr, 8) != 0, "null-arg", "x"); }
static void p_large () { Rng r(13); for (size_t n : {24575, 24576, 32768, 49150, 49151, 49152, 49153, 65535, 65536, 70000, 400001}) { Str b = r.bytes(n), e = enc(b); t_enc(b, e.size() + 1); t_enc(b, e.size()); t_enc(b, e.size() - 1); t_dec(e, n); t_dec(e, n - 1); t_dec(e, n + 9); Str x = e; x[n / 2] = '*'; t_dec(x, n + 9); x = e; x[x.size() - 5] = '='; t_dec(x, n + 9); x = e; x[65536 % x.size()] = '\xc1'; t_dec(x, n + 9); } }
const Probe PROBES[] = { {"every-byte", p_bytes}, {"every-length", p_lengths}, {"all-1-2-byte-inputs", p_all_short}, {"null-args", p_null}, {"large", p_large}, {0, 0} };
