#include "h.h"
/* dynamic arrays of every type vs an ideal sparse array */
typedef long double ld;
struct Val { ld re = 0, im = 0; u64 in = 0; };
struct Type { u_array_type_t t; const char *name; int (*set) (u_array_t *, size_t, const Val &, Val *old, bool); int (*get) (u_array_t *, size_t, Val *); Val (*gen) (Rng &); };
/* integers are kept apart: valgrind's long double has 53 bits only */
template <class T> static Val to (T v) { Val x; if constexpr (std::is_integral<T>::value) x.in = (u64) v; else x.re = (ld) v; return x; }
template <class T> static T from (const Val &v) { if constexpr (std::is_integral<T>::value) return (T) v.in; else return (T) v.re; }
template <class T, int (*S) (u_array_t *, size_t, T, T *), int (*G) (u_array_t *, size_t, T *)> struct Sc {
    static int set (u_array_t *a, size_t i, const Val &v, Val *o, bool w) { T old = (T) 1, keep = old; int rc = S(a, i, from<T>(v), w ? &old : nullptr); if (o) *o = to(old); if (rc && old != keep) h::fail("failed-set-wrote", "a refused store wrote the old-value result"); return rc; }
    static int get (u_array_t *a, size_t i, Val *o) { T v = (T) 1; int rc = G(a, i, &v); if (rc && v != (T) 1) h::fail("failed-get-wrote", "a refused read wrote its result"); if (!rc) *o = to(v); return rc; }
    static Val gi (Rng &r) { u64 x = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : ~0ULL) : r.chance(1, 3) ? 1ULL << r.below(64) : r.next(); return to((T) x); }
    static Val gf (Rng &r) { ld v = (ld) (int64_t) r.next() / (ld) (1 + r.below(1000)); if (r.chance(1, 6)) v = 1 / (ld) 3 * (ld) r.below(100); return to((T) v); }
};
template <class T, class P, int (*S) (u_array_t *, size_t, T, T *), int (*G) (u_array_t *, size_t, T *)> struct Cx {
    static T mk (const Val &v) { T x; P p[2] = {(P) v.re, (P) v.im}; memcpy(&x, p, sizeof p); return x; }
    static Val un (T x) { P p[2]; memcpy(p, &x, sizeof p); Val v; v.re = p[0]; v.im = p[1]; return v; }
    static int set (u_array_t *a, size_t i, const Val &v, Val *o, bool w) { T old = mk(Val{1, 1}); int rc = S(a, i, mk(v), w ? &old : nullptr); if (o) *o = un(old); return rc; }
    static int get (u_array_t *a, size_t i, Val *o) { T v; memset(&v, 0, sizeof v); int rc = G(a, i, &v); if (!rc) *o = un(v); return rc; }
    static Val gen (Rng &r) { Val v; v.re = (P) ((ld) (int64_t) r.next() / 7); v.im = (P) ((ld) (int64_t) r.next() / 3); return v; }
};
static int pset (u_array_t *a, size_t i, const Val &v, Val *o, bool w) { int rc = (i + v.in) % 3 ? 0 : -1; bool blind = v.in % 7 == 3; void *p = u_array_set_ptr(a, i, (void *) (uintptr_t) v.in, blind ? nullptr : &rc); if (blind) { void *q = u_array_set_ptr(a, i, (void *) (uintptr_t) v.in, &rc); if (q != (rc ? nullptr : (void *) (uintptr_t) v.in)) h::fail("ptr-replaced", "a repeated pointer store replaced %p", q); } if (rc != 0 && rc != -1) h::fail("ptr-verdict", "a pointer store reported %d", rc); if (o) *o = to((uintptr_t) p); if (!w && rc == 0) u_array_set_ptr(a, i, (void *) (uintptr_t) v.in, nullptr); if (rc && p) h::fail("failed-set-wrote", "a refused pointer store returned an old value"); return rc; }
static int pget (u_array_t *a, size_t i, Val *o) { int rc = i % 2 ? 0 : -1; void *p = u_array_get_ptr(a, i, &rc); void *q = u_array_get_ptr(a, i, nullptr); if (p != q) h::fail("ptr-reads-differ", "two reads differ"); if (rc != 0 && rc != -1) h::fail("ptr-verdict", "a pointer read reported %d", rc); if (rc && p) h::fail("failed-get-wrote", "a refused pointer read returned %p", p); if (!rc) *o = to((uintptr_t) p); return rc; }
static Val pgen (Rng &r) { return to((uintptr_t) (r.next() >> 8)); }
#define I(T, n, N) { U_ARRAY_TYPE_##N, #n, Sc<T, u_array_set_##n, u_array_get_##n>::set, Sc<T, u_array_set_##n, u_array_get_##n>::get, Sc<T, u_array_set_##n, u_array_get_##n>::gi }
#define F(T, n, N) { U_ARRAY_TYPE_##N, #n, Sc<T, u_array_set_##n, u_array_get_##n>::set, Sc<T, u_array_set_##n, u_array_get_##n>::get, Sc<T, u_array_set_##n, u_array_get_##n>::gf }
#define X(T, P, n, N) { U_ARRAY_TYPE_##N, #n, Cx<T, P, u_array_set_##n, u_array_get_##n>::set, Cx<T, P, u_array_set_##n, u_array_get_##n>::get, Cx<T, P, u_array_set_##n, u_array_get_##n>::gen }
static const Type T[] = { I(bool, bool, BOOL), I(char, char, CHAR), I(unsigned char, u_char, U_CHAR), I(short, short, SHORT), I(unsigned short, u_short, U_SHORT), I(int, int, INT), I(unsigned, u_int, U_INT), I(long, long, LONG), I(unsigned long, u_long, U_LONG), I(long long, long_long, LONG_LONG), I(unsigned long long, u_long_long, U_LONG_LONG), I(intmax_t, intmax, INTMAX), I(uintmax_t, u_intmax, U_INTMAX), F(float, float, FLOAT), F(double, double, DOUBLE), F(ld, long_double, LONG_DOUBLE), X(float _Complex, float, float_complex, FLOAT_COMPLEX), X(double _Complex, double, double_complex, DOUBLE_COMPLEX), X(long double _Complex, ld, long_double_complex, LONG_DOUBLE_COMPLEX), { U_ARRAY_TYPE_PTR, "ptr", pset, pget, pgen } };
static const unsigned NT = sizeof T / sizeof *T;
static bool eq (const Val &a, const Val &b) { return a.re == b.re && a.im == b.im && a.in == b.in; }
struct Arr {
    const Type &t; u_array_t *a = nullptr; std::map<size_t, Val> m; size_t size;   /* slots known to exist */
    Arr (const Type &t_, size_t n) : t(t_) { CHECK(u_array_create(t.t, n, &a) == 0 && a, "create", "creating %zu slots of %s failed", n, t.name); size = n ? n : U_ARRAY_NSLOTS_DFL; }
    ~Arr () { u_array_free(a); }
    Val at (size_t i) { auto x = m.find(i); return x == m.end() ? Val() : x->second; }
    void get (size_t i) { Val v; int rc = t.get(a, i, &v);
        if (i < size) CHECK(rc == 0, "read-refused", "%s[%zu] of %zu could not be read", t.name, i, size);
        if (i > size * 2 + 100000) CHECK(rc != 0, "read-beyond", "%s[%zu] could be read with size %zu", t.name, i, size);
        if (rc == 0) { Val w = at(i); CHECK(eq(v, w), m.count(i) ? "read" : "read-unset", "%s[%zu] reads %Lg%+Lgi/%llx, expected %Lg%+Lgi/%llx", t.name, i, v.re, v.im, (unsigned long long) v.in, w.re, w.im, (unsigned long long) w.in); } h::cov(m.count(i) ? "reads-of-stored" : "reads-of-unset"); }
    void set (size_t i, const Val &v, bool w) { Val old; int rc = t.set(a, i, v, &old, w); CHECK(rc == 0, "store", "store at %s[%zu] failed", t.name, i); Val e = at(i); if (w || t.t == U_ARRAY_TYPE_PTR) CHECK(eq(old, e), "old-value", "store at %s[%zu] reports old %Lg, expected %Lg (or %llx, %llx)", t.name, i, old.re, e.re, (unsigned long long) old.in, (unsigned long long) e.in); m[i] = v; if (i + 1 > size) { size = i + 1; h::cov("growths"); } h::cov("stores"); }
    void all () { for (auto &x : m) get(x.first); }
};
void run_case (Rng &r, u64 n)
{
    const Type &t = T[n % NT]; size_t init = r.chance(1, 3) ? 0 : r.chance(1, 2) ? 1 + r.below(4) : 1 + r.below(700); Arr A(t, init); h::tr("%s[%zu]", t.name, init); h::sig(n % NT); h::sig(h::szclass(init));
    unsigned ops = h::memcheck ? 40 : 120; size_t span = r.chance(1, 20) && !h::memcheck ? 60000 : r.chance(1, 2) ? 40 : 2500;
    for (unsigned o = 0; o < ops; ++o) { unsigned k = r.below(16); size_t i = r.chance(1, 3) ? A.size + r.below(4) - std::min<size_t>(2, A.size) : r.chance(1, 8) ? A.size + 98 + r.below(5) : r.below(span);
        if (i > 200000) i = r.below(span);
        if (k < 7) { Val v = t.gen(r); bool w = r.chance(1, 2); h::tr("set %zu=%Lg/%llx", i, v.re, (unsigned long long) v.in); A.set(i, v, w); h::sig(i >= A.size); }
        else if (k < 11) { A.get(i); h::sig(8); }
        else if (k < 12) { h::tr("resize %zu", i); CHECK(u_array_resize(A.a, i) == 0, "resize", "resize to reach %zu failed", i); if (i + 1 > A.size) A.size = i + 1; h::sig(h::szclass(i) + 100); h::cov("resizes"); }
        else if (k < 13) { const Type &u = T[r.below(NT)]; if (u.t != t.t) { Val v, x = u.gen(r); CHECK(u.get(A.a, i, &v) != 0, "wrong-type-read", "%s array read as %s", t.name, u.name); CHECK(u.set(A.a, i, x, nullptr, true) != 0, "wrong-type-store", "%s array stored to as %s", t.name, u.name); A.get(i); h::cov("wrong-type-accesses"); } }
        else if (k < 14) { static const size_t big[] = {(size_t) -1, (size_t) -2, (size_t) -3, (size_t) -99, (size_t) -102, (size_t) -103, (size_t) -1 / 2, (size_t) -1 / 4, (size_t) -1 / 8, (size_t) -1 / 16, (size_t) -1 / 32, (size_t) 1 << 60, ((size_t) 1 << 61) + 3, ((size_t) 1 << 62) + 5, (size_t) 1 << 59, (size_t) 1 << 48};
            size_t b = big[r.below(16)] + (r.chance(1, 2) ? 0 : r.below(200) - 100); if (b < (size_t) 1 << 40) b = -1; h::tr("huge %zu", b); Val v, x = t.gen(r); CHECK(u_array_resize(A.a, b) != 0, "huge-resize", "resize of %s to %zu succeeded", t.name, b); CHECK(t.set(A.a, b, x, nullptr, true) != 0, "huge-store", "store at %s[%zu] succeeded", t.name, b); CHECK(t.get(A.a, b, &v) != 0, "huge-read", "read of %s[%zu] succeeded", t.name, b); h::cov("huge-indexes"); if (r.chance(1, 3)) A.all(); }
        else if (k < 15) A.get(A.size + r.below(A.size * 3 + 300000));
        else A.all(); }
    A.all(); for (size_t i = 0; i < std::min<size_t>(A.size, h::memcheck ? 50 : 600); ++i) A.get(i); if (A.size > 50) for (size_t i = A.size - 50; i < A.size; ++i) A.get(i);
}
static void p_types () { Rng r(5); for (auto &t : T) { Arr A(t, 1); for (size_t i = 0; i < 400; ++i) { A.set(i * 3, t.gen(r), true); A.get(i * 3 + 1); } A.all(); } }
static void p_huge_create () { for (auto &t : T) for (size_t n : {(size_t) -1, (size_t) -1 / 2, (size_t) -1 / 3, (size_t) 1 << 62, (size_t) 1 << 50}) { u_array_t *a = nullptr; CHECK(u_array_create(t.t, n, &a) != 0 && a == nullptr, "huge-create", "creating %zu slots of %s succeeded", n, t.name); } u_array_t *a; CHECK(u_array_create(U_ARRAY_TYPE_UNSET, 0, &a) != 0 && u_array_create((u_array_type_t) (U_ARRAY_TYPE_MAX + 1), 0, &a) != 0, "bad-type", "an invalid type was taken"); u_array_free(nullptr); }
const Probe PROBES[] = { {"every-type", p_types}, {"huge-create", p_huge_create}, {0, 0} };
