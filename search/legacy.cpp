#include "tlapack/legacy_api/blas.hpp"
#include "tlapack/legacy_api/lapack.hpp"
#include "blas.hpp"
using namespace S;
namespace L_ = tlapack::legacy;
using tlapack::legacy::int_t;
using tlapack::legacy::MatrixType;

// vector behind a pointer with any nonzero stride; entry i of a vector with a
// negative stride is counted from the other end, as in the BLAS
template <class T> struct SVec {
    idx n, off;
    long inc;
    std::vector<T> b, snap;
    SVec(Rng& r, idx n_, bool pos = false) : n(n_)
    {
        static const long v[] = {1, 1, 2, 3, -1, -1, -2, -3};
        inc = v[r.in(0, pos ? 3 : 7)];
        off = r.in(0, 3);
        b.assign(off + std::labs(inc) * (n + 1) + 4, rd<T>::nan());
        for (idx i = 0; i < n; ++i) at(i) = rv<T>(r);
    }
    idx pos(idx i) const { return off + (inc > 0 ? i * idx(inc) : (n - 1 - i) * idx(-inc)); }
    T& at(idx i) { return b[pos(i)]; }
    const T& at(idx i) const { return b[pos(i)]; }
    const T& old(idx i) const { return snap[pos(i)]; }
    T* p() { return b.data() + off; }
    void save() { snap = b; }
    bool kept(bool content) const
    {
        std::vector<char> in(b.size(), 0);
        if (content) for (idx i = 0; i < n; ++i) in[pos(i)] = 1;
        for (idx k = 0; k < b.size(); ++k) if (!in[k] && !same(b[k], snap[k])) return false;
        return true;
    }
};
template <class T, Layout L> T* ptr(Mat<T, L>& A) { return A.b.data() + A.off; }
#define LT Layout(L1)
#define TL(...) TYPES(R.say("layout", L1 == Layout::ColMajor ? "C" : "R"); __VA_ARGS__)
static bool poisoned(Rng& r) { return r.p(.4); }
template <class M> void realdiag(M& A)
{
    for (idx i = 0; i < std::min(A.m, A.n); ++i) A.at(i, i) = std::real(A.at(i, i));
}

CASE(lgemm)
{
    TL(idx m = dim(r); idx n = dim(r); idx k = dim(r); Op ta = rop(r); Op tb = rop(r);
       R.say("m", m, "n", n, "k", k, c(ta), c(tb));
       Mat<T, L1> A(r, ta == Op::NoTrans ? m : k, ta == Op::NoTrans ? k : m); Mat<T, L1> B(r, tb == Op::NoTrans ? k : n, tb == Op::NoTrans ? n : k); Mat<T, L1> C(r, m, n);
       T al = rs<T>(r); T be = rs<T>(r); A.save(); B.save(); C.save(); auto a = A.view(); auto b = B.view();
       L_::gemm(LT, ta, tb, m, n, k, al, ptr(A), A.ld, ptr(B), B.ld, be, ptr(C), C.ld);
       checkM(R, "C", C, "value", all, [&](idx i, idx j) { Z s = 0; for (idx l = 0; l < k; ++l) s += Z(opel(ta, a, i, l)) * Z(opel(tb, b, l, j)); return Z(al) * s + Z(be) * Z(C.old(i, j)); });
       input(R, "A", A); input(R, "B", B);)
}
template <bool H> void lxxmm(Rng& r, Rep& R)
{
    TL(idx m = dim(r); idx n = dim(r); Side sd = rside(r); Uplo u = ru(r); bool ph = poisoned(r); idx d = sd == Side::Left ? m : n;
       R.say("m", m, "n", n, c(sd), c(u), ph);
       Mat<T, L1> A(r, d, d); Mat<T, L1> B(r, m, n); Mat<T, L1> C(r, m, n); T al = rs<T>(r); T be = rs<T>(r);
       if (ph) A.fill([&](idx i, idx j) { return !intri(u, i, j); }, rd<T>::nan());
       A.save(); B.save(); C.save();
       if constexpr (H) L_::hemm(LT, sd, u, m, n, al, ptr(A), A.ld, ptr(B), B.ld, be, ptr(C), C.ld);
       else L_::symm(LT, sd, u, m, n, al, ptr(A), A.ld, ptr(B), B.ld, be, ptr(C), C.ld);
       checkM(R, "C", C, "value", all, [&](idx i, idx j) {
           Z s = 0;
           if (sd == Side::Left) for (idx l = 0; l < m; ++l) s += S::herm(A, u, H, i, l) * Z(B.at(l, j));
           else for (idx l = 0; l < n; ++l) s += Z(B.at(i, l)) * S::herm(A, u, H, l, j);
           return Z(al) * s + Z(be) * Z(C.old(i, j)); });
       input(R, "A", A); input(R, "B", B);)
}
CASE(lhemm) { lxxmm<true>(r, R); }
CASE(lsymm) { lxxmm<false>(r, R); }
template <bool H, bool TWO> void lxxrk(Rng& r, Rep& R)
{
    TL(typedef typename std::conditional<H, D, T>::type S1; typedef typename std::conditional<H && !TWO, D, T>::type SA;
       idx n = dim(r); idx k = dim(r); Uplo u = ru(r); Op o = r.p(.5) ? Op::NoTrans : H ? Op::ConjTrans : Op::Trans; bool ph = poisoned(r);
       R.say("n", n, "k", k, c(u), c(o), ph);
       idx am = o == Op::NoTrans ? n : k; idx an = o == Op::NoTrans ? k : n;
       Mat<T, L1> A(r, am, an); Mat<T, L1> B(r, am, an); Mat<T, L1> C(r, n, n); SA al = rs<SA>(r); S1 be = rs<S1>(r);
       auto st = [&](idx i, idx j) { return intri(u, i, j); };
       if (H) realdiag(C);
       if (ph) C.fill([&](idx i, idx j) { return !st(i, j); }, rd<T>::nan());
       A.save(); B.save(); C.save(); auto a = A.view(); auto b = B.view();
       if constexpr (H && TWO) L_::her2k(LT, u, o, n, k, al, ptr(A), A.ld, ptr(B), B.ld, be, ptr(C), C.ld);
       else if constexpr (TWO) L_::syr2k(LT, u, o, n, k, al, ptr(A), A.ld, ptr(B), B.ld, be, ptr(C), C.ld);
       else if constexpr (H) L_::herk(LT, u, o, n, k, al, ptr(A), A.ld, be, ptr(C), C.ld);
       else L_::syrk(LT, u, o, n, k, al, ptr(A), A.ld, be, ptr(C), C.ld);
       auto q = [&](Z x) { return H ? std::conj(x) : x; };
       checkM(R, "C", C, "value", st, [&](idx i, idx j) {
           Z s = 0; Z t = 0;
           for (idx l = 0; l < k; ++l)
               if (TWO) { s += Z(opel(o, a, i, l)) * q(Z(opel(o, b, j, l))); t += Z(opel(o, b, i, l)) * q(Z(opel(o, a, j, l))); }
               else s += Z(opel(o, a, i, l)) * q(Z(opel(o, a, j, l)));
           return Z(al) * s + (TWO ? q(Z(al)) * t : Z(0)) + Z(be) * Z(C.old(i, j)); });
       input(R, "A", A); input(R, "B", B);)
}
CASE(lherk) { lxxrk<true, false>(r, R); }
CASE(lsyrk) { lxxrk<false, false>(r, R); }
CASE(lher2k) { lxxrk<true, true>(r, R); }
CASE(lsyr2k) { lxxrk<false, true>(r, R); }
template <bool SOLVE> void ltrxm(Rng& r, Rep& R)
{
    TL(idx m = dim(r); idx n = dim(r); Side sd = rside(r); Uplo u = ru(r); Op o = rop(r); Diag dg = rdiag(r); bool ph = poisoned(r); idx d = sd == Side::Left ? m : n;
       R.say("m", m, "n", n, c(sd), c(u), c(o), c(dg), ph);
       Mat<T, L1> A(r, d, d); Mat<T, L1> B(r, m, n); T al = rs<T>(r);
       if (SOLVE) { easy_diag(A, r); tame(A); }
       auto st = [&](idx i, idx j) { return intri(u, i, j) && (i != j || dg == Diag::NonUnit); };
       if (ph) A.fill([&](idx i, idx j) { return !st(i, j); }, rd<T>::nan());
       A.save(); B.save();
       if constexpr (SOLVE) L_::trsm(LT, sd, u, o, dg, m, n, al, ptr(A), A.ld, ptr(B), B.ld);
       else L_::trmm(LT, sd, u, o, dg, m, n, al, ptr(A), A.ld, ptr(B), B.ld);
       auto prod = [&](auto X, idx i, idx j, double& sc) {
           Z s = 0; sc = 0;
           for (idx l = 0; l < d; ++l) {
               idx p = sd == Side::Left ? i : l; idx q = sd == Side::Left ? l : j;
               if (!trnz(u, o, p, q)) continue;
               Z t = trop(A, u, dg, o, p, q) * Z(sd == Side::Left ? X(l, j) : X(i, l)); s += t; sc += std::abs(t);
           }
           return s; };
       double sc = 0;
       if (!SOLVE) checkM(R, "B", B, "value", all, [&](idx i, idx j) { return Z(al) * prod([&](idx p, idx q) { return B.old(p, q); }, i, j, sc); });
       else {
           for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) {
               Z s = prod([&](idx p, idx q) { return B.at(p, q); }, i, j, sc); Z w = Z(al) * Z(B.old(i, j));
               if (!near(s, w, sc)) R.fail("value", str2("(op(A) X)", i, j, s, w));
           }
           if (!B.kept(all)) R.fail("frame", "B: element outside the matrix modified");
       }
       input(R, "A", A);)
}
CASE(ltrmm) { ltrxm<false>(r, R); }
CASE(ltrsm) { ltrxm<true>(r, R); }
template <bool SOLVE> void ltrxv(Rng& r, Rep& R)
{
    TL(idx n = dim(r); Uplo u = ru(r); Op o = rop(r); Diag dg = rdiag(r); bool ph = poisoned(r);
       Mat<T, L1> A(r, n, n); SVec<T> x(r, n);
       R.say("n", n, c(u), c(o), c(dg), ph, "incx", x.inc);
       if (SOLVE) { easy_diag(A, r); tame(A); }
       if (ph) A.fill([&](idx i, idx j) { return !(intri(u, i, j) && (i != j || dg == Diag::NonUnit)); }, rd<T>::nan());
       A.save(); x.save();
       if constexpr (SOLVE) L_::trsv(LT, u, o, dg, n, ptr(A), A.ld, x.p(), x.inc);
       else L_::trmv(LT, u, o, dg, n, ptr(A), A.ld, x.p(), x.inc);
       for (idx i = 0; i < n; ++i) {
           Z s = 0; double sc = 0;
           for (idx l = 0; l < n; ++l) if (trnz(u, o, i, l)) { Z t = trop(A, u, dg, o, i, l) * Z(SOLVE ? x.at(l) : x.old(l)); s += t; sc += std::abs(t); }
           Z g = SOLVE ? s : Z(x.at(i)); Z w = SOLVE ? Z(x.old(i)) : s;
           if (!near(g, w, sc)) { R.fail("value", str2("x", i, 0, g, w)); break; }
       }
       if (!x.kept(true)) R.fail("frame", "x: element outside the vector modified");
       input(R, "A", A);)
}
CASE(ltrmv) { ltrxv<false>(r, R); }
CASE(ltrsv) { ltrxv<true>(r, R); }
CASE(lgemv)
{
    TL(idx m = dim(r); idx n = dim(r); Op o = rop(r); bool nt = o == Op::NoTrans; idx k = nt ? n : m;
       Mat<T, L1> A(r, m, n); SVec<T> x(r, k); SVec<T> y(r, nt ? m : n); T al = rs<T>(r); T be = rs<T>(r);
       R.say("m", m, "n", n, c(o), "incx", x.inc, "incy", y.inc);
       A.save(); x.save(); y.save();
       L_::gemv(LT, o, m, n, al, ptr(A), A.ld, x.p(), x.inc, be, y.p(), y.inc);
       auto a = A.view();
       checkV(R, "y", y, "value", [&](idx i) { if (m == 0 || n == 0) return Z(y.old(i)); Z s = 0; for (idx l = 0; l < k; ++l) s += Z(opel(o, a, i, l)) * Z(x.at(l)); return Z(al) * s + Z(be) * Z(y.old(i)); });
       input(R, "A", A); inputv(R, "x", x);)
}
template <bool C_> void lgerx(Rng& r, Rep& R)
{
    TL(idx m = dim(r); idx n = dim(r); Mat<T, L1> A(r, m, n); SVec<T> x(r, m); SVec<T> y(r, n); T al = rs<T>(r);
       R.say("m", m, "n", n, "incx", x.inc, "incy", y.inc);
       A.save(); x.save(); y.save();
       if constexpr (C_) L_::ger(LT, m, n, al, x.p(), x.inc, y.p(), y.inc, ptr(A), A.ld); else L_::geru(LT, m, n, al, x.p(), x.inc, y.p(), y.inc, ptr(A), A.ld);
       checkM(R, "A", A, "value", all, [&](idx i, idx j) { Z t = C_ ? std::conj(Z(y.at(j))) : Z(y.at(j)); return Z(A.old(i, j)) + Z(al) * (Z(x.at(i)) * t); });
       inputv(R, "x", x); inputv(R, "y", y);)
}
CASE(lger) { lgerx<true>(r, R); }
CASE(lgeru) { lgerx<false>(r, R); }
template <bool H> void lxxmv(Rng& r, Rep& R)
{
    TL(idx n = dim(r); Uplo u = ru(r); bool ph = poisoned(r); Mat<T, L1> A(r, n, n); SVec<T> x(r, n); SVec<T> y(r, n); T al = rs<T>(r); T be = rs<T>(r);
       R.say("n", n, c(u), ph, "incx", x.inc, "incy", y.inc);
       if (ph) A.fill([&](idx i, idx j) { return !intri(u, i, j); }, rd<T>::nan());
       A.save(); x.save(); y.save();
       if constexpr (H) L_::hemv(LT, u, n, al, ptr(A), A.ld, x.p(), x.inc, be, y.p(), y.inc); else L_::symv(LT, u, n, al, ptr(A), A.ld, x.p(), x.inc, be, y.p(), y.inc);
       checkV(R, "y", y, "value", [&](idx i) { Z s = 0; for (idx l = 0; l < n; ++l) s += S::herm(A, u, H, i, l) * Z(x.at(l)); return Z(al) * s + Z(be) * Z(y.old(i)); });
       input(R, "A", A); inputv(R, "x", x);)
}
CASE(lhemv) { lxxmv<true>(r, R); }
CASE(lsymv) { lxxmv<false>(r, R); }
template <bool H, bool TWO> void lxxr(Rng& r, Rep& R)
{
    TL(typedef typename std::conditional<H && !TWO, D, T>::type SA; idx n = dim(r); Uplo u = ru(r); bool ph = poisoned(r);
       Mat<T, L1> A(r, n, n); SVec<T> x(r, n); SVec<T> y(r, n); SA al = rs<SA>(r);
       R.say("n", n, c(u), ph, "incx", x.inc, "incy", y.inc);
       auto st = [&](idx i, idx j) { return intri(u, i, j); };
       if (H) realdiag(A);
       if (ph) A.fill([&](idx i, idx j) { return !st(i, j); }, rd<T>::nan());
       A.save(); x.save(); y.save();
       if constexpr (H && TWO) L_::her2(LT, u, n, al, x.p(), x.inc, y.p(), y.inc, ptr(A), A.ld);
       else if constexpr (TWO) L_::syr2(LT, u, n, al, x.p(), x.inc, y.p(), y.inc, ptr(A), A.ld);
       else if constexpr (H) L_::her(LT, u, n, al, x.p(), x.inc, ptr(A), A.ld);
       else L_::syr(LT, u, n, al, x.p(), x.inc, ptr(A), A.ld);
       auto q = [&](Z t) { return H ? std::conj(t) : t; };
       checkM(R, "A", A, "value", st, [&](idx i, idx j) {
           if (TWO) return Z(A.old(i, j)) + Z(al) * Z(x.at(i)) * q(Z(y.at(j))) + q(Z(al)) * Z(y.at(i)) * q(Z(x.at(j)));
           return Z(A.old(i, j)) + Z(al) * Z(x.at(i)) * q(Z(x.at(j))); });
       inputv(R, "x", x); inputv(R, "y", y);)
}
CASE(lher) { lxxr<true, false>(r, R); }
CASE(lsyr) { lxxr<false, false>(r, R); }
CASE(lher2) { lxxr<true, true>(r, R); }
CASE(lsyr2) { lxxr<false, true>(r, R); }
CASE(lvec)
{
    TYPES(idx n = dim(r); int w = r.in(0, 8); bool pos = w == 3 || w >= 7; SVec<T> x(r, n, pos); SVec<T> y(r, n); T al = rs<T>(r);
          R.say("n", n, "routine", w, "incx", x.inc, "incy", y.inc);
          x.save(); y.save();
          auto ox = [&](idx i) { return Z(x.old(i)); }; auto oy = [&](idx i) { return Z(y.old(i)); };
          std::function<Z(idx)> nx = ox; std::function<Z(idx)> ny = oy; Z ret = 0; Z want = 0; bool cmp = false;
          if (w == 0) { L_::axpy(n, al, x.p(), x.inc, y.p(), y.inc); ny = [&](idx i) { return oy(i) + Z(al) * ox(i); }; }
          if (w == 1) { L_::copy(n, x.p(), x.inc, y.p(), y.inc); ny = ox; }
          if (w == 2) { L_::swap(n, x.p(), x.inc, y.p(), y.inc); ny = ox; nx = oy; }
          if (w == 3) { L_::scal(n, al, x.p(), x.inc); nx = [&](idx i) { return Z(al) * ox(i); }; }
          if (w == 4) { ret = L_::dot(n, x.p(), x.inc, y.p(), y.inc); cmp = true; for (idx i = 0; i < n; ++i) want += std::conj(ox(i)) * oy(i); }
          if (w == 5) { ret = L_::dotu(n, x.p(), x.inc, y.p(), y.inc); cmp = true; for (idx i = 0; i < n; ++i) want += ox(i) * oy(i); }
          if (w == 6) {
              D cc = r.in(-2, 2); T ss = rv<T>(r);
              L_::rot(n, x.p(), x.inc, y.p(), y.inc, cc, ss);
              nx = [=](idx i) { return cc * ox(i) + Z(ss) * oy(i); }; ny = [=](idx i) { return cc * oy(i) - std::conj(Z(ss)) * ox(i); };
          }
          if (w == 7) {
              ret = L_::asum(n, x.p(), x.inc); cmp = true;
              for (idx i = 0; i < n; ++i) want += std::fabs(ox(i).real()) + std::fabs(ox(i).imag());
          }
          if (w == 8) {
              ret = L_::nrm2(n, x.p(), x.inc); cmp = true; D s = 0;
              for (idx i = 0; i < n; ++i) s += std::norm(ox(i));
              want = std::sqrt(s);
          }
          if (cmp && !near(ret, want, 100)) R.fail("value", str2("result", 0, 0, ret, want));
          checkV(R, "x", x, "value", nx); checkV(R, "y", y, "value", ny);)
}
CASE(liamax)
{
    TYPES(idx n = dim(r); SVec<T> x(r, n, true);
          R.say("n", n, "incx", x.inc); x.save();
          idx k = L_::iamax(n, x.p(), x.inc);
          auto a1 = [&](idx i) { return std::fabs(std::real(x.at(i))) + std::fabs(std::imag(x.at(i))); };
          if (n) {
              if (k >= n) R.fail("value", "index out of range");
              else for (idx i = 0; i < n; ++i) if (a1(i) > a1(k) || (i < k && a1(i) == a1(k))) { R.fail("value", "not the first entry of largest |re|+|im|"); break; }
          }
          else if (k != 0) R.fail("value", "empty vector: index must be 0");
          inputv(R, "x", x);)
}
CASE(lrotm)
{
    idx n = dim(r); SVec<D> x(r, n); SVec<D> y(r, n); D p[5]; int fl = r.in(-2, 1); p[0] = fl;
    for (int i = 1; i < 5; ++i) p[i] = r.in(-3, 3);
    R.say("n", n, "flag", fl, "incx", x.inc, "incy", y.inc);
    x.save(); y.save();
    L_::rotm(n, x.p(), x.inc, y.p(), y.inc, p);
    // H = [h11 h12; h21 h22] stored as h11, h21, h12, h22
    D h11 = fl == -1 || fl == 1 ? p[1] : 1, h21 = fl == -1 || fl == 0 ? p[2] : fl == 1 ? -1 : 0, h12 = fl == -1 || fl == 0 ? p[3] : fl == 1 ? 1 : 0, h22 = fl == -1 || fl == 1 ? p[4] : 1;
    checkV(R, "x", x, "value", [&](idx i) { return Z(h11 * x.old(i) + h12 * y.old(i)); });
    checkV(R, "y", y, "value", [&](idx i) { return Z(h21 * x.old(i) + h22 * y.old(i)); });
}
CASE(lrotmg)
{
    D d1 = std::fabs(r.uni()) * 4 + .1, d2 = r.p(.2) ? 0 : r.uni() * 4, a = r.p(.1) ? 0 : r.uni() * 4, b = r.p(.1) ? 0 : r.uni() * 4, p[5] = {0, 0, 0, 0, 0};
    R.say("d1", d1, "d2", d2, "a", a, "b", b);
    D e1 = d1, e2 = d2, ea = a, h[4] = {0, 0, 0, 0};
    L_::rotmg(&d1, &d2, &a, b, p);
    D f = tlapack::rotmg(e1, e2, ea, b, h);
    if (!same(f, p[0]) || !same(d1, e1) || !same(d2, e2) || !same(a, ea)) R.fail("value", "legacy::rotmg differs from rotmg");
    for (int i = 0; i < 4; ++i) if (!same(h[i], p[1 + i])) R.fail("value", "legacy::rotmg parameters differ from rotmg");
}
CASE(lrotg)
{
    TYPES(T a = rv<T>(r); T b = rv<T>(r); T a0 = a; T b0 = b; D cc = 7; T ss = T(7);
          R.say("a", a, "b", b);
          L_::rotg(&a, &b, &cc, &ss);
          if (!near(Z(cc) * Z(a0) + Z(ss) * Z(b0), Z(a), 10)) R.fail("value", "c a + s b is not r");
          if (!near(-std::conj(Z(ss)) * Z(a0) + Z(cc) * Z(b0), Z(0), 10)) R.fail("value", "-conj(s) a + c b is not 0");
          if (!near(cc * cc + std::norm(Z(ss)), 1.0)) R.fail("value", "c^2 + |s|^2 is not 1");)
}

// ---------------------------------------------------------------- LAPACK half
// the view routine, applied to a compact copy, is the reference (its own
// contract is the subject of the other properties)
template <class T> struct Cp {
    idx m, n;
    std::vector<T> b;
    template <class M> explicit Cp(const M& A) : m(A.m), n(A.n), b(std::max<idx>(1, A.m) * A.n + 1)
    {
        for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) b[i + j * m] = A.at(i, j);
    }
    T& operator()(idx i, idx j) { return b[i + j * m]; }
    LegacyMatrix<T, idx> view() { return LegacyMatrix<T, idx>(m, n, b.data()); }
};
template <class M, class C, class In> void cmp(Rep& R, const char* nm, M& A, C& w, In in)
{
    checkM(R, nm, A, "value", in, [&](idx i, idx j) { return Z(w(i, j)); });
}
template <class T> void cmpv(Rep& R, const char* nm, std::vector<T>& x, idx n, std::vector<T>& w, T guard)
{
    for (idx i = 0; i < n; ++i) if (!near(x[i], w[i])) { R.fail("value", str2(nm, i, 0, x[i], Z(w[i]))); return; }
    for (idx i = n; i < x.size(); ++i) if (!same(x[i], guard)) R.fail("frame", std::string(nm) + ": written past its end");
}
#define CT(...) TYPES(constexpr Layout CM = Layout::ColMajor; __VA_ARGS__)

CASE(llaset)
{
    CT(idx m = dim(r); idx n = dim(r); Mat<T, CM> A(r, m, n); int w = r.in(0, 2); T al = rv<T>(r); T be = rv<T>(r); bool mt = r.p(.5);
       R.say("m", m, "n", n, "part", w, "matrixtype", mt); A.save();
       MatrixType t = w == 0 ? MatrixType::Upper : w == 1 ? MatrixType::Lower : MatrixType::General; Uplo u = w == 0 ? Uplo::Upper : w == 1 ? Uplo::Lower : Uplo::General;
       if (mt) L_::laset(t, m, n, al, be, ptr(A), A.ld); else L_::laset(u, m, n, al, be, ptr(A), A.ld);
       checkM(R, "A", A, "value", [&](idx i, idx j) { return w == 2 || (w == 0 ? i <= j : i >= j); }, [&](idx i, idx j) { return Z(i == j ? be : al); });)
}
CASE(llacpy)
{
    CT(idx m = dim(r); idx n = dim(r); Mat<T, CM> A(r, m, n); Mat<T, CM> B(r, m, n); int w = r.in(0, 2); bool mt = r.p(.5);
       R.say("m", m, "n", n, "part", w, "matrixtype", mt); A.save(); B.save();
       MatrixType t = w == 0 ? MatrixType::Upper : w == 1 ? MatrixType::Lower : MatrixType::General; Uplo u = w == 0 ? Uplo::Upper : w == 1 ? Uplo::Lower : Uplo::General;
       if (mt) L_::lacpy(t, m, n, ptr(A), A.ld, ptr(B), B.ld); else L_::lacpy(u, m, n, ptr(A), A.ld, ptr(B), B.ld);
       checkM(R, "B", B, "value", [&](idx i, idx j) { return w == 2 || (w == 0 ? i <= j : i >= j); }, [&](idx i, idx j) { return Z(A.at(i, j)); });
       input(R, "A", A);)
}
CASE(lnorm)
{
    CT(int w = r.in(0, 3); idx m = dim(r); idx n = w == 0 || w == 3 ? dim(r) : m; int nt = r.in(0, 3); Uplo u = ru(r); Diag dg = rdiag(r);
       Norm N = nt == 0 ? Norm::Max : nt == 1 ? Norm::One : nt == 2 ? Norm::Inf : Norm::Fro;
       Mat<T, CM> A(r, m, n);
       R.say("m", m, "n", n, "routine", w, "norm", nt, c(u), c(dg));
       auto el = [&](idx i, idx j) {
           if (w == 0) return Z(A.at(i, j));
           if (w == 3) return i == j && dg == Diag::Unit ? Z(1) : intri(u, i, j) ? Z(A.at(i, j)) : Z(0);
           return S::herm(A, u, w == 2, i, j); };
       auto ref = [&](idx i, idx j) { return w == 0 || (intri(u, i, j) && !(w == 3 && dg == Diag::Unit && i == j)); };
       A.fill([&](idx i, idx j) { return !ref(i, j); }, rd<T>::nan());
       A.save();
       D g = w == 0 ? L_::lange(N, m, n, ptr(A), A.ld) : w == 1 ? L_::lansy(N, u, m, ptr(A), A.ld) : w == 2 ? L_::lanhe(N, u, m, ptr(A), A.ld) : L_::lantr(N, u, dg, m, n, ptr(A), A.ld);
       D want = 0; D ss = 0; std::vector<D> row(m, 0.); std::vector<D> col(n, 0.);
       for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) { D x = std::abs(el(i, j)); ss += x * x; row[i] += x; col[j] += x; if (nt == 0) want = std::max(want, x); }
       if (nt == 1) for (D x : col) want = std::max(want, x);
       if (nt == 2) for (D x : row) want = std::max(want, x);
       if (nt == 3) want = std::sqrt(ss);
       if (!near(g, Z(want))) R.fail("value", "norm " + str(g) + ", contract requires " + str(want));
       input(R, "A", A);)
}
CASE(llascl)
{
    CT(idx m = dim(r); idx n = dim(r); int w = r.in(0, 3); Mat<T, CM> A(r, m, n); D b = r.in(1, 8); D a = r.in(-8, 8);
       R.say("m", m, "n", n, "type", w, "b", b, "a", a); A.save();
       MatrixType t = w == 0 ? MatrixType::General : w == 1 ? MatrixType::Lower : w == 2 ? MatrixType::Upper : MatrixType::Hessenberg;
       int info = L_::lascl(t, 0, 0, b, a, m, n, ptr(A), A.ld);
       if (info) R.fail("value", "nonzero return");
       checkM(R, "A", A, "value", [&](idx i, idx j) { return w == 0 || (w == 1 ? i >= j : w == 2 ? i <= j : i <= j + 1); }, [&](idx i, idx j) { return Z(A.old(i, j)) * a / b; });)
}
CASE(llassq)
{
    CT(idx n = dim(r); SVec<T> x(r, n); D s = r.in(0, 3); D q = r.in(0, 4);
       R.say("n", n, "incx", x.inc, "scale", s, "sumsq", q); x.save();
       D want = s * s * q; for (idx i = 0; i < n; ++i) want += std::norm(Z(x.at(i)));
       L_::lassq(n, x.p(), x.inc, s, q);
       if (!near(s * s * q, Z(want))) R.fail("value", "scale^2 sumsq = " + str(s * s * q) + ", contract requires " + str(want));
       inputv(R, "x", x);)
}
CASE(llarnv)
{
    CT(idx n = dim(r); int d = r.in(1, 5); if (!cplx && d > 3) d -= 2; idx seed = r.in(0, 100000); idx s2 = seed;
       R.say("n", n, "dist", d, "seed", seed);
       std::vector<T> x(n + 3, T(77)); std::vector<T> w(n, T(0)); w.resize(n);
       L_::larnv(idx(d), &seed, n, x.data());
       std::vector<T> y(w);
       if (d == 1) tlapack::larnv<1>(s2, y); else if (d == 2) tlapack::larnv<2>(s2, y); else if (d == 3) tlapack::larnv<3>(s2, y); else if (d == 4) tlapack::larnv<4>(s2, y); else tlapack::larnv<5>(s2, y);
       cmpv(R, "x", x, n, y, T(77));
       if (seed != s2) R.fail("value", "the seed returned differs from larnv's");)
}
CASE(llarfg)
{
    CT(idx n = 1 + dim(r); SVec<T> x(r, n - 1); T al = rv<T>(r); T a0 = al; T tau = T(9); bool pp = r.p(.5);
       R.say("n", n, "incx", x.inc, "alpha", al); x.save();
       if (pp) L_::larfg(n, &al, x.p(), x.inc, &tau); else L_::larfg(n, al, x.p(), x.inc, tau);
       // H^H (alpha; x) = (beta; 0), beta real, H = I - tau (1; v) (1; v)^H
       Z s = Z(a0); D nv = 1;
       for (idx i = 0; i + 1 < n; ++i) { s += std::conj(Z(x.at(i))) * Z(x.old(i)); nv += std::norm(Z(x.at(i))); }
       Z t = std::conj(Z(tau)) * s;
       if (!near(Z(a0) - t, Z(al), 10)) R.fail("value", "the first entry of H^H x is not beta");
       for (idx i = 0; i + 1 < n; ++i) if (!near(Z(x.old(i)) - t * Z(x.at(i)), Z(0), 10)) { R.fail("value", "H^H x is not zero below the first entry"); break; }
       if (!near(std::norm(Z(tau)) * nv, 2 * Z(tau).real())) R.fail("value", "H is not unitary");
       if (std::fabs(Z(al).imag()) > 0) R.fail("value", "beta is not real");
       if (!x.kept(true)) R.fail("frame", "x: element outside the vector modified");)
}
CASE(llarf)
{
    CT(idx m = 1 + dim(r); idx n = 1 + dim(r); Side sd = rside(r); idx k = sd == Side::Left ? m : n; SVec<T> v(r, k); Mat<T, CM> C(r, m, n); T tau = rv<T>(r);
       R.say("m", m, "n", n, c(sd), "incv", v.inc); v.at(0) = rd<T>::nan(); v.save(); C.save();
       L_::larf(sd, m, n, v.p(), v.inc, tau, ptr(C), C.ld);
       auto V = [&](idx i) { return i == 0 ? Z(1) : Z(v.at(i)); };
       checkM(R, "C", C, "value", all, [&](idx i, idx j) {
           Z s = 0;
           if (sd == Side::Left) { for (idx l = 0; l < m; ++l) s += std::conj(V(l)) * Z(C.old(l, j)); return Z(C.old(i, j)) - Z(tau) * V(i) * s; }
           for (idx l = 0; l < n; ++l) s += Z(C.old(i, l)) * V(l);
           return Z(C.old(i, j)) - Z(tau) * s * std::conj(V(j)); }, 1000);
       if (!v.kept(false)) R.fail("frame", "v was modified");)
}
// reflectors with the structure of direction / storage: entry (i) of reflector l
struct Dir { Direction d; StoreV s; };
template <class M> Z refl(const M& V, Dir d, idx n, idx k, idx i, idx l)
{
    idx one = d.d == Direction::Forward ? l : n - k + l;
    if (i == one) return 1;
    if (d.d == Direction::Forward ? i < one : i > one) return 0;
    return d.s == StoreV::Columnwise ? Z(V.at(i, l)) : std::conj(Z(V.at(l, i)));
}
CASE(llarft)
{
    CT(idx k = r.in(1, 5); idx n = k + r.in(0, 6); Dir d = Dir{r.p(.5) ? Direction::Forward : Direction::Backward, r.p(.5) ? StoreV::Columnwise : StoreV::Rowwise};
       Mat<T, CM> V(r, d.s == StoreV::Columnwise ? n : k, d.s == StoreV::Columnwise ? k : n); Mat<T, CM> W(r, k, k); std::vector<T> tau(k);
       for (auto& x : tau) x = rv<T>(r);
       R.say("n", n, "k", k, (char)d.d, (char)d.s); V.save(); W.save();
       L_::larft(d.d, d.s, n, k, ptr(V), V.ld, tau.data(), ptr(W), W.ld);
       // I - V T V^H is the product of the reflectors
       bool fw = d.d == Direction::Forward;
       auto tw = [&](idx i, idx j) { return (fw ? i <= j : i >= j) ? Z(W.at(i, j)) : Z(0); };
       std::vector<Z> P(n * n, Z(0)); for (idx i = 0; i < n; ++i) P[i + i * n] = 1;
       for (idx q = 0; q < k; ++q) {
           idx l = fw ? q : k - 1 - q;
           for (idx i = 0; i < n; ++i) { Z s = 0; for (idx p = 0; p < n; ++p) s += P[i + p * n] * refl(V, d, n, k, p, l); for (idx p = 0; p < n; ++p) P[i + p * n] -= s * Z(tau[l]) * std::conj(refl(V, d, n, k, p, l)); }
       }
       for (idx i = 0; i < n; ++i) for (idx j = 0; j < n; ++j) {
           Z s = i == j ? 1 : 0; D sc = 1;
           for (idx p = 0; p < k; ++p) for (idx q = 0; q < k; ++q) { Z t = refl(V, d, n, k, i, p) * tw(p, q) * std::conj(refl(V, d, n, k, j, q)); s -= t; sc += std::abs(t); }
           if (!near(s, P[i + j * n], sc)) { R.fail("value", str2("I - V T V^H", i, j, s, P[i + j * n])); i = n - 1; break; }
       }
       if (!W.kept([&](idx i, idx j) { return fw ? i <= j : i >= j; })) R.fail("frame", "T was written outside its triangle");
       input(R, "V", V);)
}
CASE(llarfb)
{
    CT(idx k = r.in(1, 4); Side sd = rside(r); idx m = k + r.in(0, 5); idx n = r.p(.1) ? 0 : r.in(1, 7); if (sd == Side::Right) std::swap(m, n);
       if ((sd == Side::Left ? m : n) < k) k = sd == Side::Left ? m : n;
       Dir d = Dir{r.p(.5) ? Direction::Forward : Direction::Backward, r.p(.5) ? StoreV::Columnwise : StoreV::Rowwise}; Op o = r.p(.5) ? Op::NoTrans : Op::ConjTrans;
       idx q = sd == Side::Left ? m : n; bool fw = d.d == Direction::Forward;
       Mat<T, CM> V(r, d.s == StoreV::Columnwise ? q : k, d.s == StoreV::Columnwise ? k : q); Mat<T, CM> W(r, k, k); Mat<T, CM> C(r, m, n);
       R.say("m", m, "n", n, "k", k, c(sd), c(o), (char)d.d, (char)d.s); V.save(); W.save(); C.save();
       L_::larfb(sd, o, d.d, d.s, m, n, k, ptr(V), V.ld, ptr(W), W.ld, ptr(C), C.ld);
       auto tw = [&](idx i, idx j) { return (fw ? i <= j : i >= j) ? Z(W.at(i, j)) : Z(0); };
       auto H = [&](idx i, idx j) {
           Z s = i == j ? 1 : 0;
           for (idx p = 0; p < k; ++p) for (idx t = 0; t < k; ++t) s -= refl(V, d, q, k, i, p) * (o == Op::NoTrans ? tw(p, t) : std::conj(tw(t, p))) * std::conj(refl(V, d, q, k, j, t));
           return s; };
       checkM(R, "C", C, "value", all, [&](idx i, idx j) { Z s = 0; for (idx l = 0; l < q; ++l) s += sd == Side::Left ? H(i, l) * Z(C.old(l, j)) : Z(C.old(i, l)) * H(l, j); return s; }, 10000);
       input(R, "V", V); input(R, "T", W);)
}
CASE(lgeqr2)
{
    CT(idx m = dim(r); idx n = dim(r); Mat<T, CM> A(r, m, n); R.say("m", m, "n", n); idx k = std::min(m, n);
       std::vector<T> tau(k + 3, T(55)); std::vector<T> t2(k); Cp<T> W(A); A.save();
       int info = L_::geqr2(m, n, ptr(A), A.ld, tau.data());
       auto w = W.view(); if (n) geqr2(w, t2);
       if (info) R.fail("value", "nonzero return");
       cmp(R, "A", A, W, all); cmpv(R, "tau", tau, n ? k : 0, t2, T(55));)
}
CASE(lungq)
{
    CT(idx m = dim(r, false); idx n = m ? r.in(0, m) : 0; idx k = n ? r.in(0, n) : 0; Side sd = rside(r); int w = r.in(0, 2);
       // reflectors from an actual factorization
       idx p = dim(r, false); Op o = r.p(.5) ? Op::NoTrans : cplx ? Op::ConjTrans : r.p(.5) ? Op::Trans : Op::ConjTrans;
       Mat<T, CM> A(r, m, w == 0 ? n : k); std::vector<T> tau(k + 1, T(0)); Mat<T, CM> C(r, sd == Side::Left ? m : p, sd == Side::Left ? p : m);
       R.say("routine", w, "m", m, "n", n, "k", k, "p", p, c(sd), c(o));
       { LegacyMatrix<T, idx> a(m, k, ptr(A), A.ld); std::vector<T> t(k); if (m && k) geqr2(a, t); for (idx i = 0; i < k; ++i) tau[i] = t[i]; }
       A.save(); C.save();
       std::vector<Z> Q(m * m, Z(0)); for (idx i = 0; i < m; ++i) Q[i + i * m] = 1;
       Dir d = Dir{Direction::Forward, StoreV::Columnwise};
       for (idx l = 0; l < k; ++l) for (idx i = 0; i < m; ++i) { Z s = 0; for (idx x = 0; x < m; ++x) s += Q[i + x * m] * refl(A, d, m, k, x, l); for (idx x = 0; x < m; ++x) Q[i + x * m] -= s * Z(tau[l]) * std::conj(refl(A, d, m, k, x, l)); }
       if (w == 0) {
           int info = L_::ung2r(m, n, k, ptr(A), A.ld, tau.data()); if (info) R.fail("value", "nonzero return");
           checkM(R, "Q", A, "value", all, [&](idx i, idx j) { return Q[i + j * m]; });
       }
       else {
           int info = w == 1 ? L_::unm2r(sd, o, C.m, C.n, k, ptr(A), A.ld, tau.data(), ptr(C), C.ld) : L_::unmqr(sd, o, C.m, C.n, k, ptr(A), A.ld, tau.data(), ptr(C), C.ld);
           if (info) R.fail("value", "nonzero return");
           auto q = [&](idx i, idx j) { return o == Op::NoTrans ? Q[i + j * m] : std::conj(Q[j + i * m]); };
           checkM(R, "C", C, "value", all, [&](idx i, idx j) { Z s = 0; for (idx l = 0; l < m; ++l) s += sd == Side::Left ? q(i, l) * Z(C.old(l, j)) : Z(C.old(i, l)) * q(l, j); return s; }, 10);
           input(R, "A", A);
       })
}
CASE(lpotr)
{
    CT(idx n = dim(r); idx h = dim(r); Uplo u = ru(r); Mat<T, CM> G(r, n, n); Mat<T, CM> A(r, n, n); Mat<T, CM> B(r, n, h); bool pd = r.p(.8);
       R.say("n", n, "nrhs", h, c(u), pd);
       for (idx i = 0; i < n; ++i) for (idx j = 0; j < n; ++j) { T s = i == j ? T(2) : T(0); for (idx l = 0; l < n; ++l) s += G.at(i, l) * cj(G.at(j, l)); A.at(i, j) = i == j ? T(std::real(s)) : s; }
       if (!pd && n) { idx k = r.in(0, n - 1); A.at(k, k) = T(-1); }
       auto st = [&](idx i, idx j) { return intri(u, i, j); };
       A.fill([&](idx i, idx j) { return !st(i, j); }, rd<T>::nan());
       A.save(); B.save();
       int info = 0; try { info = L_::potrf(u, n, ptr(A), A.ld); } catch (const std::runtime_error&) { info = 1; }  // the error check may throw instead
       if ((info == 0) != (pd || n == 0)) R.fail("value", "return value " + str(info) + " for a matrix that is " + (pd ? "" : "not ") + "positive definite");
       if (info == 0) {
           checkM(R, "factor", A, "value", st, [&](idx i, idx j) { return Z(A.at(i, j)); });
           bool bad = false;
           for (idx j = 0; j < n && !bad; ++j) for (idx i = 0; i < n && !bad; ++i) if (st(i, j)) {
               Z s = 0; for (idx l = 0; l <= std::min(i, j); ++l) s += u == Uplo::Lower ? Z(A.at(i, l)) * std::conj(Z(A.at(j, l))) : std::conj(Z(A.at(l, i))) * Z(A.at(l, j));
               if (!near(s, Z(A.old(i, j)), 10)) { bad = true; R.fail("value", str2("factor product", i, j, s, Z(A.old(i, j)))); }
           }
           A.snap = std::vector<T>(A.snap); std::vector<T> old = A.snap; A.save();
           int i2 = L_::potrs(u, n, h, ptr(A), A.ld, ptr(B), B.ld); if (i2) R.fail("value", "potrs: nonzero return");
           auto el = [&](idx i, idx j) { Z x = st(i, j) ? Z(old[A.off + i + j * A.ld]) : std::conj(Z(old[A.off + j + i * A.ld])); return x; };
           bool b2 = false;
           for (idx j = 0; j < h && !b2; ++j) for (idx i = 0; i < n && !b2; ++i) { Z s = 0; D sc = 0; for (idx l = 0; l < n; ++l) { Z t = el(i, l) * Z(B.at(l, j)); s += t; sc += std::abs(t); } if (!near(s, Z(B.old(i, j)), sc)) { b2 = true; R.fail("value", str2("A X", i, j, s, Z(B.old(i, j)))); } }
           if (!B.kept(all)) R.fail("frame", "B: element outside the matrix modified");
           input(R, "factor", A);
       }
       else if (!A.kept(st)) R.fail("frame", "A: element outside the triangle modified");)
}
int main(int a, char** b) { return drive(a, b); }
