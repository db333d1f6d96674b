#include "tlapack/blas/gemm.hpp"
#include "tlapack/blas/hemm.hpp"
#include "tlapack/blas/symm.hpp"
#include "tlapack/blas/herk.hpp"
#include "tlapack/blas/syrk.hpp"
#include "tlapack/blas/her2k.hpp"
#include "tlapack/blas/syr2k.hpp"
#include "tlapack/blas/trmm.hpp"
#include "tlapack/blas/trsm.hpp"
#include "tlapack/blas/trmv.hpp"
#include "tlapack/blas/trsv.hpp"
#include "tlapack/blas/gemv.hpp"
#include "tlapack/blas/ger.hpp"
#include "tlapack/blas/geru.hpp"
#include "tlapack/blas/hemv.hpp"
#include "tlapack/blas/symv.hpp"
#include "tlapack/blas/her.hpp"
#include "tlapack/blas/syr.hpp"
#include "tlapack/blas/her2.hpp"
#include "tlapack/blas/syr2.hpp"
#include "tlapack/blas/axpy.hpp"
#include "tlapack/blas/copy.hpp"
#include "tlapack/blas/swap.hpp"
#include "tlapack/blas/scal.hpp"
#include "tlapack/blas/dot.hpp"
#include "tlapack/blas/dotu.hpp"
#include "tlapack/blas/rot.hpp"
#include "tlapack/blas/asum.hpp"
#include "tlapack/blas/nrm2.hpp"
#include "tlapack/blas/iamax.hpp"
#include "blas.hpp"
using namespace S;

// phases: 0 plain, 1 unreferenced cells poisoned, 2 a referenced cell poisoned
static int phase(Rng& r) { int c = r.in(0, 9); return c < 5 ? 0 : c < 8 ? 1 : 2; }
static const char* K[] = {"value", "access", "shortcut"};
template <class T> void scal2(Rng& r, int ph, T& a, T& b) { a = ph == 2 ? rnz<T>(r) : rs<T>(r); b = ph == 2 ? rnz<T>(r) : rs<T>(r); }
template <class M> void poison(Rng& r, M& A, std::function<bool(idx, idx)> ref)
{
    if (A.m == 0 || A.n == 0) return;
    idx i = r.in(0, A.m - 1), j = r.in(0, A.n - 1);
    typedef typename std::decay<decltype(A.at(0, 0))>::type T;
    if (ref(i, j)) A.at(i, j) = r.p(.5) ? T(std::nan("")) : T(INFINITY);
}
template <class M> void poison1(Rng& r, M& A, std::function<bool(idx, idx)> ref)
{
    if (A.m == 0 || A.n == 0) return;
    idx i = r.in(0, A.m - 1), j = r.in(0, A.n - 1);
    typedef typename std::decay<decltype(A.at(0, 0))>::type T;
    if (ref(i, j)) A.at(i, j) = T(std::nan(""));
}
template <class M> void zeros(Rng& r, M& A)
{
    typedef typename std::decay<decltype(A.at(0, 0))>::type T;
    for (idx j = 0; j < A.n; ++j) { double p = r.p(.3) ? 1 : .7; for (idx i = 0; i < A.m; ++i) if (r.p(p)) A.at(i, j) = T(0); }
}
template <class V> void poisonv(Rng& r, V& x)
{
    typedef typename std::decay<decltype(x.at(0))>::type T;
    if (x.n) x.at(r.in(0, x.n - 1)) = T(std::nan(""));
}

CASE(gemm)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); idx k = dim(r);
        Op ta = rop(r); Op tb = rop(r); int ph = phase(r); bool be = r.p(.6);
        R.say("m", m, "n", n, "k", k, c(ta), c(tb), "phase", ph, "beta", be);
        Mat<T, L1> A(r, ta == Op::NoTrans ? m : k, ta == Op::NoTrans ? k : m);
        Mat<T, L2> B(r, tb == Op::NoTrans ? k : n, tb == Op::NoTrans ? n : k);
        Mat<T, L1> C(r, m, n);
        T al; T bt; scal2(r, ph, al, bt);
        if (ph == 1 && !be) C.fill(all, rd<T>::nan());
        if (ph == 2) { int w = r.in(0, 2); if (w == 0) poison(r, A, all); else if (w == 1) poison(r, B, all); else if (be) poison(r, C, all); }
        A.save(); B.save(); C.save();
        auto a = A.view(); auto b = B.view(); auto cc = C.view();
        if (be) gemm(ta, tb, al, a, b, bt, cc); else gemm(ta, tb, al, a, b, cc);
        checkM(R, "C", C, K[ph], all, [&](idx i, idx j) {
            Z s = 0; for (idx l = 0; l < k; ++l) s += Z(opel(ta, a, i, l)) * Z(opel(tb, b, l, j));
            return be ? Z(al) * s + Z(bt) * Z(C.old(i, j)) : Z(al) * s; });
        input(R, "A", A); input(R, "B", B);)
}
template <bool H> void xxmm(Rng& r, Rep& R)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); Side sd = rside(r); Uplo u = ru(r); int ph = phase(r); bool be = r.p(.6);
        idx d = sd == Side::Left ? m : n;
        R.say("m", m, "n", n, c(sd), c(u), "phase", ph, "beta", be);
        Mat<T, L1> A(r, d, d); Mat<T, L2> B(r, m, n); Mat<T, L1> C(r, m, n);
        T al; T bt; scal2(r, ph, al, bt);
        auto st = [&](idx i, idx j) { return intri(u, i, j); };
        if (ph == 1) A.fill([&](idx i, idx j) { return !st(i, j); }, rd<T>::nan());
        if (ph == 1 && !be) C.fill(all, rd<T>::nan());
        if (ph == 2) { int w = r.in(0, 2); if (w == 0) poison(r, A, st); else if (w == 1) poison(r, B, all); else if (be) poison(r, C, all); }
        A.save(); B.save(); C.save();
        auto a = A.view(); auto b = B.view(); auto cc = C.view();
        if constexpr (H) { if (be) hemm(sd, u, al, a, b, bt, cc); else hemm(sd, u, al, a, b, cc); }
        else { if (be) symm(sd, u, al, a, b, bt, cc); else symm(sd, u, al, a, b, cc); }
        checkM(R, "C", C, K[ph], all, [&](idx i, idx j) {
            Z s = 0;
            if (sd == Side::Left) for (idx l = 0; l < m; ++l) s += S::herm(A, u, H, i, l) * Z(B.at(l, j));
            else for (idx l = 0; l < n; ++l) s += Z(B.at(i, l)) * S::herm(A, u, H, l, j);
            return be ? Z(al) * s + Z(bt) * Z(C.old(i, j)) : Z(al) * s; });
        input(R, "A", A); input(R, "B", B);)
}
CASE(hemm) { xxmm<true>(r, R); }
CASE(symm) { xxmm<false>(r, R); }
template <bool H, bool TWO> void xxrk(Rng& r, Rep& R)
{
    TYPES(
        typedef typename std::conditional<H, D, T>::type S1;
        typedef typename std::conditional<H && !TWO, D, T>::type SA;
        idx n = dim(r); idx k = dim(r); Uplo u = ru(r); int ph = phase(r); bool be = r.p(.6);
        Op o = r.p(.5) ? Op::NoTrans : (H && cplx) ? Op::ConjTrans : Op::Trans;
        if (!cplx && H && o != Op::NoTrans) o = Op::ConjTrans;
        R.say("n", n, "k", k, c(u), c(o), "phase", ph, "beta", be);
        idx am = o == Op::NoTrans ? n : k; idx an = o == Op::NoTrans ? k : n;
        Mat<T, L1> A(r, am, an); Mat<T, L2> B(r, am, an); Mat<T, L2> C(r, n, n);
        SA al; S1 bt;
        al = ph == 2 ? rnz<SA>(r) : rs<SA>(r); bt = ph == 2 ? rnz<S1>(r) : rs<S1>(r);
        auto st = [&](idx i, idx j) { return intri(u, i, j); };
        if (ph == 1) C.fill([&](idx i, idx j) { return !be || !st(i, j); }, rd<T>::nan());
        if (ph == 2) { int w = r.in(0, 2); if (w == 0) poison(r, A, all); else if (w == 1) { if (TWO) poison(r, B, all); } else if (be) poison(r, C, st); }
        A.save(); B.save(); C.save();
        auto a = A.view(); auto b = B.view(); auto cc = C.view();
        if constexpr (H && TWO) { if (be) her2k(u, o, al, a, b, bt, cc); else her2k(u, o, al, a, b, cc); }
        else if constexpr (TWO) { if (be) syr2k(u, o, al, a, b, bt, cc); else syr2k(u, o, al, a, b, cc); }
        else if constexpr (H) { if (be) herk(u, o, al, a, bt, cc); else herk(u, o, al, a, cc); }
        else { if (be) syrk(u, o, al, a, bt, cc); else syrk(u, o, al, a, cc); }
        auto q = [&](Z x) { return H ? std::conj(x) : x; };
        checkM(R, "C", C, K[ph], st, [&](idx i, idx j) {
            auto A_ = [&](idx x, idx l) { return Z(opel(o, a, x, l)); };
            auto B_ = [&](idx x, idx l) { return Z(opel(o, b, x, l)); };
            Z s = 0; Z t = 0;
            for (idx l = 0; l < k; ++l)
                if (TWO) { s += A_(i, l) * q(B_(j, l)); t += B_(i, l) * q(A_(j, l)); } else s += A_(i, l) * q(A_(j, l));
            Z w = Z(al) * s + (TWO ? q(Z(al)) * t : Z(0));
            Z old = C.old(i, j); if (H && i == j) old = old.real();
            return be ? w + Z(bt) * old : w; });
        input(R, "A", A); input(R, "B", B);)
}
CASE(herk) { xxrk<true, false>(r, R); }
CASE(syrk) { xxrk<false, false>(r, R); }
CASE(her2k) { xxrk<true, true>(r, R); }
CASE(syr2k) { xxrk<false, true>(r, R); }
CASE(trmm)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); Side sd = rside(r); Uplo u = ru(r); Op o = rop(r); Diag dg = rdiag(r); int ph = phase(r);
        idx d = sd == Side::Left ? m : n;
        R.say("m", m, "n", n, c(sd), c(u), c(o), c(dg), "phase", ph);
        Mat<T, L1> A(r, d, d); Mat<T, L2> B(r, m, n); T al; T bt; scal2(r, ph, al, bt);
        auto st = [&](idx i, idx j) { return intri(u, i, j) && (i != j || dg == Diag::NonUnit); };
        if (ph == 1) A.fill([&](idx i, idx j) { return !st(i, j); }, rd<T>::nan());
        if (ph == 2) { if (r.p(.5)) poison(r, A, st); else poison(r, B, all); }
        A.save(); B.save();
        auto a = A.view(); auto b = B.view();
        trmm(sd, u, o, dg, al, a, b);
        checkM(R, "B", B, K[ph], all, [&](idx i, idx j) {
            Z s = 0;
            if (sd == Side::Left) { for (idx l = 0; l < m; ++l) if (trnz(u, o, i, l)) s += trop(A, u, dg, o, i, l) * Z(B.old(l, j)); }
            else for (idx l = 0; l < n; ++l) if (trnz(u, o, l, j)) s += Z(B.old(i, l)) * trop(A, u, dg, o, l, j);
            return Z(al) * s; });
        input(R, "A", A);)
}
CASE(trsm)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); Side sd = rside(r); Uplo u = ru(r); Op o = rop(r); Diag dg = rdiag(r); int ph = phase(r);
        idx d = sd == Side::Left ? m : n;
        R.say("m", m, "n", n, c(sd), c(u), c(o), c(dg), "phase", ph);
        Mat<T, L1> A(r, d, d); Mat<T, L2> B(r, m, n); T al; T bt; scal2(r, ph, al, bt);
        easy_diag(A, r); tame(A);
        auto st = [&](idx i, idx j) { return intri(u, i, j) && (i != j || dg == Diag::NonUnit); };
        if (ph == 1) A.fill([&](idx i, idx j) { return !st(i, j); }, rd<T>::nan());
        if (ph == 2) {
            int w = r.in(0, 2);
            if (w) { zeros(r, B); poison1(r, A, st); }
            if (w != 1) poison(r, B, all);
        }
        A.save(); B.save();
        auto a = A.view(); auto b = B.view();
        trsm(sd, u, o, dg, al, a, b);
        // multiply back; a poisoned right-hand side must stay visible
        if (ph == 2) {
            bool bad = false;
            for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) {
                bool must = isn(B.old(i, j));
                for (idx l = 0; l < d; ++l) { idx p = sd == Side::Left ? i : l, q = sd == Side::Left ? l : j; if (trnz(u, o, p, q) && isn(trop(A, u, dg, o, p, q))) must = true; }
                if (must && !isn(B.at(i, j))) bad = true;
            }
            if (bad) R.fail("shortcut", "a NaN in the matrix or right-hand side did not reach the solution entry whose equation contains it");
        }
        else for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) {
            Z s = 0; double sc = 0;
            if (sd == Side::Left) { for (idx l = 0; l < m; ++l) if (trnz(u, o, i, l)) { Z t = trop(A, u, dg, o, i, l) * Z(B.at(l, j)); s += t; sc += std::abs(t); } }
            else for (idx l = 0; l < n; ++l) if (trnz(u, o, l, j)) { Z t = Z(B.at(i, l)) * trop(A, u, dg, o, l, j); s += t; sc += std::abs(t); }
            Z w = Z(al) * Z(B.old(i, j));
            if (!near(s, w, sc)) R.fail(K[ph], str2("(op(A) X)", i, j, s, w));
        }
        if (!B.kept(all)) R.fail("frame", "B: element outside the matrix modified");
        input(R, "A", A);)
}
CASE(trmv)
{
    TYPES(
        idx n = dim(r); Uplo u = ru(r); Op o = r.p(.2) ? Op::Conj : rop(r); Diag dg = rdiag(r); int ph = phase(r);
        R.say("n", n, c(u), c(o), c(dg), "phase", ph, (int)L2);
        Mat<T, L1> A(r, n, n); Vec<T> x(r, n);
        auto st = [&](idx i, idx j) { return intri(u, i, j) && (i != j || dg == Diag::NonUnit); };
        if (ph == 1) A.fill([&](idx i, idx j) { return !st(i, j); }, rd<T>::nan());
        if (ph == 2) { if (r.p(.5)) poison(r, A, st); else poisonv(r, x); }
        A.save(); x.save();
        auto a = A.view(); auto xx = x.view();
        trmv(u, o, dg, a, xx);
        checkV(R, "x", x, K[ph], [&](idx i) { Z s = 0; for (idx l = 0; l < n; ++l) if (trnz(u, o, i, l)) s += trop(A, u, dg, o, i, l) * Z(x.old(l)); return s; });
        input(R, "A", A);)
}
CASE(trsv)
{
    TYPES(
        idx n = dim(r); Uplo u = ru(r); Op o = r.p(.2) ? Op::Conj : rop(r); Diag dg = rdiag(r); int ph = phase(r);
        R.say("n", n, c(u), c(o), c(dg), "phase", ph, (int)L2);
        Mat<T, L1> A(r, n, n); Vec<T> x(r, n); easy_diag(A, r); tame(A);
        auto st = [&](idx i, idx j) { return intri(u, i, j) && (i != j || dg == Diag::NonUnit); };
        if (ph == 1) A.fill([&](idx i, idx j) { return !st(i, j); }, rd<T>::nan());
        if (ph == 2) {
            int w = r.in(0, 2);
            if (w) { for (idx i = 0; i < n; ++i) if (r.p(.7)) x.at(i) = T(0); poison1(r, A, st); }
            if (w != 1) poisonv(r, x);
        }
        A.save(); x.save();
        auto a = A.view(); auto xx = x.view();
        trsv(u, o, dg, a, xx);
        for (idx i = 0; i < n; ++i) {
            if (ph == 2) {
                bool must = isn(x.old(i));
                for (idx l = 0; l < n; ++l) if (trnz(u, o, i, l) && isn(trop(A, u, dg, o, i, l))) must = true;
                if (must && !isn(x.at(i))) R.fail("shortcut", "a NaN in the matrix or right-hand side did not reach the solution entry whose equation contains it");
                continue;
            }
            Z s = 0; double sc = 0;
            for (idx l = 0; l < n; ++l) if (trnz(u, o, i, l)) { Z t = trop(A, u, dg, o, i, l) * Z(x.at(l)); s += t; sc += std::abs(t); }
            if (!near(s, Z(x.old(i)), sc)) R.fail(K[ph], str2("(op(A) x)", i, 0, s, x.old(i)));
        }
        if (!x.kept(true)) R.fail("frame", "x: element outside the vector modified");
        input(R, "A", A);)
}
CASE(gemv)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); Op o = r.p(.2) ? Op::Conj : rop(r); int ph = phase(r); bool be = r.p(.6);
        R.say("m", m, "n", n, c(o), "phase", ph, "beta", be, (int)L2);
        bool nt = o == Op::NoTrans || o == Op::Conj; idx k = nt ? n : m;
        Mat<T, L1> A(r, m, n); Vec<T> x(r, k); Vec<T> y(r, nt ? m : n); T al; T bt; scal2(r, ph, al, bt);
        if (ph == 1 && !be) for (idx i = 0; i < y.n; ++i) y.at(i) = rd<T>::nan();
        if (ph == 2) { int w = r.in(0, 2); if (w == 0) poison(r, A, all); else if (w == 1) poisonv(r, x); else if (be) poisonv(r, y); }
        A.save(); x.save(); y.save();
        auto a = A.view(); auto xx = x.view(); auto yy = y.view();
        if (be) gemv(o, al, a, xx, bt, yy); else gemv(o, al, a, xx, yy);
        checkV(R, "y", y, K[ph], [&](idx i) { Z s = 0; for (idx l = 0; l < k; ++l) s += Z(opel(o, a, i, l)) * Z(x.at(l)); return be ? Z(al) * s + Z(bt) * Z(y.old(i)) : Z(al) * s; });
        input(R, "A", A); inputv(R, "x", x);)
}
template <bool C_> void gerx(Rng& r, Rep& R)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); int ph = phase(r);
        R.say("m", m, "n", n, "phase", ph, (int)L2);
        Mat<T, L1> A(r, m, n); Vec<T> x(r, m); Vec<T> y(r, n); T al; T bt; scal2(r, ph, al, bt);
        if (ph == 2) { int w = r.in(0, 2); if (w == 0) poison(r, A, all); else if (w == 1) poisonv(r, x); else poisonv(r, y); }
        A.save(); x.save(); y.save();
        auto a = A.view(); auto xx = x.view(); auto yy = y.view();
        if constexpr (C_) ger(al, xx, yy, a); else geru(al, xx, yy, a);
        checkM(R, "A", A, K[ph], all, [&](idx i, idx j) { Z t = C_ ? std::conj(Z(y.at(j))) : Z(y.at(j)); return Z(A.old(i, j)) + Z(al) * (Z(x.at(i)) * t); });
        inputv(R, "x", x); inputv(R, "y", y);)
}
CASE(ger) { gerx<true>(r, R); }
CASE(geru) { gerx<false>(r, R); }
template <bool H> void xxmv(Rng& r, Rep& R)
{
    TYPES(
        idx n = dim(r); Uplo u = ru(r); int ph = phase(r); bool be = r.p(.6);
        R.say("n", n, c(u), "phase", ph, "beta", be, (int)L2);
        Mat<T, L1> A(r, n, n); Vec<T> x(r, n); Vec<T> y(r, n); T al; T bt; scal2(r, ph, al, bt);
        auto st = [&](idx i, idx j) { return intri(u, i, j); };
        if (ph == 1) A.fill([&](idx i, idx j) { return !st(i, j); }, rd<T>::nan());
        if (ph == 1 && !be) for (idx i = 0; i < n; ++i) y.at(i) = rd<T>::nan();
        if (ph == 2) { int w = r.in(0, 2); if (w == 0) poison(r, A, st); else if (w == 1) poisonv(r, x); else if (be) poisonv(r, y); }
        A.save(); x.save(); y.save();
        auto a = A.view(); auto xx = x.view(); auto yy = y.view();
        if constexpr (H) { if (be) hemv(u, al, a, xx, bt, yy); else hemv(u, al, a, xx, yy); }
        else { if (be) symv(u, al, a, xx, bt, yy); else symv(u, al, a, xx, yy); }
        checkV(R, "y", y, K[ph], [&](idx i) { Z s = 0; for (idx l = 0; l < n; ++l) s += S::herm(A, u, H, i, l) * Z(x.at(l)); return be ? Z(al) * s + Z(bt) * Z(y.old(i)) : Z(al) * s; });
        input(R, "A", A); inputv(R, "x", x);)
}
CASE(hemv) { xxmv<true>(r, R); }
CASE(symv) { xxmv<false>(r, R); }
template <bool H, bool TWO> void xxr(Rng& r, Rep& R)
{
    TYPES(
        typedef typename std::conditional<H && !TWO, D, T>::type SA;
        idx n = dim(r); Uplo u = ru(r); int ph = phase(r);
        R.say("n", n, c(u), "phase", ph, (int)L2);
        Mat<T, L1> A(r, n, n); Vec<T> x(r, n); Vec<T> y(r, n); SA al = ph == 2 ? rnz<SA>(r) : rs<SA>(r);
        auto st = [&](idx i, idx j) { return intri(u, i, j); };
        if (ph == 1) A.fill([&](idx i, idx j) { return !st(i, j); }, rd<T>::nan());
        if (ph == 2) { int w = r.in(0, 2); if (w == 0) poison(r, A, st); else if (w == 1) poisonv(r, x); else if (TWO) poisonv(r, y); }
        A.save(); x.save(); y.save();
        auto a = A.view(); auto xx = x.view(); auto yy = y.view();
        if constexpr (H && TWO) her2(u, al, xx, yy, a); else if constexpr (TWO) syr2(u, al, xx, yy, a); else if constexpr (H) her(u, al, xx, a); else syr(u, al, xx, a);
        auto q = [&](Z t) { return H ? std::conj(t) : t; };
        checkM(R, "A", A, K[ph], st, [&](idx i, idx j) {
            Z old = A.old(i, j); if (H && i == j) old = old.real();
            if (TWO) return old + Z(al) * Z(x.at(i)) * q(Z(y.at(j))) + q(Z(al)) * Z(y.at(i)) * q(Z(x.at(j)));
            return old + Z(al) * Z(x.at(i)) * q(Z(x.at(j))); });
        inputv(R, "x", x); inputv(R, "y", y);)
}
CASE(her) { xxr<true, false>(r, R); }
CASE(syr) { xxr<false, false>(r, R); }
CASE(her2) { xxr<true, true>(r, R); }
CASE(syr2) { xxr<false, true>(r, R); }
CASE(level1)
{
    TYPES(
        idx n = dim(r); int ph = phase(r); int f = r.in(0, 9);
        R.say("n", n, "op", f, "phase", ph, (int)L2, (int)L1);
        Vec<T> x(r, n); Vec<T> y(r, n); T al = ph == 2 ? rnz<T>(r) : rs<T>(r);
        if (ph == 2) { if (r.p(.5)) poisonv(r, x); else poisonv(r, y); }
        if (ph == 1 && f == 1) for (idx i = 0; i < n; ++i) y.at(i) = rd<T>::nan();
        x.save(); y.save();
        auto xx = x.view(); auto yy = y.view();
        auto X = [&](idx i) { return Z(x.old(i)); }; auto Y = [&](idx i) { return Z(y.old(i)); };
        auto res = [&](const char* nm, Z g, Z w) { if (!near(g, w)) R.fail(K[ph], std::string(nm) + " = " + str(g) + ", contract requires " + str(w)); inputv(R, "x", x); inputv(R, "y", y); };
        if (f == 0) { axpy(al, xx, yy); checkV(R, "y", y, K[ph], [&](idx i) { return Z(al) * X(i) + Y(i); }); inputv(R, "x", x); }
        if (f == 1) { copy(xx, yy); checkV(R, "y", y, K[ph], X); inputv(R, "x", x); }
        if (f == 2) { tlapack::swap(xx, yy); checkV(R, "y", y, K[ph], X); checkV(R, "x", x, K[ph], Y); }
        if (f == 3) { scal(al, xx); checkV(R, "x", x, K[ph], [&](idx i) { return Z(al) * X(i); }); inputv(R, "y", y); }
        if (f == 4) { Z s = 0; for (idx i = 0; i < n; ++i) s += std::conj(X(i)) * Y(i); res("dot", dot(xx, yy), s); }
        if (f == 5) { Z s = 0; for (idx i = 0; i < n; ++i) s += X(i) * Y(i); res("dotu", dotu(xx, yy), s); }
        if (f == 6) { D cs = r.in(-2, 2); T sn = rv<T>(r); if (ph == 2) { cs = 2; sn = rnz<T>(r); } rot(xx, yy, cs, sn);
            checkV(R, "x", x, K[ph], [&](idx i) { return cs * X(i) + Z(sn) * Y(i); }); checkV(R, "y", y, K[ph], [&](idx i) { return cs * Y(i) - std::conj(Z(sn)) * X(i); }); }
        if (f == 7) { D s = 0; for (idx i = 0; i < n; ++i) s += std::abs(X(i).real()) + std::abs(X(i).imag()); res("asum", asum(xx), s); }
        if (f == 8) { D s = 0; for (idx i = 0; i < n; ++i) s += std::norm(X(i)); res("nrm2", nrm2(xx), std::sqrt(s)); }
        if (f == 9 && n > 0) {
            auto ab = [](Z z) { return std::abs(z.real()) + std::abs(z.imag()); };
            idx g = iamax(xx); inputv(R, "x", x); idx w = n;
            for (idx i = 0; i < n && w == n; ++i) if (std::isnan(X(i).real()) || std::isnan(X(i).imag())) w = i;
            for (idx i = 0; i < n && w == n; ++i) if (isn(X(i))) w = i;
            if (w == n) { w = 0; for (idx i = 1; i < n; ++i) if (ab(X(i)) > ab(X(w))) w = i; }
            if (g != w) R.fail("value", "iamax = " + str(g) + ", contract requires " + str(w));
        })
}
int main(int argc, char** argv) { return drive(argc, argv); }
