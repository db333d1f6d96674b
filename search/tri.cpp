// in-place triangular products, out-of-place Hermitian / triangular products,
// copies: bounded evaluation of the contracts of specs/lap1.py
#include "blas.hpp"
#include "tlapack/base/utils.hpp"
#include "tlapack/blas/herk.hpp"
#include "tlapack/blas/trmm.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/blas/hemm.hpp"
#include "tlapack/lapack/lauum_recursive.hpp"
#include "tlapack/lapack/mult_llh.hpp"
#include "tlapack/lapack/mult_uhu.hpp"
#include "tlapack/lapack/lu_mult.hpp"
#include "tlapack/lapack/ul_mult.hpp"
#include "tlapack/lapack/hemm2.hpp"
#include "tlapack/lapack/mult_hehe.hpp"
#include "tlapack/lapack/gemmtr.hpp"
#include "tlapack/lapack/trmm_out.hpp"
#include "tlapack/lapack/trmm_blocked_mixed.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/conjugate.hpp"
#include "tlapack/lapack/transpose.hpp"
using namespace S;

static const char* KV(bool poison) { return poison ? "access" : "value"; }

// kind: 0 lauum, 1 mult_llh / mult_uhu
template <int kind> void herprod(Rng& r, Rep& R)
{
    TYPES(
        idx n = dim(r); Uplo u = ru(r); bool ph = r.p(.4); size_t nx = r.p(.4) ? 1 : r.in(1, 9);
        R.say("n", n, c(u), "nx", nx, "poison", ph);
        Mat<T, L1> A(r, n, n);
        auto st = [&](idx i, idx j) { return intri(u, i, j); };
        if (ph) A.fill([&](idx i, idx j) { return !st(i, j); }, rd<T>::nan());
        A.save();
        auto a = A.view();
        if (kind == 0) lauum_recursive(u, a);
        else if (u == Uplo::Lower) { mult_llh_Opts o; o.nx = nx; mult_llh(a, o); }
        else { mult_uhu_Opts o; o.nx = nx; mult_uhu(a, o); }
        auto t = [&](idx i, idx j) { return st(i, j) ? Z(A.old(i, j)) : Z(0); };
        // lauum: L^H L / U U^H, mult: L L^H / U^H U
        bool left = (kind == 0) == (u == Uplo::Lower);
        checkM(R, "A", A, KV(ph), st, [&](idx i, idx j) {
            Z s = 0; for (idx l = 0; l < n; ++l) s += left ? std::conj(t(l, i)) * t(l, j) : t(i, l) * std::conj(t(j, l));
            return s; });)
}
CASE(lauum_recursive) { herprod<0>(r, R); }
CASE(mult_llh) { herprod<1>(r, R); }
CASE(lu_mult)
{
    TYPES(
        idx n = dim(r); size_t nx = r.p(.4) ? 1 : r.in(1, 9); bool ul = r.p(.5);
        R.say("n", n, "nx", nx, ul ? "ul_mult" : "lu_mult");
        Mat<T, L1> A(r, n, n); A.save(); auto a = A.view();
        if (ul) ul_mult(a); else { LuMultOpts o; o.nx = nx; lu_mult(a, o); }
        auto L = [&](idx i, idx j) { return i == j ? Z(1) : i > j ? Z(A.old(i, j)) : Z(0); };
        auto U = [&](idx i, idx j) { return i <= j ? Z(A.old(i, j)) : Z(0); };
        checkM(R, "A", A, "value", all, [&](idx i, idx j) {
            Z s = 0; for (idx l = 0; l < n; ++l) s += ul ? U(i, l) * L(l, j) : L(i, l) * U(l, j);
            return s; });)
}
CASE(hemm2)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); Side sd = rside(r); Uplo u = ru(r); Op o = rop(r); bool ph = r.p(.4);
        idx d = (sd == Side::Left) == (o == Op::NoTrans) ? m : n;
        R.say("m", m, "n", n, c(sd), c(u), c(o), "poison", ph);
        Mat<T, L1> A(r, d, d); Mat<T, L2> B(r, m, n); Mat<T, L1> C(r, o == Op::NoTrans ? m : n, o == Op::NoTrans ? n : m);
        T al = rs<T>(r); T be = rs<T>(r);
        if (ph) A.fill([&](idx i, idx j) { return !intri(u, i, j); }, rd<T>::nan());
        A.save(); B.save(); C.save();
        auto a = A.view(); auto b = B.view(); auto cc = C.view();
        hemm2(sd, u, o, al, a, b, be, cc);
        checkM(R, "C", C, KV(ph), all, [&](idx i, idx j) {
            Z s = 0;
            for (idx l = 0; l < d; ++l) s += sd == Side::Left ? herm(A, u, true, i, l) * Z(opel(o, b, l, j)) : Z(opel(o, b, i, l)) * herm(A, u, true, l, j);
            return Z(al) * s + Z(be) * Z(C.old(i, j)); });
        input(R, "A", A); input(R, "B", B);)
}
CASE(mult_hehe)
{
    TYPES(
        idx n = dim(r); Uplo u = ru(r); bool ph = r.p(.4);
        R.say("n", n, c(u), "poison", ph);
        Mat<T, L1> A(r, n, n); Mat<T, L2> B(r, n, n); Mat<T, L1> C(r, n, n);
        T al = rs<T>(r); T be = rs<T>(r);
        auto ns = [&](idx i, idx j) { return !intri(u, i, j); };
        if (ph) { A.fill(ns, rd<T>::nan()); B.fill(ns, rd<T>::nan()); }
        A.save(); B.save(); C.save();
        auto a = A.view(); auto b = B.view(); auto cc = C.view();
        std::cout.setstate(std::ios::failbit);
        mult_hehe(u, al, a, b, be, cc);
        std::cout.clear();
        checkM(R, "C", C, KV(ph), all, [&](idx i, idx j) {
            Z s = 0; for (idx l = 0; l < n; ++l) s += herm(A, u, true, i, l) * herm(B, u, true, l, j);
            return Z(al) * s + Z(be) * Z(C.old(i, j)); });
        input(R, "A", A); input(R, "B", B);)
}
CASE(gemmtr)
{
    TYPES(
        idx n = dim(r); idx k = dim(r); Uplo u = ru(r); Op ta = rop(r); Op tb = rop(r);
        R.say("n", n, "k", k, c(u), c(ta), c(tb));
        Mat<T, L1> A(r, ta == Op::NoTrans ? n : k, ta == Op::NoTrans ? k : n);
        Mat<T, L2> B(r, tb == Op::NoTrans ? k : n, tb == Op::NoTrans ? n : k);
        Mat<T, L1> C(r, n, n); T al = rs<T>(r); T be = rs<T>(r);
        A.save(); B.save(); C.save();
        auto a = A.view(); auto b = B.view(); auto cc = C.view();
        gemmtr(u, ta, tb, al, a, b, be, cc);
        checkM(R, "C", C, "value", [&](idx i, idx j) { return intri(u, i, j); }, [&](idx i, idx j) {
            Z s = 0; for (idx l = 0; l < k; ++l) s += Z(opel(ta, a, i, l)) * Z(opel(tb, b, l, j));
            return Z(al) * s + Z(be) * Z(C.old(i, j)); });
        input(R, "A", A); input(R, "B", B);)
}
CASE(trmm_out)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); Side sd = rside(r); Uplo u = ru(r); Op o = rop(r); Diag dg = rdiag(r); bool ph = r.p(.4);
        idx d = sd == Side::Left ? m : n;
        R.say("m", m, "n", n, c(sd), c(u), c(dg), c(o), "poison", ph);
        Mat<T, L1> A(r, d, d); Mat<T, L2> B(r, o == Op::NoTrans ? m : n, o == Op::NoTrans ? n : m); Mat<T, L1> C(r, m, n);
        T al = rs<T>(r); T be = rs<T>(r);
        if (ph) A.fill([&](idx i, idx j) { return i == j ? dg == Diag::Unit : !intri(u, i, j); }, rd<T>::nan());
        A.save(); B.save(); C.save();
        auto a = A.view(); auto b = B.view(); auto cc = C.view();
        trmm_out(sd, u, Op::NoTrans, dg, o, al, a, b, be, cc);
        checkM(R, "C", C, KV(ph), all, [&](idx i, idx j) {
            Z s = 0;
            for (idx l = 0; l < d; ++l) s += sd == Side::Left ? tri(A, u, dg, i, l) * Z(opel(o, b, l, j)) : Z(opel(o, b, i, l)) * tri(A, u, dg, l, j);
            return Z(al) * s + Z(be) * Z(C.old(i, j)); });
        input(R, "A", A); input(R, "B", B);)
}
CASE(trmm_blocked_mixed)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); Diag dg = rdiag(r); size_t nb = r.in(1, 8);
        R.say("m", m, "n", n, c(dg), "nb", nb);
        Mat<T, L1> A(r, m, m); Mat<T, L1> B(r, m, n); T al = rs<T>(r);
        A.fill([&](idx i, idx j) { return i == j ? dg == Diag::Unit : i > j; }, rd<T>::nan());
        A.save(); B.save();
        auto a = A.view(); auto b = B.view();
        std::vector<T> w_; auto w = Create<LegacyMatrix<T, idx, L1>>()(w_, std::max<idx>(1, std::min<idx>(nb, m)), std::max<idx>(1, n));
        TrmmBlockedOpts o; o.nb = nb;
        trmm_blocked_mixed(Side::Left, Uplo::Upper, Op::NoTrans, dg, al, a, b, w, o);
        checkM(R, "B", B, "value", all, [&](idx i, idx j) {
            Z s = 0; for (idx l = 0; l < m; ++l) s += tri(A, Uplo::Upper, dg, i, l) * Z(B.old(l, j));
            return Z(al) * s; });
        input(R, "A", A);)
}
CASE(lacpy)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); int w = r.in(0, 2); Uplo u = w == 0 ? Uplo::Upper : w == 1 ? Uplo::Lower : Uplo::General;
        R.say("m", m, "n", n, c(u));
        Mat<T, L1> A(r, m, n); Mat<T, L2> B(r, m, n);
        auto in = [&](idx i, idx j) { return w == 2 || intri(u, i, j); };
        A.fill([&](idx i, idx j) { return !in(i, j); }, rd<T>::nan());
        A.save(); B.save(); auto a = A.view(); auto b = B.view();
        lacpy(u, a, b);
        checkM(R, "B", B, "value", in, [&](idx i, idx j) { return Z(A.at(i, j)); });
        input(R, "A", A);)
}
CASE(laset)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); int w = r.in(0, 2); Uplo u = w == 0 ? Uplo::Upper : w == 1 ? Uplo::Lower : Uplo::General;
        R.say("m", m, "n", n, c(u));
        Mat<T, L1> A(r, m, n); T al = rs<T>(r); T be = rs<T>(r);
        A.save(); auto a = A.view();
        laset(u, al, be, a);
        checkM(R, "A", A, "value", [&](idx i, idx j) { return w == 2 || intri(u, i, j); }, [&](idx i, idx j) { return Z(i == j ? be : al); });)
}
CASE(conjugate)
{
    TYPES(
        idx n = dim(r); R.say("n", n);
        Vec<T> x(r, n); x.save(); auto v = x.view();
        conjugate(v);
        checkV(R, "x", x, "value", [&](idx i) { return std::conj(Z(x.old(i))); });)
}
CASE(transpose)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); bool h = r.p(.5); size_t nx = r.in(2, 6);
        R.say("m", m, "n", n, h ? "conj" : "trans", "nx", nx);
        Mat<T, L1> A(r, m, n); Mat<T, L2> B(r, n, m);
        A.save(); B.save(); auto a = A.view(); auto b = B.view();
        TransposeOpts o; o.nx = nx;
        if (h) conjtranspose(a, b, o); else tlapack::transpose(a, b, o);
        checkM(R, "B", B, "value", all, [&](idx i, idx j) { return h ? std::conj(Z(A.at(j, i))) : Z(A.at(j, i)); });
        input(R, "A", A);)
}
int main(int argc, char** argv) { return drive(argc, argv); }
