// LU factorization and inverses: bounded evaluation of the contracts of
// specs/lu.py.  The exact cases use dyadic factors with strictly dominated
// multipliers, so pivots, factors and info are uniquely determined.
#define TLAPACK_NDEBUG
#include "blas.hpp"
#include "tlapack/base/utils.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/blas/trmm.hpp"
#include "tlapack/blas/trsm.hpp"
#include "tlapack/lapack/getrf.hpp"
#include "tlapack/lapack/getrf_level0.hpp"
#include "tlapack/lapack/getrf_recursive.hpp"
#include "tlapack/lapack/getri.hpp"
#include "tlapack/lapack/getri_uili.hpp"
#include "tlapack/lapack/getri_uxli.hpp"
#include "tlapack/lapack/potri.hpp"
#include "tlapack/lapack/potrf2.hpp"
#include "tlapack/lapack/trtri_recursive.hpp"
#include "tlapack/lapack/trsm_tri.hpp"
using namespace S;

inline D small(D*, Rng& r) { const D v[] = {0, .5, -.5, .25, -.25, .5}; return v[r.in(0, 5)]; }
inline Z small(Z*, Rng& r) { const Z v[] = {0, .5, -.5, Z(0, .5), Z(0, -.5), Z(.25, .25), Z(-.25, .25)}; return v[r.in(0, 6)]; }
inline D pw(D*, Rng& r) { const D v[] = {1, -1, 2, -2, 4, .5}; return v[r.in(0, 5)]; }
inline Z pw(Z*, Rng& r) { const Z v[] = {1, -1, 2, Z(0, 1), Z(0, -2), .5, 4}; return v[r.in(0, 6)]; }

template <class PV, class M> int runrf(int which, M& a, PV& p)
{
    GetrfOpts o;
    switch (which) {
        case 0: return getrf_level0(a, p);
        case 1: return getrf_recursive(a, p);
        case 2: o.variant = GetrfVariant::Level0; return getrf(a, p, o);
        case 3: o.variant = GetrfVariant::Recursive; return getrf(a, p, o);
        default: return getrf(a, p);
    }
}
static void lu(Rng& r, Rep& R, int which)
{
    TYPES(
        idx m = dim(r); idx n = dim(r); if (m > 26) m = 26; if (n > 26) n = 26; bool exact = r.p(.6); idx k = std::min(m, n);
        long bad = exact && k > 0 && r.p(.4) ? r.in(0, long(k) - 1) : -1;
        R.say("m", m, "n", n, "variant", which, exact ? "exact" : "random", "bad", bad);
        Mat<T, L1> A(r, m, n); std::vector<size_t> piv(k + 2, 777); std::vector<size_t> want(k);
        std::vector<T> L(m * k, T(0)); std::vector<T> U(k * n, T(0));
        if (exact) {
            for (idx j = 0; j < k; ++j) for (idx i = j; i < m; ++i) L[i + j * m] = i == j ? T(1) : small((T*)0, r);
            for (idx i = 0; i < k; ++i) for (idx j = i; j < n; ++j) U[i + j * k] = i == j ? (long(i) == bad ? T(0) : pw((T*)0, r)) : rv<T>(r);
            for (idx i = 0; i < m; ++i) for (idx j = 0; j < n; ++j) { T s(0); for (idx l = 0; l < k && l <= i && l <= j; ++l) s += L[i + l * m] * U[l + j * k]; A.at(i, j) = s; }
            // undo the row interchanges, last first
            for (idx j = 0; j < k; ++j) want[j] = r.p(.5) ? j : size_t(r.in(j, long(m) - 1));
            for (idx j = k; j-- > 0;) for (idx c = 0; c < n; ++c) std::swap(A.at(j, c), A.at(want[j], c));
        } else for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) A.at(i, j) = T(r.uni()) + rv<T>(r) * T(.25);
        A.save();
        auto a = A.view();
        LegacyVector<size_t, idx> pv(k, piv.data() + 1);
        int info = runrf(which, a, pv);
        if (piv[0] != 777 || piv[k + 1] != 777) R.fail("frame", "wrote outside the pivot vector");
        if (info != int(bad) + 1) { R.fail("info", "returned " + std::to_string(info) + ", first exactly zero pivot is number " + std::to_string(bad + 1)); return; }
        idx kk = bad >= 0 ? 0 : k;   // pivots of a failed factorization are not specified
        for (idx j = 0; j < kk; ++j) {
            if (pv[j] < j || pv[j] >= m) { R.fail("pivot", "piv[" + std::to_string(j) + "] = " + std::to_string(pv[j]) + " is not a row j <= p < m"); return; }
            if (exact && bad < 0 && pv[j] != want[j]) { R.fail("pivot", "piv[" + std::to_string(j) + "] is not the row of the largest entry"); return; }
        }
        if (bad >= 0) { if (!A.kept(all)) R.fail("frame", "wrote outside A"); return; }
        for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) {
            if (i > j && std::abs(Z(A.at(i, j))) > 1.4143) { R.fail("value", "multiplier larger than the pivot"); return; }
            if (exact) { Z w = i > j ? Z(L[i + j * m]) : Z(U[i + j * k]); if (!near(A.at(i, j), w)) { R.fail("value", str2("LU", i, j, A.at(i, j), w)); return; } }
        }
        // P A = L U
        std::vector<T> P(m * n); for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) P[i + j * m] = A.old(i, j);
        for (idx j = 0; j < k; ++j) for (idx c = 0; c < n; ++c) std::swap(P[j + c * m], P[pv[j] + c * m]);
        for (idx j = 0; j < n; ++j) for (idx i = 0; i < m; ++i) {
            Z s = 0; for (idx l = 0; l < k && l <= j && l <= i; ++l) s += (l == i ? Z(1) : Z(A.at(i, l))) * Z(A.at(l, j));
            if (!near(P[i + j * m], s, 10)) { R.fail("value", str2("PA", i, j, P[i + j * m], s)); return; }
        }
        if (!A.kept(all)) R.fail("frame", "wrote outside A");)
}
CASE(getrf_level0) { lu(r, R, 0); }
CASE(getrf_recursive) { lu(r, R, 1); }
CASE(getrf) { lu(r, R, r.in(2, 4)); }

template <class M> void dyadic(M& A, Rng& r)
{
    typedef typename std::decay<decltype(A.at(0, 0))>::type T;
    for (idx j = 0; j < A.n; ++j) for (idx i = 0; i < A.m; ++i) A.at(i, j) = i == j ? pw((T*)0, r) : A.n > 6 && r.p(.6) ? T(0) : small((T*)0, r);
}
CASE(trtri)
{
    TYPES(
        idx n = dim(r); if (n > 24) n = 24; Uplo u = ru(r); Diag dg = rdiag(r); bool ph = r.p(.5);
        long bad = dg == Diag::NonUnit && n > 0 && r.p(.3) ? r.in(0, long(n) - 1) : -1;
        R.say("n", n, c(u), c(dg), "poison", ph, "bad", bad);
        Mat<T, L1> A(r, n, n); dyadic(A, r);
        if (bad >= 0) { A.at(bad, bad) = 0; for (idx i = bad + 1; i < n; ++i) if (r.p(.3)) A.at(i, i) = 0; }
        auto un = [&](idx i, idx j) { return !intri(u, i, j) || (i == j && dg == Diag::Unit); };
        if (ph) A.fill(un, rd<T>::nan());
        A.save(); auto a = A.view();
        int info = trtri_recursive(u, dg, a);
        if (info != int(bad) + 1) { R.fail("info", "returned " + std::to_string(info) + ", first zero diagonal entry is number " + std::to_string(bad + 1)); return; }
        if (!A.kept([&](idx i, idx j) { return !un(i, j); })) R.fail("frame", "wrote outside the triangle");
        if (bad >= 0) return;
        auto T0 = [&](idx i, idx j) { return i == j ? (dg == Diag::Unit ? Z(1) : Z(A.old(i, i))) : intri(u, i, j) ? Z(A.old(i, j)) : Z(0); };
        for (idx i = 0; i < n; ++i) for (idx j = 0; j < n; ++j) if (intri(u, i, j)) {
            Z s = 0; for (idx l = std::min(i, j); l <= std::max(i, j); ++l) s += T0(i, l) * tri(A, u, dg, l, j);
            if (!near(s, Z(i == j), 100)) { R.fail(ph ? "access" : "value", str2("T*inv(T)", i, j, s, Z(i == j))); return; }
        })
}
// A holds L\U; the inverse X satisfies (L U) X = I, with pivots (P^T L U) X = I
static void inv(Rng& r, Rep& R, int which)
{
    TYPES(
        idx n = dim(r); if (n > 20) n = 20; if (n == 0 && which == 1 && false) n = 1;
        long bad = n > 0 && r.p(.3) ? r.in(0, long(n) - 1) : -1;
        R.say("n", n, "variant", which, "bad", bad);
        Mat<T, L1> A(r, n, n); dyadic(A, r);
        if (bad >= 0) A.at(bad, bad) = 0;
        std::vector<size_t> piv(n); for (idx j = 0; j < n; ++j) piv[j] = which >= 3 && r.p(.6) ? size_t(r.in(j, long(n) - 1)) : j;
        std::vector<size_t> piv0 = piv;
        A.save(); auto a = A.view(); int info = 0;
        if (which == 0) info = getri_uili(a);
        else if (which == 1) info = getri_uxli(a);
        else if (which == 2) { std::vector<T> wk(n ? n - 1 : 0); auto w = LegacyMatrix<T, idx>(n ? n - 1 : 0, 1, wk.data(), std::max<idx>(1, n ? n - 1 : 1)); info = getri_uxli_work(a, w); }
        else { GetriOpts o; o.variant = which == 3 ? GetriVariant::UILI : GetriVariant::UXLI; info = which == 5 ? getri(a, piv) : getri(a, piv, o); }
        if (info != int(bad) + 1) { R.fail("info", "returned " + std::to_string(info) + ", zero pivot is number " + std::to_string(bad + 1)); return; }
        if (piv != piv0) R.fail("frame", "pivot vector modified");
        if (!A.kept(all)) R.fail("frame", "wrote outside A");
        if (bad >= 0) return;
        std::vector<Z> F(n * n);
        for (idx i = 0; i < n; ++i) for (idx j = 0; j < n; ++j) { Z s = 0; for (idx l = 0; l <= std::min(i, j); ++l) s += (l == i ? Z(1) : Z(A.old(i, l))) * Z(A.old(l, j)); F[i + j * n] = s; }
        for (idx j = n; j-- > 0;) for (idx cc = 0; cc < n; ++cc) std::swap(F[j + cc * n], F[piv[j] + cc * n]);
        double sc = 1; for (idx i = 0; i < n; ++i) for (idx j = 0; j < n; ++j) sc = std::max(sc, std::abs(Z(A.at(i, j))));
        for (idx i = 0; i < n; ++i) for (idx j = 0; j < n; ++j) {
            Z s = 0; for (idx l = 0; l < n; ++l) s += F[i + l * n] * Z(A.at(l, j));
            if (!near(s, Z(i == j), 100 * sc)) { R.fail("value", str2("A*inv(A)", i, j, s, Z(i == j))); return; }
        })
}
CASE(getri_uili) { inv(r, R, 0); }
CASE(getri_uxli) { inv(r, R, r.in(1, 2)); }
CASE(getri) { inv(r, R, r.in(3, 5)); }
CASE(potri)
{
    TYPES(
        idx n = dim(r); if (n > 16) n = 16; Uplo u = ru(r); bool ph = r.p(.5); bool low = u == Uplo::Lower;
        R.say("n", n, c(u), "poison", ph);
        std::vector<T> L(n * n, T(0)); std::vector<Z> F(n * n);
        for (idx j = 0; j < n; ++j) for (idx i = j; i < n; ++i) L[i + j * n] = i == j ? T(double(1 << r.in(0, 2))) : small((T*)0, r);
        for (idx i = 0; i < n; ++i) for (idx j = 0; j < n; ++j) { Z s = 0; for (idx l = 0; l <= std::min(i, j); ++l) s += Z(L[i + l * n]) * std::conj(Z(L[j + l * n])); F[i + j * n] = s; }
        Mat<T, L1> A(r, n, n);
        for (idx i = 0; i < n; ++i) for (idx j = 0; j < n; ++j) { Z z = F[i + j * n]; A.at(i, j) = intri(u, i, j) ? *(T*)&z : ph ? rd<T>::nan() : rv<T>(r); }
        A.save(); auto a = A.view(); potri(u, a);
        if (!A.kept([&](idx i, idx j) { return intri(u, i, j); })) R.fail("frame", "wrote outside the triangle");
        double sc = 1; for (idx i = 0; i < n; ++i) for (idx j = 0; j < n; ++j) if (intri(u, i, j)) sc = std::max(sc, std::abs(Z(A.at(i, j))));
        for (idx i = 0; i < n; ++i) for (idx j = 0; j < n; ++j) {
            Z s = 0; for (idx l = 0; l < n; ++l) s += F[i + l * n] * (intri(u, l, j) ? Z(A.at(l, j)) : std::conj(Z(A.at(j, l))));
            if (!near(s, Z(i == j), 1000 * sc)) { R.fail(ph ? "access" : "value", str2("A*inv(A)", i, j, s, Z(i == j))); return; }
        })
}
CASE(trsm_tri)
{
    TYPES(
        idx n = dim(r); if (n > 24) n = 24; Side sd = rside(r); Uplo ub = ru(r); Op o = rop(r); Diag dg = rdiag(r); bool ph = r.p(.4);
        Uplo ua = o == Op::NoTrans ? ub : ub == Uplo::Upper ? Uplo::Lower : Uplo::Upper;
        R.say("n", n, c(sd), c(ub), c(o), c(dg), "poison", ph);
        Mat<T, L1> A(r, n, n); Mat<T, L2> B(r, n, n); dyadic(A, r);
        if (ph) { A.fill([&](idx i, idx j) { return !intri(ua, i, j) || (i == j && dg == Diag::Unit); }, rd<T>::nan()); B.fill([&](idx i, idx j) { return !intri(ub, i, j); }, rd<T>::nan()); }
        T al = rs<T>(r);
        A.save(); B.save(); auto a = A.view(); auto b = B.view();
        trsm_tri(sd, ub, o, dg, al, a, b);
        auto X = [&](idx i, idx j) { return intri(ub, i, j) ? Z(B.at(i, j)) : Z(0); };
        double sc = 1; for (idx i = 0; i < n; ++i) for (idx j = 0; j < n; ++j) sc = std::max(sc, std::abs(X(i, j)));
        if (!B.kept([&](idx i, idx j) { return intri(ub, i, j); })) R.fail("frame", "wrote outside the triangle");
        input(R, "A", A);
        for (idx i = 0; i < n; ++i) for (idx j = 0; j < n; ++j) if (intri(ub, i, j)) {
            Z s = 0; for (idx l = std::min(i, j); l <= std::max(i, j); ++l) s += sd == Side::Left ? trop(A, ua, dg, o, i, l) * X(l, j) : X(i, l) * trop(A, ua, dg, o, l, j);
            if (!near(s, Z(al) * Z(B.old(i, j)), 1000 * sc)) { R.fail(ph ? "access" : "value", str2("op(A) X", i, j, s, Z(al) * Z(B.old(i, j)))); return; }
        })
}
int main(int argc, char** argv) { return drive(argc, argv); }
