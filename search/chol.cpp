// Cholesky family: bounded evaluation of the contracts of specs/chol.py.
// Factors are Gaussian-integer with power-of-two diagonal, so the factorization
// is exact in floating point and the computed factor is the unique one.
#define TLAPACK_NDEBUG
#include "blas.hpp"
#include "tlapack/base/utils.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/blas/herk.hpp"
#include "tlapack/blas/trsm.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/potf2.hpp"
#include "tlapack/lapack/potrf2.hpp"
#include "tlapack/lapack/potrf_blocked.hpp"
#include "tlapack/lapack/potrf_blocked_right_looking.hpp"
#include "tlapack/lapack/potrf.hpp"
#include "tlapack/lapack/potrs.hpp"
#include "tlapack/lapack/pbtrf_with_workspace.hpp"
#include "tlapack/lapack/pttrf.hpp"
using namespace S;

template <class T> std::vector<T> lowfac(Rng& r, idx n, idx kd)
{
    std::vector<T> L(n * n, T(0));
    const double dv[] = {1, 1, 2, 4};
    for (idx j = 0; j < n; ++j)
        for (idx i = j; i < n && i <= j + kd; ++i) L[i + j * n] = i == j ? T(dv[r.in(0, 3)]) : (n > 14 ? (r.p(.5) ? T(0) : rv<T>(r)) : rv<T>(r));
    return L;
}

// which: 0 potf2, 1 potrf2, 2 potrf_blocked, 3 potrf_rl, 4..7 potrf variants
static void chol(Rng& r, Rep& R, int which)
{
    TYPES(
        idx n = dim(r); Uplo u = ru(r); bool ph = r.p(.5); size_t nb = r.p(.3) ? 1 : r.in(1, 9); if (r.p(.1)) nb = 32;
        bool low = u == Uplo::Lower;
        auto L = lowfac<T>(r, n, n);
        long bad = n > 0 && r.p(.4) ? r.in(0, long(n) - 1) : -1; if (bad >= 0 && r.p(.3)) bad = long(n) - 1;
        Mat<T, L1> A(r, n, n);
        for (idx i = 0; i < n; ++i) for (idx j = 0; j <= i; ++j) {
            T s(0); for (idx l = 0; l <= j; ++l) s += L[i + l * n] * cj(L[j + l * n]);
            A.at(low ? i : j, low ? j : i) = low ? s : cj(s);
            if (i != j) A.at(low ? j : i, low ? i : j) = ph ? rd<T>::nan() : rv<T>(r);
        }
        double cut = 0;
        if (bad >= 0) { double p = std::real(Z(L[bad + bad * n])); cut = r.p(.4) ? p * p : p * p + r.in(1, 5); A.at(bad, bad) -= T(cut); }
        if (cplx && r.p(.3)) for (idx i = 0; i < n; ++i) A.at(i, i) += rd<T>::get(r) * T(0);
        R.say("n", n, c(u), "nb", nb, "poison", ph, "bad", bad, "cut", cut, "variant", which);
        A.save();
        auto a = A.view();
        BlockedCholeskyOpts bo; bo.nb = nb; PotrfOpts po; po.nb = nb;
        int info = 0;
        switch (which) {
            case 0: info = potf2(u, a); break;
            case 1: info = potrf2(u, a); break;
            case 2: info = potrf_blocked(u, a, bo); break;
            case 3: info = potrf_rl(u, a, bo); break;
            default: po.variant = which == 4 ? PotrfVariant::Blocked : which == 5 ? PotrfVariant::Recursive : which == 6 ? PotrfVariant::Level2 : PotrfVariant::RightLooking; info = potrf(u, a, po);
        }
        if (info != (bad >= 0 ? int(bad) + 1 : 0)) { R.fail("info", "returned " + std::to_string(info) + ", leading minor that is not positive definite has order " + std::to_string(bad + 1)); return; }
        idx k = bad >= 0 ? idx(bad) : n;
        for (idx j = 0; j < k; ++j) for (idx i = j; i < k; ++i) {
            T g = low ? A.at(i, j) : cj(A.at(j, i));
            if (!near(g, Z(L[i + j * n]))) { R.fail(ph ? "access" : "value", str2("factor", i, j, g, Z(L[i + j * n]))); return; }
        }
        if (!A.kept([&](idx i, idx j) { return intri(u, i, j); })) R.fail("frame", "an element outside the documented triangle was modified");)
}
CASE(potf2) { chol(r, R, 0); }
CASE(potrf2) { chol(r, R, 1); }
CASE(potrf_blocked) { chol(r, R, 2); }
CASE(potrf_rl) { chol(r, R, 3); }
CASE(potrf) { chol(r, R, r.in(4, 7)); }
CASE(potrs)
{
    TYPES(
        idx n = dim(r); idx m = dim(r, false); Uplo u = ru(r); bool ph = r.p(.5);
        if (n > 12) n = 12;
        bool low = u == Uplo::Lower;
        auto L = lowfac<T>(r, n, n);
        Mat<T, L1> A(r, n, n); Mat<T, L2> B(r, n, m); Mat<T, L2> X(r, n, m);
        for (idx i = 0; i < n; ++i) for (idx j = 0; j <= i; ++j) { A.at(low ? i : j, low ? j : i) = low ? L[i + j * n] : cj(L[i + j * n]); if (i != j) A.at(low ? j : i, low ? i : j) = ph ? rd<T>::nan() : rv<T>(r); }
        R.say("n", n, "m", m, c(u), "poison", ph);
        for (idx i = 0; i < n; ++i) for (idx j = 0; j < m; ++j) {
            T s(0); for (idx k = 0; k < n; ++k) for (idx l = k; l < n; ++l) if (k <= i) s += L[i + k * n] * cj(L[l + k * n]) * X.at(l, j);
            B.at(i, j) = s; }
        A.save(); B.save(); auto a = A.view(); auto b = B.view();
        int info = potrs(u, a, b);
        if (info != 0) R.fail("info", "potrs returned " + std::to_string(info));
        checkM(R, "X", B, ph ? "access" : "value", all, [&](idx i, idx j) { return Z(X.at(i, j)); }, 1e3);
        input(R, "A", A);)
}
// banded matrix in full storage: only the band is referenced
CASE(pbtrf)
{
    TYPES(
        idx n = std::max<idx>(1, dim(r)); idx kd = r.in(0, std::min<long>(long(n) - 1, 9)); Uplo u = ru(r); size_t nb = kd == 0 ? 1 : r.in(1, kd); bool ph = r.p(.6);
        if (kd == 0) nb = 1;
        bool low = u == Uplo::Lower;
        if (kd < nb) return;
        auto L = lowfac<T>(r, n, kd);
        Mat<T, L1> A(r, n, n);
        auto band = [&](idx i, idx j) { return intri(u, i, j) && (i > j ? i - j : j - i) <= kd; };
        for (idx i = 0; i < n; ++i) for (idx j = 0; j <= i; ++j) {
            T s(0); for (idx l = 0; l <= j; ++l) s += L[i + l * n] * cj(L[j + l * n]);
            A.at(low ? i : j, low ? j : i) = low ? s : cj(s);
        }
        A.fill([&](idx i, idx j) { return !band(i, j); }, ph ? rd<T>::nan() : T(0));
        R.say("n", n, "kd", kd, c(u), "nb", nb, "poison", ph);
        A.save(); auto a = A.view();
        BlockedBandedCholeskyOpts o; o.nb = nb;
        pbtrf_with_workspace(u, a, kd, o);
        checkM(R, "factor", A, ph ? "access" : "value", band, [&](idx i, idx j) { return low ? Z(L[i + j * n]) : std::conj(Z(L[j + i * n])); });)
}
CASE(pttrf)
{
    idx n = std::max<idx>(1, dim(r)); bool cx = r.p(.5);
    long bad = r.p(.4) ? r.in(0, long(n) - 1) : -1;
    R.say("n", n, cx ? "c" : "d", "bad", bad);
    std::vector<D> dg(n); std::vector<Z> e(n);
    const double dv[] = {1, 2, 4, .5};
    for (idx i = 0; i < n; ++i) { dg[i] = dv[r.in(0, 3)]; e[i] = rv<Z>(r); if (!cx) e[i] = e[i].real(); }
    auto run = [&](auto& Dv, auto& E) {
        typedef typename std::decay<decltype(E.at(0))>::type T;
        for (idx i = 0; i < n; ++i) { Dv.at(i) = dg[i] + (i ? std::norm(e[i - 1]) * dg[i - 1] : 0); }
        for (idx i = 0; i + 1 < n; ++i) { Z w = e[i] * dg[i]; E.at(i) = *(T*)&w; }
        if (bad >= 0) Dv.at(bad) -= r.p(.5) ? dg[bad] : dg[bad] + r.in(1, 3);
        Dv.save(); E.save();
        auto d = Dv.view(); auto ev = E.view();
        int info = pttrf(d, ev);
        if (info != (bad >= 0 ? int(bad) + 1 : 0)) { R.fail("info", "pttrf returned " + std::to_string(info) + " instead of " + std::to_string(bad + 1)); return; }
        idx k = bad >= 0 ? idx(bad) : n;
        for (idx i = 0; i < k; ++i) {
            if (!near(Dv.at(i), Z(dg[i]))) { R.fail("value", str2("D", i, 0, Dv.at(i), Z(dg[i]))); return; }
            if (i + 1 < n && !near(E.at(i), e[i])) { R.fail("value", str2("E", i, 0, E.at(i), e[i])); return; }
        }
        if (!Dv.kept(true) || !E.kept(true)) R.fail("frame", "an element outside D, E was modified");
    };
    if (cx) { Vec<Z> Dv(r, n); Vec<Z> E(r, n - 1); run(Dv, E); } else { Vec<D> Dv(r, n); Vec<D> E(r, n - 1); run(Dv, E); }
}
int main(int argc, char** argv) { return drive(argc, argv); }
